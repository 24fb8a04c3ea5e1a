From ce1f3ef46fb9431231a4943b8cbc279bcff3cb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:04 +0000
Subject: [PATCH 01/36] fix: hyphenate words whose analysis has no STRUCTURE
 attribute

Analyses of the plain vfst backend do not have to contain STRUCTURE;
the hyphenator followed a null pointer for such words.
---
 .../src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp b/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
index 9a4211c..d73db68 100644
--- a/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
+++ b/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
@@ -290,6 +290,9 @@ void AnalyzerToFinnishHyphenatorAdapter::interpretAnalysis(const Analysis * anal
 	const wchar_t * structure = analysis->getValue(Analysis::Key::STRUCTURE);
 	const wchar_t * structurePtr = structure;
 	memset(buffer, ' ', len);
+	if (!structure) {
+		return;
+	}
 	if (*structurePtr == L'=') {
 		structurePtr++;
 	}
-- 
2.43.0


From ddbb6517343e3b32608be24b95ee3de327adfb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:04 +0000
Subject: [PATCH 02/36] fix: compare grammar cache only with the given length
 of text

The cached paragraph was compared with the text up to its terminating
null, so the given text length was ignored on a cache hit and no errors
were reported when the text continued after the given length.
---
 libvoikko/src/grammar/GrammarChecker.cpp | 4 ++--
 libvoikko/src/grammar/GrammarChecker.hpp | 2 +-
 libvoikko/src/grammar/interface.cpp      | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libvoikko/src/grammar/GrammarChecker.cpp b/libvoikko/src/grammar/GrammarChecker.cpp
index 2895669..09be5e7 100644
--- a/libvoikko/src/grammar/GrammarChecker.cpp
+++ b/libvoikko/src/grammar/GrammarChecker.cpp
@@ -39,11 +39,11 @@ GrammarChecker::~GrammarChecker() {
 	cache.clear();
 }
 
-const VoikkoGrammarError * GrammarChecker::errorFromCache(const wchar_t * text, size_t startpos, int skiperrors) {
+const VoikkoGrammarError * GrammarChecker::errorFromCache(const wchar_t * text, size_t textlen, size_t startpos, int skiperrors) {
 	if (!cache.paragraph) {
 		return 0;
 	}
-	if (wcscmp(cache.paragraph, text) != 0) {
+	if (wcslen(cache.paragraph) != textlen || wcsncmp(cache.paragraph, text, textlen) != 0) {
 		return 0;
 	}
 	CacheEntry * e = cache.firstError;
diff --git a/libvoikko/src/grammar/GrammarChecker.hpp b/libvoikko/src/grammar/GrammarChecker.hpp
index 27247a6..5a79cbe 100644
--- a/libvoikko/src/grammar/GrammarChecker.hpp
+++ b/libvoikko/src/grammar/GrammarChecker.hpp
@@ -44,7 +44,7 @@ class GrammarChecker {
 		 * Returns a pointer to a cached grammar error or null, if there are no cached
 		 * results for given paragraph.
 		 */
-		const VoikkoGrammarError * errorFromCache(const wchar_t * text, size_t startpos, int skiperrors);
+		const VoikkoGrammarError * errorFromCache(const wchar_t * text, size_t textlen, size_t startpos, int skiperrors);
 		
 		/**
 		 * Performs grammar checking on the entire paragraph and stores the results
diff --git a/libvoikko/src/grammar/interface.cpp b/libvoikko/src/grammar/interface.cpp
index 3250a77..3f5bea1 100644
--- a/libvoikko/src/grammar/interface.cpp
+++ b/libvoikko/src/grammar/interface.cpp
@@ -43,10 +43,10 @@ VOIKKOEXPORT VoikkoGrammarError * voikkoNextGrammarErrorUcs4(VoikkoHandle * opti
 		return 0;
 	}
 	const VoikkoGrammarError * c_error =
-	    options->grammarChecker->errorFromCache(text_ucs4, startpos, skiperrors);
+	    options->grammarChecker->errorFromCache(text_ucs4, wtextlen, startpos, skiperrors);
 	if (!c_error) {
 		options->grammarChecker->paragraphToCache(text_ucs4, wtextlen);
-		c_error = options->grammarChecker->errorFromCache(text_ucs4, startpos, skiperrors);
+		c_error = options->grammarChecker->errorFromCache(text_ucs4, wtextlen, startpos, skiperrors);
 	}
 	
 	if (!c_error || c_error->getErrorCode() == 0) {
-- 
2.43.0


From e62a339c403dde53422e3f13bd976b44e3c856a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:57 +0000
Subject: [PATCH 03/36] fix: forget cached spelling results when hyphen options
 change

Results cached while ACCEPT_MISSING_HYPHENS or ACCEPT_EXTRA_HYPHENS was
set were still used after the option had been cleared.
---
 libvoikko/src/setup/setup.cpp               | 23 +++++++++++++++++----
 libvoikko/src/spellchecker/SpellerCache.cpp |  6 +++++-
 libvoikko/src/spellchecker/SpellerCache.hpp |  5 +++++
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index b7c6ff1..b91abbb 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -63,6 +63,21 @@ static int setGrammarOption(VoikkoHandle * handle, int value, int * option) {
 		return 1;
 }
 
+/**
+ * Set an option that affects the results of the speller and thus makes cached results invalid.
+ */
+static int setSpellerOption(VoikkoHandle * handle, int value, int * option) {
+		const int newValue = (value ? 1 : 0);
+		if (newValue != *option) {
+			*option = newValue;
+			if (handle->spellerCache) {
+				handle->spellerCache->clear();
+			}
+			handle->grammarChecker->cache.clear();
+		}
+		return 1;
+}
+
 VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int value) {
 	switch (option) {
 		case VOIKKO_OPT_IGNORE_DOT:
@@ -109,11 +124,11 @@ VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int
 			options->ignore_nonwords = (value ? 1 : 0);
 			return 1;
 		case VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS:
-			options->accept_extra_hyphens = (value ? 1 : 0);
-			return 1;
+			return setSpellerOption(options, value,
+			       &(options->accept_extra_hyphens));
 		case VOIKKO_OPT_ACCEPT_MISSING_HYPHENS:
-			options->accept_missing_hyphens = (value ? 1 : 0);
-			return 1;
+			return setSpellerOption(options, value,
+			       &(options->accept_missing_hyphens));
 		case VOIKKO_OPT_ACCEPT_TITLES_IN_GC:
 			return setGrammarOption(options, value,
 			       &(options->accept_titles_in_gc));
diff --git a/libvoikko/src/spellchecker/SpellerCache.cpp b/libvoikko/src/spellchecker/SpellerCache.cpp
index e21119c..a6b31be 100644
--- a/libvoikko/src/spellchecker/SpellerCache.cpp
+++ b/libvoikko/src/spellchecker/SpellerCache.cpp
@@ -67,8 +67,12 @@ static int voikko_hash(const wchar_t * word, size_t len, int order) {
 
 SpellerCache::SpellerCache(int sizeParam) : sizeParam(sizeParam) {
 	words = new wchar_t[6544 << sizeParam];
-	memset(words, 0, 6544 * sizeof(wchar_t) << sizeParam);
 	spellResults = new char[1008 * sizeof(char) << sizeParam];
+	clear();
+}
+
+void SpellerCache::clear() {
+	memset(words, 0, 6544 * sizeof(wchar_t) << sizeParam);
 	memset(spellResults, 0, 1008 * sizeof(char) << sizeParam);
 }
 
diff --git a/libvoikko/src/spellchecker/SpellerCache.hpp b/libvoikko/src/spellchecker/SpellerCache.hpp
index 550c431..9c09455 100644
--- a/libvoikko/src/spellchecker/SpellerCache.hpp
+++ b/libvoikko/src/spellchecker/SpellerCache.hpp
@@ -44,6 +44,11 @@ class SpellerCache {
 		
 		int getSizeParam() const;
 		
+		/**
+		 * Remove all words from cache.
+		 */
+		void clear();
+		
 		/**
 		 * Check whether given word is in cache.
 		 */
-- 
2.43.0


From 7d9bdf6fe31fb61b61cc5f9967b7289ae4ac6e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:48 +0000
Subject: [PATCH 04/36] fix: give the original word length to
 voikko_cset_reformat

Normalisation may change the length of the word, so using the length of
the normalised word read past the end of the original.
---
 libvoikko/src/spellchecker/suggestions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/spellchecker/suggestions.cpp b/libvoikko/src/spellchecker/suggestions.cpp
index 5e93282..b76d612 100644
--- a/libvoikko/src/spellchecker/suggestions.cpp
+++ b/libvoikko/src/spellchecker/suggestions.cpp
@@ -146,7 +146,7 @@ VOIKKOEXPORT wchar_t ** voikkoSuggestUcs4(VoikkoHandle * options, const wchar_t
 	/* Undo character set normalisation */
 	for (size_t i = 0; suggestions[i] != 0;) {
 		suglen = wcslen(suggestions[i]);
-		voikko_cset_reformat(word, wlen, &(suggestions[i]), suglen);
+		voikko_cset_reformat(word, wcslen(word), &(suggestions[i]), suglen);
 		i++;
 	}
 
-- 
2.43.0


From d98f8de1009ab97de0ebc3ec2eb759e215760031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:01 +0000
Subject: [PATCH 05/36] fix: reset flag diacritics when a new transducer search
 is prepared

A search that was abandoned before it had backtracked to its beginning
left its flag values behind for the next word.
---
 libvoikko/src/fst/UnweightedTransducer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libvoikko/src/fst/UnweightedTransducer.cpp b/libvoikko/src/fst/UnweightedTransducer.cpp
index ce9f0cd..23babdd 100644
--- a/libvoikko/src/fst/UnweightedTransducer.cpp
+++ b/libvoikko/src/fst/UnweightedTransducer.cpp
@@ -201,6 +201,9 @@ namespace libvoikko { namespace fst {
 		configuration->stateIndexStack[0] = 0;
 		configuration->currentTransitionStack[0] = 0;
 		configuration->inputLength = 0;
+		if (flagDiacriticFeatureCount) {
+			memset(configuration->currentFlagValues, 0, flagDiacriticFeatureCount * sizeof(uint16_t));
+		}
 		bool allKnown = true;
 		while ((size_t)configuration->inputLength < inputLen) {
 			std::map<wchar_t,uint16_t>::const_iterator it = stringToSymbol.find(input[configuration->inputLength]);
-- 
2.43.0


From 880ef2d87a0d1c7dd9c0d455893026ecab7ec1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:36 +0000
Subject: [PATCH 06/36] fix: reject truncated and otherwise broken transducer
 files when loading them

Failing fstat and mmap, files that end inside the header, the symbol table or
a state, and transitions that point outside the file are now reported as
DictionaryException and the mapping is released.
---
 libvoikko/src/fst/Transducer.cpp           | 30 +++++++-
 libvoikko/src/fst/Transducer.hpp           |  9 +++
 libvoikko/src/fst/UnweightedTransducer.cpp | 80 ++++++++++++++++++----
 libvoikko/src/fst/UnweightedTransducer.hpp |  2 +
 libvoikko/src/fst/WeightedTransducer.cpp   | 80 ++++++++++++++++++----
 libvoikko/src/fst/WeightedTransducer.hpp   |  2 +
 6 files changed, 177 insertions(+), 26 deletions(-)

diff --git a/libvoikko/src/fst/Transducer.cpp b/libvoikko/src/fst/Transducer.cpp
index 1953abf..de2067e 100644
--- a/libvoikko/src/fst/Transducer.cpp
+++ b/libvoikko/src/fst/Transducer.cpp
@@ -130,12 +130,15 @@ namespace libvoikko { namespace fst {
 			}
 			
 			struct stat st;
-			fstat(fd, &st);
+			if (fstat(fd, &st) != 0 || st.st_size < (off_t) MIN_FILE_LENGTH) {
+				close(fd);
+				return 0;
+			}
 			fileLength = st.st_size;
 			
 			void * map = mmap(0, fileLength, PROT_READ, MAP_SHARED, fd, 0);
 			close(fd);
-			return map;
+			return map == MAP_FAILED ? 0 : map;
 		#endif
 		#ifdef WIN32
 			HANDLE fileHandle = CreateFile(filePath, GENERIC_READ, FILE_SHARE_READ,
@@ -182,6 +185,29 @@ namespace libvoikko { namespace fst {
 		return filePtr[8] == 0x01;
 	}
 	
+	size_t Transducer::getTransitionTableOffset(const char * filePtr, size_t fileLength, uint16_t symbolCount, size_t cellSize) {
+		if (symbolCount == 0) {
+			throw setup::DictionaryException("Transducer has no symbols");
+		}
+		size_t offset = MIN_FILE_LENGTH;
+		for (uint16_t i = 0; i < symbolCount; i++) {
+			const void * symbolEnd = memchr(filePtr + offset, 0, fileLength - offset);
+			if (!symbolEnd) {
+				throw setup::DictionaryException("Transducer file ends before the end of symbol table");
+			}
+			offset = static_cast<const char *>(symbolEnd) - filePtr + 1;
+		}
+		size_t partial = offset % cellSize;
+		if (partial > 0) {
+			// skip padding - transition table starts at next cell boundary
+			offset += (cellSize - partial);
+		}
+		if (offset + cellSize > fileLength) {
+			throw setup::DictionaryException("Transducer file ends before the transition table");
+		}
+		return offset;
+	}
+	
 	uint16_t Transducer::getFlagDiacriticFeatureCount() const {
 		return flagDiacriticFeatureCount;
 	}
diff --git a/libvoikko/src/fst/Transducer.hpp b/libvoikko/src/fst/Transducer.hpp
index 1eccc48..ae5d01c 100644
--- a/libvoikko/src/fst/Transducer.hpp
+++ b/libvoikko/src/fst/Transducer.hpp
@@ -56,6 +56,9 @@ namespace libvoikko { namespace fst {
 	const uint16_t FlagValueAny = 1;
 	const uint32_t MAX_LOOP_COUNT = 100000;
 	
+	/** Size of the header and the symbol count in a transducer file */
+	const size_t MIN_FILE_LENGTH = 18;
+	
 	class Transducer {
 		protected:
 			size_t fileLength;
@@ -67,6 +70,12 @@ namespace libvoikko { namespace fst {
 			void vfstMunmap(void * map, size_t fileLength);
 			bool checkNeedForByteSwapping(const char * filePtr);
 			bool isWeightedTransducerFile(const char * filePtr);
+			
+			/**
+			 * Returns the offset of the transition table from the start of the file. Throws an
+			 * exception if the file ends before the first transition.
+			 */
+			size_t getTransitionTableOffset(const char * filePtr, size_t fileLength, uint16_t symbolCount, size_t cellSize);
 		public:
 			uint16_t flagDiacriticFeatureCount;
 			uint16_t firstNormalChar;
diff --git a/libvoikko/src/fst/UnweightedTransducer.cpp b/libvoikko/src/fst/UnweightedTransducer.cpp
index 23babdd..7c29f0e 100644
--- a/libvoikko/src/fst/UnweightedTransducer.cpp
+++ b/libvoikko/src/fst/UnweightedTransducer.cpp
@@ -70,12 +70,14 @@ namespace libvoikko { namespace fst {
 	
 	void UnweightedTransducer::byteSwapTransducer(void *& mapPtr, size_t fileLength) {
 		DEBUG("Byte-swapping the transducer");
-		char * newMap = new char[fileLength];
 		// skip header
 		char * oldMapPtr = static_cast<char *>(mapPtr) + 16;
-		char * newMapPtr = newMap + 16;
-		
 		uint16_t symbolCount = swap(*reinterpret_cast<uint16_t *>(oldMapPtr));
+		// check that the symbol table and the padding fit in the file
+		getTransitionTableOffset(static_cast<char *>(mapPtr), fileLength, symbolCount, sizeof(Transition));
+		
+		char * newMap = new char[fileLength];
+		char * newMapPtr = newMap + 16;
 		memcpy(newMapPtr, &symbolCount, sizeof(uint16_t));
 		oldMapPtr += sizeof(uint16_t);
 		newMapPtr += sizeof(uint16_t);
@@ -98,7 +100,7 @@ namespace libvoikko { namespace fst {
 		}
 		
 		bool nextIsOverflow = false;
-		while (newMap + fileLength > newMapPtr) {
+		while (newMap + fileLength >= newMapPtr + sizeof(Transition)) {
 			if (nextIsOverflow) {
 				OverflowCell oc = *reinterpret_cast<OverflowCell *>(oldMapPtr);
 				oc.moreTransitions = swap(oc.moreTransitions);
@@ -127,12 +129,27 @@ namespace libvoikko { namespace fst {
 		if (!map) {
 			throw setup::DictionaryException("Unweighted transducer file could not be read");
 		}
-		byteSwapped = checkNeedForByteSwapping(static_cast<char *>(map));
+		byteSwapped = false;
+		try {
+			load();
+		}
+		catch (...) {
+			for (wchar_t * symbol : symbolToString) {
+				delete[] symbol;
+			}
+			terminate();
+			throw;
+		}
+	}
+	
+	void UnweightedTransducer::load() {
+		bool needsByteSwapping = checkNeedForByteSwapping(static_cast<char *>(map));
 		if (isWeightedTransducerFile(static_cast<char *>(map))) {
 			throw setup::DictionaryException("Expected unweighted but got weighted transducer");
 		}
-		if (byteSwapped) {
+		if (needsByteSwapping) {
 			byteSwapTransducer(map, fileLength);
+			byteSwapped = true;
 		}
 		char * filePtr = static_cast<char *>(map);
 		
@@ -140,6 +157,7 @@ namespace libvoikko { namespace fst {
 		uint16_t symbolCount;
 		memcpy(&symbolCount, filePtr, sizeof(uint16_t));
 		filePtr += sizeof(uint16_t);
+		size_t transitionOffset = getTransitionTableOffset(static_cast<char *>(map), fileLength, symbolCount, sizeof(Transition));
 		
 		firstNormalChar = 0;
 		firstMultiChar = 0;
@@ -150,6 +168,9 @@ namespace libvoikko { namespace fst {
 		DEBUG("Reading " << symbolCount << " symbols to symbol table");
 		for (uint16_t i = 0; i < symbolCount; i++) {
 			wchar_t * ucs4Symbol = utils::StringUtils::ucs4FromUtf8(filePtr);
+			if (!ucs4Symbol) {
+				throw setup::DictionaryException("Transducer has a symbol that is not valid UTF-8");
+			}
 			symbolToString.push_back(ucs4Symbol);
 			if (i == 0) {
 				symbolToDiacritic.push_back(OpFeatureValue()); // epsilon
@@ -178,14 +199,49 @@ namespace libvoikko { namespace fst {
 		}
 		unknownSymbolOrdinal = symbolCount;
 		flagDiacriticFeatureCount = features.size();
-		{
-			size_t partial = (filePtr - static_cast<char *>(map)) % sizeof(Transition);
-			if (partial > 0) {
-				// skip padding - transition table starts at next 8 byte boundary
-				filePtr += (sizeof(Transition) - partial);
+		transitionStart = reinterpret_cast<Transition *>(static_cast<char *>(map) + transitionOffset);
+		checkTransitions(symbolCount, (fileLength - transitionOffset) / sizeof(Transition));
+	}
+	
+	/**
+	 * Check that the states that can be reached from the start state are entirely within the file
+	 * and refer only to existing symbols.
+	 */
+	void UnweightedTransducer::checkTransitions(uint16_t symbolCount, size_t cellCount) const {
+		vector<bool> found(cellCount, false);
+		vector<uint32_t> unchecked;
+		found[0] = true;
+		unchecked.push_back(0);
+		while (!unchecked.empty()) {
+			size_t state = unchecked.back();
+			unchecked.pop_back();
+			const Transition * head = transitionStart + state;
+			size_t maxTc = head->transInfo.moreTransitions;
+			bool overflow = (maxTc == 255);
+			if (overflow && state + 1 < cellCount) {
+				maxTc = reinterpret_cast<const OverflowCell *>(head + 1)->moreTransitions + size_t(1);
+			}
+			if (maxTc >= cellCount - state || (overflow && maxTc < 255)) {
+				throw setup::DictionaryException("Transducer has a state that is not entirely in the file");
+			}
+			for (size_t tc = 0; tc <= maxTc; tc++) {
+				if (overflow && tc == 1) {
+					continue;
+				}
+				const Transition * t = head + tc;
+				if (t->symIn == 0xFFFF) {
+					continue;
+				}
+				uint32_t target = t->transInfo.targetState;
+				if (t->symOut >= symbolCount || target >= cellCount) {
+					throw setup::DictionaryException("Transducer has an invalid transition");
+				}
+				if (!found[target]) {
+					found[target] = true;
+					unchecked.push_back(target);
+				}
 			}
 		}
-		transitionStart = reinterpret_cast<Transition *>(filePtr);
 	}
 	
 	UnweightedTransducer::~UnweightedTransducer() {
diff --git a/libvoikko/src/fst/UnweightedTransducer.hpp b/libvoikko/src/fst/UnweightedTransducer.hpp
index 7435359..44d8d60 100644
--- a/libvoikko/src/fst/UnweightedTransducer.hpp
+++ b/libvoikko/src/fst/UnweightedTransducer.hpp
@@ -46,6 +46,8 @@ namespace libvoikko { namespace fst {
 			uint16_t firstMultiChar;
 			uint16_t unknownSymbolOrdinal;
 			void byteSwapTransducer(void *& mapPtr, size_t fileLength);
+			void load();
+			void checkTransitions(uint16_t symbolCount, size_t cellCount) const;
 		public:
 			explicit UnweightedTransducer(const char * filePath);
 			~UnweightedTransducer();
diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index 25e5b6c..f4bff94 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -75,12 +75,14 @@ namespace libvoikko { namespace fst {
 	
 	void WeightedTransducer::byteSwapTransducer(void *& mapPtr, size_t fileLength) {
 		DEBUG("Byte-swapping the transducer");
-		char * newMap = new char[fileLength];
 		// skip header
 		char * oldMapPtr = static_cast<char *>(mapPtr) + 16;
-		char * newMapPtr = newMap + 16;
-		
 		uint16_t symbolCount = swap(*reinterpret_cast<uint16_t *>(oldMapPtr));
+		// check that the symbol table and the padding fit in the file
+		getTransitionTableOffset(static_cast<char *>(mapPtr), fileLength, symbolCount, sizeof(WeightedTransition));
+		
+		char * newMap = new char[fileLength];
+		char * newMapPtr = newMap + 16;
 		memcpy(newMapPtr, &symbolCount, sizeof(uint16_t));
 		oldMapPtr += sizeof(uint16_t);
 		newMapPtr += sizeof(uint16_t);
@@ -103,7 +105,7 @@ namespace libvoikko { namespace fst {
 		}
 		
 		bool nextIsOverflow = false;
-		while (newMap + fileLength > newMapPtr) {
+		while (newMap + fileLength >= newMapPtr + sizeof(WeightedTransition)) {
 			if (nextIsOverflow) {
 				WeightedOverflowCell oc = *reinterpret_cast<WeightedOverflowCell *>(oldMapPtr);
 				oc.moreTransitions = swap(oc.moreTransitions);
@@ -133,12 +135,27 @@ namespace libvoikko { namespace fst {
 			DEBUG(filePath);
 			throw setup::DictionaryException("Weighted transducer file could not be read");
 		}
-		byteSwapped = checkNeedForByteSwapping(static_cast<char *>(map));
+		byteSwapped = false;
+		try {
+			load();
+		}
+		catch (...) {
+			for (wchar_t * symbol : symbolToString) {
+				delete[] symbol;
+			}
+			terminate();
+			throw;
+		}
+	}
+	
+	void WeightedTransducer::load() {
+		bool needsByteSwapping = checkNeedForByteSwapping(static_cast<char *>(map));
 		if (!isWeightedTransducerFile(static_cast<char *>(map))) {
 			throw setup::DictionaryException("Expected weighted but got unweighted transducer");
 		}
-		if (byteSwapped) {
+		if (needsByteSwapping) {
 			byteSwapTransducer(map, fileLength);
+			byteSwapped = true;
 		}
 		char * filePtr = static_cast<char *>(map);
 		
@@ -146,6 +163,7 @@ namespace libvoikko { namespace fst {
 		uint16_t symbolCount;
 		memcpy(&symbolCount, filePtr, sizeof(uint16_t));
 		filePtr += sizeof(uint16_t);
+		size_t transitionOffset = getTransitionTableOffset(static_cast<char *>(map), fileLength, symbolCount, sizeof(WeightedTransition));
 		
 		firstNormalChar = 0;
 		firstMultiChar = 0;
@@ -156,6 +174,9 @@ namespace libvoikko { namespace fst {
 		DEBUG("Reading " << symbolCount << " symbols to symbol table");
 		for (uint16_t i = 0; i < symbolCount; i++) {
 			wchar_t * ucs4Symbol = utils::StringUtils::ucs4FromUtf8(filePtr);
+			if (!ucs4Symbol) {
+				throw setup::DictionaryException("Transducer has a symbol that is not valid UTF-8");
+			}
 			symbolToString.push_back(ucs4Symbol);
 			if (i == 0) {
 				symbolToDiacritic.push_back(OpFeatureValue()); // epsilon
@@ -183,14 +204,49 @@ namespace libvoikko { namespace fst {
 			}
 		}
 		flagDiacriticFeatureCount = features.size();
-		{
-			size_t partial = (filePtr - static_cast<char *>(map)) % sizeof(WeightedTransition);
-			if (partial > 0) {
-				// skip padding - transition table starts at next 8 byte boundary
-				filePtr += (sizeof(WeightedTransition) - partial);
+		transitionStart = reinterpret_cast<WeightedTransition *>(static_cast<char *>(map) + transitionOffset);
+		checkTransitions(symbolCount, (fileLength - transitionOffset) / sizeof(WeightedTransition));
+	}
+	
+	/**
+	 * Check that the states that can be reached from the start state are entirely within the file
+	 * and refer only to existing symbols.
+	 */
+	void WeightedTransducer::checkTransitions(uint16_t symbolCount, size_t cellCount) const {
+		vector<bool> found(cellCount, false);
+		vector<uint32_t> unchecked;
+		found[0] = true;
+		unchecked.push_back(0);
+		while (!unchecked.empty()) {
+			size_t state = unchecked.back();
+			unchecked.pop_back();
+			const WeightedTransition * head = transitionStart + state;
+			size_t maxTc = head->moreTransitions;
+			bool overflow = (maxTc == 255);
+			if (overflow && state + 1 < cellCount) {
+				maxTc = reinterpret_cast<const WeightedOverflowCell *>(head + 1)->moreTransitions + size_t(1);
+			}
+			if (maxTc >= cellCount - state || (overflow && maxTc < 255)) {
+				throw setup::DictionaryException("Transducer has a state that is not entirely in the file");
+			}
+			for (size_t tc = 0; tc <= maxTc; tc++) {
+				if (overflow && tc == 1) {
+					continue;
+				}
+				const WeightedTransition * t = head + tc;
+				if (t->symIn == 0xFFFFFFFF) {
+					continue;
+				}
+				uint32_t target = t->targetState;
+				if (t->symOut >= symbolCount || target >= cellCount) {
+					throw setup::DictionaryException("Transducer has an invalid transition");
+				}
+				if (!found[target]) {
+					found[target] = true;
+					unchecked.push_back(target);
+				}
 			}
 		}
-		transitionStart = reinterpret_cast<WeightedTransition *>(filePtr);
 	}
 	
 	WeightedTransducer::~WeightedTransducer() {
diff --git a/libvoikko/src/fst/WeightedTransducer.hpp b/libvoikko/src/fst/WeightedTransducer.hpp
index ded5e29..b0e2131 100644
--- a/libvoikko/src/fst/WeightedTransducer.hpp
+++ b/libvoikko/src/fst/WeightedTransducer.hpp
@@ -44,6 +44,8 @@ namespace libvoikko { namespace fst {
 			std::vector<size_t> symbolStringLength;
 			uint16_t firstMultiChar;
 			void byteSwapTransducer(void *& mapPtr, size_t fileLength);
+			void load();
+			void checkTransitions(uint16_t symbolCount, size_t cellCount) const;
 		public:
 			explicit WeightedTransducer(const char * filePath);
 			~WeightedTransducer();
-- 
2.43.0


From 96c0af872c39968cd70c4c9c43d2b4d200444399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:18 +0000
Subject: [PATCH 07/36] fix: release suggestion generator and grammar checks
 when initialisation fails

---
 libvoikko/src/grammar/FinnishRuleEngine.cpp | 10 +++++++++-
 libvoikko/src/setup/setup.cpp               |  7 +++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/libvoikko/src/grammar/FinnishRuleEngine.cpp b/libvoikko/src/grammar/FinnishRuleEngine.cpp
index c2df81c..d2e1612 100644
--- a/libvoikko/src/grammar/FinnishRuleEngine.cpp
+++ b/libvoikko/src/grammar/FinnishRuleEngine.cpp
@@ -54,7 +54,15 @@ FinnishRuleEngine::FinnishRuleEngine(VoikkoHandle * voikkoOptions) :
 #ifdef HAVE_VFST
 	if (voikkoOptions->dictionary.getGrammarBackend().getBackend() == "finnishVfst") {
 		std::string autocorrFile = voikkoOptions->dictionary.getGrammarBackend().getPath() + "/autocorr.vfst";
-		sentenceChecks.push_back(new check::VfstAutocorrectCheck(autocorrFile));
+		try {
+			sentenceChecks.push_back(new check::VfstAutocorrectCheck(autocorrFile));
+		}
+		catch (...) {
+			for (check::SentenceCheck * sentenceCheck : sentenceChecks) {
+				delete sentenceCheck;
+			}
+			throw;
+		}
 	}
 #endif
 }
diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index b91abbb..39cb46d 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -225,8 +225,11 @@ VOIKKOEXPORT VoikkoHandle * voikkoInit(const char ** error, const char * langcod
 			delete options->hyphenator;
 			options->hyphenator = 0;
 		}
-		delete options->suggestionGenerator;
-		options->suggestionGenerator = 0;
+		if (options->suggestionGenerator) {
+			options->suggestionGenerator->terminate();
+			delete options->suggestionGenerator;
+			options->suggestionGenerator = 0;
+		}
 		if (options->speller) {
 			options->speller->terminate();
 			delete options->speller;
-- 
2.43.0


From bd65ec63394ca9ceccca9207c9925ecd50055dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:18 +0000
Subject: [PATCH 08/36] fix: do not leak or reload the suggestion generator
 when OCR option is set

---
 libvoikko/src/setup/setup.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index 39cb46d..a2bab8e 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -115,9 +115,15 @@ VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int
 			spellchecker::suggestion::SuggestionType type = (value ? 
 				spellchecker::suggestion::SUGGESTION_TYPE_OCR :
 				spellchecker::suggestion::SUGGESTION_TYPE_STD);
-			delete options->suggestionGenerator;
-			options->suggestionGenerator =
+			if (options->dictionary.getSuggestionBackend().getBackend() != "FinnishSuggestionStrategy(currentAnalyzer)") {
+				// Other generators are the same for all types, do not load them again from the disk
+				return 1;
+			}
+			spellchecker::suggestion::SuggestionGenerator * newGenerator =
 				spellchecker::suggestion::SuggestionGeneratorFactory::getSuggestionGenerator(options, type);
+			options->suggestionGenerator->terminate();
+			delete options->suggestionGenerator;
+			options->suggestionGenerator = newGenerator;
 			return 1;
 			}
 		case VOIKKO_OPT_IGNORE_NONWORDS:
-- 
2.43.0


From ad9ae8440779f32eadbe9e8ac104b891ef2cba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:18 +0000
Subject: [PATCH 09/36] fix: ignore dictionaries with index file that can be
 read only partially

---
 libvoikko/src/setup/V5DictionaryLoader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/src/setup/V5DictionaryLoader.cpp b/libvoikko/src/setup/V5DictionaryLoader.cpp
index dbe774d..d635b73 100644
--- a/libvoikko/src/setup/V5DictionaryLoader.cpp
+++ b/libvoikko/src/setup/V5DictionaryLoader.cpp
@@ -112,6 +112,10 @@ Dictionary V5DictionaryLoader::dictionaryFromPath(const string & path) {
 			grammarBackend = BackendProperties(line.substr(17), true);
 		}
 	}
+	if (file.bad()) {
+		// Reading failed before the end of file
+		return Dictionary();
+	}
 	file.close();
 	return Dictionary(morBackend, gramMorBackend, grammarBackend, spellBackend, suggestionBackend,
 	                  hyphenatorBackend, language, description);
-- 
2.43.0


From 2130ae538c91b7cb36fcb6d5d474d7a1d946927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:29 +0000
Subject: [PATCH 10/36] fix: keep caches consistent when memory runs out

---
 libvoikko/src/grammar/GrammarChecker.cpp | 11 +++++++++++
 libvoikko/src/grammar/GrammarChecker.hpp |  2 ++
 libvoikko/src/setup/setup.cpp            |  8 ++++----
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/libvoikko/src/grammar/GrammarChecker.cpp b/libvoikko/src/grammar/GrammarChecker.cpp
index 09be5e7..1efa71d 100644
--- a/libvoikko/src/grammar/GrammarChecker.cpp
+++ b/libvoikko/src/grammar/GrammarChecker.cpp
@@ -67,6 +67,17 @@ void GrammarChecker::paragraphToCache(const wchar_t * text, size_t textlen) {
 	}
 	memcpy(cache.paragraph, text, textlen * sizeof(wchar_t));
 	cache.paragraph[textlen] = L'\0';
+	try {
+		checkParagraph(text, textlen);
+	}
+	catch (...) {
+		// do not keep an incomplete list of errors in the cache
+		cache.clear();
+		throw;
+	}
+}
+
+void GrammarChecker::checkParagraph(const wchar_t * text, size_t textlen) {
 	Paragraph * para = paragraphAnalyser->analyseParagraph(text, textlen);
 	if (!para) {
 		return;
diff --git a/libvoikko/src/grammar/GrammarChecker.hpp b/libvoikko/src/grammar/GrammarChecker.hpp
index 5a79cbe..4e9ea36 100644
--- a/libvoikko/src/grammar/GrammarChecker.hpp
+++ b/libvoikko/src/grammar/GrammarChecker.hpp
@@ -59,6 +59,8 @@ class GrammarChecker {
 		morphology::Analyzer * analyser;
 		grammar::Analysis * paragraphAnalyser;
 	
+	private:
+		void checkParagraph(const wchar_t * text, size_t textlen);
 };
 
 } }
diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index a2bab8e..be1eb89 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -164,12 +164,12 @@ VOIKKOEXPORT int voikkoSetIntegerOption(VoikkoHandle * options, int option, int
 		case VOIKKO_SPELLER_CACHE_SIZE:
 			if (options->spellerCache) {
 				if (options->spellerCache->getSizeParam() != value) {
-					delete options->spellerCache;
+					spellchecker::SpellerCache * newCache = 0;
 					if (value >= 0) {
-						options->spellerCache = new spellchecker::SpellerCache(value);
-					} else {
-						options->spellerCache = 0;
+						newCache = new spellchecker::SpellerCache(value);
 					}
+					delete options->spellerCache;
+					options->spellerCache = newCache;
 				}
 			} else {
 				if (value >= 0) {
-- 
2.43.0


From d8a2217a6ef1e8dd52370018ab720769faa4285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:31 +0000
Subject: [PATCH 11/36] fix: report lack of memory instead of using a null
 string

---
 libvoikko/src/utils/StringUtils.cpp | 40 ++++++++++-------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/libvoikko/src/utils/StringUtils.cpp b/libvoikko/src/utils/StringUtils.cpp
index 5b2db07..e69424f 100644
--- a/libvoikko/src/utils/StringUtils.cpp
+++ b/libvoikko/src/utils/StringUtils.cpp
@@ -40,48 +40,42 @@ wchar_t * StringUtils::ucs4FromUtf8(const char * const original) {
 }
 
 static wchar_t * doUcs4FromUtf8(const char * const original, size_t chars) {
-	wchar_t * ucs4Buffer = 0;
-	try {
-		ucs4Buffer = new wchar_t[chars + 1];
-		const char * origPtr = original;
-		for (size_t i = 0; i < chars; i++) {
-			// Using unchecked function because validity was already
-			// checked with utf8::distance.
-			ucs4Buffer[i] = utf8::unchecked::next(origPtr);
-		}
-		ucs4Buffer[chars] = L'\0';
-		return ucs4Buffer;
-	} catch (...) {
-		// not enough memory
-		delete[] ucs4Buffer;
-		return 0;
+	wchar_t * ucs4Buffer = new wchar_t[chars + 1];
+	const char * origPtr = original;
+	for (size_t i = 0; i < chars; i++) {
+		// Using unchecked function because validity was already
+		// checked with utf8::distance.
+		ucs4Buffer[i] = utf8::unchecked::next(origPtr);
 	}
+	ucs4Buffer[chars] = L'\0';
+	return ucs4Buffer;
 }
 
 wchar_t * StringUtils::ucs4FromUtf8(const char * const original, size_t byteCount) {
+	size_t chars;
 	try {
-		size_t chars = utf8::distance(original, original + byteCount);
-		return doUcs4FromUtf8(original, chars);
+		chars = utf8::distance(original, original + byteCount);
 	} catch (...) {
 		// invalid UTF-8 sequence
 		return 0;
 	}
+	return doUcs4FromUtf8(original, chars);
 }
 
 wchar_t * StringUtils::ucs4FromUtf8(const char * const original, size_t byteCount, size_t maxChars) {
+	size_t chars;
 	try {
-		size_t chars;
 		if (maxChars * 6 + 1 < byteCount) {
 			chars = maxChars;
 		}
 		else {
 			chars = std::min(static_cast<size_t>(utf8::distance(original, original + byteCount)), maxChars);
 		}
-		return doUcs4FromUtf8(original, chars);
 	} catch (...) {
 		// invalid UTF-8 sequence
 		return 0;
 	}
+	return doUcs4FromUtf8(original, chars);
 }
 
 char * StringUtils::utf8FromUcs4(const wchar_t * const original) {
@@ -89,13 +83,7 @@ char * StringUtils::utf8FromUcs4(const wchar_t * const original) {
 }
 
 char * StringUtils::utf8FromUcs4(const wchar_t * const original, size_t wlen) {
-	char * utf8Buffer;
-	try {
-		utf8Buffer = new char[wlen * 6 + 1];
-	} catch (...) {
-		// not enough memory
-		return 0;
-	}
+	char * utf8Buffer = new char[wlen * 6 + 1];
 	try {
 		char * utfPtr = utf8Buffer;
 		for (size_t i = 0; i < wlen; i++) {
-- 
2.43.0


From 6abe643fc51ab5289d9b2ebcea60a97abaa3aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:32 +0000
Subject: [PATCH 12/36] fix: language tags of ten characters were listed as if
 they were -x-standard variants

rfind() returns npos when the tag does not contain -x-standard, which
equals size() - 11 when the tag is ten characters long. Such a dictionary
was moved to the front of the list and could take the place of the real
standard dictionary.
---
 libvoikko/src/setup/DictionaryFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/setup/DictionaryFactory.cpp b/libvoikko/src/setup/DictionaryFactory.cpp
index 6be8652..83ccbc0 100644
--- a/libvoikko/src/setup/DictionaryFactory.cpp
+++ b/libvoikko/src/setup/DictionaryFactory.cpp
@@ -92,7 +92,7 @@ list<Dictionary> DictionaryFactory::findAllAvailable(const std::string & path) {
 		if (i->second.isDefault()) {
 			dicts.push_front(i->second);
 		}
-		else if (i->first.rfind("-x-standard") == i->first.size() - 11 &&
+		else if (i->first.size() > 11 && i->first.compare(i->first.size() - 11, 11, "-x-standard") == 0 &&
 		         !DictionaryLoader::hasDefaultForLanguage(&dictMap, i->second.getLanguage().getLanguage())) {
 			dicts.push_front(i->second);
 		}
-- 
2.43.0


From 9b5daa89302c62207bee9c2a4c32640595f331be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:32 +0000
Subject: [PATCH 13/36] fix: choice between equally named dictionaries depended
 on directory order

When two directories at one location provide the same language variant the
one that readdir() happened to return first was used. Sort the entries.
---
 libvoikko/src/setup/DictionaryLoader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvoikko/src/setup/DictionaryLoader.cpp b/libvoikko/src/setup/DictionaryLoader.cpp
index 80608cf..8648e08 100644
--- a/libvoikko/src/setup/DictionaryLoader.cpp
+++ b/libvoikko/src/setup/DictionaryLoader.cpp
@@ -87,6 +87,8 @@ list<string> DictionaryLoader::getListOfSubentries(const string & mainPath) {
 	}
 	closedir(dp);
 #endif
+	// The order of directory entries is arbitrary, the choice between dictionaries must not be
+	results.sort();
 	return results;
 }
 
-- 
2.43.0


From d07dd5ad2a763a99a36fe951d1ef73c96276b480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:01 +0000
Subject: [PATCH 14/36] fix: broken zhfst files escaped the dictionary search

Only ZHfstZipReadingError was treated as a broken dictionary. Errors in the
metadata or in a transducer inside the archive were thrown through the C
interface. The suffix test also matched every five character long name
because find() + 6 wraps around for npos.
---
 libvoikko/src/setup/V3DictionaryLoader.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/setup/V3DictionaryLoader.cpp b/libvoikko/src/setup/V3DictionaryLoader.cpp
index 3024766..47afc91 100644
--- a/libvoikko/src/setup/V3DictionaryLoader.cpp
+++ b/libvoikko/src/setup/V3DictionaryLoader.cpp
@@ -53,7 +53,7 @@ void V3DictionaryLoader::findDictionaries(const string & path) {
 	list<string> subDirectories = getListOfSubentries(mainPath);
 	for (list<string>::iterator i = subDirectories.begin(); i != subDirectories.end(); ++i) {
 		string dirName = *i;
-		if (dirName.find(".zhfst") + 6 == dirName.length()) {
+		if (dirName.length() >= 6 && dirName.compare(dirName.length() - 6, 6, ".zhfst") == 0) {
 			string fullPath = mainPath + "/" + dirName;
 			BackendProperties morBackend("null", fullPath, false);
 			BackendProperties spellBackend("hfst", true);
@@ -65,10 +65,14 @@ void V3DictionaryLoader::findDictionaries(const string & path) {
 			try {
 				speller->read_zhfst(fullPath.c_str());
 			}
-			catch (hfst_ospell::ZHfstZipReadingError& zhzre) {
+			catch (hfst_ospell::ZHfstException& e) {
 				delete speller;
 				continue; // broken dictionary
 			}
+			catch (hfst_ospell::OspellException& e) {
+				delete speller;
+				continue; // broken transducer in the dictionary
+			}
 			const hfst_ospell::ZHfstOspellerXmlMetadata spellerMetadata = speller->get_metadata();
 			
 			LanguageTag language;
-- 
2.43.0


From 8e9417ebfb4c3701e3bca23940db7f5d1c256318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:30 +0000
Subject: [PATCH 15/36] fix: decimal separator of the WEIGHT attribute depended
 on the global locale

---
 libvoikko/src/morphology/VfstAnalyzer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvoikko/src/morphology/VfstAnalyzer.cpp b/libvoikko/src/morphology/VfstAnalyzer.cpp
index 9b8c553..13bc1ea 100644
--- a/libvoikko/src/morphology/VfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/VfstAnalyzer.cpp
@@ -32,6 +32,7 @@
 #include "character/SimpleChar.hpp"
 #include "utils/utils.hpp"
 #include "voikko_defines.h"
+#include <locale>
 #include <sstream>
 #include <iomanip>
 #include <cwchar>
@@ -89,6 +90,7 @@ list<Analysis *> * VfstAnalyzer::analyze(const wchar_t * word, size_t wlen, bool
 				analysis->addAttribute(Analysis::Key::FSTOUTPUT, StringUtils::copy(outputBuffer));
 			}
 			stringstream ss;
+			ss.imbue(std::locale::classic());
 			ss << setprecision(9) << logWeightToProb(weight);
 			string weightStr = ss.str();
 			analysis->addAttribute(Analysis::Key::WEIGHT, StringUtils::ucs4FromUtf8(weightStr.c_str()));
-- 
2.43.0


From 72101788e3b911cafbf0faf7e76c4357c98dd28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:58 +0000
Subject: [PATCH 16/36] fix: voikko_terminate crashed when no handle was open

The table of handles does not exist before the first initialisation and
after the last termination.
---
 libvoikko/src/compatibility/interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/compatibility/interface.cpp b/libvoikko/src/compatibility/interface.cpp
index 0ecad1e..eae6a29 100644
--- a/libvoikko/src/compatibility/interface.cpp
+++ b/libvoikko/src/compatibility/interface.cpp
@@ -128,7 +128,7 @@ VOIKKOEXPORT const char * voikko_init(int * handle, const char * langcode, int c
 }
 
 VOIKKOEXPORT int voikko_terminate(int handle) {
-	if (handle >= 1 && handle < MAX_HANDLES && handles[handle]) {
+	if (handles && handle >= 1 && handle < MAX_HANDLES && handles[handle]) {
 		voikkoTerminate(handles[handle]);
 		handles[handle] = 0;
 		freeHandlesIfPossible();
-- 
2.43.0


From 25fc2575a99f45399467d2660502f42ae2642b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:58 +0000
Subject: [PATCH 17/36] fix: leak in voikkoInsertHyphensCstr when the word
 cannot be hyphenated

---
 libvoikko/src/hyphenator/interface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvoikko/src/hyphenator/interface.cpp b/libvoikko/src/hyphenator/interface.cpp
index 8d108b3..910a512 100644
--- a/libvoikko/src/hyphenator/interface.cpp
+++ b/libvoikko/src/hyphenator/interface.cpp
@@ -90,6 +90,8 @@ VOIKKOEXPORT char * voikkoInsertHyphensCstr(VoikkoHandle * options, const char *
 	// Create the hyphenated form
 	char * hyphenationPattern = voikkoHyphenateUcs4(options, word_ucs4);
 	if (!hyphenationPattern) {
+		delete[] hyphen_ucs4;
+		delete[] word_ucs4;
 		return nullptr;
 	}
 	std::wstringstream hyphenated;
-- 
2.43.0


From 7cf45141806f006ae460c560879b1054cf651161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:14 +0000
Subject: [PATCH 18/36] fix: old interface mixed allocators when malloc failed

When malloc failed the strings were left as they came from operator new[]
although the caller releases them with free(). Suggestions for grammar
errors were copied without checking the result of malloc at all.
---
 libvoikko/src/compatibility/interface.cpp | 12 ++++++++++--
 libvoikko/src/utils/StringUtils.cpp       | 20 +++++++++++++-------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/libvoikko/src/compatibility/interface.cpp b/libvoikko/src/compatibility/interface.cpp
index eae6a29..3b2b852 100644
--- a/libvoikko/src/compatibility/interface.cpp
+++ b/libvoikko/src/compatibility/interface.cpp
@@ -245,11 +245,19 @@ VOIKKOEXPORT voikko_grammar_error voikko_next_grammar_error_ucs4(int handle, con
 				++suggCount;
 			}
 			gError.suggestions = static_cast<char **>(malloc((suggCount + 1) * sizeof(char *)));
-			for (int i = 0; i < suggCount; i++) {
+			for (int i = 0; gError.suggestions && i < suggCount; i++) {
 				gError.suggestions[i] = static_cast<char *>(malloc((strlen(suggestions[i]) + 1) * sizeof(char)));
+				if (!gError.suggestions[i]) {
+					// Out of memory, report the error without suggestions
+					voikko_free_suggest_cstr(gError.suggestions);
+					gError.suggestions = 0;
+					break;
+				}
 				strcpy(gError.suggestions[i], suggestions[i]);
 			}
-			gError.suggestions[suggCount] = 0;
+			if (gError.suggestions) {
+				gError.suggestions[suggCount] = 0;
+			}
 		} else {
 			gError.suggestions = 0;
 		}
diff --git a/libvoikko/src/utils/StringUtils.cpp b/libvoikko/src/utils/StringUtils.cpp
index e69424f..e2df34b 100644
--- a/libvoikko/src/utils/StringUtils.cpp
+++ b/libvoikko/src/utils/StringUtils.cpp
@@ -151,6 +151,8 @@ void StringUtils::convertCStringToMalloc(char * & cString) {
 	size_t strLen = strlen(cString);
 	char * newString = (char *) malloc((strLen + 1) * sizeof(char));
 	if (!newString) {
+		delete[] cString;
+		cString = 0;
 		return;
 	}
 	strcpy(newString, cString);
@@ -168,20 +170,24 @@ void StringUtils::convertCStringArrayToMalloc(char ** & stringArray) {
 	}
 	
 	char ** newArray = (char **) malloc((numberOfStrings + 1) * sizeof(char *));
-	if (!newArray) {
-		return;
-	}
-	
-	for (size_t i = 0; i < numberOfStrings; i++) {
+	bool success = (newArray != 0);
+	for (size_t i = 0; success && i < numberOfStrings; i++) {
 		size_t strLen = strlen(stringArray[i]);
 		newArray[i] = (char *) malloc((strLen + 1) * sizeof(char));
 		if (!newArray[i]) {
+			while (i > 0) {
+				free(newArray[--i]);
+			}
 			free(newArray);
-			return;
+			newArray = 0;
+			success = false;
+			break;
 		}
 		strcpy(newArray[i], stringArray[i]);
 	}
-	newArray[numberOfStrings] = 0;
+	if (success) {
+		newArray[numberOfStrings] = 0;
+	}
 	
 	for (size_t i = 0; i < numberOfStrings; i++) {
 		delete[] stringArray[i];
-- 
2.43.0


From df8e5898860dce600b5cc20117754a51cd98800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:26 +0000
Subject: [PATCH 19/36] fix: voikkospell -j must not join threads that were
 never started

When the input had fewer blocks than there were threads the final loop
started from a slot that had not been used and joined an uninitialized
thread identifier.
---
 libvoikko/src/tools/voikkospell.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvoikko/src/tools/voikkospell.cpp b/libvoikko/src/tools/voikkospell.cpp
index a79e248..73f09cc 100644
--- a/libvoikko/src/tools/voikkospell.cpp
+++ b/libvoikko/src/tools/voikkospell.cpp
@@ -216,6 +216,8 @@ static void handleWordMultiThread(const wchar_t * word) {
 static void finishProcessing() {
 	#ifdef HAVE_PTHREAD
 		queueNextBlock();
+		// start from the oldest block in case there were fewer blocks than threads
+		nextThread = (nextThread + threadCount - nThreadsInUse) % threadCount;
 		while (nThreadsInUse > 0) {
 			cleanupThread();
 			nextThread = (nextThread + 1) % threadCount;
-- 
2.43.0


From 948f0bef328f691f07ce070777180437d506af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:42 +0000
Subject: [PATCH 20/36] fix: voikkovfstc must fail when input cannot be read or
 output written

Errors from reading standard input were taken as the end of the input and
the state of the output stream was never checked, so that a truncated
transducer could be left behind with exit status 0.
---
 libvoikko/src/tools/voikkovfstc.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libvoikko/src/tools/voikkovfstc.cpp b/libvoikko/src/tools/voikkovfstc.cpp
index b2aa41a..39af304 100644
--- a/libvoikko/src/tools/voikkovfstc.cpp
+++ b/libvoikko/src/tools/voikkovfstc.cpp
@@ -37,6 +37,7 @@
 #include <map>
 #include <algorithm>
 #include <cmath>
+#include <cstdio>
 
 using namespace libvoikko::fst;
 using namespace std;
@@ -391,6 +392,10 @@ int main(int argc, char ** argv) {
 				transitionCount++;
 			}
 		}
+		if (cin.bad() || ferror(stdin)) {
+			cerr << "ERROR: reading input failed" << endl;
+			exit(1);
+		}
 	}
 	
 	cout << "Symbols: " << symVector.size() << endl;
@@ -505,4 +510,9 @@ int main(int argc, char ** argv) {
 	}
 	
 	transducerFile.close();
+	if (!transducerFile) {
+		cerr << "ERROR: writing output file failed: " << outputFile << endl;
+		return 1;
+	}
+	return 0;
 }
-- 
2.43.0


From e11cc030553a7e4b09a4248f79c0d7f2f948bafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:57 +0000
Subject: [PATCH 21/36] fix: voikkovfstc wrote uninitialized memory to weighted
 transducers

The reserved byte of each transition was never set, and the weight of a
final state was used without checking that it could be parsed.
---
 libvoikko/src/tools/voikkovfstc.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/tools/voikkovfstc.cpp b/libvoikko/src/tools/voikkovfstc.cpp
index 39af304..26bc7ee 100644
--- a/libvoikko/src/tools/voikkovfstc.cpp
+++ b/libvoikko/src/tools/voikkovfstc.cpp
@@ -330,6 +330,11 @@ int main(int argc, char ** argv) {
 						finalState = true;
 						hasFinalWeight = true;
 						s2 >> weight;
+						if (s2.fail()) {
+							cerr << "ERROR: unparseable weight" << endl;
+							cerr << line << endl;
+							exit(1);
+						}
 					}
 					else {
 						s2 >> targetStateOrd;
@@ -371,7 +376,7 @@ int main(int argc, char ** argv) {
 			}
 			if (finalState) {
 				finalStateCount++;
-				WeightedTransition t;
+				WeightedTransition t = {};
 				t.symIn = 0xFFFFFFFF;
 				t.symOut = 0;
 				t.weight = (hasFinalWeight ? weightFunc(weight) : 0);
@@ -383,7 +388,7 @@ int main(int argc, char ** argv) {
 				symOutStr = convertSymbolNames(symOutStr);
 				ensureSymbolInMap(symInStr, symVector, symMap);
 				ensureSymbolInMap(symOutStr, symVector, symMap);
-				WeightedTransition t;
+				WeightedTransition t = {};
 				t.symIn = symMap[symInStr].code;
 				t.symOut = symMap[symOutStr].code;
 				t.weight = (weights ? weightFunc(weight) : 0);
-- 
2.43.0


From 01a914234f2f0ae1023dc21509dcebd30d1d80e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:31 +0000
Subject: [PATCH 22/36] fix: voikkospell, voikkohyphenate and voikkogc must
 report I/O errors

Write errors on standard output were ignored and a read error on standard
input was at most reported on standard error: exit status was always 0.
---
 libvoikko/src/tools/voikkogc.cpp        | 23 +++++++++++++++---
 libvoikko/src/tools/voikkohyphenate.cpp | 23 +++++++++++++++---
 libvoikko/src/tools/voikkospell.cpp     | 32 ++++++++++++++++++-------
 3 files changed, 63 insertions(+), 15 deletions(-)

diff --git a/libvoikko/src/tools/voikkogc.cpp b/libvoikko/src/tools/voikkogc.cpp
index ed558c7..d493111 100644
--- a/libvoikko/src/tools/voikkogc.cpp
+++ b/libvoikko/src/tools/voikkogc.cpp
@@ -171,6 +171,23 @@ static void check_grammar(VoikkoHandle * handle, const wchar_t * line, size_t li
 
 enum operation {TOKENIZE, SPLIT_SENTENCES, CHECK_GRAMMAR};
 
+/**
+ * @return exit status of the program: non-zero if all of the input could not be read
+ * or all of the output could not be written.
+ */
+static int exitStatus() {
+	int status = 0;
+	if (ferror(stdin)) {
+		cerr << "E: Error while reading from stdin" << endl;
+		status = 1;
+	}
+	if (fflush(stdout) != 0 || ferror(stdout) || !cout || !wcout) {
+		cerr << "E: Error while writing to stdout" << endl;
+		status = 1;
+	}
+	return status;
+}
+
 int main(int argc, char ** argv) {
 	const char * path = 0;
 	const char * variant = "fi";
@@ -185,11 +202,11 @@ int main(int argc, char ** argv) {
 		}
 		else if (strcmp(argv[i], "-h") == 0 || strcmp(argv[i], "--help") == 0) {
 			printHelp();
-			exit(0);
+			exit(exitStatus());
 		}
 		else if (strcmp(argv[i],  "--version") == 0) {
 			printVersion();
-			exit(0);
+			exit(exitStatus());
 		}
 	}
 	const char * voikkoError;
@@ -279,5 +296,5 @@ int main(int argc, char ** argv) {
 	}
 
 	voikkoTerminate(handle);
-	return 0;
+	return exitStatus();
 }
diff --git a/libvoikko/src/tools/voikkohyphenate.cpp b/libvoikko/src/tools/voikkohyphenate.cpp
index cd3d7fc..299315b 100644
--- a/libvoikko/src/tools/voikkohyphenate.cpp
+++ b/libvoikko/src/tools/voikkohyphenate.cpp
@@ -85,6 +85,23 @@ static void printVersion() {
 	cout << "libvoikko version " << voikkoGetVersion() << endl;
 }
 
+/**
+ * @return exit status of the program: non-zero if all of the input could not be read
+ * or all of the output could not be written.
+ */
+static int exitStatus() {
+	int status = 0;
+	if (ferror(stdin)) {
+		cerr << "E: Error while reading from stdin" << endl;
+		status = 1;
+	}
+	if (fflush(stdout) != 0 || ferror(stdout) || !cout || !wcout) {
+		cerr << "E: Error while writing to stdout" << endl;
+		status = 1;
+	}
+	return status;
+}
+
 int main(int argc, char ** argv) {
 	const char * path = 0;
 	const char * variant = "fi";
@@ -99,11 +116,11 @@ int main(int argc, char ** argv) {
 		}
 		else if (strcmp(argv[i], "-h") == 0 || strcmp(argv[i], "--help") == 0) {
 			printHelp();
-			exit(0);
+			exit(exitStatus());
 		}
 		else if (strcmp(argv[i],  "--version") == 0) {
 			printVersion();
-			exit(0);
+			exit(exitStatus());
 		}
 	}
 	const char * voikkoError;
@@ -176,5 +193,5 @@ int main(int argc, char ** argv) {
 	}
 
 	voikkoTerminate(handle);
-	return 0;
+	return exitStatus();
 }
diff --git a/libvoikko/src/tools/voikkospell.cpp b/libvoikko/src/tools/voikkospell.cpp
index 73f09cc..338157b 100644
--- a/libvoikko/src/tools/voikkospell.cpp
+++ b/libvoikko/src/tools/voikkospell.cpp
@@ -342,6 +342,23 @@ static void printVersion() {
 	cout << "libvoikko version " << voikkoGetVersion() << endl;
 }
 
+/**
+ * @return exit status of the program: non-zero if all of the input could not be read
+ * or all of the output could not be written.
+ */
+static int exitStatus() {
+	int status = 0;
+	if (ferror(stdin)) {
+		cerr << "E: Error while reading from stdin" << endl;
+		status = 1;
+	}
+	if (fflush(stdout) != 0 || ferror(stdout) || !cout || !wcout) {
+		cerr << "E: Error while writing to stdout" << endl;
+		status = 1;
+	}
+	return status;
+}
+
 int main(int argc, char ** argv) {
 	const char * path = 0;
 	const char * variant = "fi";
@@ -363,11 +380,11 @@ int main(int argc, char ** argv) {
 		}
 		else if (args == "-h" || args == "--help") {
 			printHelp();
-			exit(0);
+			exit(exitStatus());
 		}
 		else if (args == "--version") {
 			printVersion();
-			exit(0);
+			exit(exitStatus());
 		}
 		else if (args == "-l") {
 			list_dicts_requested = true;
@@ -394,11 +411,11 @@ int main(int argc, char ** argv) {
 	}
 	
 	if (list_dicts_requested) {
-		return list_dicts(path);
+		return list_dicts(path) | exitStatus();
 	}
 	
 	if (list_capabilities_requested) {
-		return list_capabilities(path);
+		return list_capabilities(path) | exitStatus();
 	}
 	
 	spellers = new speller_t[threadCount];
@@ -510,10 +527,7 @@ int main(int argc, char ** argv) {
 		}
 	}
 	finishProcessing();
-	int error = ferror(stdin);
-	if (error) {
-		cerr << "E: Error while reading from stdin" << endl;
-	}
+	int status = exitStatus();
 	
 	for (int i = 0; i < threadCount; i++) {
 		voikkoTerminate(spellers[i].handle);
@@ -523,5 +537,5 @@ int main(int argc, char ** argv) {
 		delete nextBlock;
 		delete[] threads;
 	#endif
-	return 0;
+	return status;
 }
-- 
2.43.0


From 25f3f33f451be5a10601095834243a47defb4205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:48 +0000
Subject: [PATCH 23/36] fix: hyphenate and attributeValues of the Java class
 were not synchronized

A thread calling them could be inside the native library with the same handle
at the same time as another thread, or use a handle that another thread had
just terminated.
---
 .../java/src/main/java/org/puimula/libvoikko/Voikko.java      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
index 0c60cf0..3258132 100644
--- a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
+++ b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
@@ -433,7 +433,7 @@ public class Voikko {
      *        the hyphen will lead to other changes in the word
      * @return the given word in fully hyphenated form.
      */
-    public String hyphenate(String word, String separator, boolean allowContextChanges) {
+    public synchronized String hyphenate(String word, String separator, boolean allowContextChanges) {
         requireValidHandle();
         if (!isValidInput(word) || !isValidInput(separator)) {
             return word;
@@ -652,7 +652,7 @@ public class Voikko {
      * @return A list of possible attribute values for attribute in morphological analysis or null if
      *         the attribute does not exist or it does not have a known finite set of possible values.
      */
-    public List<String> attributeValues(String attributeName) {
+    public synchronized List<String> attributeValues(String attributeName) {
         requireValidHandle();
         if (!isValidInput(attributeName)) {
             return null;
-- 
2.43.0


From 879ff61ad49af84372e1fcb70c5b07ffe7ffd17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:13 +0000
Subject: [PATCH 24/36] fix: interrupted terminate of the Python class could
 release the handle twice

An exception such as KeyboardInterrupt that arrived during terminate() left
the released handle in place, to be used by later calls and released again
when the object was deleted.
---
 libvoikko/python/libvoikko.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libvoikko/python/libvoikko.py b/libvoikko/python/libvoikko.py
index cf5fd76..cdce522 100644
--- a/libvoikko/python/libvoikko.py
+++ b/libvoikko/python/libvoikko.py
@@ -479,17 +479,20 @@ class Voikko(object):
         relied upon.
         """
         if self.__handle:
-            self.__lib.voikkoTerminate(self.__handle)
-            self.__handle = 0
-
             # Replace __lib with a dummy object that throws exception when any method is called. This ensures
-            # that nothing bad happens if methods of a Voikko instance are called after termination.
+            # that nothing bad happens if methods of a Voikko instance are called after termination. This is
+            # done before the resources are released so that it holds even if termination is interrupted by
+            # an exception.
 
             class DummyLib:
                 def __getattr__(self, name):
                     raise VoikkoException("Attempt to use Voikko instance after terminate() was called")
 
+            lib = self.__lib
+            handle = self.__handle
             self.__lib = DummyLib()
+            self.__handle = 0
+            lib.voikkoTerminate(handle)
 
     @classmethod
     def listDicts(cls, path=None):
-- 
2.43.0


From fb8ce6d6c6456ae1bc823b8b93c015f74afe3815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:13 +0000
Subject: [PATCH 25/36] fix: Python class dereferenced a null pointer when
 hyphenation failed

hyphenate() of a word of more than 255 bytes crashed the interpreter.
---
 libvoikko/python/libvoikko.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/python/libvoikko.py b/libvoikko/python/libvoikko.py
index cdce522..96ad9e6 100644
--- a/libvoikko/python/libvoikko.py
+++ b/libvoikko/python/libvoikko.py
@@ -788,6 +788,8 @@ class Voikko(object):
             return "".ljust(len(word))
 
         cHyphenationPattern = self.__lib.voikkoHyphenateUcs4(self.__handle, word)
+        if not bool(cHyphenationPattern):
+            raise VoikkoException("Hyphenation failed")
         hyphenationPattern = string_at(cHyphenationPattern)
         self.__lib.voikkoFreeCstr(cHyphenationPattern)
         return unicode_str(hyphenationPattern, 'ASCII')
@@ -798,6 +800,8 @@ class Voikko(object):
             return word
         cHyphenated = self.__lib.voikkoInsertHyphensCstr(
             self.__handle, word.encode("UTF-8"), separator.encode("UTF-8"), _boolToInt(allowContextChanges))
+        if not bool(cHyphenated):
+            raise VoikkoException("Hyphenation failed")
         hyphenated = string_at(cHyphenated)
         self.__lib.voikkoFreeCstr(cHyphenated)
         return unicode_str(hyphenated, "UTF-8")
-- 
2.43.0


From f078a4b1d49adcaebbcc31ae6e067032f0b7d540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:58 +0000
Subject: [PATCH 26/36] fix: vocabulary that ends early was taken as complete
 or read for ever

---
 tools/pylib/voikkoutils.py      | 5 ++++-
 voikko-fi/common/voikkoutils.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/pylib/voikkoutils.py b/tools/pylib/voikkoutils.py
index 439649f..9f9efb7 100644
--- a/tools/pylib/voikkoutils.py
+++ b/tools/pylib/voikkoutils.py
@@ -199,7 +199,7 @@ def process_wordlist(filename, word_handler, show_progress = False):
 		line = listfile.readline()
 		if line == '':
 			sys.stderr.write("Malformed file " + filename + "\n")
-			return
+			sys.exit(1)
 	
 	wcount = 0
 	while True:
@@ -207,6 +207,9 @@ def process_wordlist(filename, word_handler, show_progress = False):
 		line = listfile.readline()
 		if line == "</wordlist>\n": break
 		while line != '</word>\n':
+			if line == '':
+				sys.stderr.write("Malformed file " + filename + "\n")
+				sys.exit(1)
 			wordstr = wordstr + line
 			line = listfile.readline()
 		word = xml.dom.minidom.parseString(wordstr + line)
diff --git a/voikko-fi/common/voikkoutils.py b/voikko-fi/common/voikkoutils.py
index 2f72abd..85f65c1 100644
--- a/voikko-fi/common/voikkoutils.py
+++ b/voikko-fi/common/voikkoutils.py
@@ -207,7 +207,7 @@ def process_wordlist(filename, word_handler, show_progress = False):
 		line = listfile.readline()
 		if line == '':
 			sys.stderr.write("Malformed file " + filename + "\n")
-			return
+			sys.exit(1)
 	
 	wcount = 0
 	while True:
@@ -215,6 +215,9 @@ def process_wordlist(filename, word_handler, show_progress = False):
 		line = listfile.readline()
 		if line == "</wordlist>\n": break
 		while line != '</word>\n':
+			if line == '':
+				sys.stderr.write("Malformed file " + filename + "\n")
+				sys.exit(1)
 			wordstr = wordstr + line
 			line = listfile.readline()
 		word = xml.dom.minidom.parseString(wordstr + line)
-- 
2.43.0


From 8d92f8ba2a4e633c19c46ef49491da9132358b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:01 +0000
Subject: [PATCH 27/36] fix: filter_lexc.py ignored errors when its output was
 flushed at exit

---
 voikko-fi/vvfst/filter_lexc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/voikko-fi/vvfst/filter_lexc.py b/voikko-fi/vvfst/filter_lexc.py
index 8aa896d..25f1bf6 100644
--- a/voikko-fi/vvfst/filter_lexc.py
+++ b/voikko-fi/vvfst/filter_lexc.py
@@ -33,3 +33,4 @@ for line_orig in fileinput.input(files,openhook=fileinput.hook_encoded("UTF-8"))
 	if line is None:
 		continue
 	outputFile.write(line + "\n")
+outputFile.close()
-- 
2.43.0


From 64a9470fb942a13b5016ba00780dc0d85c8426e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:41 +0000
Subject: [PATCH 28/36] fix: JavaScript tokens and sentences lost track of text
 with characters outside the BMP

---
 libvoikko/js/libvoikko_api.js | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libvoikko/js/libvoikko_api.js b/libvoikko/js/libvoikko_api.js
index a886f20..8f112f7 100644
--- a/libvoikko/js/libvoikko_api.js
+++ b/libvoikko/js/libvoikko_api.js
@@ -53,6 +53,16 @@ Module["init"] = function(lang, path) {
 	
 	var tokenTypes = ["NONE", "WORD", "PUNCTUATION", "WHITESPACE", "UNKNOWN"];
 	var sentenceTypes = ["NONE", "NO_START", "PROBABLE", "POSSIBLE"];
+	
+	// Native lengths are in characters, positions in JavaScript strings in UTF-16 code units
+	var endOfChars = function(text, start, chars) {
+		var end = start;
+		for (; chars > 0 && end < text.length; chars--) {
+			end += text.codePointAt(end) > 0xFFFF ? 2 : 1;
+		}
+		return end;
+	};
+	
 	var tokensNonNull = function(text) {
 		var result = [];
 		var textLengthUtf8 = lengthBytesUTF8(text);
@@ -67,7 +77,7 @@ Module["init"] = function(lang, path) {
 			var tokenTypeInt = c_nextTokenCstr(handle, textBytesPosition, bytesLen, tokenLenByRef);
 			var tokenLen = getValue(tokenLenByRef, "i32");
 			var tokenType = tokenTypes[tokenTypeInt];
-			var tokenText = text.substring(textStart, textStart + tokenLen);
+			var tokenText = text.substring(textStart, endOfChars(text, textStart, tokenLen));
 			textStart += tokenText.length;
 			var tokenBytes = lengthBytesUTF8(tokenText);
 			result.push({type: tokenType, text: tokenText});
@@ -286,9 +296,9 @@ Module["init"] = function(lang, path) {
 				var sentenceTypeInt = c_nextSentenceStartCstr(handle, textBytesPtr, textLen, sentenceLenByRef);
 				var sentenceLen = getValue(sentenceLenByRef, "i32");
 				var sentenceType = sentenceTypes[sentenceTypeInt];
-				var sentenceText = text.substring(0, sentenceLen);
+				var sentenceText = text.substring(0, endOfChars(text, 0, sentenceLen));
 				result.push({"text": sentenceText, "nextStartType": sentenceType});
-				text = text.substring(sentenceLen);
+				text = text.substring(sentenceText.length);
 				var sentenceLenBytes = lengthBytesUTF8(sentenceText);
 				textBytesPtr += sentenceLenBytes;
 				textLen -= sentenceLenBytes;
-- 
2.43.0


From f37ef4ecc9ad8996d1f30fea470136c7e042eb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:41 +0000
Subject: [PATCH 29/36] fix: JavaScript tokens and sentences never ended when
 the native call failed

---
 libvoikko/js/libvoikko_api.js | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libvoikko/js/libvoikko_api.js b/libvoikko/js/libvoikko_api.js
index 8f112f7..536d73b 100644
--- a/libvoikko/js/libvoikko_api.js
+++ b/libvoikko/js/libvoikko_api.js
@@ -75,6 +75,9 @@ Module["init"] = function(lang, path) {
 		while (bytesLen > 0) {
 			var textBytesPosition = textBytes + bytesStart;
 			var tokenTypeInt = c_nextTokenCstr(handle, textBytesPosition, bytesLen, tokenLenByRef);
+			if (tokenTypeInt == 0) {
+				break;
+			}
 			var tokenLen = getValue(tokenLenByRef, "i32");
 			var tokenType = tokenTypes[tokenTypeInt];
 			var tokenText = text.substring(textStart, endOfChars(text, textStart, tokenLen));
@@ -294,6 +297,11 @@ Module["init"] = function(lang, path) {
 			var sentenceLenByRef = mallocPtr();
 			while (textLen > 0) {
 				var sentenceTypeInt = c_nextSentenceStartCstr(handle, textBytesPtr, textLen, sentenceLenByRef);
+				if (sentenceTypeInt == 0) {
+					// No more sentence starts (or the library failed): the rest is one sentence
+					result.push({"text": text, "nextStartType": "NONE"});
+					break;
+				}
 				var sentenceLen = getValue(sentenceLenByRef, "i32");
 				var sentenceType = sentenceTypes[sentenceTypeInt];
 				var sentenceText = text.substring(0, endOfChars(text, 0, sentenceLen));
-- 
2.43.0


From 900b65c1a5ff7e73e68ed1c7c533093967e114f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:54 +0000
Subject: [PATCH 30/36] fix: Python: free the grammar error when its
 description cannot be fetched

---
 libvoikko/python/libvoikko.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libvoikko/python/libvoikko.py b/libvoikko/python/libvoikko.py
index 96ad9e6..8605812 100644
--- a/libvoikko/python/libvoikko.py
+++ b/libvoikko/python/libvoikko.py
@@ -648,10 +648,12 @@ class Voikko(object):
             )
             if not bool(cError):
                 return errorList
-            gError = self.__getGrammarError(cError, language)
+            try:
+                gError = self.__getGrammarError(cError, language)
+            finally:
+                self.__lib.voikkoFreeGrammarError(cError)
             gError.startPos = offset + gError.startPos
             errorList.append(gError)
-            self.__lib.voikkoFreeGrammarError(cError)
             skipErrors = skipErrors + 1
 
     def grammarErrors(self, text, language):
-- 
2.43.0


From 6d05890749e27639cbe44def53c8bbc88cd1ce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:08 +0000
Subject: [PATCH 31/36] fix: voikkospell: wait for running threads before
 exiting when a thread cannot be created

---
 libvoikko/src/tools/voikkospell.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libvoikko/src/tools/voikkospell.cpp b/libvoikko/src/tools/voikkospell.cpp
index 338157b..a9bc4cb 100644
--- a/libvoikko/src/tools/voikkospell.cpp
+++ b/libvoikko/src/tools/voikkospell.cpp
@@ -186,6 +186,15 @@ static void cleanupThread() {
 	delete resultString;
 }
 
+static void cleanupAllThreads() {
+	// start from the oldest block in case there were fewer blocks than threads
+	nextThread = (nextThread + threadCount - nThreadsInUse) % threadCount;
+	while (nThreadsInUse > 0) {
+		cleanupThread();
+		nextThread = (nextThread + 1) % threadCount;
+	}
+}
+
 static void queueNextBlock() {
 	if (nextBlock->empty()) {
 		return;
@@ -196,6 +205,8 @@ static void queueNextBlock() {
 	spellers[nextThread].words = nextBlock;
 	if (pthread_create(threads + nextThread, 0, &processBlock, spellers + nextThread)) {
 		cerr << "E: Failed to create thread" << endl;
+		// the other threads must not run while static objects are being destroyed
+		cleanupAllThreads();
 		exit(1);
 	}
 	assert(threadCount >= 1);
@@ -216,12 +227,7 @@ static void handleWordMultiThread(const wchar_t * word) {
 static void finishProcessing() {
 	#ifdef HAVE_PTHREAD
 		queueNextBlock();
-		// start from the oldest block in case there were fewer blocks than threads
-		nextThread = (nextThread + threadCount - nThreadsInUse) % threadCount;
-		while (nThreadsInUse > 0) {
-			cleanupThread();
-			nextThread = (nextThread + 1) % threadCount;
-		}
+		cleanupAllThreads();
 	#endif
 }
 
-- 
2.43.0


From e42c6b49669c42c0d8762a9dcf0fcf4f2d3ca65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:00 +0000
Subject: [PATCH 32/36] fix: the time to spell a word doubled with every hyphen
 when extra hyphens are accepted

Removing hyphens and leaving out trailing parts leads to the same words
through different ways. Remember the results while one word is checked.
---
 .../FinnishSpellerTweaksWrapper.cpp           | 23 +++++++++++++++----
 .../FinnishSpellerTweaksWrapper.hpp           |  7 +++++-
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp
index 869fbe0..7380f65 100644
--- a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp
+++ b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp
@@ -50,7 +50,19 @@ FinnishSpellerTweaksWrapper::FinnishSpellerTweaksWrapper(Speller * speller, Anal
 	hyphenator->setIgnoreDot(true);
 }
 
-spellresult FinnishSpellerTweaksWrapper::spellWithoutSoftHyphen(const wchar_t * word, size_t wlen) {
+/* Removing hyphens and leaving out trailing parts leads to the same words over and over again. */
+spellresult FinnishSpellerTweaksWrapper::spellPart(const wchar_t * word, size_t wlen, PartResults & known) {
+	const std::wstring key(word, wlen);
+	PartResults::const_iterator previous = known.find(key);
+	if (previous != known.end()) {
+		return previous->second;
+	}
+	spellresult result = spellWithoutSoftHyphen(word, wlen, known);
+	known[key] = result;
+	return result;
+}
+
+spellresult FinnishSpellerTweaksWrapper::spellWithoutSoftHyphen(const wchar_t * word, size_t wlen, PartResults & known) {
 	spellresult result_with_border = SPELL_FAILED;
 	spellresult result_without_border = SPELL_FAILED;
 	
@@ -74,7 +86,7 @@ spellresult FinnishSpellerTweaksWrapper::spellWithoutSoftHyphen(const wchar_t *
 		    buffer[leading_len] != L'-') {
 			/* All hyphens are optional */
 			/* FIXME: deep recursion */
-			spellresult spres = spellWithoutSoftHyphen(buffer, wlen - 1);
+			spellresult spres = spellPart(buffer, wlen - 1, known);
 			if (spres == SPELL_OK) {
 				delete[] buffer;
 				return spres;
@@ -100,7 +112,7 @@ spellresult FinnishSpellerTweaksWrapper::spellWithoutSoftHyphen(const wchar_t *
 		// "ja-sana" and such are valid if "ja" is any valid word and "sana" has MALAGA_VAPAA_JALKIOSA=true
 		for (size_t i = wlen - 2; i > 0; --i) {
 			if (word[i] == L'-') {
-				spellresult leadingResult = spell(word, i);
+				spellresult leadingResult = spellPart(word, i, known);
 				if (leadingResult != SPELL_FAILED) {
 					list<Analysis *> * trailingAnalyses = analyzer->analyze(word + i + 1, wlen - (i + 1), false);
 					list<Analysis *>::const_iterator it = trailingAnalyses->begin();
@@ -174,6 +186,7 @@ spellresult FinnishSpellerTweaksWrapper::spellWithoutSoftHyphen(const wchar_t *
 }
 
 spellresult FinnishSpellerTweaksWrapper::spell(const wchar_t * word, size_t wlen) {
+	PartResults known;
 	const wchar_t * softHyphen = wmemchr(word, L'\u00AD', wlen);
 	if (softHyphen) {
 		wchar_t * buffer = new wchar_t[wlen];
@@ -191,7 +204,7 @@ spellresult FinnishSpellerTweaksWrapper::spell(const wchar_t * word, size_t wlen
 			}
 		}
 		buffer[j] = L'\0';
-		spellresult resultWoShy = spellWithoutSoftHyphen(buffer, j);
+		spellresult resultWoShy = spellWithoutSoftHyphen(buffer, j, known);
 		if (resultWoShy != SPELL_FAILED) {
 			// check if positions of all soft hyphens are acceptable
 			char * hyphenPositions = hyphenator->allPossibleHyphenPositions(buffer, j);
@@ -211,7 +224,7 @@ spellresult FinnishSpellerTweaksWrapper::spell(const wchar_t * word, size_t wlen
 		}
 		return resultWoShy;
 	} else {
-		return spellWithoutSoftHyphen(word, wlen);
+		return spellWithoutSoftHyphen(word, wlen, known);
 	}
 }
 
diff --git a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.hpp b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.hpp
index 7367fe3..0ebc2f7 100644
--- a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.hpp
+++ b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.hpp
@@ -33,6 +33,8 @@
 #include "morphology/Analyzer.hpp"
 #include "setup/setup.hpp"
 #include "hyphenator/AnalyzerToFinnishHyphenatorAdapter.hpp"
+#include <map>
+#include <string>
 
 namespace libvoikko { namespace spellchecker {
 
@@ -47,7 +49,10 @@ class FinnishSpellerTweaksWrapper : public Speller {
 		spellresult spell(const wchar_t * word, size_t wlen);
 		void terminate();
 	private:
-		spellresult spellWithoutSoftHyphen(const wchar_t * word, size_t wlen);
+		/** Results of the words that have been checked while spelling one word */
+		typedef std::map<std::wstring, spellresult> PartResults;
+		spellresult spellWithoutSoftHyphen(const wchar_t * word, size_t wlen, PartResults & known);
+		spellresult spellPart(const wchar_t * word, size_t wlen, PartResults & known);
 		Speller * const speller;
 		morphology::Analyzer * const analyzer;
 		hyphenator::AnalyzerToFinnishHyphenatorAdapter * hyphenator;
-- 
2.43.0


From acc5c01b72fee31f332d22cc54f1c424c9d5f9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:55 +0000
Subject: [PATCH 33/36] fix: too large sizes of the spelling cache overflowed

The size of the cache was computed in int: from 19 on VOIKKO_SPELLER_CACHE_SIZE
gave negative or too small blocks, which were then cleared far beyond their
end. Such values are now refused like other unsupported option values.
---
 libvoikko/src/setup/setup.cpp               | 3 +++
 libvoikko/src/spellchecker/SpellerCache.hpp | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index be1eb89..8dbd150 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -162,6 +162,9 @@ VOIKKOEXPORT int voikkoSetIntegerOption(VoikkoHandle * options, int option, int
 			options->hyphenator->setMinHyphenatedWordLength(value);
 			return 1;
 		case VOIKKO_SPELLER_CACHE_SIZE:
+			if (value > spellchecker::SpellerCache::MAX_SIZE_PARAM) {
+				return 0;
+			}
 			if (options->spellerCache) {
 				if (options->spellerCache->getSizeParam() != value) {
 					spellchecker::SpellerCache * newCache = 0;
diff --git a/libvoikko/src/spellchecker/SpellerCache.hpp b/libvoikko/src/spellchecker/SpellerCache.hpp
index 9c09455..54e58da 100644
--- a/libvoikko/src/spellchecker/SpellerCache.hpp
+++ b/libvoikko/src/spellchecker/SpellerCache.hpp
@@ -39,6 +39,11 @@ namespace libvoikko { namespace spellchecker {
  */
 class SpellerCache {
 	public:
+		/**
+		 * Largest supported value for the size parameter.
+		 */
+		static const int MAX_SIZE_PARAM = 18;
+		
 		explicit SpellerCache(int sizeParam);
 		~SpellerCache();
 		
-- 
2.43.0


From f1331f5f8192ca626ff8160a367ab66810458764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:55 +0000
Subject: [PATCH 34/36] fix: hash of words with characters outside Unicode was
 negative

The spelling cache was then read before its start.
---
 libvoikko/src/spellchecker/SpellerCache.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libvoikko/src/spellchecker/SpellerCache.cpp b/libvoikko/src/spellchecker/SpellerCache.cpp
index a6b31be..d82765c 100644
--- a/libvoikko/src/spellchecker/SpellerCache.cpp
+++ b/libvoikko/src/spellchecker/SpellerCache.cpp
@@ -58,11 +58,11 @@ static const int VOIKKO_META_OFFSETS[]  =  {0,   0, 1*16, 1*48, 1*112, 1*240,  1
  * @return integer from range [0, 2^order - 1]
  */
 static int voikko_hash(const wchar_t * word, size_t len, int order) {
-	int hash = 0;
+	unsigned int hash = 0;
 	for (size_t counter = 0; counter < len; counter++) {
-		hash = (hash * 37 + word[counter]) % (1 << order);
+		hash = (hash * 37 + static_cast<unsigned int>(word[counter])) % (1u << order);
 	}
-	return hash;
+	return static_cast<int>(hash);
 }
 
 SpellerCache::SpellerCache(int sizeParam) : sizeParam(sizeParam) {
-- 
2.43.0


From 0ce37af6823970c14b6462923438c9614d45a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:55 +0000
Subject: [PATCH 35/36] fix: spell and check words whose analysis has no
 STRUCTURE attribute

If the index of a dictionary with the plain vfst morphology does not name
another speller, suggestion or grammar backend (or the end of the index was
lost) the Finnish components followed a null pointer.
---
 libvoikko/src/grammar/FinnishAnalysis.cpp                  | 2 +-
 libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp | 4 ++++
 libvoikko/src/spellchecker/SpellUtils.cpp                  | 4 ++++
 libvoikko/src/spellchecker/SpellWithPriority.cpp           | 3 +++
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/grammar/FinnishAnalysis.cpp b/libvoikko/src/grammar/FinnishAnalysis.cpp
index 638dd86..af4fd06 100644
--- a/libvoikko/src/grammar/FinnishAnalysis.cpp
+++ b/libvoikko/src/grammar/FinnishAnalysis.cpp
@@ -91,7 +91,7 @@ void FinnishAnalysis::analyseToken(Token * token) {
 		const wchar_t * sijamuoto = (*it)->getValue(morphology::Analysis::Key::SIJAMUOTO);
 		const wchar_t * possibleGeographicalName = (*it)->getValue(morphology::Analysis::Key::POSSIBLE_GEOGRAPHICAL_NAME);
 		const wchar_t * requireFollowingVerb = (*it)->getValue(morphology::Analysis::Key::REQUIRE_FOLLOWING_VERB);
-		if (wcslen(structure) < 2 || (structure[1] != L'p' &&
+		if (!structure || wcslen(structure) < 2 || (structure[1] != L'p' &&
 		    structure[1] != L'q')) {
 			// Word may start with a capital letter anywhere
 			token->firstLetterLcase = false;
diff --git a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp
index 7380f65..4a720ed 100644
--- a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp
+++ b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp
@@ -149,6 +149,10 @@ spellresult FinnishSpellerTweaksWrapper::spellWithoutSoftHyphen(const wchar_t *
 		list<Analysis *>::const_iterator it = analyses->begin();
 		while (it != analyses->end()) {
 			const wchar_t * structure = (*it)->getValue(Analysis::Key::STRUCTURE);
+			if (!structure) {
+				++it;
+				continue;
+			}
 			size_t j = 0;
 			size_t i;
 			for (i = 0; i < leading_len; i++) {
diff --git a/libvoikko/src/spellchecker/SpellUtils.cpp b/libvoikko/src/spellchecker/SpellUtils.cpp
index 51d3679..5829472 100644
--- a/libvoikko/src/spellchecker/SpellUtils.cpp
+++ b/libvoikko/src/spellchecker/SpellUtils.cpp
@@ -35,6 +35,10 @@ namespace libvoikko { namespace spellchecker {
 
 spellresult SpellUtils::matchWordAndAnalysis(const wchar_t * word,
         size_t len, const wchar_t * structure) {
+	if (!structure) {
+		// Nothing is known about the character case
+		return SPELL_OK;
+	}
 	char captype; /* 'i' = uppercase letter, 'p' = lowercase letter, 'v' = punctuation */
 	spellresult result = SPELL_OK;
 	size_t j = 0;
diff --git a/libvoikko/src/spellchecker/SpellWithPriority.cpp b/libvoikko/src/spellchecker/SpellWithPriority.cpp
index cf81ee6..58dcd8d 100644
--- a/libvoikko/src/spellchecker/SpellWithPriority.cpp
+++ b/libvoikko/src/spellchecker/SpellWithPriority.cpp
@@ -113,6 +113,9 @@ static int getPriorityFromWordClassAndInflection(const Analysis * analysis) {
 
 static int getPriorityFromStructure(const wchar_t * structure) {
 	int countParts = 0;
+	if (!structure) {
+		return 1;
+	}
 	for (size_t j = 0; structure[j] != L'\0'; j++) {
 		if (structure[j] == L'=') {
 			++countParts;
-- 
2.43.0


From db4b06deda88ee134787fac445ea74dd8d583326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:39 +0000
Subject: [PATCH 36/36] fix: suggestions for a word that normalises to one
 character overran its buffer

---
 libvoikko/src/spellchecker/suggestions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/src/spellchecker/suggestions.cpp b/libvoikko/src/spellchecker/suggestions.cpp
index b76d612..dc58113 100644
--- a/libvoikko/src/spellchecker/suggestions.cpp
+++ b/libvoikko/src/spellchecker/suggestions.cpp
@@ -95,6 +95,10 @@ VOIKKOEXPORT wchar_t ** voikkoSuggestUcs4(VoikkoHandle * options, const wchar_t
 		return 0;
 	}
 	wlen = wcslen(nword);
+	if (wlen <= 1) {
+		delete[] nword;
+		return 0;
+	}
 	
 	if (options->ignore_dot) {
 		if (wlen == 2) {
-- 
2.43.0

