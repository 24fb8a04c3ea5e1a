#include "api.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <errno.h>
#include <dirent.h>
#include <fcntl.h>
#include <exception>
#include <new>
#include <algorithm>
#include <typeinfo>
#include <voikko_deprecated.h>
#include "disp.hpp"
using namespace sim;

bool secondLib = false;
bool isWeighted(const std::string & d) { return d == "wvfst" || d == "bevfst" || d == "svfst" || d == "mixd" || d == "mixw"; }

std::wstring wide(const std::string & s) {
	std::wstring r;
	size_t i = 0;
	while (i < s.size()) {
		unsigned char c = (unsigned char)s[i];
		// the longer forms of the first UTF-8 carry the wide characters that are outside Unicode
		unsigned n = c < 0x80 ? 0 : c >= 0xFE ? 6 : c >= 0xFC ? 5 : c >= 0xF8 ? 4 : c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : c >= 0xC0 ? 1 : 0;
		uint32_t v = n == 0 ? c : n == 6 ? 0 : c & (0x3Fu >> n);
		i++;
		while (n-- && i < s.size()) v = (v << 6) | ((unsigned char)s[i++] & 0x3F);
		r += (wchar_t)v;
	}
	return r;
}
std::string narrow(const wchar_t * w, size_t n) {
	std::string r;
	for (size_t i = 0; i < n; i++) {
		uint32_t c = (uint32_t)w[i];
		if (c < 0x80) r += (char)c;
		else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 0x3F)); }
		else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | ((c >> 6) & 0x3F)); r += (char)(0x80 | (c & 0x3F)); }
		else {
			int n = c < 0x200000 ? 3 : c < 0x4000000 ? 4 : c < 0x80000000u ? 5 : 6;
			r += (char)(n == 6 ? 0xFE : (0xFF00 >> (n + 1) & 0xFF) | c >> (6 * n));
			while (n--) r += (char)(0x80 | (6 * n > 31 ? 0 : (c >> (6 * n)) & 0x3F));
		}
	}
	return r;
}

// arguments live in blocks of exactly their size so that over-reads are seen
struct CArg { char * p; explicit CArg(const std::string & s) { p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); } ~CArg() { free(p); } };
struct WArg { wchar_t * p; size_t n; explicit WArg(const std::string & s, bool nul = true) {
	std::wstring w = wide(s); n = w.size(); p = (wchar_t *)malloc((n + (nul ? 1 : 0)) * sizeof(wchar_t) + (nul ? 0 : (n ? 0 : 4)));
	memcpy(p, w.c_str(), (n + (nul ? 1 : 0)) * sizeof(wchar_t)); } ~WArg() { free(p); } };

// reading what the library handed out
static std::string cs(const char * p) {
	std::string r;
	for (;; p++) { touch(p, 1); if (!*p) return r; r += *p; }
}
static std::string wcs(const wchar_t * p) {
	const wchar_t * q = p;
	for (;; q++) { touch(q, sizeof(wchar_t)); if (!*q) break; }
	return narrow(p, (size_t)(q - p));
}
static std::string arr(char ** a) {
	if (!a) return "null";
	std::string r = "[";
	for (char ** p = a; ; p++) { touch(p, sizeof *p); if (!*p) break; r += cs(*p); r += '|'; }
	return r + "]";
}
static std::string num(long v) { return std::to_string(v); }
#define LIB(x) { stackGarbage(); InLib il; x; }

static std::string errText(VoikkoGrammarError * e) {
	std::string r;
	int code; size_t st, len; const char ** sg; char * msg;
	LIB(code = voikkoGetGrammarErrorCode(e));
	LIB(st = voikkoGetGrammarErrorStartPos(e));
	LIB(len = voikkoGetGrammarErrorLength(e));
	LIB(sg = voikkoGetGrammarErrorSuggestions(e));
	r = num(code) + "@" + num((long)st) + "+" + num((long)len) + ":" + arr((char **)sg);
	static const char * const langs[] = {"fi", "fi", "en", "en_US", "fi_FI", "xx"};
	LIB(msg = voikkoGetGrammarErrorShortDescription(e, langs[(st + len) % 6]));
	r += "(" + (msg ? cs(msg) : std::string("null")) + ")";
	if (msg) LIB(voikkoFreeErrorMessageCstr(msg));
	return r;
}
static std::string anaText(voikko_mor_analysis ** a) {
	if (!a) return "null";
	std::string r;
	for (int i = 0;; i++) {
		touch(a + i, sizeof *a);
		if (!a[i]) break;
		const char ** keys;
		LIB(keys = voikko_mor_analysis_keys(a[i]));
		std::vector<std::string> ks;
		for (const char ** k = keys; ; k++) { touch(k, sizeof *k); if (!*k) break; ks.push_back(cs(*k)); }
		std::sort(ks.begin(), ks.end());
		r += "{";
		for (auto & k : ks) {
			const wchar_t * v; char * c;
			LIB(v = voikko_mor_analysis_value_ucs4(a[i], k.c_str()));
			LIB(c = voikko_mor_analysis_value_cstr(a[i], k.c_str()));
			std::string sv = v ? wcs(v) : "null", sc = c ? cs(c) : "null";
			r += k + "=" + sv + (sc == sv ? "" : "!=" + sc) + ";";
			if (c) LIB(voikko_free_mor_analysis_value_cstr(c));
		}
		r += "}";
	}
	LIB(voikko_free_mor_analysis(a));
	return r;
}
static std::string dictsText(voikko_dict ** d) {
	if (!d) return "null";
	std::string r;
	for (int i = 0;; i++) {
		touch(d + i, sizeof *d);
		if (!d[i]) break;
		const char * l, * s, * v, * e;
		LIB(l = voikko_dict_language(d[i]));
		LIB(s = voikko_dict_script(d[i]));
		LIB(v = voikko_dict_variant(d[i]));
		LIB(e = voikko_dict_description(d[i]));
		r += "{" + cs(l) + "," + cs(s) + "," + cs(v) + "," + cs(e) + "}";
	}
	LIB(voikko_free_dicts(d));
	return r;
}

static std::string doOpInner(Api & api, const Op & o) {
	const std::string & k = o.a[0];
	auto A = [&](size_t i) -> const std::string & { static const std::string e; return i < o.a.size() ? o.a[i] : e; };
	auto I = [&](size_t i) { return atoi(A(i).c_str()); };
	if (k == "init" || k == "attach") {
		if (api.isOpen(A(1))) return "skip";
		if (k == "attach") if (VoikkoHandle * p = takePre(A(2), A(3))) { api.h[A(1)] = p; return "ok"; }
		static const char unset[] = "unset";
		const char * err = unset;
		VoikkoHandle * h = nullptr;
		CArg lang(A(2)), path(A(3));
		LIB(h = voikkoInit(&err, A(2) == "<null>" ? nullptr : lang.p, A(3) == "<null>" ? nullptr : path.p));
		if (h) {
			api.h[A(1)] = h;
			return err == unset ? "ok with error not reset" : err ? "ok with error " + cs(err) : "ok";
		}
		if (!err || err == unset) return "error without message";
		std::string m = cs(err);
		return m.empty() ? "error with empty message" : "error: " + m;
	}
	if (k == "listd") {
		CArg path(A(1));
		voikko_dict ** d;
		LIB(d = voikko_list_dicts(A(1) == "<null>" ? nullptr : path.p));
		return dictsText(d);
	}
	if (k == "listl") {
		CArg path(A(2));
		const char * p = A(2) == "<null>" ? nullptr : path.p;
		char ** r;
		if (A(1) == "s") LIB(r = voikkoListSupportedSpellingLanguages(p))
		else if (A(1) == "h") LIB(r = voikkoListSupportedHyphenationLanguages(p))
		else LIB(r = voikkoListSupportedGrammarCheckingLanguages(p));
		std::string s = arr(r);
		if (r) LIB(voikkoFreeCstrArray(r));
		return s;
	}
	if (k == "version") { const char * v; LIB(v = voikkoGetVersion()); return cs(v); }

	// old interface: the handle is a number
	if (k == "oinit") {
		int hn = -777;
		CArg lang(A(1)), path(A(2));
		const char * e;
		if (A(2) == "<null>") LIB(e = voikko_init(&hn, A(1) == "<null>" ? nullptr : lang.p, I(3)))
		else LIB(e = voikko_init_with_path(&hn, A(1) == "<null>" ? nullptr : lang.p, I(3), path.p));
		if (e) { std::string m = cs(e); return "error: " + m; }
		api.oldOpen.insert(hn);
		return "handle " + num(hn);
	}
	if (k == "oterm") { int r; api.oldOpen.erase(I(1)); LIB(r = voikko_terminate(I(1))); return num(r); }
	if (k[0] == 'o' && k.size() > 1) {
		int hn = I(1);
		// a number that is not in use must not be used except to terminate it
		if (!api.oldOpen.count(hn)) return "skip";
		if (k == "obool") { int r; LIB(r = voikko_set_bool_option(hn, I(2), I(3))); return num(r); }
		if (k == "oint") { int r; LIB(r = voikko_set_int_option(hn, I(2), I(3))); return num(r); }
		if (k == "ostr") { int r; CArg v(A(3)); LIB(r = voikko_set_string_option(hn, I(2), v.p)); return num(r); }
		if (k == "ospell") { CArg w(A(2)); int r; LIB(r = voikko_spell_cstr(hn, w.p)); return num(r); }
		if (k == "ospellw") { WArg w(A(2)); int r; LIB(r = voikko_spell_ucs4(hn, w.p)); return num(r); }
		if (k == "osugg") { CArg w(A(2)); char ** r; LIB(r = voikko_suggest_cstr(hn, w.p)); std::string s = arr(r); if (r) LIB(voikko_free_suggest_cstr(r)); return s; }
		if (k == "ohyph") { CArg w(A(2)); char * r; LIB(r = voikko_hyphenate_cstr(hn, w.p)); std::string s = r ? cs(r) : "null"; if (r) LIB(voikko_free_hyphenate(r)); return s; }
		if (k == "oana") { CArg w(A(2)); voikko_mor_analysis ** r; LIB(r = voikko_analyze_word_cstr(hn, w.p)); return anaText(r); }
		if (k == "osuggw") {
			WArg w(A(2));
			wchar_t ** r;
			LIB(r = voikko_suggest_ucs4(hn, w.p));
			if (!r) return "null";
			std::string s = "[";
			for (wchar_t ** p = r; ; p++) { touch(p, sizeof *p); if (!*p) break; s += wcs(*p) + "|"; }
			LIB(voikko_free_suggest_ucs4(r));
			return s + "]";
		}
		if (k == "ohyphw") { WArg w(A(2)); char * r; LIB(r = voikko_hyphenate_ucs4(hn, w.p)); std::string s = r ? cs(r) : "null"; if (r) LIB(voikko_free_hyphenate(r)); return s; }
		if (k == "oanaw") { WArg w(A(2)); voikko_mor_analysis ** r; LIB(r = voikko_analyze_word_ucs4(hn, w.p)); return anaText(r); }
		if (k == "osentc") {
			CArg t(A(2)); size_t n = 0; int ty;
			LIB(ty = (int)voikko_next_sentence_start_cstr(hn, t.p, A(2).size(), &n));
			return num(ty) + "," + num((long)n);
		}
		if (k == "ogcw") {
			WArg t(A(2));
			voikko_grammar_error e;
			LIB(e = voikko_next_grammar_error_ucs4(hn, t.p, t.n, (size_t)I(3), I(4)));
			std::string s = num(e.error_code) + "@" + num((long)e.startpos) + "+" + num((long)e.errorlen);
			if (e.error_code && e.suggestions) { s += arr(e.suggestions); LIB(voikko_free_suggest_cstr(e.suggestions)); }
			return s;
		}
		if (k == "otok") {
			CArg t(A(2)); size_t n = 0; int ty;
			LIB(ty = (int)voikko_next_token_cstr(hn, t.p, A(2).size(), &n));
			return num(ty) + "," + num((long)n);
		}
		if (k == "osent") {
			WArg t(A(2)); size_t n = 0; int ty;
			LIB(ty = (int)voikko_next_sentence_start_ucs4(hn, t.p, t.n, &n));
			return num(ty) + "," + num((long)n);
		}
		if (k == "ogc") {
			CArg t(A(2));
			voikko_grammar_error e;
			LIB(e = voikko_next_grammar_error_cstr(hn, t.p, A(2).size(), (size_t)I(3), I(4)));
			std::string s = num(e.error_code) + "@" + num((long)e.startpos) + "+" + num((long)e.errorlen);
			if (e.error_code && e.suggestions) { s += arr(e.suggestions); LIB(voikko_free_suggest_cstr(e.suggestions)); }
			return s;
		}
		return "badop";
	}

	auto it = api.h.find(A(1));
	if (it == api.h.end() || !it->second) return "skip";
	VoikkoHandle * h = it->second;
	if (k == "term") { it->second = nullptr; LIB(voikkoTerminate(h)); return "ok"; }
	if (k == "bool") { int r; LIB(r = voikkoSetBooleanOption(h, I(2), I(3))); return num(r); }
	if (k == "int") { int r; LIB(r = voikkoSetIntegerOption(h, I(2), I(3))); return num(r); }
	if (k == "spell") { CArg w(A(2)); int r; LIB(r = voikkoSpellCstr(h, w.p)); return num(r); }
	if (k == "spellw") { WArg w(A(2)); int r; LIB(r = voikkoSpellUcs4(h, w.p)); return num(r); }
	if (k == "sugg") { CArg w(A(2)); char ** r; LIB(r = voikkoSuggestCstr(h, w.p)); std::string s = arr(r); if (r) LIB(voikkoFreeCstrArray(r)); return s; }
	if (k == "suggw") {
		WArg w(A(2));
		wchar_t ** r;
		LIB(r = voikkoSuggestUcs4(h, w.p));
		if (!r) return "null";
		std::string s = "[";
		for (wchar_t ** p = r; ; p++) { touch(p, sizeof *p); if (!*p) break; s += wcs(*p) + "|"; }
		LIB(voikko_free_suggest_ucs4(r));
		return s + "]";
	}
	if (k == "hyph") { CArg w(A(2)); char * r; LIB(r = voikkoHyphenateCstr(h, w.p)); std::string s = r ? cs(r) : "null"; if (r) LIB(voikkoFreeCstr(r)); return s; }
	if (k == "hyphw") { WArg w(A(2)); char * r; LIB(r = voikkoHyphenateUcs4(h, w.p)); std::string s = r ? cs(r) : "null"; if (r) LIB(voikkoFreeCstr(r)); return s; }
	if (k == "ins") {
		CArg w(A(2)), hy(A(3));
		char * r;
		LIB(r = voikkoInsertHyphensCstr(h, w.p, hy.p, I(4)));
		std::string s = r ? cs(r) : "null";
		if (r) LIB(voikkoFreeCstr(r));
		return s;
	}
	if (k == "ana") { CArg w(A(2)); voikko_mor_analysis ** r; LIB(r = voikkoAnalyzeWordCstr(h, w.p)); return anaText(r); }
	if (k == "anaw") { WArg w(A(2)); voikko_mor_analysis ** r; LIB(r = voikkoAnalyzeWordUcs4(h, w.p)); return anaText(r); }
	if (k == "attr") { CArg n(A(2)); char ** r; LIB(r = voikkoGetAttributeValues(h, n.p)); std::string s = arr(r); if (r) LIB(voikkoFreeCstrArray(r)); return s; }
	if (k == "tok" || k == "sent") {
		// walk through the whole text
		bool tok = k == "tok";
		WArg t(A(2));
		size_t pos = 0;
		std::string s;
		while (pos <= t.n) {
			size_t n = 0;
			int ty;
			if (tok) LIB(ty = (int)voikkoNextTokenUcs4(h, t.p + pos, t.n - pos, &n))
			else LIB(ty = (int)voikkoNextSentenceStartUcs4(h, t.p + pos, t.n - pos, &n));
			s += num(ty) + "," + num((long)n) + " ";
			if (n == 0 || ty == 0) break;
			pos += n;
			if (!tok && ty == SENTENCE_NO_START) break;
		}
		return s;
	}
	if (k == "tokc" || k == "sentc") {
		CArg t(A(2));
		size_t n = 0;
		int ty;
		if (k == "tokc") LIB(ty = (int)voikkoNextTokenCstr(h, t.p, A(2).size(), &n))
		else LIB(ty = (int)voikkoNextSentenceStartCstr(h, t.p, A(2).size(), &n));
		return num(ty) + "," + num((long)n);
	}
	if (k == "gc") {
		// the way voikkogc and the language bindings walk through a paragraph
		CArg t(A(2));
		std::string s;
		for (int skip = 0; skip < 500; skip++) {
			VoikkoGrammarError * e;
			LIB(e = voikkoNextGrammarErrorCstr(h, t.p, A(2).size(), 0, skip));
			if (!e) break;
			int code;
			LIB(code = voikkoGetGrammarErrorCode(e));
			s += errText(e) + " ";
			LIB(voikkoFreeGrammarError(e));
			if (!code) break;
		}
		return s;
	}
	if (k == "gcn" || k == "gcnc") {
		// gcn handle text textlen startpos skip
		VoikkoGrammarError * e;
		if (k == "gcn") {
			WArg t(A(2));
			size_t n = (size_t)I(3);
			if (n > t.n) n = t.n;
			size_t sp = (size_t)I(4);
			if (sp > n) sp = n;
			LIB(e = voikkoNextGrammarErrorUcs4(h, t.p, n, sp, I(5)));
		}
		else {
			CArg t(A(2));
			size_t n = (size_t)I(3);
			if (n > A(2).size()) n = A(2).size();
			while (n < A(2).size() && n > 0 && ((unsigned char)A(2)[n] & 0xC0) == 0x80) n--;
			size_t sp = (size_t)I(4);
			if (sp > n) sp = n;
			LIB(e = voikkoNextGrammarErrorCstr(h, t.p, n, sp, I(5)));
		}
		if (!e) return "none";
		std::string s = errText(e);
		LIB(voikkoFreeGrammarError(e));
		return s;
	}
	return "badop";
}

std::string Api::doOp(const Op & o) {
	std::string r;
	try { r = doOpInner(*this, o); }
	catch (const std::bad_alloc &) { r = "exception bad_alloc"; }
	catch (const std::exception & e) { r = std::string("exception ") + typeid(e).name(); }
	catch (...) { r = "exception unknown"; }
	logText(std::to_string(o.id) + " " + o.a[0] + " -> " + r);
	return r;
}

static int fqPipe = -1;
static void fqWrite(const std::string & s) {
	size_t p = 0;
	while (p < s.size()) {
		ssize_t w = write(fqPipe, s.data() + p, s.size() - p);
		if (w < 0 && errno == EINTR) continue;
		if (w <= 0) break;
		p += (size_t)w;
	}
}
static void fqViolation(const char * cls, const char * detail) {
	fqWrite(std::string("!") + cls + " " + detail);
	_exit(0);
}
std::string forkQuery(const std::function<std::string()> & fn) {
	OutOfLib ol;
	int pf[2];
	if (pipe(pf)) { perror("pipe"); _exit(3); }
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); _exit(3); }
	if (pid == 0) {
		close(pf[0]);
		fqPipe = fcntl(pf[1], F_DUPFD_CLOEXEC, 180);
		close(pf[1]);
		onViolation = fqViolation;
		afterFork();
		std::string r = fn();
		fqWrite("=" + r);
		_exit(0);
	}
	close(pf[1]);
	std::string b;
	char buf[65536];
	while (true) {
		ssize_t r = read(pf[0], buf, sizeof buf);
		if (r < 0 && errno == EINTR) continue;
		if (r <= 0) break;
		b.append(buf, (size_t)r);
	}
	close(pf[0]);
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (b.empty()) return "!harness query child died";
	return b[0] == '=' ? b.substr(1) : b;
}

// ---------------------------------------------------------------- input material
Material mat;
void Material::load() {
	good = readLines(verifDir + "/data/words_good.txt");
	bad = readLines(verifDir + "/data/words_bad.txt");
	paras = readLines(verifDir + "/data/paras.txt");
	wwords = readLines(verifDir + "/data/words_w.txt");
	for (auto & w : good) for (size_t j = 2; j + 2 <= w.size(); j++) if (w[j] == w[j - 2] && w[j + 1] == w[j - 1] && strchr("aeiouy", w[j]) && strchr("bcdfghjklmnpqrstvwxz", w[j + 1])) { repeats.push_back(w); break; }
	repeats.push_back("ananas");
	repeats.push_back("popopisto");
	vwords = readLines(verifDir + "/data/words_v.txt");
}
const std::vector<int> boolOptions = {VOIKKO_OPT_IGNORE_DOT, VOIKKO_OPT_IGNORE_NUMBERS, VOIKKO_OPT_IGNORE_UPPERCASE,
	VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE, VOIKKO_OPT_ACCEPT_ALL_UPPERCASE, VOIKKO_OPT_NO_UGLY_HYPHENATION, VOIKKO_OPT_OCR_SUGGESTIONS,
	VOIKKO_OPT_IGNORE_NONWORDS, VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS, VOIKKO_OPT_ACCEPT_MISSING_HYPHENS, VOIKKO_OPT_ACCEPT_TITLES_IN_GC,
	VOIKKO_OPT_ACCEPT_UNFINISHED_PARAGRAPHS_IN_GC, VOIKKO_OPT_HYPHENATE_UNKNOWN_WORDS, VOIKKO_OPT_ACCEPT_BULLETED_LISTS_IN_GC};
std::string OptState::key() const {
	std::string s;
	for (auto & p : b) s += std::to_string(p.first) + "=" + std::to_string(p.second) + ",";
	return s + "m" + std::to_string(minLen);
}
void Gen::boolOption(int & opt, int & val) { opt = r.pick(boolOptions); val = (int)r.below(2); }

static std::string upperFirst(const std::wstring & w0) {
	std::wstring w = w0;
	if (!w.empty()) { wchar_t c = w[0]; if (c >= L'a' && c <= L'z') w[0] = c - 32; else if (c == 0xE4 || c == 0xF6 || c == 0xE5) w[0] = c - 32; }
	return narrow(w.c_str(), w.size());
}
static std::string upperAll(const std::wstring & w0) {
	std::wstring w = w0;
	for (auto & c : w) { if (c >= L'a' && c <= L'z') c -= 32; else if (c == 0xE4 || c == 0xF6 || c == 0xE5) c -= 32; }
	return narrow(w.c_str(), w.size());
}
// letters of other scripts, cases that depend on the locale, spaces, marks and characters outside the BMP
wchar_t Gen::strange() {
	static const std::vector<wchar_t> v = {0x10400, 0x10428, 0x1D400, 0x20000, 0x1F600, 0x10FFFF, 0x436, 0x416, 0x3C9, 0x3A9, 0x130, 0x131, L'I', L'i', 0xDF, 0x1E9E,
		0x100, 0x136, 0x139, 0x147, 0x17D, 0x17E, 0x160, 0x1C5, 0x1F8, 0x21E, 0x1E00, 0x4E2D, 0x5D0, 0x627, 0xA0, 0x2009, 0x3000, 0x1680, 0x2028, 0x85, 0x9, 0x301, 0x308, 0x200D,
		0xB5, 0xAA, 0xB2, 0x660, 0x967, 0x2160, 0x2019, 0x2018, 0x201D, 0x201C, 0xBB, 0xAB, 0x2013, 0x2014, 0x2026, 0x2212, 0xFB00, 0xFB03, 0x132, 0x1F1, 0x20AC, 0xA7, 0xFEFF, 0xFFFD,
		0xD800, 0x110000, 0x1FFFFF, 0x7FFFFFFF, (wchar_t)0x80000061u, (wchar_t)0xFFFFFFFFu};
	return r.pick(v);
}
std::string Gen::mutate(const std::string & s) {
	std::wstring w = wide(s);
	static const wchar_t odd[] = {L'a', L'e', L'i', L'k', L'n', L's', L't', L'y', 0xE4, 0xF6, L'-', L'.', L'\'', 0x2019, 0xAD, 0x161, L'1', L':', 0x2010, 0x2011, 0xFB01, 0x1F600, L'A', 0xC4, L'=', L'/', L'@'};
	if (!w.empty() && r.chance(1, 8)) { w[r.below(w.size())] = strange(); return narrow(w.c_str(), w.size()); }
	switch (r.below(9)) {
		case 0: if (!w.empty()) w[r.below(w.size())] = odd[r.below(sizeof odd / sizeof *odd)]; break;
		case 1: w.insert(w.begin() + (long)r.below(w.size() + 1), odd[r.below(sizeof odd / sizeof *odd)]); break;
		case 2: if (w.size() > 1) w.erase(w.begin() + (long)r.below(w.size())); break;
		case 3: if (w.size() > 1) { size_t i = r.below(w.size() - 1); std::swap(w[i], w[i + 1]); } break;
		case 4: return upperFirst(w);
		case 5: return upperAll(w);
		case 6: w += L'.'; break;
		case 7: if (r.chance(1, 2)) w = L"-" + w; else w += L'-'; break;
		case 8: if (w.size() > 2) {
			size_t i = 1 + r.below(w.size() - 1);
			// where a vowel and a consonant are repeated a hyphen means something
			for (size_t k = 2; k + 2 <= w.size(); k++) if (w[k] == w[k - 2] && w[k + 1] == w[k - 1] && w[k] != w[k + 1] && r.chance(2, 3)) i = k; w.insert(w.begin() + (long)i, L'-'); } break;
	}
	return narrow(w.c_str(), w.size());
}
std::string Gen::word(const std::string & dict) {
	bool wd = isWeighted(dict);
	if (!wd && r.chance(1, 25)) {
		// right only with the options about extra or missing hyphens
		static const std::vector<std::string> v = {"avo", "housu", "ilmais", "bosnialais", "ven\xc3\xa4l\xc3\xa4is", "aatoksis", "huoneis", "kahdeksankissa", "demokraattis-r", "vuotias", "kulmio", "keski", "suur", "y\xc3\xb6llis", "yl\xc3\xa4",
			"yl\xc3\xa4-paikka", "kissan-hiekka", "is\xc3\xa4-suomessa", "nopea-a", "kaksitoista-vuotias", "keski-ranska", "vir-he", "etel\xc3\xa4-afrikkalainen", "to-iskuista", "iiri-kauneusvoide"};
		std::string w = r.pick(v);
		if (r.chance(1, 3)) {
			// words that can follow any right word after a hyphen
			if (r.chance(1, 2)) { std::wstring x = wide(r.pick(mat.good)); if (x.size() > 4) x.insert(2 + r.below(x.size() - 3), 1, L'-'); w = narrow(x.c_str(), x.size()); }
			w += r.chance(1, 2) ? "-sana" : "-niminen";
		}
		return r.chance(1, 6) ? mutate(w) : w;
	}
	uint64_t k = r.below(100);
	std::string w;
	bool vd = dict == "vfstd" || dict == "bestd" || dict == "adapd";
	if (wd && k < 60) w = r.pick(mat.wwords);
	else if (vd && k < 40) w = r.pick(mat.vwords);
	else if (k < 50) w = r.pick(mat.good);
	else if (k < 70) w = r.pick(mat.bad);
	else if (k < 80) {
		w = r.pick(mat.good);
		std::string x = r.pick(mat.good);
		w += r.chance(1, 2) ? "-" + x : x;
	}
	else if (k < 81 && !mat.repeats.empty()) { w = r.pick(mat.repeats); size_t i = 2; for (size_t j = 2; j + 2 <= w.size(); j++) if (w[j] == w[j - 2] && w[j + 1] == w[j - 1]) i = j; w.insert(i, "-"); if (r.chance(1, 2)) return w; }
	else if (k < 85) { static const std::vector<std::string> v = {"", ".", "-", "--", "a", "ä", "1", "12", "3.", "A", "Å", "Z.", "x-", "-x", "%", "\xc2\xad", "\xc2\xad\xc2\xad", "a\xc2\xad" "b", "http://a.fi", "a@b.fi", "ALV:n", "EU-", "\xef\xac\x81", "kis\xc2\xadsa", "2000-luku", "1990-lukua", "\xf0\x9f\x98\x80",
		"pop-opisto", "an-anas", "popopisto", "syy-silta", "syys-ilta", "syysilta", "ja-sana", "kuorma-auto", "linja-autossa", "maa-ala", "kauko-ohjaus", "kaukoohjaus", "Etel\xc3\xa4-Suomi", "etel\xc3\xa4-suomi", "Pohjois-Karjalan",
		"Suur-Helsinki", "Ison-Britannian", "Jean-Paul", "Matti-Liisa", "esim.", "esim", "klo", "n.", "jne.", "EU:n", "EU:ssa", "HTML:\xc3\xa4\xc3\xa4", "5:n", "10:lle", "15.3.", "10-vuotias", "3/4", "1,5", "12.30", "+358", "XIV", "xiv",
		"kolmetuhatta", "kahdeskymmenesviides", "neljässadas", "tuhatkaksisataa", "saadaanko", "tekisitk\xc3\xb6h\xc3\xa4n", "talossanikaan", "vaa'an", "raa'asti", "koko'olla", "vaa\xe2\x80\x99" "an", "i\xc3\xa4n", "hy\xc3\xb6ty", "aie", "y\xc3\xb6", "\xc3\xa4iti", "auooo",
		"http://www.voikko.org/a?b=c", "www.fi", "a.b@c.fi", "a@b@c", "abc@", "@x", "\xe2\x80\x9dsana\xe2\x80\x9d", "'sana'", "(sana)", "sana!", "sana,", "...", "\xe2\x80\xa6", "a-", "-a-", "ab--cd", "a.b", "a..b", "a'", "''", "\xc2\xad" "a", "kis\xc2\xad", "ta-\xc2\xadlo"}; w = r.pick(v); }
	else if (k < 86) { size_t n = 1 + r.below(5); for (size_t i = 0; i < n; i++) { wchar_t ch = strange(); w += narrow(&ch, 1); } return w; }
	else if (k < 87) { size_t n = 240 + r.below(40); for (size_t i = 0; i < n; i++) w += (char)('a' + (char)r.below(26)); }
	else if (k < 88) { std::string x = r.pick(mat.good); while (w.size() < 60 + r.below(200)) w += x; }
	else w = r.pick(mat.good);
	while (r.chance(2, 5)) w = mutate(w);
	if (r.chance(1, 30)) {
		std::wstring x = wide(w);
		for (size_t n = 1 + r.below(2); n > 0 && x.size() > 2; n--) x.insert(1 + r.below(x.size() - 1), 1, L'\u00AD');
		w = narrow(x.c_str(), x.size());
	}
	if (r.chance(1, 25)) {
		// letters and combining marks apart, which the library puts together
		static const wchar_t pairs[][3] = {{0xE4, L'a', 0x308}, {0xF6, L'o', 0x308}, {0xE5, L'a', 0x30A}, {0xC4, L'A', 0x308}, {0x161, L's', 0x30C}, {0x17E, L'z', 0x30C}, {0xEB, L'e', 0x308}, {0xE9, L'e', 0x301}};
		std::wstring x, y = wide(w);
		if (r.chance(1, 4)) y = y.substr(0, r.below(4));
		if (y.size() < 4 && r.chance(1, 2)) y.insert(r.below(y.size() + 1), 1, pairs[r.below(8)][0]);
		for (wchar_t ch : y) { bool found = false; for (auto & q : pairs) if (ch == q[0] && !found) { x += q[1]; x += q[2]; found = true; } if (!found) x += ch; }
		w = narrow(x.c_str(), x.size());
	}
	if (r.chance(1, 50)) {
		// not UTF-8: stray, cut and overlong sequences, surrogates
		static const std::vector<std::string> v = {"\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xff", "\xa4", "\xc0\xaf", "\xed\xa0\x80"};
		size_t at = r.chance(1, 2) ? w.size() : r.below(w.size() + 1);
		w.insert(at, r.pick(v));
	}
	return w;
}
std::string Gen::para() {
	std::string p = r.pick(mat.paras);
	uint64_t k = r.below(10);
	if (k == 0) p = p + " " + r.pick(mat.paras);
	else if (k == 1 && p.size() > 3) { std::wstring w = wide(p); w.resize(1 + r.below(w.size())); p = narrow(w.c_str(), w.size()); }
	else if (k == 2) { size_t n = 1 + r.below(7); p.clear(); for (size_t i = 0; i < n; i++) { if (i) p += " "; p += word("standard"); } p += r.chance(2, 3) ? "." : ""; }
	else if (k == 3) p = mutate(p);
	else if (k == 7 && r.chance(1, 3)) { size_t n = 2 + r.below(9); p.clear(); for (size_t i = 0; i < n; i++) { if (i) p += r.chance(1, 8) ? ", " : " "; p += r.pick(mat.wwords); if (r.chance(1, 8)) p += " " + r.pick(mat.wwords); } p += r.chance(2, 3) ? "." : ""; if (r.chance(1, 2)) p[0] = (char)toupper((unsigned char)p[0]); }
	else if (k == 5 && r.chance(1, 2)) {
		// a long sentence of few different words, now and then around the limit of 500 tokens
		std::vector<std::string> few;
		for (size_t i = 0; i < 3; i++) few.push_back(word("standard"));
		bool huge = r.chance(1, 20);
		size_t n = huge ? 245 + r.below(12) : 10 + r.below(25);
		if (huge) few = {"a", "2", "ja"};
		p.clear();
		for (size_t i = 0; i < n; i++) { if (i) p += r.chance(1, 8) ? ", " : " "; p += r.pick(few); }
		p += r.chance(2, 3) ? "." : "";
	}
	else if (k == 4) { static const std::vector<std::string> pre = {"- ", "• ", "  ", "1. ", "(", "\"", "* ", "\t", "A) ", "a) ", "1) ", "\xe2\x80\x93 ", "\xe2\x80\x9d", "'", "...", "\xe2\x80\xa6 ", "\xc2\xa7 1 "}; p = r.pick(pre) + p; }
	else if (k == 6) {
		// pieces that are separated, quoted, listed or numbered, with addresses and odd characters among the words
		static const std::vector<std::string> sep = {" ", " ", " ", " ", "  ", ", ", ". ", "! ", "? ", "\t", ": ", "; ", " \xe2\x80\x93 ", "\xe2\x80\x94", "... ", "\xe2\x80\xa6", " (", ") ", "\" ", " \"", "\xe2\x80\x9d ", " \xe2\x80\x9d", "\xc2\xa0", ".) ", ".\" ", ",", ".", " ,", " .", "\n", " A) ", " b) ", " 2) ", " 1. ", "'", "/", "-", " -", "- ", "[", "]"};
		static const std::vector<std::string> bits = {"koira", "Koira", "KOIRA", "Helsinki", "helsinki", "Helsingin", "yliopisto", "Yliopisto", "ja", "ett\xc3\xa4", "on", "ei", "tulla", "meni", "Matti", "http://a.fi/b", "a.b@c.fi", "15.3.2012", "klo", "12.30", "5", "1,5", "esim.", "EU:n", "kissa kissa", "joten kuten", "esi merkiksi", "suomen", "Suomalainen", "maanantai", "Maanantai", "tammikuu", "x", "I", "\xc2\xad" "a", "kis\xc2\xadsa"};
		size_t n = 2 + r.below(14);
		p.clear();
		for (size_t i = 0; i < n; i++) {
			uint64_t b = r.below(20);
			if (b == 0) { wchar_t ch = strange(); p += narrow(&ch, 1); }
			else if (b < 4) p += word("standard");
			else p += r.pick(bits);
			p += r.pick(sep);
		}
		if (r.chance(1, 2)) p += ".";
	}
	else if (k == 7 && r.chance(1, 12)) {
		// sentences longer than any buffer meant for them
		std::string x = r.pick(mat.paras);
		if (r.chance(1, 2)) { size_t n = 200 + r.below(120); x.clear(); for (size_t i = 0; i < n; i++) x += (char)('a' + (char)r.below(26)); }
		size_t want = r.chance(1, 3) ? 19900 + r.below(400) : 2000 + r.below(4000);
		p.clear();
		while (p.size() < want) { p += x; p += " "; }
		if (r.chance(1, 2)) for (char & ch : p) if (ch == '.' || ch == '!' || ch == '?') ch = ',';
		p += ".";
	}
	return p;
}
std::string Gen::text() { return r.chance(1, 3) ? word("standard") : para(); }

static std::map<std::string, std::vector<std::string>> dfiles;
const std::vector<std::string> & dictFiles(const std::string & d) { return dfiles[d]; }
std::string dictFile(const std::string & d, const std::string & f) { return readFile(verifDir + "/dicts/" + d + "/" + f); }
void baseTree() {
	DIR * d = opendir((verifDir + "/dicts").c_str());
	if (!d) { perror("dicts"); exit(3); }
	std::vector<std::string> names;
	while (struct dirent * e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name);
	closedir(d);
	std::sort(names.begin(), names.end());
	for (auto & n : names) {
		std::string p = verifDir + "/dicts/" + n;
		d = opendir(p.c_str());
		std::vector<std::string> fs;
		while (struct dirent * e = readdir(d)) if (e->d_name[0] != '.') fs.push_back(e->d_name);
		closedir(d);
		std::sort(fs.begin(), fs.end());
		dfiles[n] = fs;
		for (auto & f : fs) {
			fsPut("/dict/5/mor-" + n + "/" + f, readFile(p + "/" + f));
		}
	}
	env.clear();
	homeDir = "/home/user";
	cwd = "/work";
	fsMkdirs("/work");
	fsMkdirs("/home/user");
	fsMkdirs("/tmp");
}
