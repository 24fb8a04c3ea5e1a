// C05 initialisation under I/O faults, C06 damaged files, C08 conservation of resources, C11 allocation failure
#include "world.hpp"
#include "scen.hpp"
#include <algorithm>
using namespace sim;
static std::string num(uint64_t v) { return std::to_string(v); }
static const std::vector<std::string> allDicts = {"standard", "vfstd", "bestd", "wvfst", "bevfst", "svfst", "okd", "nogc", "mixd", "mixw"};
static const char * REAL = "real: all of libvoikko (unmodified sources, instrumented), libstdc++, glibc; simulated: file system with injected failures, environment, user database, heap";

static void addIoFault(Case & c, Gen & g, int op) {
	static const std::vector<int> kinds = {F_OPEN, F_OPEN, F_OPEN, F_FSTAT, F_FSTAT, F_MMAP, F_MMAP, F_READ_ERR, F_READ_SHORT, F_READ_SHORT, F_OPENDIR, F_READDIR, F_SEEK, F_GETPW};
	int k = g.r.pick(kinds);
	static const std::vector<int> errs = {0, 5, 12, 13, 23, 24};   // EIO ENOMEM EACCES ENFILE EMFILE
	uint64_t nth = 1 + g.r.below(k == F_OPEN ? 14 : k == F_READ_ERR || k == F_READ_SHORT ? 10 : k == F_OPENDIR ? 6 : k == F_READDIR ? 8 : k == F_GETPW ? 1 : 4);
	if (k == F_READ_SHORT) {
		c.faults.push_back(mkFault(k, nth, 1 + (int)g.r.below(360), op));
		// a file that fails after its beginning was read
		if (g.r.chance(2, 3)) c.faults.push_back(mkFault(F_READ_ERR, nth + 1, 5, op));
		return;
	}
	c.faults.push_back(mkFault(k, nth, k == F_GETPW ? 0 : g.r.pick(errs), op));
}

// ---------------------------------------------------------------- C05
struct InitFaultScenario : Scenario {
	std::string prop() const override { return "C05"; }
	void setup() override { commonSetup(); }
	Case gen(uint64_t seed, bool) override {
		Gen g(seed);
		Case c;
		c.prop = "C05";
		c.seed = seed;
		c.garbage = g.r.next();
		c.reuse = (int)g.r.below(3);
		// a tree of its own with a few dictionaries
		c.add(0, {"fs", "remove", "/dict"});
		std::vector<std::string> have;
		for (auto & d : allDicts) if (g.r.chance(1, 2)) have.push_back(d);
		if (have.empty()) have.push_back("standard");
		// one dictionary whose index cannot be read to its end
		bool cutIndex = g.r.chance(1, 5);
		if (cutIndex) { static const std::vector<std::string> one = {"nogc", "nogc", "wvfst", "mixw", "mixw", "mixd", "adapd", "okd", "svfst", "standard"}; have = {g.r.pick(one)}; }
		for (auto & d : have) c.add(0, {"fs", "dict", d, "/dict/5/mor-" + d});
		if (!cutIndex && g.r.chance(1, 3)) { std::string d = g.r.pick(allDicts); c.add(0, {"fs", "dict", d, "/home/user/.voikko/5/mor-" + d}); have.push_back(d); }
		if (!cutIndex && g.r.chance(1, 3)) { std::string d = g.r.pick(allDicts); c.add(0, {"fs", "dict", d, "/sys1/5/mor-" + d}); have.push_back(d); }
		c.add(0, {"fs", "order", num(g.r.chance(1, 2) ? 0 : g.r.next() >> 1)});
		if (g.r.chance(1, 4)) c.add(0, {"fs", "env", "VOIKKO_DICTIONARY_PATH", g.r.chance(1, 2) ? "/sys1" : "/nothing:/dict"});
		std::string dict = g.r.pick(have);
		std::string tag = g.r.chance(1, 4) ? "fi" : tagOf(dict);
		std::string path = g.r.chance(1, 6) ? "<null>" : "/dict";
		size_t n = 1 + g.r.below(3);
		int sugg = g.r.chance(1, 3) ? 1 : 0;
		for (size_t i = 0; i < n; i++) {
			int op = c.add(0, {"init", "f" + num(i), tag, path});
			size_t nf = 1 + (g.r.chance(1, 3) ? g.r.below(3) : 0);
			if (cutIndex) {
				size_t n = dictFile(dict, "index.txt").size();
				c.faults.push_back(mkFault(F_READ_SHORT, 1, 1 + (int)g.r.below(n), op));
				if (g.r.chance(4, 5)) c.faults.push_back(mkFault(F_READ_ERR, 2, 5, op));
			}
			else for (size_t k = 0; k < nf; k++) addIoFault(c, g, op);
			addBattery(c, g, 0, "f" + num(i), dict, i == 0 ? sugg : 0);
			if (g.r.chance(3, 4)) c.add(0, {"term", "f" + num(i)});
		}
		c.add(0, {"init", "clean", tag, path});
		addBattery(c, g, 0, "clean", dict, 0);
		return c;
	}
	void exec(const Case & c, Out & o) override {
		Api api;
		runOps(c, o, api, false);
		for (auto & h : api.h) if (h.second) { Op e; e.a = {"term", h.first}; api.doOp(e); }
	}
	// the world of the case with some changes, then one handle and its queries
	struct World { std::vector<std::vector<std::string>> changes; };
	static Out handleAlone(const Case & c, const std::string & h, const World & w) {
		Case r = c;
		r.faults.clear();
		r.ops.clear();
		r.garbage = c.garbage * 5 + 1;
		r.reuse = (c.reuse + 1) % 3;
		for (auto & op : c.ops) {
			if (op.a[0] == "fs") r.ops.push_back(op);
			else if (op.a.size() > 1 && op.a[1] == h) {
				if (op.a[0] == "init") for (auto & ch : w.changes) { Op x; x.id = -1; x.a = ch; r.ops.push_back(x); }
				r.ops.push_back(op);
			}
		}
		return runChild(r, [](const Case & k, Out & out) { secondLib = true; Api api; runOps(k, out, api, false); });
	}
	static bool agrees(const Case & c, const Out & o, const Out & ref, const std::string & h, std::string & why) {
		for (auto & op : c.ops) {
			if (op.a[0] == "fs" || op.a.size() < 2 || op.a[1] != h) continue;
			const std::string * a = o.find(op.id), * b = ref.find(op.id);
			if (!a || !b || *a != *b) {
				why = "operation " + std::to_string(op.id) + " " + op.a[0] + " " + (op.a.size() > 2 ? op.a[2].substr(0, 60) : "") + ": '" + (a ? a->substr(0, 150) : "") + "' instead of '" + (b ? b->substr(0, 150) : "") + "'";
				return false;
			}
		}
		return true;
	}
	Verdict check(const Case & c, const Out & o) override {
		std::set<std::string> handles;
		for (auto & op : c.ops) if (op.a[0] == "init") handles.insert(op.a[1]);
		for (auto & op : c.ops) {
			const std::string * r = o.find(op.id);
			if (r && r->compare(0, 9, "exception") == 0) return Verdict{"exception", op.a[0] + ": " + *r};
			if (op.a[0] == "init" && r && *r != "ok" && *r != "skip" && (r->compare(0, 7, "error: ") != 0 || r->size() < 8)) return Verdict{"bad-init-result", *r};
		}
		// which files were hit by a fault (of all initialisations: a superset for each one)
		std::vector<std::vector<std::vector<std::string>>> options;
		std::set<std::string> seen;
		for (auto & fp : o.firedPaths) {
			if (!seen.insert(fp).second) continue;
			size_t sp = fp.find(' ');
			std::string kind = fp.substr(0, sp), path = fp.substr(sp + 1);
			if (kind == "read_short") continue;
			if (kind == "getpw") { options.push_back({{"fs", "home", ""}}); continue; }
			std::vector<std::vector<std::string>> alt;
			alt.push_back({"fs", "remove", path});
			if (kind == "readdir") {
				// an incomplete listing: as if only one of the entries were there
				std::set<std::string> kids;
				for (auto & op : c.ops) if (op.a[0] == "fs" && op.a[1] == "dict" && op.a[3].compare(0, path.size() + 1, path + "/") == 0) kids.insert(op.a[3].substr(path.size() + 1));
				for (auto & k : kids) { std::vector<std::string> x = {"only", path, k}; alt.push_back(x); }
			}
			options.push_back(alt);
		}
		for (auto & h : handles) {
			std::string why;
			Out full = handleAlone(c, h, World());
			if (full.crashed) return Verdict{"HARNESS", "reference: " + full.crashInfo};
			if (!full.violClass.empty()) return Verdict{"reference-" + full.violClass, full.violDetail};
			int initId = 0;
			for (auto & op : c.ops) if (op.a[0] == "init" && op.a[1] == h) initId = op.id;
			bool fired = o.kv.count("fired" + std::to_string(initId)) > 0;
			if (agrees(c, o, full, h, why)) continue;
			if (!fired) return Verdict{h == "clean" ? "no-recovery" : "unfaulted-difference", why};
			const std::string * ir = o.find(initId);
			if (ir && ir->compare(0, 7, "error: ") == 0) continue;
			// a handle over what could be read?
			std::vector<size_t> pos(options.size(), 0);
			bool ok = false;
			int tries = 0;
			while (!ok && tries < 100) {
				size_t i = 0;
				for (; i < pos.size(); i++) { if (++pos[i] <= options[i].size()) break; pos[i] = 0; }
				if (i == pos.size()) break;
				tries++;
				World w;
				for (size_t k = 0; k < pos.size(); k++) {
					if (!pos[k]) continue;
					auto & ch = options[k][pos[k] - 1];
					if (ch[0] == "only") {
						for (auto & op : c.ops) if (op.a[0] == "fs" && op.a[1] == "dict" && op.a[3].compare(0, ch[1].size() + 1, ch[1] + "/") == 0 && op.a[3].substr(ch[1].size() + 1) != ch[2]) w.changes.push_back({"fs", "remove", op.a[3]});
					}
					else w.changes.push_back(ch);
				}
				Out ref = handleAlone(c, h, w);
				if (ref.crashed) return Verdict{"HARNESS", "reference: " + ref.crashInfo};
				std::string w2;
				if (ref.violClass.empty() && agrees(c, o, ref, h, w2)) ok = true;
			}
			if (!ok) return Verdict{"partial-handle", "handle created under a fault does not answer like one over the readable files: " + why};
		}
		return Verdict();
	}
	bool opRemovable(const Op & o) override { return !(o.a[0] == "fs" && o.a[1] == "remove"); }
	bool nontrivial(const Case &, const Out & o) override { for (int k = 0; k < F_KINDS; k++) if (o.st.fired[k]) return true; return false; }
	std::string rule() const override { return "1-3 initialisations with 1-3 injected file-system failures each (open, opendir, readdir, read error, short read, fstat, mmap, lseek, user database) at random occurrences over random trees of 1-7 dictionaries, queries on whatever was returned, then an initialisation without faults; compared with faultless initialisations over the full tree and over the tree without the files that failed; non-trivial: a fault fired"; }
	std::string components() const override { return REAL; }
};
Scenario * makeC05() { return new InitFaultScenario(); }

// ---------------------------------------------------------------- damage shared by C06 and C08
static std::string addDamage(Case & c, Gen & g, const std::string & dict, const std::string & dir, bool any) {
	const auto & fs = dictFiles(dict);
	std::string f = g.r.pick(fs);
	if (f == "index.txt" && !g.r.chance(1, 4)) f = g.r.pick(fs);
	std::string p = dir + "/" + f;
	size_t n = dictFile(dict, f).size();
	size_t at;
	switch (g.r.below(6)) {
		case 0: at = g.r.below(std::min<size_t>(n, 64)); break;
		case 1: at = g.r.below(std::min<size_t>(n, 6000)); break;
		case 2: at = n - 1 - g.r.below(std::min<size_t>(n, 40)); break;
		case 3: at = n > 4096 ? 4096 * (1 + g.r.below(n / 4096)) : g.r.below(n); break;
		default: at = g.r.below(n);
	}
	uint64_t m = g.r.below(any ? 9 : 2);
	if (m == 0 || m == 5) c.add(0, {"fs", "trunc", p, num(at)});
	else if (m == 1) c.add(0, {"fs", "zero", p, num(at)});
	else if (m == 2) c.add(0, {"fs", "remove", p});
	else if (m == 3) c.add(0, {"fs", "deny", p});
	else if (m == 4) {
		// a file of the other kind
		std::string od = (dict == "standard" || dict == "vfstd" || dict == "bestd" || dict == "adapd") ? "wvfst" : "vfstd";
		c.add(0, {"fs", "copy", od, g.r.pick(dictFiles(od)), p});
	}
	else if (m == 6) c.add(0, {"fs", "put", p, "not a dictionary file\n"});
	else if (m == 7) {
		std::string s = dictFile(dict, f);
		size_t k = s.find("@P.");
		if (k != std::string::npos && k + 3 < s.size() && dict != "standard") { s[k + 1] = 0; c.add(0, {"fs", "put", p, s.substr(0, 60000)}); }
		else c.add(0, {"fs", "trunc", p, num(at)});
	}
	else {
		static const std::vector<std::string> idx = {
			"Voikko-Dictionary-Format: 5\nLanguage: fi-x-LL\nMorphology-Backend: nonsense\n",
			"Voikko-Dictionary-Format: 5\nLanguage: fi-x-LL\nSpeller-Backend: nonsense\n",
			"Voikko-Dictionary-Format: 5\nLanguage: fi-x-LL\nSuggestion-Backend: nonsense\n",
			"Voikko-Dictionary-Format: 5\nLanguage: fi-x-LL\nHyphenator-Backend: nonsense\n",
			"Voikko-Dictionary-Format: 5\nLanguage: fi-x-LL\nGrammar-Backend: nonsense\n",
			"Voikko-Dictionary-Format: 5\nLanguage: fi-x-LL\nMorphology-Backend: vfst\nSpeller-Backend: vfst\nSuggestion-Backend: vfst\n",
			"Voikko-Dictionary-Format: 5\nLanguage: fi-x-LL\nSpeller-Backend: vfst\nSuggestion-Backend: nonsense\nGrammar-Backend: null\n",
			"Voikko-Dictionary-Format: 5\nLanguage: fi-x-LL\nGrammar-Backend: null\nHyphenator-Backend: null\n",
			"Voikko-Dictionary-Format: 5\nLanguage: fi-x-LL\nMorphology-Backend: null\n",
			"Voikko-Dictionary-Format: 4\nLanguage: fi-x-LL\n", "", "Voikko-Dictionary-Format: 5"};
		std::string s = g.r.pick(idx);
		size_t k = s.find("LL");
		if (k != std::string::npos) s.replace(k, 2, dict);
		c.add(0, {"fs", "put", dir + "/index.txt", s});
	}
	return p;
}

// ---------------------------------------------------------------- C06
struct DamageScenario : Scenario {
	std::string prop() const override { return "C06"; }
	void setup() override { commonSetup(); }
	Case gen(uint64_t seed, bool thorough) override {
		Gen g(seed);
		Case c;
		c.prop = "C06";
		c.seed = seed;
		c.garbage = g.r.next();
		c.reuse = (int)g.r.below(3);
		c.seti("steplimit", 3000000000ll);
		c.seti("idlelimit", 1500000000ll);
		c.seti("softlimit", 1);
		static const std::vector<std::string> dl = {"vfstd", "bestd", "bestd", "wvfst", "wvfst", "bevfst", "svfst", "svfst", "standard", "mixw", "mixd"};
		std::string dict = g.r.pick(dl);
		std::string dir = "/dict/5/mor-" + dict;
		addDamage(c, g, dict, dir, false);
		if (g.r.chance(1, 10)) addDamage(c, g, dict, dir, false);
		c.add(0, {"listd", "/dict"});
		c.add(0, {"init", "h", tagOf(dict), "/dict"});
		bool w = isWeighted(dict);
		size_t n = 1 + g.r.below(thorough ? 4 : 2);
		for (size_t i = 0; i < n; i++) addBattery(c, g, 0, "h", dict, w ? 2 : (i == 0 && g.r.chance(1, 4)) ? 1 : 0);
		for (int i = 0; i < 6; i++) { c.add(0, {"spell", "h", g.word(dict)}); c.add(0, {"ana", "h", g.word(dict)}); }
		c.add(0, {"term", "h"});
		return c;
	}
	void exec(const Case & c, Out & o) override {
		Api api;
		runOps(c, o, api, false);
		Op e;
		e.a = {"term", "h"};
		api.doOp(e);
	}
	Verdict check(const Case & c, const Out & o) override {
		for (auto & op : c.ops) {
			const std::string * r = o.find(op.id);
			if (r && r->compare(0, 9, "exception") == 0) return Verdict{"exception", op.a[0] + ": " + *r};
			if (op.a[0] == "init" && r && *r != "ok" && *r != "skip" && (r->compare(0, 7, "error: ") != 0 || r->size() < 8)) return Verdict{"bad-init-result", *r};
		}
		return Verdict();
	}
	bool opRemovable(const Op & o) override { return o.a[0] != "init"; }
	std::string rule() const override { return "one (sometimes two) dictionary files cut at a random byte, or zero-filled from it to the end (biased to headers, symbol tables, page boundaries and the last bytes), for weighted, unweighted and byte-swapped dictionaries; then listing, initialisation and a battery of all kinds of calls; heap accesses are checked, mapped files end in inaccessible guard pages, a step limit bounds every run; non-trivial: the damaged file was opened"; }
	std::string components() const override { return REAL; }
};
Scenario * makeC06() { return new DamageScenario(); }

// ---------------------------------------------------------------- C08
struct LeakScenario : Scenario {
	std::string prop() const override { return "C08"; }
	void setup() override { commonSetup(); }
	Case gen(uint64_t seed, bool thorough) override {
		Gen g(seed);
		Case c;
		c.prop = "C08";
		c.seed = seed;
		c.garbage = g.r.next();
		c.reuse = (int)g.r.below(3);
		static const std::vector<std::string> dl = {"vfstd", "bestd", "standard", "wvfst", "wvfst", "bevfst", "svfst", "adapd", "okd", "mixd", "mixw"};
		size_t nd = 1 + g.r.below(3);
		std::vector<std::string> ds;
		for (size_t i = 0; i < nd; i++) {
			std::string d = g.r.pick(dl);
			if (d != "standard" && g.r.chance(1, 2) && std::find(ds.begin(), ds.end(), d) == ds.end()) addDamage(c, g, d, "/dict/5/mor-" + d, true);
			ds.push_back(d);
		}
		for (auto & op : c.ops) if (op.a[0] == "fs") c.seti("softlimit", 1);
		c.seti("maxsugg", g.r.chance(1, 2) ? 0 : 2);
		size_t n = 2 + g.r.below(thorough ? 10 : 5);
		std::vector<std::string> paras = {g.para(), g.para()};
		for (size_t i = 0; i < n; i++) {
			std::string h = "h" + num(g.r.below(3));
			std::string d = g.r.pick(ds);
			uint64_t k = g.r.below(10);
			if (k < 6) {
				std::string tag = g.r.chance(1, 12) ? "fi" : g.r.chance(1, 12) ? "fi-x-nosuch" : g.r.chance(1, 20) ? "<null>" : tagOf(d);
				static const std::vector<std::string> paths = {"/dict", "/dict", "/dict", "../dict", "../dict/", "./../dict", "/dict/", "/dict/."};
				int op = c.add(0, {"init", h, tag, g.r.pick(paths)});
				if (g.r.chance(1, 2)) { size_t nf = 1 + g.r.below(2); while (nf--) addIoFault(c, g, op); }
				auto pool = wordPool(g, d, 3);
				size_t m = g.r.below(10);
				for (size_t j = 0; j < m; j++) { if (g.r.chance(1, 3)) addRandomOption(c, g, 0, h); else addRandomQuery(c, g, 0, h, d, pool, paras, 20); }
				if (g.r.chance(2, 3)) c.add(0, {"term", h});
			}
			else if (k == 6) { int op = c.add(0, {"listd", g.r.chance(1, 3) ? "/dict" : g.r.chance(1, 2) ? "../dict" : "<null>"}); if (g.r.chance(1, 2)) addIoFault(c, g, op); }
			else if (k == 7) { static const std::vector<std::string> kk = {"s", "h", "g"}; int op = c.add(0, {"listl", g.r.pick(kk), g.r.chance(1, 2) ? "/dict" : "../dict"}); if (g.r.chance(1, 2)) addIoFault(c, g, op); }
			else if (k == 8) { c.add(0, {"oinit", d, "/dict", num(g.r.below(4))}); c.add(0, {"ospell", "1", g.word(d)}); c.add(0, {"oterm", "1"}); }
			else c.add(0, {"term", h});
		}
		return c;
	}
	static bool oldUsable(const Op & op, bool open) { return op.a[0][0] != 'o' || op.a[0] == "oinit" || open; }
	void exec(const Case & c, Out & o) override {
		for (int pass = 0; pass < 3; pass++) {
			uint64_t seq = heapSeq();
			HeapMark m0 = heapLive();
			Api api;
			std::set<int> faulty;
			for (auto & f : c.faults) faulty.insert(f.op);
			bool oldOpen = false;
			for (auto & op : c.ops) {
				if (op.a[0] == "fs") { if (pass == 0) fsOp(op); continue; }
				if (!oldUsable(op, oldOpen)) continue;
				bool fl = faulty.count(op.id) > 0;
				beginOp(fl ? op.id : -1);
				arm(fl);
				std::string r = api.doOp(op);
				arm(false);
				if (op.a[0] == "oinit") oldOpen = r == "handle 1";
				if (op.a[0] == "oterm") oldOpen = false;
				if (pass == 0) o.res.push_back({op.id, r});
			}
			for (auto & h : api.h) if (h.second) { Op e; e.a = {"term", h.first}; api.doOp(e); }
			if (oldOpen) { Op e; e.a = {"oterm", "1"}; api.doOp(e); }
			HeapMark m1 = heapLive();
			if (openFds() || openMaps()) violation("file-leak", describeFds());
			// things created once per process may stay; anything that grows with every repetition is lost
			if (pass == 2 && m1.blocks > m0.blocks) violation("memory-leak", std::to_string(m1.blocks - m0.blocks) + " blocks, " + std::to_string(m1.bytes - m0.bytes) + " bytes per repetition: " + heapDescribeSince(seq));
		}
	}
	Verdict check(const Case & c, const Out & o) override {
		for (auto & op : c.ops) {
			const std::string * r = o.find(op.id);
			if (r && r->compare(0, 9, "exception") == 0) return Verdict{"exception", op.a[0] + ": " + *r};
		}
		return Verdict();
	}
	std::string rule() const override { return "random lifecycles (up to three handles, intact, damaged, wrong-kind and unreadable dictionaries, 0-2 file-system faults per initialisation or listing, option changes, queries, old API), run three times in one process; no file, directory or mapping may stay open after all handles are terminated and the number of live library blocks must not grow in the third repetition; non-trivial: at least one handle was created or one initialisation failed"; }
	std::string components() const override { return REAL; }
	bool nontrivial(const Case &, const Out & o) override { for (auto & r : o.res) if (r.second.compare(0, 2, "ok") == 0 || r.second.compare(0, 5, "error") == 0) return true; return false; }
};
Scenario * makeC08() { return new LeakScenario(); }

// ---------------------------------------------------------------- C11
struct AllocScenario : Scenario {
	std::string prop() const override { return "C11"; }
	void setup() override { commonSetup(); preInit(); }
	Case gen(uint64_t seed, bool thorough) override {
		Gen g(seed);
		Case c;
		c.prop = "C11";
		c.seed = seed;
		c.garbage = g.r.next();
		c.reuse = (int)g.r.below(3);
		static const std::vector<std::string> dl = {"standard", "vfstd", "bestd", "wvfst", "wvfst", "bevfst", "svfst", "adapd", "okd", "mixd", "mixw"};
		std::string dict = g.r.pick(dl);
		auto pool = wordPool(g, dict, 3 + g.r.below(4));
		std::vector<std::string> paras = {g.para(), g.para()};
		c.seti("maxsugg", g.r.chance(1, 2) ? 0 : dict[1] != 'v' && dict != "bevfst" ? 1 : 4);
		auto fault = [&](int op) {
			size_t k = 1 + (g.r.chance(1, 6) ? 1 : 0);
			while (k--) c.faults.push_back(mkFault(F_ALLOC, 1 + g.r.below(1ull << g.r.below(op == 1 ? 13 : 9)), 0, op));
		};
		bool fresh = g.r.chance(1, 3);
		int id = c.add(0, {fresh ? "init" : "attach", "h", tagOf(dict), "/dict"});
		if (fresh && g.r.chance(3, 4)) fault(id);
		size_t n = 6 + g.r.below(thorough ? 40 : 20);
		if (g.r.chance(1, 3)) {
			// options away from their defaults, a call that fails, then calls on which each of the options has an effect
			for (size_t i = 1 + g.r.below(4); i > 0; i--) {
				int o, v;
				g.boolOption(o, v);
				c.add(0, {"bool", "h", num((uint64_t)(g.r.chance(1, 4) ? (int)VOIKKO_OPT_IGNORE_DOT : o)), num(o == VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE || o == VOIKKO_OPT_ACCEPT_ALL_UPPERCASE || o == VOIKKO_OPT_IGNORE_NONWORDS || o == VOIKKO_OPT_HYPHENATE_UNKNOWN_WORDS ? 0 : 1)});
			}
			std::string w = isWeighted(dict) ? g.r.pick(mat.wwords) : g.r.pick(mat.good), odd = g.r.pick(mat.bad);
			std::string up = w;
			for (auto & ch : up) ch = (char)toupper((unsigned char)ch);
			std::vector<std::string> text = {"Koira on. Kissa ei.", "koira juoksi. Se on", "- Koira ja kissa", g.para()};
			size_t rounds = 2 + g.r.below(4);
			for (size_t i = 0; i < rounds; i++) {
				size_t at = c.ops.size();
				if (g.r.chance(1, 2)) c.add(0, {"gc", "h", g.r.chance(1, 2) ? g.r.pick(text) : g.r.pick(paras)});
				else addRandomQuery(c, g, 0, "h", dict, pool, paras, 10);
				for (; at < c.ops.size(); at++) fault(c.ops[at].id);
				std::vector<std::vector<std::string>> probes = {{"spell", "h", w + "."}, {"hyph", "h", w + "."}, {"tok", "h", "koira. " + w + "."}, {"sent", "h", "koira. " + w + ". Se."}, {"spell", "h", up}, {"spell", "h", w + "1"},
					{"spell", "h", odd}, {"spell", "h", "-" + w}, {"spell", "h", w.size() > 4 ? w.substr(0, 3) + "-" + w.substr(3) : w}, {"spell", "h", "a@" + w + ".fi"}, {"hyph", "h", odd}, {"hyph", "h", w}, {"gc", "h", g.r.pick(text)}, {"spellw", "h", "kuorma"}, {"spell", "h", "ilmais"}};
				for (size_t k = 0; k < 4; k++) c.add(0, g.r.pick(probes));
				c.add(0, probes[g.r.below(4)]);
			}
			c.add(0, {"term", "h"});
			return c;
		}
		for (size_t i = 0; i < n; i++) {
			int before = c.ops.back().id;
			uint64_t k = g.r.below(100);
			if (k < 22) addRandomOption(c, g, 0, "h");
			else if (k < 24) c.add(0, {"listd", "/dict"});
			else if (k < 26) c.add(0, {"listl", "s", "/dict"});
			else if (k < 28) { c.add(0, {"term", "h"}); c.add(0, {"init", "h", tagOf(dict), "/dict"}); }
			else if (k < 40) {
				// the old interface copies results to malloc
				switch (g.r.below(7)) {
					case 0: case 1: c.add(0, {"oinit", dict, "/dict", num(g.r.below(2))}); break;
					case 2: c.add(0, {"ohyph", "1", g.r.pick(pool)}); break;
					case 3: c.add(0, {"ogc", "1", g.r.pick(paras), "0", num(g.r.below(2))}); break;
					case 4: { std::string w = g.r.pick(pool); c.add(0, {"osugg", "1", (dict[1] != 'v' && dict != "bevfst") || w.size() > 14 ? "kissq" : w}); break; }
					case 5: c.add(0, {"oana", "1", g.r.pick(pool)}); break;
					case 6: c.add(0, {"oterm", "1"}); break;
				}
			}
			else addRandomQuery(c, g, 0, "h", dict, pool, paras, 35);
			(void)before;
			if (g.r.chance(2, 5)) fault(c.ops.back().id);
		}
		c.add(0, {"term", "h"});
		return c;
	}
	void exec(const Case & c, Out & o) override {
		Api api;
		runOps(c, o, api, true);
		Op e;
		e.a = {"term", "h"};
		api.doOp(e);
	}
	static Op cut(const Op & o) {
		Op r = o;
		if (o.a[0] == "gcn") { std::wstring w = wide(o.a[2]); size_t n = (size_t)atoi(o.a[3].c_str()); if (n < w.size()) w.resize(n); r.a[2] = narrow(w.c_str(), w.size()); }
		return r;
	}
	Verdict check(const Case & c, const Out & o) override {
		OptTracker tr;
		std::vector<RefQuery> q;
		std::vector<size_t> at;
		for (size_t i = 0; i < c.ops.size(); i++) {
			const Op & op = c.ops[i];
			const std::string & r = o.res[i].second;
			auto fi = o.kv.find("fired" + std::to_string(op.id));
			if (fi != o.kv.end() && fi->second.compare(0, 9, "exception") == 0 && fi->second != "exception bad_alloc") return Verdict{"wrong-exception", op.a[0] + ": " + fi->second};
			if (r == "faulted") continue;
			if (r.compare(0, 9, "exception") == 0) return Verdict{"exception", op.a[0] + " without a failing allocation: " + r};
			if (op.a[0] == "init" && r != "ok" && r != "skip") return Verdict{"no-recovery", "initialisation without faults: " + r};
			if (isQuery(op.a[0]) && r != "skip") {
				auto & l = tr.lang[op.a[1]];
				q.push_back(RefQuery{l.first, l.second, tr.st[op.a[1]], cut(op)});
				at.push_back(i);
			}
			else tr.apply(op, r);
		}
		auto ans = refAnswers(c, q);
		for (size_t i = 0; i < q.size(); i++) {
			const std::string & got = o.res[at[i]].second;
			if (ans[i].compare(0, 8, "!harness") == 0) return Verdict{"HARNESS", ans[i]};
			if (ans[i].size() && ans[i][0] == '!') return Verdict{"reference-" + ans[i].substr(1, ans[i].find(' ') - 1), ans[i]};
			if (got != ans[i]) return Verdict{"lasting-damage", "after failed allocations operation " + std::to_string(q[i].op.id) + " " + q[i].op.a[0] + " '" + q[i].op.a[2].substr(0, 60) + "' answered '" + got.substr(0, 200) + "', an undisturbed handle answers '" + ans[i].substr(0, 200) + "'"};
		}
		return Verdict();
	}
	bool nontrivial(const Case &, const Out & o) override { return o.st.fired[F_ALLOC] > 0; }
	std::string rule() const override { return "random histories of initialisations, option changes and queries in which the nth allocation of about 40 percent of the calls fails (n drawn log-uniformly up to 256, 4096 for initialisation); failed option and init calls are repeated without the fault; every later answer is compared with a fresh undisturbed handle, memory accesses and frees are checked throughout; non-trivial: an allocation failure fired"; }
	std::string components() const override { return REAL; }
};
Scenario * makeC11() { return new AllocScenario(); }
