// C13: live handles while the process and the disk around them change
#include "world.hpp"
#include "scen.hpp"
#include <algorithm>
#include <clocale>
#include <locale>
#include <locale.h>
#include <sstream>
using namespace sim;
static std::string num(uint64_t v) { return std::to_string(v); }

struct OddPunct : std::numpunct<char> {
	char do_decimal_point() const override { return ','; }
	char do_thousands_sep() const override { return '.'; }
	std::string do_grouping() const override { return "\1"; }
};
struct OddPunctW : std::numpunct<wchar_t> {
	wchar_t do_decimal_point() const override { return L','; }
	wchar_t do_thousands_sep() const override { return L'.'; }
	std::string do_grouping() const override { return "\1"; }
};
static const std::vector<std::string> locNames = {"fi_FI.UTF-8", "tr_TR.UTF-8", "de_DE.ISO-8859-1"};
static std::map<std::string, std::locale *> cppLoc;
static std::map<std::string, locale_t> cLoc;

static void localeOp(const std::string & what, const std::string & name) {
	if (what == "c") { if (!setlocale(LC_ALL, name.c_str())) violation("HARNESS", "setlocale " + name); }
	else if (what == "num") setlocale(LC_NUMERIC, name.c_str());
	else if (what == "ctype") setlocale(LC_CTYPE, name.c_str());
	else if (what == "use") uselocale(cLoc.count(name) ? cLoc[name] : LC_GLOBAL_LOCALE);
	else if (what == "cpp" && cppLoc.count(name)) std::locale::global(*cppLoc[name]);
}

struct LiveScenario : Scenario {
	std::string prop() const override { return "C13"; }
	void setup() override {
		commonSetup();
		setenv("LOCPATH", (verifDir + "/data/locale").c_str(), 1);
		for (auto & n : locNames) {
			locale_t l = newlocale(LC_ALL_MASK, n.c_str(), (locale_t)0);
			if (!l) { fprintf(stderr, "locale %s not available\n", n.c_str()); exit(3); }
			cLoc[n] = l;
			cppLoc[n] = new std::locale(n.c_str());
		}
		cppLoc["odd"] = new std::locale(std::locale(std::locale::classic(), new OddPunct), new OddPunctW);
		cppLoc["classic"] = new std::locale(std::locale::classic());
		// fill lazily created caches
		for (auto & p : cppLoc) { std::ostringstream o; o.imbue(*p.second); o << 1.5 << 1234567; std::wostringstream w; w.imbue(*p.second); w << 1.5 << 1234567; }
		for (auto & n : locNames) { setlocale(LC_ALL, n.c_str()); }
		setlocale(LC_ALL, "C.UTF-8");

	}
	static bool disturbance(const std::string & k) { return k == "fs" || k == "loc"; }
	void disturb(Case & c, Gen & g, std::vector<std::string> & dicts, int & xn) {
		static const std::vector<std::string> dl = {"standard", "vfstd", "bestd", "wvfst", "bevfst", "svfst"};
		std::string d = g.r.chance(3, 4) ? g.r.pick(dicts) : g.r.pick(dl);
		std::string dir = (g.r.chance(1, 5) ? "/work/rel/5/mor-" : "/dict/5/mor-") + d;
		switch (g.r.chance(1, 4) ? g.r.below(3) : g.r.below(14)) {
			case 0: { static const std::vector<std::string> k = {"c", "num", "ctype"}; static const std::vector<std::string> n = {"C", "C.UTF-8", "fi_FI.UTF-8", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "POSIX"}; c.add(0, {"loc", g.r.pick(k), g.r.pick(n)}); break; }
			case 1: { static const std::vector<std::string> n = {"odd", "odd", "classic", "fi_FI.UTF-8", "tr_TR.UTF-8", "de_DE.ISO-8859-1"}; c.add(0, {"loc", "cpp", g.r.pick(n)}); break; }
			case 2: { static const std::vector<std::string> n = {"tr_TR.UTF-8", "fi_FI.UTF-8", "de_DE.ISO-8859-1", "global"}; c.add(0, {"loc", "use", g.r.pick(n)}); break; }
			case 3: {
				static const std::vector<std::string> n = {"VOIKKO_DICTIONARY", "VOIKKO_DICTIONARY_PATH", "HOME", "LANG", "LC_ALL", "LC_NUMERIC", "TMPDIR"};
				static const std::vector<std::string> v = {"", "standard", "/none", "tr_TR.UTF-8", "/work/rel"};
				c.add(0, {"fs", "env", g.r.pick(n), g.r.pick(v)});
				break;
			}
			case 4: { static const std::vector<std::string> v = {"1", "0", "yes", "/none", ""}; c.add(0, {"fs", "envall", g.r.pick(v)}); break; }
			case 5: { static const std::vector<std::string> v = {"/", "/tmp", "/elsewhere", "/work"}; c.add(0, {"fs", "chdir", g.r.pick(v)}); break; }
			case 6: c.add(0, {"fs", "remove", g.r.chance(1, 3) ? dir : g.r.chance(1, 4) ? "/dict" : dir + "/" + g.r.pick(dictFiles(d))}); break;
			case 7: case 8: {
				// replaced by rename: a new file under the old name
				std::string f = g.r.pick(dictFiles(d)), od = g.r.pick(dl);
				uint64_t k = g.r.below(4);
				if (k == 0) c.add(0, {"fs", "put", dir + "/" + f, "garbage\n"});
				else if (k == 1) { if (f != "index.txt") c.add(0, {"fs", "trunc", dir + "/" + f, num(g.r.below(16))}); }
				else {
					// from a dictionary that has such a file
					auto has = [&](const std::string & n) { for (auto & x : dictFiles(n)) if (x == f) return true; return false; };
					if (!has(od) || od == d || (isWeighted(d) != isWeighted(od) && f != "index.txt" && f != "autocorr.vfst")) od = f == "autocorr.vfst" ? (d == "bestd" ? "vfstd" : "bestd") : !isWeighted(d) ? (d == "standard" ? "vfstd" : "standard") : d == "wvfst" ? "svfst" : "wvfst";
					c.add(0, {"fs", "copy", od, f, dir + "/" + f});
				}
				break;
			}
			case 9: c.add(0, {"fs", "dict", d, dir}); break;
			case 10: c.add(0, {"fs", "home", g.r.chance(1, 2) ? "" : "/root"}); break;
			case 11: case 12: {
				// another handle comes and goes, possibly in vain
				std::string h = "x" + num((uint64_t)xn++);
				int op = c.add(0, {"init", h, g.r.chance(1, 6) ? "fi-x-nonsuch" : tagOf(g.r.pick(dl)), "/dict"});
				if (g.r.chance(1, 2)) {
					static const std::vector<int> ks = {F_OPEN, F_MMAP, F_FSTAT, F_READ_ERR, F_ALLOC};
					int k = g.r.pick(ks);
					c.faults.push_back(mkFault(k, 1 + g.r.below(k == F_ALLOC ? 400 : k == F_OPEN ? 12 : 3), 5, op));
				}
				if (g.r.chance(1, 2)) addRandomOption(c, g, 0, h);
				if (g.r.chance(1, 2)) { c.add(0, {"spell", h, g.word("standard")}); c.add(0, {"gc", h, g.para()}); c.add(0, {"ana", h, g.word("wvfst")}); }
				if (g.r.chance(2, 3)) c.add(0, {"term", h});
				break;
			}
			case 13: c.add(0, {"listd", g.r.chance(1, 2) ? "/dict" : "<null>"}); break;
		}
	}
	Case gen(uint64_t seed, bool thorough) override {
		Gen g(seed);
		Case c;
		c.prop = "C13";
		c.seed = seed;
		c.garbage = g.r.next();
		c.reuse = (int)g.r.below(3);
		c.seti("softlimit", 1);
		static const std::vector<std::string> dl = {"standard", "standard", "vfstd", "bestd", "wvfst", "wvfst", "bevfst", "svfst", "adapd", "mixd", "mixw"};
		std::vector<std::string> dicts;
		struct H { std::string name, dict; };
		std::vector<H> hs;
		size_t nh = 1 + g.r.below(3);
		int xn = 0, hn = 0;
		std::vector<std::string> paras = {g.para(), g.para()};
		// text for which the autocorrect data and the analyses matter
		paras.push_back("Joten kuten k\xc3\xa4vi niin ett\xc3\xa4 ainoastaan h\xc3\xa4n suunnilleen hyv\xc3\xa4ksyttiin esi merkiksi.");
		// characters whose class or case depends on the locale
		auto odd = [&](size_t n, bool spaces) {
			std::string s;
			uint32_t base = g.r.chance(1, 3) ? 0x80 + (uint32_t)g.r.below(0x500) : g.r.chance(1, 2) ? (uint32_t)g.r.below(0x3000) : 0x10000 + (uint32_t)g.r.below(0x20000);
			bool near = g.r.chance(1, 2);
			for (size_t i = 0; i < n; i++) {
				wchar_t ch = near ? (wchar_t)(base + g.r.below(40)) : g.strange();
				if (ch == 0) ch = L'a';
				s += narrow(&ch, 1);
				if (spaces && g.r.chance(1, 3)) s += g.r.chance(1, 3) ? ". " : " ";
			}
			return s;
		};
		if (g.r.chance(2, 3)) paras.push_back(odd(3 + g.r.below(12), true));
		std::map<std::string, std::vector<std::string>> pools;
		auto open = [&]() {
			std::string d = g.r.pick(dl);
			bool rel = g.r.chance(1, 5);
			if (rel) c.add(0, {"fs", "dict", d, "/work/rel/5/mor-" + d});
			if (rel) c.add(0, {"fs", "chdir", "/work"});
			std::string h = "h" + num((uint64_t)hn++);
			c.add(0, {"init", h, tagOf(d), rel ? "rel" : "/dict"});
			hs.push_back(H{h, d});
			dicts.push_back(d);
			if (!pools.count(d)) {
				pools[d] = wordPool(g, d, 4);
				if (g.r.chance(1, 2)) pools[d].push_back(odd(1 + g.r.below(4), false));
				if (g.r.chance(1, 2)) pools[d].push_back(g.mutate(g.r.pick(pools[d])));
			}
		};
		for (size_t i = 0; i < nh; i++) open();
		c.seti("maxsugg", g.r.chance(1, 2) ? 0 : 2);
		auto ask = [&](size_t n) {
			for (size_t i = 0; i < n; i++) {
				H & h = hs[g.r.below(hs.size())];
				if (g.r.chance(1, 10)) addRandomOption(c, g, 0, h.name);
				else addRandomQuery(c, g, 0, h.name, h.dict, pools[h.dict], paras, 25);
			}
		};
		if (g.r.chance(1, 2)) ask(1 + g.r.below(4));
		size_t rounds = 1 + g.r.below(thorough ? 8 : 5);
		for (size_t r = 0; r < rounds; r++) {
			size_t nd = 1 + g.r.below(3);
			for (size_t i = 0; i < nd; i++) disturb(c, g, dicts, xn);
			if (g.r.chance(1, 3)) open();
			if (g.r.chance(1, 8) && hs.size() > 1) { c.add(0, {"term", hs[0].name}); hs.erase(hs.begin()); }
			ask(2 + g.r.below(6));
			if (g.r.chance(1, 3)) {
				H & h = hs[g.r.below(hs.size())];
				c.add(0, {"tok", h.name, g.r.pick(paras)});
				c.add(0, {"sent", h.name, g.r.pick(paras)});
			}
		}
		return c;
	}
	void exec(const Case & c, Out & o) override {
		std::set<int> faulty;
		for (auto & f : c.faults) faulty.insert(f.op);
		Api api;
		for (auto & op : c.ops) {
			if (fsOp(op)) { o.res.push_back({op.id, "world"}); continue; }
			if (op.a[0] == "loc") { localeOp(op.a[1], op.a[2]); o.res.push_back({op.id, "world"}); continue; }
			bool fl = faulty.count(op.id) > 0;
			beginOp(fl ? op.id : -1);
			arm(fl);
			std::string r = api.doOp(op);
			arm(false);
			o.res.push_back({op.id, r});
		}
		for (auto & h : api.h) if (h.second) { Op e; e.a = {"term", h.first}; api.doOp(e); }
	}
	Verdict check(const Case & c, const Out & o) override {
		std::map<std::string, size_t> born;
		OptTracker tr;
		std::map<std::string, std::vector<RefQuery>> qs;
		std::map<std::string, std::vector<size_t>> at;
		std::map<std::string, std::string> initRes;
		for (size_t i = 0; i < c.ops.size(); i++) {
			const Op & op = c.ops[i];
			if (disturbance(op.a[0]) || op.a[0] == "listd" || op.a.size() < 2 || op.a[1][0] != 'h') continue;
			const std::string & r = o.res[i].second;
			if (r.compare(0, 9, "exception") == 0) return Verdict{"exception", op.a[0] + ": " + r};
			if (op.a[0] == "init") {
				born[op.a[1]] = i;
				initRes[op.a[1]] = r;
				Op p; p.id = 0; p.a = {"attr", op.a[1], "CLASS"};
				qs[op.a[1]].push_back(RefQuery{op.a[2], op.a[3], defaultOptions(), p});
				at[op.a[1]].push_back(i);
			}
			if (isQuery(op.a[0]) && r != "skip") {
				auto & l = tr.lang[op.a[1]];
				qs[op.a[1]].push_back(RefQuery{l.first, l.second, tr.st[op.a[1]], op});
				at[op.a[1]].push_back(i);
			}
			else tr.apply(op, r);
		}
		for (auto & hq : qs) {
			size_t b = born[hq.first];
			auto ans = refAnswers(c, hq.second, [&]() { for (size_t i = 0; i < b; i++) fsOp(c.ops[i]); });
			for (size_t i = 0; i < ans.size(); i++) {
				if (ans[i].compare(0, 8, "!harness") == 0) return Verdict{"HARNESS", ans[i]};
				if (ans[i].size() && ans[i][0] == '!') { if (ans[i].compare(0, 10, "!truncated") == 0) return Verdict(); return Verdict{"reference-" + ans[i].substr(1, ans[i].find(' ') - 1), ans[i]}; }
				const Op & op = c.ops[at[hq.first][i]];
				if (op.a[0] == "init") {
					bool wantOk = ans[i].compare(0, 5, "init ") != 0;
					if (wantOk != (initRes[hq.first] == "ok")) return Verdict{"new-handle", "initialisation " + num((uint64_t)op.id) + " gave '" + initRes[hq.first] + "', in a fresh process over the same files '" + (wantOk ? "ok" : ans[i].substr(5)) + "'"};
					continue;
				}
				const std::string & got = o.res[at[hq.first][i]].second;
				if (got != ans[i]) return Verdict{"surroundings", "operation " + std::to_string(op.id) + " " + op.a[0] + " '" + op.a[2].substr(0, 60) + "' on a handle opened at operation " + num((uint64_t)c.ops[b].id) + " answered '" + got.substr(0, 200) + "', with nothing changed around it the answer is '" + ans[i].substr(0, 200) + "'"};
			}
		}
		return Verdict();
	}
	bool nontrivial(const Case & c, const Out & o) override {
		bool d = false;
		for (size_t i = 0; i < c.ops.size(); i++) { if (disturbance(c.ops[i].a[0])) d = true; else if (d && isQuery(c.ops[i].a[0]) && o.res[i].second != "skip") return true; }
		return false;
	}
	std::string rule() const override { return "1-3 handles (absolute and relative paths) with random queries and options while the C locale, thread locale and C++ locale, environment variables (also any variable the library asks for), current and home directory change, dictionary files are removed or replaced by new files, other handles are created (also in vain, under injected faults) and terminated, and new handles are opened; every answer compared with a fresh process that saw only the disk as it was when the handle was created; non-trivial: a query after a disturbance"; }
	std::string components() const override { return "real: all of libvoikko (unmodified sources, instrumented), libstdc++ and glibc locales; simulated: file system, environment, user database, heap"; }
};
Scenario * makeC13() { return new LiveScenario(); }
