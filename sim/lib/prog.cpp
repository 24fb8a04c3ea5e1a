// C18: every call ends after a bounded number of steps, whatever came before it.
#include "hist.hpp"
#include "scen.hpp"
#include <algorithm>
#include <cstring>
using namespace sim;
static std::string num(uint64_t v) { return std::to_string(v); }

// Steps (instrumented accesses and function entries) a call may take: a generous multiple (at least 10) of the largest
// number seen on the unchanged library for arguments of that length. One search of a transducer ends after 100000 loops.
static bool isHard(const std::string & lang) { return lang.find("hard") != std::string::npos; }
static int hyphensIn(const std::string & w) {
	int n = 0;
	for (wchar_t c : wide(w)) if (c == L'-' || (c >= 0x2010 && c <= 0x2015)) n++;
	return n;
}
static uint64_t bound(const Op & o, bool hard) {
	const std::string & k = o.a[0];
	double n = (double)wide(o.a[2]).size(), search = hard ? 2e8 : 6e7;
	if (k == "sugg" || k == "suggw") return (uint64_t)(n <= 40 ? 2e8 + 4e7 * n : 1.6e8);
	if (k == "tok" || k == "tokc") return (uint64_t)(1e6 + n * n * 60);
	if (k[0] == 's' && k[1] == 'e') return (uint64_t)(search + n * (hard ? 1e6 : 2e5));
	if (k[0] == 'g') return (uint64_t)(search + n * (hard ? 1e6 : 3e5));
	double h = hyphensIn(o.a[2]);
	return (uint64_t)(search + 5e5 * h * h);
}

struct ProgScenario : Scenario {
	std::string prop() const override { return "C18"; }
	void setup() override { commonSetup(); preInit(); }
	static std::string hardWord(Gen & g, const std::string & dict) {
		// parts of words with many hyphens: the searches for them end early
		static const std::vector<std::string> odd = {"a", "aa", "x", "1", "\xc3\xa4", "qq", "Aa", "AB", "zz", "a1"};
		static const std::vector<std::string> part = {"a", "aa", "kissa", "on", "maa", "x", "1", "\xc3\xa4", "pop", "opisto", "syy", "silta", "hevos", "kansan", "iltay\xc3\xb6", "ala", "AB", "Aa", "lis\xc3\xa4" };
		static const std::vector<std::string> join = {"-", "-", "-", "-", "\xc2\xad", ".", ":", "'", "", "--", "-\xc2\xad", "\xe2\x80\x91"};
		bool hard = isHard(dict);
		std::string w;
		size_t max = g.r.chance(1, 3) ? 20 + g.r.below(235) : 5 + g.r.below(60);
		if (hard) {
			static const std::vector<std::string> tail = {"", "b", "c", "d", "e", "de", "z", "bc", "bbc", "ac", "q", "-aac", "-c"};
			char ch = "aaako"[g.r.below(5)];
			size_t n = g.r.below(max < 60 ? max : 60);
			w.append(n, ch);
			if (g.r.chance(1, 5)) w.insert(w.size() / 2, "b");
			return w + g.r.pick(tail);
		}
		uint64_t k = g.r.below(10);
		if (k < 5) {
			std::vector<std::string> few = {g.r.pick(part), g.r.chance(1, 2) ? g.r.pick(mat.good) : g.r.pick(part)};
			std::string j = g.r.pick(join);
			bool mixed = g.r.chance(1, 4);
			if (j.find('-') != std::string::npos || j.size() == 3 || mixed) few = {g.r.pick(odd), g.r.pick(odd)};
			while (wide(w).size() < max) { if (!w.empty()) w += mixed ? g.r.pick(join) : j; w += g.r.pick(few); }
		}
		else if (k < 7) { std::string x = g.r.chance(1, 2) ? g.r.pick(mat.good) : g.word(dict); while (wide(w).size() < max) { w += g.r.chance(2, 3) ? x : g.r.pick(mat.good); if (x.empty()) x = "a"; } }
		else if (k < 8) { wchar_t ch = g.r.chance(1, 2) ? g.strange() : L'a'; for (size_t i = 0; i < max; i++) w += narrow(&ch, 1); }
		else w = g.word(dict);
		if (k >= 5 && hyphensIn(w) > 3) { std::string y; for (char ch : w) if (ch != '-') y += ch; w = y; }
		std::wstring x = wide(w);
		if (x.size() > 254) x.resize(254);
		return narrow(x.c_str(), x.size());
	}
	// long words for which the searches end early: the number of candidates is what counts
	static std::string oddWord(Gen & g) {
		static const std::vector<std::string> p = {"q", "qa", "zq", "xxo", "qzqi", "wq0", "cvcu", "Qb", "qlrnmhk", "zaqsdxo\xc3\xa4", "1lIO0q"};
		std::string w, x = g.r.pick(p), y = g.r.chance(1, 3) ? g.r.pick(p) : x;
		size_t max = 42 + g.r.below(200);
		while (wide(w).size() < max) w += g.r.chance(1, 3) ? y : x;
		return w;
	}
	static std::string hardText(Gen & g, const std::string & dict) {
		if (g.r.chance(1, 4)) return g.para();
		static const std::vector<std::string> sep = {" ", " ", " ", ". ", ", ", "", "...", "\"", " \"", "(", ")", "\xe2\x80\x9d", " - ", "/", ":", "http://", "@", "www.", "\n", "\t", "'", "\xc2\xa0", "."};
		size_t max = g.r.chance(1, 6) ? 200 + g.r.below(isHard(dict) ? 200 : 1800) : 20 + g.r.below(200);
		std::vector<std::string> few;
		for (size_t i = 0; i < 4; i++) { std::wstring x = wide(g.r.chance(1, 4) ? hardWord(g, dict) : g.word(dict)); if (x.size() > 40) x.resize(40); int h = 0; for (auto & ch : x) if ((ch == L'-' || (ch >= 0x2010 && ch <= 0x2015)) && ++h > 6) ch = L'a'; few.push_back(narrow(x.c_str(), x.size())); }
		if (g.r.chance(1, 3)) few = {"a", "on", "1."};
		std::vector<std::string> seps = {g.r.pick(sep), g.r.pick(sep)};
		std::string p;
		size_t idle = 0;
		while (p.size() < max && idle < 5000) { p += g.r.pick(few); p += g.r.chance(1, 12) ? g.r.pick(sep) : g.r.pick(seps); idle++; }
		return p;
	}
	Case gen(uint64_t seed, bool thorough) override {
		Gen g(seed);
		Case c;
		c.prop = "C18";
		c.seed = seed;
		c.garbage = g.r.next();
		c.reuse = (int)g.r.below(3);
		static const std::vector<std::string> dl = {"standard", "standard", "vfstd", "bestd", "adapd", "wvfst", "bevfst", "svfst", "okd", "mixd", "hardu", "hardu", "hardw", "hardw"};
		std::string dict = g.r.pick(dl);
		bool hard = isHard(dict);
		c.add(0, {g.r.chance(1, 8) ? "init" : "attach", "h", tagOf(dict), "/dict"});
		size_t n = g.r.chance(1, 4) ? 20 + g.r.below(thorough ? 200 : 80) : 2 + g.r.below(8);
		bool longRun = n >= 20;
		std::vector<std::string> pool, texts;
		for (size_t i = 2 + g.r.below(4); i > 0; i--) pool.push_back(longRun ? g.word(dict) : hardWord(g, dict));
		for (size_t i = 2; i > 0; i--) texts.push_back(longRun ? g.para() : hardText(g, dict));
		for (size_t i = g.r.below(4); i > 0; i--) addRandomOption(c, g, 0, "h");
		if (g.r.chance(1, 3)) c.add(0, {"bool", "h", num(VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS), "1"});
		int suggestions = hard || g.r.chance(1, 3) ? 0 : 1;
		for (size_t i = 0; i < n; i++) {
			uint64_t k = g.r.below(20);
			const std::string w = g.r.pick(pool), t = g.r.pick(texts);
			size_t len = wide(w).size();
			int hyphens = (int)std::count(w.begin(), w.end(), '-');
			if (k < 5) c.add(0, {g.r.chance(1, 2) ? "spell" : "spellw", "h", w});
			else if (k < 8) c.add(0, {g.r.chance(1, 2) ? "hyph" : "hyphw", "h", w});
			else if (k < 10) c.add(0, {g.r.chance(1, 2) ? "ana" : "anaw", "h", w});
			else if (k < 12) c.add(0, {g.r.chance(1, 2) ? "tok" : "tokc", "h", t});
			else if (k < 14) c.add(0, {g.r.chance(1, 2) ? "sent" : "sentc", "h", t});
			else if (k < 16) c.add(0, {"gc", "h", t});
			else if (k < 17) c.add(0, {"gcn", "h", t, num(wide(t).size()), num(g.r.below(wide(t).size() + 1)), num(g.r.below(40))});
			else if (k < 18) { if (suggestions-- > 0) {
				bool vf = !isWeighted(dict);
				if (vf && g.r.chance(1, 2)) c.add(0, {g.r.chance(1, 2) ? "sugg" : "suggw", "h", oddWord(g)});
				else if (len <= 40 && hyphens <= 4) c.add(0, {g.r.chance(1, 2) ? "sugg" : "suggw", "h", w});
			} }
			else addRandomOption(c, g, 0, "h");
			if (g.r.chance(1, 12) && isQuery(c.ops.back().a[0])) c.faults.push_back(Fault{F_ALLOC, 1 + g.r.below(1ull << g.r.below(9)), 0, c.ops.back().id});
		}
		return c;
	}
	void exec(const Case & c, Out & o) override {
		Api api;
		for (auto & op : c.ops) {
			beginOp(op.id);
			arm(true);
			uint64_t s = stats.steps;
			if (isQuery(op.a[0])) setStepLimit(s + bound(op, isHard(c.ops[0].a[2])));
			std::string r = api.doOp(op);
			setStepLimit(~0ull);
			arm(false);
			o.kv["s" + num((uint64_t)op.id)] = num(stats.steps - s);
			o.res.push_back({op.id, faultFiredInOp() ? "fault" : r});
		}
		Op t;
		t.a = {"term", "h"};
		api.doOp(t);
	}
	Verdict check(const Case & c, const Out & o) override {
		// the same call on a fresh handle with the same options
		OptTracker tr;
		std::vector<std::pair<size_t, OptState>> q;
		for (size_t i = 0; i < c.ops.size(); i++) {
			const Op & op = c.ops[i];
			const std::string & r = o.res[i].second;
			if (isQuery(op.a[0])) {
				if (r == "skip") continue;
				uint64_t steps = strtoull(o.kv.at("s" + num((uint64_t)op.id)).c_str(), nullptr, 10), b = bound(op, isHard(tr.lang[op.a[1]].first));
				if (getenv("PROG_STATS")) fprintf(stderr, "STAT %s %s %zu %d %lu %.4f %s\n", op.a[0].c_str(), tr.lang[op.a[1]].first.c_str(), wide(op.a[2]).size(), (int)std::count(op.a[2].begin(), op.a[2].end(), '-'), (unsigned long)steps, (double)steps / (double)b, op.a[2].substr(0, 50).c_str());
				if (steps > b) return Verdict{"no-progress", "operation " + num((uint64_t)op.id) + " " + op.a[0] + " took " + num(steps) + " steps for '" + op.a[2].substr(0, 80) + "' (limit " + num(b) + ")"};
				if (steps > 150000) q.push_back({i, tr.st[op.a[1]]});
			}
			else tr.apply(op, r == "fault" ? "" : r);
		}
		if (q.size() > 6) { std::sort(q.begin(), q.end(), [&](auto & x, auto & y) { return x.first > y.first; }); q.resize(6); }
		for (auto & e : q) {
			const Op & op = c.ops[e.first];
			Case r;
			r.prop = c.prop;
			r.par = c.par;
			r.garbage = c.garbage * 7 + 3;
			r.reuse = c.reuse;
			const std::string lang = tr.lang[op.a[1]].first, path = tr.lang[op.a[1]].second;
			Out f = runChild(r, [&](const Case &, Out & out) {
				Api api;
				Op in;
				in.a = {"attach", "h", lang, path};
				api.doOp(in);
				for (auto & b : e.second.b) { Op so; so.a = {"bool", "h", std::to_string(b.first), std::to_string(b.second)}; api.doOp(so); }
				Op so;
				so.a = {"int", "h", num(VOIKKO_MIN_HYPHENATED_WORD_LENGTH), std::to_string(e.second.minLen)};
				api.doOp(so);
				uint64_t s = stats.steps;
				api.doOp(op);
				out.kv["s"] = num(stats.steps - s);
			});
			if (f.crashed) return Verdict{"HARNESS", f.crashInfo};
			if (!f.violClass.empty()) return Verdict{"reference-" + f.violClass, f.violDetail};
			uint64_t fresh = strtoull(f.kv["s"].c_str(), nullptr, 10), steps = strtoull(o.kv.at("s" + num((uint64_t)op.id)).c_str(), nullptr, 10);
			if (getenv("PROG_STATS")) fprintf(stderr, "REL %s %lu %lu %.3f\n", op.a[0].c_str(), (unsigned long)steps, (unsigned long)fresh, (double)steps / (double)(fresh + 1));
			if (steps > 3 * fresh + 150000) return Verdict{"growing-cost", "operation " + num((uint64_t)op.id) + " " + op.a[0] + " took " + num(steps) + " steps after the earlier calls and " + num(fresh) + " on a fresh handle"};
		}
		return Verdict();
	}
	bool opRemovable(const Op & o) override { return o.id != 1; }
	std::string rule() const override { return "histories of calls with long, repetitive, hyphenated and ambiguous words and texts on 10 dictionaries, two of them ambiguous in every letter with cycles that consume no input, options changed and allocations failed in between; the steps (instrumented accesses and function entries) of each call are compared with a bound that depends on the argument only and, if many, with the same call on a fresh handle; non-trivial: some call took more than 10000 steps"; }
	std::string components() const override { return "real: all of libvoikko (unmodified sources, instrumented), libstdc++, glibc; simulated: file system, environment, heap contents and reuse, allocation failures, time (counted in steps), scheduler (one thread)"; }
	bool nontrivial(const Case & c, const Out & o) override { for (auto & op : c.ops) { auto it = o.kv.find("s" + num((uint64_t)op.id)); if (it != o.kv.end() && it->second.size() > 4 && isQuery(op.a[0])) return true; } return false; }
};
Scenario * makeC18() { return new ProgScenario(); }
