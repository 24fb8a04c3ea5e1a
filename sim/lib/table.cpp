// C15: the old handle-number interface against a table model
#include "world.hpp"
#include "scen.hpp"
#include <algorithm>
using namespace sim;
static std::string num(long v) { return std::to_string(v); }
static const int SLOTS = 4;          // handles that can be open at once

struct TableScenario : Scenario {
	std::string prop() const override { return "C15"; }
	void setup() override { commonSetup(); }
	Case gen(uint64_t seed, bool thorough) override {
		Gen g(seed);
		Case c;
		c.prop = "C15";
		c.seed = seed;
		c.garbage = g.r.next();
		c.reuse = (int)g.r.below(3);
		if (g.r.chance(1, 2)) {
			// a variant with a long name, and one that does not load
			c.add(0, {"fs", "dict", "svfst", "/dict/5/mor-long"});
			c.add(0, {"fs", "put", "/dict/5/mor-long/index.txt", "Voikko-Dictionary-Format: 5\nLanguage: fi-x-averylongvariantname\nMorphology-Backend: vfst\nSpeller-Backend: vfst\nSuggestion-Backend: vfst\nGrammar-Backend: null\n"});
			c.add(0, {"fs", "put", "/dict/5/mor-broken/index.txt", "Voikko-Dictionary-Format: 5\nLanguage: fi-x-broken\n"});
		}
		static const std::vector<std::string> variants = {"standard", "standard", "vfstd", "bestd", "adapd", "okd", "wvfst", "wvfst", "bevfst", "svfst", "svfst", "", "default", "fi_FI", "averylongvariantname", "broken", "nonsuch", "STANDARD"};
		static const std::vector<int> caches = {0, 0, 0, 1, 1, -1, 2, 19, 40, 2147483647};
		// the numbers the table is expected to give out are only a guide for choosing interesting calls
		std::vector<std::string> guess(SLOTS + 1);
		size_t n = 8 + g.r.below(thorough ? 60 : 30);
		int newN = 0;
		auto pool = wordPool(g, "standard", 3), wpool = wordPool(g, "wvfst", 3);
		int64_t sugg = g.r.chance(1, 2) ? 0 : 2;
		for (size_t i = 0; i < n; i++) {
			uint64_t k = g.r.below(20);
			if (k < 5) {
				std::string v = g.r.pick(variants);
				std::string path = g.r.chance(1, 8) ? "<null>" : "/dict";
				int op = c.add(0, {"oinit", v, path, num(g.r.pick(caches))});
				bool fault = g.r.chance(1, 5);
				if (fault) {
					static const std::vector<int> ks = {F_OPEN, F_OPEN, F_MMAP, F_FSTAT, F_READ_ERR, F_OPENDIR};
					int kd = g.r.pick(ks);
					c.faults.push_back(mkFault(kd, 1 + g.r.below(kd == F_OPEN ? 12 : kd == F_READ_ERR ? 6 : 3), 5, op));
				}
				if (!fault && path == "/dict" && v != "broken" && v != "nonsuch") for (int s = 1; s <= SLOTS; s++) if (guess[(size_t)s].empty()) { guess[(size_t)s] = v.empty() || v == "default" || v == "fi_FI" ? "standard" : v; break; }
			}
			else if (k < 8) {
				int h = g.r.chance(1, 4) ? (int)g.r.below(9) - 2 : 1 + (int)g.r.below(SLOTS);
				c.add(0, {"oterm", num(h)});
				if (h >= 1 && h <= SLOTS) guess[(size_t)h].clear();
			}
			else if (k < 9) {
				std::string h = "n" + num(newN++);
				c.add(0, {"init", h, tagOf(g.r.chance(1, 2) ? "svfst" : "vfstd"), "/dict"});
				c.add(0, {"spell", h, g.r.pick(pool)});
				if (g.r.chance(1, 2)) addRandomOption(c, g, 0, h);
				if (g.r.chance(1, 2)) c.add(0, {"term", h});
			}
			else {
				std::vector<int> open;
				for (int s = 1; s <= SLOTS; s++) if (!guess[(size_t)s].empty()) open.push_back(s);
				int h = open.empty() ? 1 + (int)g.r.below(SLOTS) : g.r.pick(open);
				const std::string & d = guess[(size_t)h];
				const std::string & w = g.r.pick(isWeighted(d) ? wpool : pool);
				switch (g.r.below(12)) {
					case 0: case 1: c.add(0, {"ospell", num(h), w}); break;
					case 2: c.add(0, {"ospellw", num(h), w}); break;
					case 3: if (sugg-- > 0 && wide(w).size() < 14) c.add(0, {g.r.chance(1, 2) ? "osugg" : "osuggw", num(h), w}); else c.add(0, {"ospell", num(h), w}); break;
					case 4: c.add(0, {g.r.chance(1, 2) ? "ohyph" : "ohyphw", num(h), w}); break;
					case 5: c.add(0, {g.r.chance(1, 2) ? "oana" : "oanaw", num(h), w}); break;
					case 6: c.add(0, {"otok", num(h), g.para()}); break;
					case 7: c.add(0, {g.r.chance(1, 2) ? "osent" : "osentc", num(h), g.para()}); break;
					case 8: { std::string p = g.para(); c.add(0, {g.r.chance(1, 2) ? "ogc" : "ogcw", num(h), p, "0", num((long)g.r.below(3))}); break; }
					case 9: case 10: { int o, v; g.boolOption(o, v); c.add(0, {"obool", num(h), num(o), num(v)}); break; }
					case 11: c.add(0, {"oint", num(h), num(g.r.chance(1, 2) ? VOIKKO_MIN_HYPHENATED_WORD_LENGTH : VOIKKO_SPELLER_CACHE_SIZE), num((long)g.r.below(6))}); break;
				}
			}
		}
		return c;
	}
	void exec(const Case & c, Out & o) override {
		std::set<int> faulty;
		for (auto & f : c.faults) faulty.insert(f.op);
		Api api;
		std::set<int> open;
		for (auto & op : c.ops) {
			if (fsOp(op)) { o.res.push_back({op.id, "world"}); continue; }
			const std::string & k = op.a[0];
			// a number that is not in use must not be used except to terminate it
			if (k[0] == 'o' && k != "oinit" && k != "oterm" && !open.count(atoi(op.a[1].c_str()))) { o.res.push_back({op.id, "skip"}); continue; }
			bool fl = faulty.count(op.id) > 0;
			beginOp(fl ? op.id : -1);
			arm(fl);
			std::string r = api.doOp(op);
			arm(false);
			if (fl && faultFiredInOp()) o.kv["fired" + std::to_string(op.id)] = r;
			if (k == "oinit" && r.compare(0, 7, "handle ") == 0) open.insert(atoi(r.c_str() + 7));
			if (k == "oterm" && r == "1") open.erase(atoi(op.a[1].c_str()));
			o.res.push_back({op.id, r});
		}
		for (int h : std::vector<int>(open.begin(), open.end())) { Op e; e.a = {"oterm", std::to_string(h)}; if (api.doOp(e) != "1") violation("terminate-refused", "terminating open handle " + std::to_string(h) + " failed"); }
		for (auto & h : api.h) if (h.second) { Op e; e.a = {"term", h.first}; api.doOp(e); }
		if (openFds() || openMaps()) violation("file-leak", describeFds());
	}
	// the same question through the new interface
	static Op newForm(const Op & o) {
		Op r = o;
		const std::string & k = o.a[0];
		if (k == "ospell") r.a = {"spell", "r", o.a[2]};
		else if (k == "ospellw") r.a = {"spellw", "r", o.a[2]};
		else if (k == "osugg") r.a = {"sugg", "r", o.a[2]};
		else if (k == "osuggw") r.a = {"suggw", "r", o.a[2]};
		else if (k == "ohyphw") r.a = {"hyphw", "r", o.a[2]};
		else if (k == "oanaw") r.a = {"anaw", "r", o.a[2]};
		else if (k == "osentc") r.a = {"sentc", "r", o.a[2]};
		else if (k == "ogcw") r.a = {"gcn", "r", o.a[2], std::to_string(wide(o.a[2]).size()), o.a[3], o.a[4]};
		else if (k == "ohyph") r.a = {"hyph", "r", o.a[2]};
		else if (k == "oana") r.a = {"ana", "r", o.a[2]};
		else if (k == "otok") r.a = {"tokc", "r", o.a[2]};
		else if (k == "osent") r.a = {"sent", "r", o.a[2]};
		else if (k == "ogc") r.a = {"gcnc", "r", o.a[2], std::to_string(o.a[2].size()), o.a[3], o.a[4]};
		return r;
	}
	static std::string newAnswer(const Op & o, const std::string & s) {
		if (o.a[0] == "osent") return s.substr(0, s.find(' '));
		if (o.a[0] == "ogc" || o.a[0] == "ogcw") {
			if (s == "none") return "0@0+0";
			size_t p = s.find("](");
			if (p != std::string::npos) p++;
			else p = s.find('(');
			std::string t = s.substr(0, p);
			size_t c = t.find(':');
			std::string sg = t.substr(c + 1);
			return t.substr(0, c) + (sg == "null" ? "" : sg);
		}
		return s;
	}
	struct Slot { std::string lang, path; OptState opt; bool unsure = false; };
	Verdict check(const Case & c, const Out & o) override {
		std::map<int, Slot> table;
		std::map<std::string, OptState> nopt;
		OptTracker tr;
		std::vector<RefQuery> q;
		std::vector<size_t> at;
		std::vector<RefQuery> iq;
		std::vector<size_t> iat;
		for (size_t i = 0; i < c.ops.size(); i++) {
			const Op & op = c.ops[i];
			const std::string & k = op.a[0];
			const std::string & r = o.res[i].second;
			if (k == "fs" || r == "skip") continue;
			std::string where = "operation " + std::to_string(op.id) + " " + k + " " + (op.a.size() > 1 ? op.a[1] : "") + ": ";
			if (r.compare(0, 9, "exception") == 0) return Verdict{"exception", where + r};
			bool fired = o.kv.count("fired" + std::to_string(op.id)) > 0;
			if (k == "oinit") {
				const std::string & v = op.a[1];
				Slot s;
				s.lang = v.empty() || v == "default" || v == "fi_FI" ? "fi" : "fi-x-" + v;
				s.path = op.a[2];
				s.opt = defaultOptions();
				s.unsure = fired;
				if (r.compare(0, 7, "handle ") == 0) {
					int h = atoi(r.c_str() + 7);
					if (h < 1 || table.count(h)) return Verdict{"bad-number", where + "gave number " + std::to_string(h) + (table.count(h) ? " which is in use" : "")};
					if ((int)table.size() >= SLOTS) return Verdict{"table-bound", where + "more than " + std::to_string(SLOTS) + " handles open"};
					table[h] = s;
				}
				else if (r.compare(0, 7, "error: ") == 0 && r.size() > 7) {
					if ((int)table.size() < SLOTS && !fired) { Op p; p.id = op.id; p.a = {"attr", "r", "CLASS"}; iq.push_back(RefQuery{s.lang, s.path, s.opt, p}); iat.push_back(i); }
				}
				else return Verdict{"bad-result", where + r};
				if (!fired && r.compare(0, 7, "handle ") == 0) { Op p; p.id = op.id; p.a = {"attr", "r", "CLASS"}; iq.push_back(RefQuery{s.lang, s.path, s.opt, p}); iat.push_back(i); }
			}
			else if (k == "oterm") {
				int h = atoi(op.a[1].c_str());
				std::string want = table.count(h) ? "1" : "0";
				if (r != want) return Verdict{"terminate-result", where + "returned " + r + ", the number is " + (want == "1" ? "in use" : "not in use")};
				table.erase(h);
			}
			else if (k[0] == 'o') {
				int h = atoi(op.a[1].c_str());
				if (!table.count(h)) return Verdict{"HARNESS", where + "not open in the model"};
				Slot & s = table[h];
				if (k == "obool") { if (r != "1") return Verdict{"option-result", where + r}; s.opt.b[atoi(op.a[2].c_str())] = atoi(op.a[3].c_str()) ? 1 : 0; }
				else if (k == "oint") { if (r != "1") return Verdict{"option-result", where + r}; if (atoi(op.a[2].c_str()) == VOIKKO_MIN_HYPHENATED_WORD_LENGTH) s.opt.minLen = atoi(op.a[3].c_str()); }
				else if (!s.unsure) { q.push_back(RefQuery{s.lang, s.path, s.opt, newForm(op)}); at.push_back(i); }
			}
			else if (isQuery(k)) { auto & l = tr.lang[op.a[1]]; q.push_back(RefQuery{l.first, l.second, tr.st[op.a[1]], op}); at.push_back(i); }
			else tr.apply(op, r);
		}
		auto world = [&]() { for (auto & op : c.ops) fsOp(op); };
		auto ia = refAnswers(c, iq, world);
		for (size_t i = 0; i < iq.size(); i++) {
			if (ia[i].compare(0, 8, "!harness") == 0) return Verdict{"HARNESS", ia[i]};
			bool ok = ia[i].compare(0, 5, "init ") != 0, got = o.res[iat[i]].second.compare(0, 7, "handle ") == 0;
			if (ok != got) return Verdict{"init-result", "operation " + std::to_string(iq[i].op.id) + " gave '" + o.res[iat[i]].second + "' with free slots; alone it gives '" + (ok ? "a handle" : ia[i].substr(5)) + "'"};
		}
		auto ans = refAnswers(c, q, world);
		for (size_t i = 0; i < q.size(); i++) {
			const Op & op = c.ops[at[i]];
			const std::string & got = o.res[at[i]].second;
			if (ans[i].compare(0, 8, "!harness") == 0) return Verdict{"HARNESS", ans[i]};
			if (ans[i].size() && ans[i][0] == '!') return Verdict{"reference-" + ans[i].substr(1, ans[i].find(' ') - 1), ans[i]};
			std::string want = newAnswer(op, ans[i]);
			if (got != want) return Verdict{"wrong-handle", "operation " + std::to_string(op.id) + " " + op.a[0] + " " + op.a[1] + " '" + op.a[2].substr(0, 60) + "' answered '" + got.substr(0, 200) + "', the handle opened under this number answers '" + want.substr(0, 200) + "'"};
		}
		return Verdict();
	}
	bool nontrivial(const Case &, const Out & o) override { int n = 0; for (auto & r : o.res) if (r.second.compare(0, 7, "handle ") == 0) n++; return n > 1; }
	std::string rule() const override { return "random histories of the old interface: initialisations of various variants (some missing, broken or hit by injected file-system failures), terminations of used, unused and out-of-range numbers, options and queries on open numbers, interleaved with handles of the new interface; numbers, results and answers compared with a table of four slots whose entries are answered by fresh handles of the new interface; non-trivial: at least two successful initialisations"; }
	std::string components() const override { return "real: all of libvoikko (unmodified sources, instrumented), libstdc++, glibc; simulated: file system with injected failures, environment, user database, heap"; }
};
Scenario * makeC15() { return new TableScenario(); }
