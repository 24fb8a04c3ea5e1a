// C01: several threads, each with its own handles, under a controlled preemptive scheduler.
#include "hist.hpp"
#include "scen.hpp"
#include "world.hpp"
using namespace sim;

struct ThrScenario : Scenario {
	std::string prop() const override { return "C01"; }
	void setup() override { commonSetup(); preInit(false); }
	Case gen(uint64_t seed, bool thorough) override {
		Gen g(seed);
		Case c;
		c.prop = "C01";
		c.seed = seed;
		c.garbage = g.r.next();
		c.reuse = (int)g.r.below(3);
		int nt = 2 + (int)g.r.below(g.r.chance(1, 3) ? 3 : 1);
		static const std::vector<uint64_t> means = {7, 40, 200, 1000, 5000, 30000, 200000};
		c.sched.mode = Sched::RANDOM;
		c.sched.seed = g.r.next() >> 1;
		c.sched.mean = g.r.pick(means);
		c.sched.hot = g.r.chance(1, 2) ? 40 : 0;
		c.seti("nt", nt);
		// what the threads do: everything, or many of the same few things at once
		uint64_t flavour = g.r.below(4);
		bool sameDict = g.r.chance(1, 2);
		static const std::vector<std::string> dl = {"standard", "standard", "vfstd", "bestd", "wvfst", "wvfst", "bevfst", "svfst", "adapd", "okd", "mixd", "mixw"};
		// In a third of the runs nothing of the library has been used before: what it prepares on first use is prepared by the threads
		static const std::vector<std::string> small = {"vfstd", "bestd", "wvfst", "wvfst", "bevfst", "svfst", "okd", "mixd"};
		bool cold = g.r.chance(1, 3);
		if (cold) { c.seti("cold", 1); sameDict = sameDict || g.r.chance(1, 2); if (g.r.chance(1, 2)) c.sched.mean = g.r.pick(std::vector<uint64_t>{3, 7, 20, 60}); }
		auto & dlist = cold && !g.r.chance(1, 10) ? small : dl;
		std::string d0 = g.r.pick(dlist);
		auto pool0 = wordPool(g, d0, 3 + g.r.below(5));
		std::vector<std::string> paras0;
		for (int i = 0; i < 3; i++) paras0.push_back(g.para());
		bool sugg = g.r.chance(1, 4);
		// dictionaries that cannot be loaded: the threads may also fail at the same time
		bool fail = g.r.chance(1, 3);
		if (fail) {
			c.add(0, {"fs", "put", "/bad/5/mor-a/index.txt", "Voikko-Dictionary-Format: 5\nLanguage: fi-x-bada\nMorphology-Backend: vfst\nSpeller-Backend: vfst\n"});
			c.add(0, {"fs", "put", "/bad/5/mor-b/index.txt", "Voikko-Dictionary-Format: 5\nLanguage: fi-x-badb\nMorphology-Backend: nonsuch\n"});
			c.add(0, {"fs", "put", "/bad/5/mor-c/index.txt", "Voikko-Dictionary-Format: 5\nLanguage: fi-x-badc\nMorphology-Backend: vfst\nSpeller-Backend: vfst\n"});
			std::string cut = dictFile("svfst", "spl.vfst");
			c.add(0, {"fs", "put", "/bad/5/mor-c/spl.vfst", cut.substr(0, 8) + "abcdefghijklmnopqrstuvwx"});
			c.add(0, {"fs", "put", "/bad/5/mor-d/index.txt", "not an index"});
			c.add(0, {"fs", "put", "/bad/3/x/y.zhfst", "not a zip"});
		}
		for (int t = 1; t <= nt; t++) {
			std::string d = sameDict ? d0 : g.r.pick(dlist);
			std::string h = "h" + std::to_string(t);
			auto pool = g.r.chance(1, 2) ? pool0 : wordPool(g, d, 3 + g.r.below(5));
			auto & paras = paras0;
			c.seti("maxsugg", sugg ? (d == "standard" ? 1 : 2) : 0);
			c.add(t, {g.r.chance(1, 2) ? "attach" : "init", h, tagOf(d), "/dict"});
			if (g.r.chance(1, 3)) for (auto & w : pool) {
				// soft hyphens
				std::wstring x = wide(w);
				for (size_t k = 1 + g.r.below(2); k > 0 && x.size() > 2; k--) x.insert(1 + g.r.below(x.size() - 1), 1, L'\u00AD');
				if (g.r.chance(1, 2)) w = narrow(x.c_str(), x.size());
			}
			size_t n = 3 + g.r.below(thorough ? 25 : 12);
			for (size_t i = 0; i < n; i++) {
				if (fail && g.r.chance(1, 4)) {
					static const std::vector<std::string> tags = {"fi-x-bada", "fi-x-badb", "fi-x-badc", "fi-x-nonsuch", "xx", "<null>", "fi"};
					c.add(t, {"init", "x" + std::to_string(t), g.r.pick(tags), g.r.chance(2, 3) ? "/bad" : "/dict"});
					c.add(t, {"term", "x" + std::to_string(t)});
				}
				else if (flavour == 0 || g.r.chance(1, 12)) {
					switch (g.r.below(5)) {
						case 0: c.add(t, {"listd", g.r.chance(1, 2) ? "/dict" : "<null>"}); break;
						case 1: { static const std::vector<std::string> k = {"s", "h", "g"}; c.add(t, {"listl", g.r.pick(k), "/dict"}); break; }
						case 2: c.add(t, {"term", h}); c.add(t, {"init", h, tagOf(d), "/dict"}); break;
						case 3: c.add(t, {"version"}); break;
						default: addRandomOption(c, g, t, h);
					}
				}
				else if (g.r.chance(1, 6)) addRandomOption(c, g, t, h);
				else addRandomQuery(c, g, t, h, d, pool, paras, flavour == 1 ? 90 : flavour == 2 ? 5 : 25);
			}
			if (g.r.chance(3, 4)) c.add(t, {"term", h});
		}
		return c;
	}
	void exec(const Case & c, Out & o) override {
		int nt = (int)c.geti("nt", 2);
		secondLib = c.geti("cold", 0) != 0;
		std::vector<Api> apis((size_t)nt + 1);
		std::vector<std::string> res(c.ops.size());
		std::vector<int> tids;
		for (auto & op : c.ops) if (op.t == 0) fsOp(op);
		for (int t = 1; t <= nt; t++) {
			tids.push_back(spawn([&, t]() {
				for (size_t i = 0; i < c.ops.size(); i++) if (c.ops[i].t == t) { res[i] = apis[(size_t)t].doOp(c.ops[i]); yieldPoint(); }
				for (auto & h : apis[(size_t)t].h) if (h.second) { Op e; e.a = {"term", h.first}; apis[(size_t)t].doOp(e); }
			}));
		}
		for (int t : tids) joinThread(t);
		for (size_t i = 0; i < c.ops.size(); i++) o.res.push_back({c.ops[i].id, res[i]});
	}
	Verdict check(const Case & c, const Out & o) override {
		int nt = (int)c.geti("nt", 2);
		for (int t = 1; t <= nt; t++) {
			Case r = c;
			r.sched = Sched();
			r.ops.clear();
			for (auto & op : c.ops) if (op.t == t) r.ops.push_back(op);
			if (r.ops.empty()) continue;
			std::vector<Op> world;
			for (auto & op : c.ops) if (op.t == 0) world.push_back(op);
			Out ro = runChild(r, [&](const Case & k, Out & out) {
				secondLib = k.geti("cold", 0) != 0;
				for (auto & op : world) fsOp(op);
				Api api;
				for (auto & op : k.ops) out.res.push_back({op.id, api.doOp(op)});
			});
			if (ro.crashed) return Verdict{"HARNESS", "alone: " + ro.crashInfo};
			if (!ro.violClass.empty()) return Verdict{"alone-" + ro.violClass, ro.violDetail};
			for (auto & x : ro.res) {
				const std::string * got = o.find(x.first);
				if (!got || *got != x.second) {
					const Op * op = nullptr;
					for (auto & y : c.ops) if (y.id == x.first) op = &y;
					return Verdict{"interference", "thread " + std::to_string(t) + " operation " + std::to_string(x.first) + " " + op->a[0] + " answered '" + (got ? got->substr(0, 200) : "nothing") + "', alone it answers '" + x.second.substr(0, 200) + "'"};
				}
			}
		}
		return Verdict();
	}
	std::string rule() const override { return "2-4 simulated threads, each with its own handle and a random list of calls (initialise, options, queries, listings, terminate), switched at single memory accesses by a seeded scheduler (mean quantum 7 to 200000 accesses, optional extra preemption at writes to global data); each answer compared with the same thread running alone; a third of the runs start in a copy of the library that was never used; happens-before race detection on every access; non-trivial: at least 10 context switches"; }
	std::string components() const override { return "real: all of libvoikko (unmodified sources, instrumented), libstdc++, glibc; simulated: thread scheduler and pthread primitives, file system, environment, heap"; }
	bool nontrivial(const Case &, const Out & o) override { return o.st.switches >= 10; }
};
Scenario * makeC01() { return new ThrScenario(); }
