// Cases (what one simulated run does), execution in a forked child, scenarios and the search driver.
#pragma once
#include "rt.hpp"
#include <set>

struct Op {
	int id = 0;
	int t = 0;                       // simulated caller thread
	std::vector<std::string> a;      // a[0] is the operation
};

struct Case {
	std::string prop;
	uint64_t seed = 0;
	std::map<std::string, std::string> par;
	std::vector<sim::Fault> faults;
	sim::Sched sched;
	uint64_t garbage = 1;
	int reuse = 0;
	std::vector<Op> ops;

	int add(int t, std::vector<std::string> a) {
		Op o;
		o.id = ops.empty() ? 1 : ops.back().id + 1;
		o.t = t;
		o.a = std::move(a);
		ops.push_back(o);
		return o.id;
	}
	std::string get(const std::string & k, const std::string & d = "") const {
		auto it = par.find(k);
		return it == par.end() ? d : it->second;
	}
	int64_t geti(const std::string & k, int64_t d = 0) const {
		auto it = par.find(k);
		return it == par.end() ? d : strtoll(it->second.c_str(), nullptr, 10);
	}
	void seti(const std::string & k, int64_t v) { par[k] = std::to_string(v); }
	std::string text() const;
	static bool parse(const std::string & s, Case & c);
};

struct Out {
	std::vector<std::pair<int, std::string>> res;   // operation id -> observed result
	std::map<std::string, std::string> kv;
	std::string violClass, violDetail;
	bool crashed = false;            // child ended without a report (harness error)
	std::string crashInfo;
	sim::RunStats st;
	uint64_t hash = 0;
	std::vector<sim::Switch> taken;
	std::vector<std::string> firedPaths;
	std::string log;
	const std::string * find(int id) const { for (auto & r : res) if (r.first == id) return &r.second; return nullptr; }
};

// Runs fn in a forked copy of this process under the simulator; fn fills the report
Out runChild(const Case & c, const std::function<void(const Case &, Out &)> & fn, bool keepLog = false);
extern Out * childOut;               // in the child: the report under construction (also used when a violation ends it)
[[noreturn]] void childFinish();     // in the child: send the report and end

struct Verdict { std::string cls, detail; bool bad() const { return !cls.empty(); } };

struct Scenario {
	virtual ~Scenario() {}
	virtual std::string prop() const = 0;
	virtual Case gen(uint64_t seed, bool thorough) = 0;
	virtual void exec(const Case & c, Out & o) = 0;             // in the child
	virtual Verdict check(const Case & c, const Out & o) = 0;   // in the worker, may run reference children
	virtual std::string rule() const = 0;
	virtual std::string components() const = 0;
	virtual bool nontrivial(const Case & c, const Out & o) { (void)c; return o.st.steps > 0; }
	virtual uint64_t stateHash(const Case & c, const Out & o) { (void)c; return o.hash; }
	virtual void setup() {}                                     // once, before workers fork
	// extra shrinking of operation arguments
	virtual std::vector<Case> shrinks(const Case & c) { (void)c; return {}; }
	virtual bool opRemovable(const Op & o) { (void)o; return true; }
};

Verdict evaluate(Scenario & s, const Case & c, Out * outp = nullptr);
int driverMain(int argc, char ** argv, std::vector<Scenario *> scenarios);
std::string pct(const std::string & s);
std::string unpct(const std::string & s);
std::vector<std::string> readLines(const std::string & file);
std::string readFile(const std::string & file);
extern std::string verifDir;
extern bool thoroughTier;
extern uint64_t probeCounts[32];
void probe(int i);
