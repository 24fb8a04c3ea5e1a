#include "case.hpp"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <unordered_set>

using namespace sim;
std::string verifDir = "/verif";
bool thoroughTier = false;

std::string pct(const std::string & s) {
	std::string r;
	for (unsigned char c : s) {
		if (c <= ' ' || c == '%' || c == 127) { char b[4]; snprintf(b, sizeof b, "%%%02x", c); r += b; }
		else r += (char)c;
	}
	return r.empty() ? "%" : r;
}
std::string unpct(const std::string & s) {
	if (s == "%") return "";
	std::string r;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
		else r += s[i];
	}
	return r;
}
std::string readFile(const std::string & f) {
	std::ifstream in(f, std::ios::binary);
	std::stringstream ss;
	ss << in.rdbuf();
	if (!in) { fprintf(stderr, "sim: cannot read %s\n", f.c_str()); exit(3); }
	return ss.str();
}
std::vector<std::string> readLines(const std::string & f) {
	std::vector<std::string> v;
	std::stringstream ss(readFile(f));
	std::string l;
	while (std::getline(ss, l)) v.push_back(l);
	return v;
}

std::string Case::text() const {
	std::ostringstream o;
	o << "property " << prop << "\nseed " << seed << "\ngarbage " << garbage << "\nreuse " << reuse << "\n";
	for (auto & p : par) o << "param " << pct(p.first) << " " << pct(p.second) << "\n";
	for (auto & f : faults) o << "fault " << faultNames[f.kind] << " " << f.nth << " " << f.arg << " " << f.op << "\n";
	if (sched.mode == Sched::RANDOM) o << "sched random " << sched.seed << " " << sched.mean << " " << sched.hot << "\n";
	else if (sched.mode == Sched::EXPLICIT) {
		o << "sched list";
		for (auto & s : sched.list) o << " " << s.step << ":" << s.tid;
		o << "\n";
	}
	for (auto & op : ops) {
		o << "op " << op.id << " " << op.t;
		for (auto & a : op.a) o << " " << pct(a);
		o << "\n";
	}
	return o.str();
}
bool Case::parse(const std::string & s, Case & c) {
	std::stringstream ss(s);
	std::string l;
	c = Case();
	while (std::getline(ss, l)) {
		std::stringstream ls(l);
		std::string k;
		if (!(ls >> k) || k[0] == '#') continue;
		if (k == "property") ls >> c.prop;
		else if (k == "seed") ls >> c.seed;
		else if (k == "garbage") ls >> c.garbage;
		else if (k == "reuse") ls >> c.reuse;
		else if (k == "param") { std::string a, b; ls >> a >> b; c.par[unpct(a)] = unpct(b); }
		else if (k == "fault") { std::string n; Fault f; ls >> n >> f.nth >> f.arg >> f.op; f.kind = faultByName(n); if (f.kind < 0) return false; c.faults.push_back(f); }
		else if (k == "sched") {
			std::string m;
			ls >> m;
			if (m == "random") { c.sched.mode = Sched::RANDOM; ls >> c.sched.seed >> c.sched.mean >> c.sched.hot; }
			else {
				c.sched.mode = Sched::EXPLICIT;
				std::string x;
				while (ls >> x) { Switch w; w.step = strtoull(x.c_str(), nullptr, 10); w.tid = atoi(x.c_str() + x.find(':') + 1); c.sched.list.push_back(w); }
			}
		}
		else if (k == "op") { Op o; ls >> o.id >> o.t; std::string x; while (ls >> x) o.a.push_back(unpct(x)); c.ops.push_back(o); }
	}
	return !c.prop.empty();
}

// ---------------------------------------------------------------- child execution
Out * childOut = nullptr;
static int childPipe = -1;

static void putStr(std::string & b, const std::string & s) { uint32_t n = (uint32_t)s.size(); b.append((const char *)&n, 4); b += s; }
static bool getStr(const std::string & b, size_t & p, std::string & s) {
	uint32_t n;
	if (p + 4 > b.size()) return false;
	memcpy(&n, &b[p], 4);
	p += 4;
	if (p + n > b.size()) return false;
	s.assign(b, p, n);
	p += n;
	return true;
}
static std::string pack(const Out & o) {
	std::string b;
	putStr(b, o.violClass);
	putStr(b, o.violDetail);
	putStr(b, std::string((const char *)&o.st, sizeof o.st));
	putStr(b, std::string((const char *)&o.hash, 8));
	putStr(b, std::to_string(o.res.size()));
	for (auto & r : o.res) { putStr(b, std::to_string(r.first)); putStr(b, r.second); }
	putStr(b, std::to_string(o.kv.size()));
	for (auto & r : o.kv) { putStr(b, r.first); putStr(b, r.second); }
	putStr(b, std::string((const char *)o.taken.data(), o.taken.size() * sizeof(Switch)));
	putStr(b, std::to_string(o.firedPaths.size()));
	for (auto & r : o.firedPaths) putStr(b, r);
	putStr(b, o.log);
	return b;
}
static bool unpack(const std::string & b, Out & o) {
	size_t p = 0;
	std::string s, t;
	if (!getStr(b, p, o.violClass) || !getStr(b, p, o.violDetail)) return false;
	if (!getStr(b, p, s) || s.size() != sizeof o.st) return false;
	memcpy(&o.st, s.data(), sizeof o.st);
	if (!getStr(b, p, s)) return false;
	memcpy(&o.hash, s.data(), 8);
	if (!getStr(b, p, s)) return false;
	for (int n = atoi(s.c_str()); n > 0; n--) { if (!getStr(b, p, s) || !getStr(b, p, t)) return false; o.res.push_back({atoi(s.c_str()), t}); }
	if (!getStr(b, p, s)) return false;
	for (int n = atoi(s.c_str()); n > 0; n--) { if (!getStr(b, p, s) || !getStr(b, p, t)) return false; o.kv[s] = t; }
	if (!getStr(b, p, s)) return false;
	o.taken.resize(s.size() / sizeof(Switch));
	memcpy(o.taken.data(), s.data(), s.size());
	if (!getStr(b, p, s)) return false;
	for (int n = atoi(s.c_str()); n > 0; n--) { if (!getStr(b, p, t)) return false; o.firedPaths.push_back(t); }
	return getStr(b, p, o.log);
}

[[noreturn]] void childFinish() {
	Out & o = *childOut;
	sim::end();
	o.st = stats;
	o.taken = takenSwitches();
	if (o.taken.size() > 200000) o.taken.resize(200000);
	o.firedPaths = firedPaths;
	o.log = eventText;
	uint64_t h = stats.logHash ^ stats.schedHash;
	uint64_t v[3] = {stats.steps, stats.switches, stats.allocs};
	h = hashBytes(h, v, sizeof v);
	for (auto & r : o.res) { h = hashBytes(h, &r.first, 4); h = hashStr(h, r.second); }
	for (auto & r : o.kv) { h = hashStr(h, r.first); h = hashStr(h, r.second); }
	h = hashStr(h, o.violClass);
	h = hashStr(h, o.violDetail);
	o.hash = h;
	std::string b = pack(o);
	size_t p = 0;
	while (p < b.size()) {
		ssize_t w = write(childPipe, b.data() + p, b.size() - p);
		if (w < 0 && errno == EINTR) continue;
		if (w <= 0) break;
		p += (size_t)w;
	}
	_exit(0);
}
static void childViolation(const char * cls, const char * detail) {
	if (!childOut->violClass.empty()) _exit(5);
	childOut->violClass = cls;
	childOut->violDetail = detail;
	childFinish();
}

static double nowS() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9; }
static const double CHILD_WALL = 120;
static volatile int * stopAll = nullptr; // set when a worker has found a violation: runs of the others are of no use any more

Out runChild(const Case & c, const std::function<void(const Case &, Out &)> & fn, bool keepLog) {
	Out o;
	int pf[2];
	if (pipe(pf)) { perror("pipe"); exit(3); }
	fflush(stdout);
	fflush(stderr);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(3); }
	if (pid == 0) {
		close(pf[0]);
		childPipe = fcntl(pf[1], F_DUPFD_CLOEXEC, 190);
		close(pf[1]);
		childOut = new Out();
		onViolation = childViolation;
		keepText = keepLog;
		firedPaths.clear();
		RunConfig rc;
		rc.faults = c.faults;
		rc.sched = c.sched;
		rc.garbage = c.garbage;
		rc.reuse = c.reuse;
		rc.stepLimit = (uint64_t)c.geti("steplimit", 1500000000ll);
		rc.idleLimit = (uint64_t)c.geti("idlelimit", 3000000000ll);
		rc.softLimit = c.geti("softlimit") != 0;
		sim::begin(rc);
		fn(c, *childOut);
		childFinish();
	}
	close(pf[1]);
	std::string b;
	char buf[65536];
	double t0 = nowS();
	bool timedOut = false;
	while (true) {
		struct pollfd p = {pf[0], POLLIN, 0};
		int pr = poll(&p, 1, 1000);
		if (stopAll && *stopAll) { kill(pid, SIGKILL); timedOut = true; break; }
		if (pr > 0) {
			ssize_t r = read(pf[0], buf, sizeof buf);
			if (r < 0 && errno == EINTR) continue;
			if (r <= 0) break;
			b.append(buf, (size_t)r);
		}
		else if (nowS() - t0 > CHILD_WALL) { kill(pid, SIGKILL); timedOut = true; break; }
	}
	close(pf[0]);
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (!unpack(b, o)) {
		o = Out();
		o.crashed = true;
		char m[100];
		if (timedOut) snprintf(m, sizeof m, "wall-clock limit");
		else if (WIFSIGNALED(st)) snprintf(m, sizeof m, "signal %d", WTERMSIG(st));
		else snprintf(m, sizeof m, "exit %d", WEXITSTATUS(st));
		o.crashInfo = m;
	}
	return o;
}

Verdict evaluate(Scenario & s, const Case & c, Out * outp) {
	Out o = runChild(c, [&](const Case & k, Out & out) { s.exec(k, out); });
	if (outp) *outp = o;
	if (o.crashed) return Verdict{"HARNESS", o.crashInfo};
	if (o.violClass == "truncated") return Verdict();
	if (!o.violClass.empty()) return Verdict{o.violClass, o.violDetail};
	return s.check(c, o);
}

// ---------------------------------------------------------------- minimisation
static bool sameFailure(Scenario & s, const Case & c, const std::string & cls, int & budget, double deadline) {
	if (budget-- <= 0 || nowS() > deadline) return false;
	return evaluate(s, c).cls == cls;
}
static Case minimise(Scenario & s, Case c, const std::string & cls, double wall) {
	int budget = 600;
	double dl = nowS() + wall;
	auto over = [&]() { return budget <= 0 || nowS() > dl; }; // copying a case is not free: stop at once
	if (c.sched.mode == Sched::RANDOM) {
		Out o;
		evaluate(s, c, &o);
		Case d = c;
		d.sched = Sched();
		if (sameFailure(s, d, cls, budget, dl)) c = d;
		else {
			d = c;
			d.sched.mode = Sched::EXPLICIT;
			d.sched.list = o.taken;
			if (sameFailure(s, d, cls, budget, dl)) c = d;
		}
	}
	bool progress = true;
	while (progress && budget > 0 && nowS() < dl) {
		progress = false;
		for (size_t chunk = c.ops.size() / 2; chunk >= 1 && !over(); chunk /= 2) {
			for (size_t i = 0; i < c.ops.size() && !over();) {
				Case d = c;
				size_t e = std::min(c.ops.size(), i + chunk), k = i;
				bool any = false;
				for (size_t j = i; j < e; j++) {
					if (s.opRemovable(c.ops[j])) { d.ops.erase(d.ops.begin() + (long)k); any = true; }
					else k++;
				}
				if (any && sameFailure(s, d, cls, budget, dl)) { c = d; progress = true; }
				else i += chunk;
			}
		}
		for (size_t i = 0; i < c.faults.size() && !over();) {
			Case d = c;
			d.faults.erase(d.faults.begin() + (long)i);
			if (sameFailure(s, d, cls, budget, dl)) { c = d; progress = true; }
			else i++;
		}
		if (c.sched.mode == Sched::EXPLICIT) {
			for (size_t chunk = c.sched.list.size(); chunk >= 1 && !over(); chunk /= 2) {
				for (size_t i = 0; i < c.sched.list.size() && !over();) {
					Case d = c;
					size_t e = std::min(c.sched.list.size(), i + chunk);
					d.sched.list.erase(d.sched.list.begin() + (long)i, d.sched.list.begin() + (long)e);
					if (sameFailure(s, d, cls, budget, dl)) { c = d; progress = true; }
					else i += chunk;
				}
			}
		}
		if (!over()) for (auto & d : s.shrinks(c)) {
			if (sameFailure(s, d, cls, budget, dl)) { c = d; progress = true; break; }
		}
	}
	if (c.garbage != 0) { Case d = c; d.garbage = 0; if (sameFailure(s, d, cls, budget, dl)) c = d; }
	if (c.reuse != 0) { Case d = c; d.reuse = 0; if (sameFailure(s, d, cls, budget, dl)) c = d; }
	return c;
}

// ---------------------------------------------------------------- known findings
struct Known { std::string prop, cls, match, text; };
static std::vector<Known> loadKnown(const std::string & f) {
	// lines: finding <tab> property <tab> violation class <tab> substring of the minimised case or detail <tab> description
	std::vector<Known> v;
	std::ifstream in(f);
	std::string l;
	while (std::getline(in, l)) {
		if (l.compare(0, 8, "finding\t")) continue;
		std::vector<std::string> p;
		std::stringstream ss(l);
		std::string x;
		while (std::getline(ss, x, '\t')) p.push_back(x);
		if (p.size() >= 5) v.push_back(Known{p[1], p[2], p[3], p[4]});
	}
	return v;
}

// ---------------------------------------------------------------- search driver
struct Tally {
	uint64_t runs = 0, nontrivial = 0, steps = 0, switches = 0, errors = 0, events = 0, known = 0;
	uint64_t fired[F_KINDS] = {0}, faultRuns = 0;
	uint64_t probes[32] = {0};
	char viol[1 << 16];
};
static uint64_t caseSeed(uint64_t base, uint64_t i) { Rng r(base * 1000003ull + i); return r.next() >> 1; }

static std::string jstr(const std::string & s) {
	std::string r = "\"";
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char c = (unsigned char)s[i];
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c < 0x20 || c == 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += (char)c;
	}
	return r + "\"";
}
// keep evidence valid UTF-8 whatever bytes a case contains
static std::string ascii(const std::string & s) {
	std::string r;
	for (unsigned char c : s) { if (c < 0x80) r += (char)c; else { char b[5]; snprintf(b, sizeof b, "%%%02x", c); r += b; } }
	return r;
}

static void putAll(int fd, const void * p, size_t n) { const char * c = (const char *)p; while (n) { ssize_t w = write(fd, c, n); if (w < 0 && errno == EINTR) continue; if (w <= 0) _exit(3); c += w; n -= (size_t)w; } }

int driverMain(int argc, char ** argv, std::vector<Scenario *> scenarios) {
	if (argc < 3) { fprintf(stderr, "usage: check|one|replay|det ...\n"); return 2; }
	int pers = personality(0xffffffff);
	if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned long)(pers | ADDR_NO_RANDOMIZE)) >= 0) {
		execv("/proc/self/exe", argv);
	}
	std::string mode = argv[1];
	std::map<std::string, std::string> opt;
	for (int i = 3; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
	if (opt.count("--verif")) verifDir = opt["--verif"];
	thoroughTier = opt["--tier"] == "thorough";
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	sysInit();

	Scenario * sc = nullptr;
	Case rcase;
	std::string prop = argv[2];
	if (mode == "replay") {
		if (!Case::parse(readFile(argv[2]), rcase)) { fprintf(stderr, "bad replay file\n"); return 2; }
		prop = rcase.prop;
	}
	for (auto s : scenarios) if (s->prop() == prop) sc = s;
	if (!sc) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
	sc->setup();

	if (mode == "replay") {
		bool quiet = opt.count("--quiet");
		Out o = runChild(rcase, [&](const Case & k, Out & out) { sc->exec(k, out); }, !quiet);
		Verdict v = o.crashed ? Verdict{"HARNESS", o.crashInfo} : !o.violClass.empty() ? Verdict{o.violClass, o.violDetail} : sc->check(rcase, o);
		if (!quiet) {
			printf("%s\n", rcase.text().c_str());
			for (auto & r : o.res) printf("result %d %s\n", r.first, pct(r.second).substr(0, 2000).c_str());
			for (auto & r : o.kv) printf("observed %s %s\n", r.first.c_str(), pct(r.second).substr(0, 2000).c_str());
			printf("--- events\n%s---\n", o.log.c_str());
		}
		printf("hash %016lx class %s detail %s\n", (unsigned long)o.hash, v.cls.empty() ? "none" : v.cls.c_str(), v.detail.c_str());
		return v.bad() ? 1 : 0;
	}
	uint64_t seed = opt.count("--seed") ? strtoull(opt["--seed"].c_str(), nullptr, 10) : 1;
	if (mode == "one") {
		Case c = sc->gen(opt.count("--raw") ? strtoull(opt["--raw"].c_str(), nullptr, 10) : caseSeed(seed, strtoull(opt["--n"].c_str(), nullptr, 10)), thoroughTier);
		if (opt.count("--case")) Case::parse(readFile(opt["--case"]), c);
		printf("%s\n", c.text().c_str());
		double t0 = nowS();
		Out o = runChild(c, [&](const Case & k, Out & out) { sc->exec(k, out); }, true);
		double t1 = nowS();
		Verdict v = o.crashed ? Verdict{"HARNESS", o.crashInfo} : !o.violClass.empty() ? Verdict{o.violClass, o.violDetail} : sc->check(c, o);
		double t2 = nowS();
		for (auto & r : o.res) printf("result %d %s\n", r.first, pct(r.second).substr(0, 500).c_str());
		for (auto & r : o.kv) printf("observed %s %s\n", r.first.c_str(), pct(r.second).substr(0, 1000).c_str());
		if (opt.count("--log")) printf("%s", o.log.c_str());
		printf("steps %lu switches %lu allocs %lu hash %016lx run %.3fs check %.3fs\nverdict %s %s\n", (unsigned long)o.st.steps, (unsigned long)o.st.switches, (unsigned long)o.st.allocs, (unsigned long)o.hash, t1 - t0, t2 - t1, v.cls.empty() ? "none" : v.cls.c_str(), v.detail.c_str());
		return v.bad() ? 1 : 0;
	}
	if (mode == "det") {
		uint64_t n = strtoull(opt["--n"].c_str(), nullptr, 10), from = opt.count("--from") ? strtoull(opt["--from"].c_str(), nullptr, 10) : 0;
		for (uint64_t i = from; i < from + n; i++) {
			Case c = sc->gen(caseSeed(seed, i), thoroughTier);
			Out o = runChild(c, [&](const Case & k, Out & out) { sc->exec(k, out); });
			printf("%lu %016lx %s\n", (unsigned long)i, (unsigned long)o.hash, o.crashed ? o.crashInfo.c_str() : o.violClass.c_str());
		}
		return 0;
	}
	if (mode != "check") return 2;

	int jobs = opt.count("--jobs") ? atoi(opt["--jobs"].c_str()) : 8;
	double budget = opt.count("--budget") ? atof(opt["--budget"].c_str()) : 30;
	uint64_t maxRuns = opt.count("--max") ? strtoull(opt["--max"].c_str(), nullptr, 10) : ~0ull;
	std::string replayDir = opt.count("--replays") ? opt["--replays"] : verifDir + "/replays";
	std::vector<Known> known = loadKnown(verifDir + "/known_findings.txt");
	double t0 = nowS();
	printf("seed %lu property %s tier %s\n", (unsigned long)seed, prop.c_str(), thoroughTier ? "thorough" : "quick");
	fflush(stdout);

	struct W { pid_t pid; int fd; std::string buf; };
	std::vector<W> ws;
	volatile int * found = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (int j = 0; j < jobs; j++) {
		int pf[2];
		if (pipe(pf)) return 3;
		pid_t pid = fork();
		if (pid == 0) {
			close(pf[0]);
			int fd = fcntl(pf[1], F_DUPFD_CLOEXEC, 150);
			Tally * t = new Tally();
			std::vector<uint64_t> hashes;
			std::set<std::string> knownHit;
			std::string viol, sample;
			std::vector<std::string> errors;
			for (uint64_t i = (uint64_t)j; i < maxRuns && nowS() - t0 < budget && !*found; i += (uint64_t)jobs) {
				Case c = sc->gen(caseSeed(seed, i), thoroughTier);
				Out o;
				stopAll = found;
				Verdict v = evaluate(*sc, c, &o);
				if (*found) break;
				t->runs++;
				t->steps += o.st.steps;
				t->switches += o.st.switches;
				t->events += o.st.events;
				bool any = false;
				for (int k = 0; k < F_KINDS; k++) { t->fired[k] += o.st.fired[k]; if (o.st.fired[k]) any = true; }
				for (int k = 0; k < 32; k++) t->probes[k] += o.st.probes[k];
				if (any) t->faultRuns++;
				if (!v.bad() && sc->nontrivial(c, o)) { t->nontrivial++; hashes.push_back(sc->stateHash(c, o)); }
				if (sample.empty() && !v.bad() && j == 0 && i > 0 && sc->nontrivial(c, o)) {
					std::string body = c.text();
					sample = body.size() > 3000 ? body.substr(0, 3000) + "..." : body;
				}
				if (v.bad()) {
					bool k = false;
					for (auto & kf : known) if (kf.prop == prop && kf.cls == v.cls && v.detail.find(kf.match) != std::string::npos) { knownHit.insert(kf.text); k = true; }
					if (k) { t->known++; continue; }
					// same seed again must give the same execution
					Out o2;
					Verdict v2 = v;
					o2.hash = o.hash;
					if (v.cls != "HARNESS") v2 = evaluate(*sc, c, &o2);
					if (*found) break;
					if (v.cls == "HARNESS" || v2.cls != v.cls || o2.hash != o.hash) {
						t->errors++;
						std::string e = "case seed " + std::to_string(c.seed) + ": " + v.cls + " " + v.detail + " / " + v2.cls + " " + v2.detail;
						errors.push_back(e);
						if (errors.size() > 3) break;
						continue;
					}
					*found = 1;
					viol = std::to_string(i) + "\n" + v.cls + "\n" + v.detail + "\n" + c.text();
					break;
				}
			}
			putAll(fd, t, sizeof(Tally) - sizeof t->viol);
			std::string b;
			putStr(b, viol);
			putStr(b, sample);
			putStr(b, std::to_string(knownHit.size()));
			for (auto & k : knownHit) putStr(b, k);
			putStr(b, std::to_string(errors.size()));
			for (auto & k : errors) putStr(b, k);
			putStr(b, std::string((const char *)hashes.data(), hashes.size() * 8));
			putAll(fd, b.data(), b.size());
			_exit(0);
		}
		close(pf[1]);
		ws.push_back(W{pid, pf[0], ""});
	}
	bool stop = false;
	size_t openN = ws.size();
	while (openN) {
		std::vector<struct pollfd> p;
		std::vector<size_t> idx;
		for (size_t i = 0; i < ws.size(); i++) if (ws[i].fd >= 0) { p.push_back({ws[i].fd, POLLIN, 0}); idx.push_back(i); }
		poll(p.data(), p.size(), 1000);
		for (size_t k = 0; k < p.size(); k++) {
			if (!p[k].revents) continue;
			char buf[65536];
			ssize_t r = read(p[k].fd, buf, sizeof buf);
			if (r < 0 && errno == EINTR) continue;
			if (r <= 0) { close(p[k].fd); ws[idx[k]].fd = -1; openN--; continue; }
			ws[idx[k]].buf.append(buf, (size_t)r);
		}
	}
	(void)stop;
	Tally tot;
	memset((void *)&tot, 0, sizeof tot);
	std::unordered_set<uint64_t> distinct;
	std::set<std::string> knownHit;
	std::string sample, viol;
	uint64_t violIdx = ~0ull;
	std::vector<std::string> errors;
	for (auto & w : ws) {
		int st;
		waitpid(w.pid, &st, 0);
		const size_t hs = sizeof(Tally) - sizeof tot.viol;
		if (w.buf.size() < hs) { errors.push_back("worker died"); continue; }
		Tally * t = (Tally *)w.buf.data();
		tot.runs += t->runs; tot.nontrivial += t->nontrivial; tot.steps += t->steps; tot.switches += t->switches;
		tot.errors += t->errors; tot.events += t->events; tot.known += t->known; tot.faultRuns += t->faultRuns;
		for (int k = 0; k < F_KINDS; k++) tot.fired[k] += t->fired[k];
		for (int k = 0; k < 32; k++) tot.probes[k] += t->probes[k];
		std::string b = w.buf.substr(hs), s;
		size_t p = 0;
		std::string v;
		getStr(b, p, v);
		if (!v.empty()) { uint64_t i = strtoull(v.c_str(), nullptr, 10); if (i < violIdx) { violIdx = i; viol = v; } }
		getStr(b, p, s);
		if (!s.empty()) sample = s;
		getStr(b, p, s);
		for (int n = atoi(s.c_str()); n > 0; n--) { getStr(b, p, s); knownHit.insert(s); }
		getStr(b, p, s);
		for (int n = atoi(s.c_str()); n > 0; n--) { getStr(b, p, s); errors.push_back(s); }
		getStr(b, p, s);
		const uint64_t * h = (const uint64_t *)s.data();
		for (size_t i = 0; i < s.size() / 8; i++) { uint64_t x; memcpy(&x, h + i, 8); distinct.insert(x); }
	}
	double searchWall = nowS() - t0;
	int rc = 0;
	std::string replayPath;
	if (!viol.empty()) {
		size_t a = viol.find('\n'), b = viol.find('\n', a + 1), d = viol.find('\n', b + 1);
		std::string cls = viol.substr(a + 1, b - a - 1), detail = viol.substr(b + 1, d - b - 1);
		Case c;
		Case::parse(viol.substr(d + 1), c);
		Case m = minimise(*sc, c, cls, thoroughTier ? 240 : 60);
		Out o;
		Verdict v = evaluate(*sc, m, &o);
		if (v.cls != cls) { m = c; v = evaluate(*sc, m, &o); }
		mkdir(replayDir.c_str(), 0777);
		replayPath = replayDir + "/" + prop + "-" + std::to_string(c.seed) + ".case";
		{
			std::ofstream f(replayPath);
			f << "# " << v.cls << ": " << v.detail << "\n# run index " << violIdx << " of seed " << seed << "; replay: bash /verif/run.sh replay " << replayPath << "\n" << m.text();
		}
		// fresh process must fail in exactly the same way
		char want[64];
		snprintf(want, sizeof want, "hash %016lx class %s", (unsigned long)o.hash, v.cls.c_str());
		std::string cmd = "'" + std::string(argv[0]) + "' replay '" + replayPath + "' --quiet 1 --verif '" + verifDir + "' 2>/dev/null";
		FILE * pf = popen(cmd.c_str(), "r");
		std::string got;
		char buf[4096];
		size_t n;
		while ((n = fread(buf, 1, sizeof buf, pf)) > 0) got.append(buf, n);
		pclose(pf);
		if (got.find(want) == std::string::npos) {
			errors.push_back("violation " + v.cls + " (" + v.detail + ") did not replay in a fresh process: wanted " + want + " got " + got.substr(0, 200));
			rc = 3;
		}
		else {
			printf("violation: %s: %s\n", v.cls.c_str(), v.detail.c_str());
			rc = 1;
		}
	}
	if (!errors.empty() && rc == 0) rc = 3;
	for (auto & e : errors) printf("ERROR %s\n", e.c_str());
	for (auto & k : knownHit) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.c_str());

	std::string ev = opt.count("--evidence") ? opt["--evidence"] : "";
	if (!ev.empty()) {
		std::ofstream f(ev);
		double hours = searchWall / 3600;
		f << "{\n \"property\": " << jstr(prop) << ",\n \"tier\": \"" << (thoroughTier ? "thorough" : "quick") << "\",\n \"seed\": " << seed << ",\n \"level\": \"" << (opt.count("--level") ? opt["--level"] : "exploration") << "\",\n";
		f << " \"coverage\": {\n  \"evaluations\": " << tot.runs << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n";
		f << "  \"rule\": " << jstr(sc->rule()) << ",\n";
		f << "  \"samples\": [" << jstr(ascii(sample)) << "],\n";
		f << "  \"simulated_runs_per_hour\": " << (uint64_t)(hours > 0 ? (double)tot.runs / hours : 0) << ",\n";
		f << "  \"simulated_steps\": " << tot.steps << ",\n  \"simulated_time_s\": " << (double)tot.steps * 1e-7 << ",\n  \"context_switches\": " << tot.switches << ",\n  \"seam_events\": " << tot.events << ",\n";
		f << "  \"runs_with_injected_faults\": " << tot.faultRuns << ",\n  \"faults_injected\": {";
		bool first = true;
		for (int k = 0; k < F_KINDS; k++) if (tot.fired[k]) { f << (first ? "" : ", ") << jstr(faultNames[k]) << ": " << tot.fired[k]; first = false; }
		f << "},\n  \"probes\": [";
		int np = 0;
		for (int k = 0; k < 32; k++) if (tot.probes[k]) np = k + 1;
		for (int k = 0; k < np; k++) f << (k ? ", " : "") << tot.probes[k];
		f << "],\n  \"distinct_measure\": \"distinct 64-bit hashes of the complete event, schedule and result log of nontrivial runs\",\n";
		f << "  \"components\": " << jstr(sc->components()) << ",\n  \"known_finding_runs\": " << tot.known << "\n },\n";
		f << " \"assumptions\": [\"seeded sampling, not enumeration\", \"simulated file system and libc interposition reproduce Linux semantics for the calls used\", \"preemption at instrumented memory accesses under sequential consistency\"],\n";
		f << " \"wall_s\": " << nowS() - t0 << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
	}
	printf("%lu runs (%lu distinct nontrivial), %lu with faults, %lu steps, %lu switches, %.1f s\n", (unsigned long)tot.runs, (unsigned long)distinct.size(), (unsigned long)tot.faultRuns, (unsigned long)tot.steps, (unsigned long)tot.switches, searchWall);
	if (rc == 1) printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replayPath.c_str());
	return rc;
}
