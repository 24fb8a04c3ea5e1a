// C04, C09, C10: the command line tools, with all of their threads, on simulated standard streams and files.
#include "../lib/hist.hpp"
#include <clocale>
#include <locale>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <string.h>
#include <unistd.h>
using namespace sim;
extern "C" int tool_main(int argc, char ** argv);
extern "C" int tool_main_second(int argc, char ** argv);
#define STR2(x) #x
#define STR(x) STR2(x)
static const std::string TOOLNAME = STR(TOOL);
static const bool isSpell = TOOLNAME == "voikkospell", isGc = TOOLNAME == "voikkogc", isHyph = TOOLNAME == "voikkohyphenate";

// ---------------------------------------------------------------- running the tool
static void finishRun(int code) {
	Out & o = *childOut;
	o.kv["exit"] = std::to_string(code);
	o.kv["out"] = stdio.out;
	o.kv["err"] = stdio.err.substr(0, 400);
	o.kv["inErr"] = stdio.inErrFired ? "1" : "0";
	o.kv["outErr"] = stdio.outErrFired ? "1" : "0";
	o.kv["unjoined"] = std::to_string(unjoinedThreads());
	o.kv["inDone"] = stdio.inDone ? "1" : "0";
	std::string d;
	if (fsRead("/work/out.vfst", d)) o.kv["file"] = d;
	childFinish();
}
static void runTool(const Case & c, const std::vector<std::string> & args, const std::string & in) {
	// stdout starts without an orientation and without a buffer, as in a new process
	if (!freopen("/dev/null", "w", stdout)) _exit(3);
	stdio = StdIo();
	stdio.on = true;
	stdio.in = in;
	stdio.inErrAt = c.geti("inErrAt", -1);
	stdio.outErrAt = c.geti("outErrAt", -1);
	stdio.outErrno = (int)c.geti("outErrno", 28);
	stdio.outErrN = c.geti("outErrN", 0);
	stdio.inErrN = c.geti("inErrN", 0);
	stdio.outShort = (uint32_t)c.geti("outShort", 0);
	stdio.pipe = c.geti("pipe", 1) != 0;
	if (c.get("old") != "") fsPut("/work/out.vfst", c.get("old"));
	uint64_t cs = strtoull(c.get("chunkSeed", "0").c_str(), nullptr, 10);
	int64_t mean = c.geti("chunk", 0);
	if (mean > 0) {
		Rng r(cs);
		size_t got = 0;
		while (got < in.size() + 10) { uint32_t k = (uint32_t)(1 + r.below((uint64_t)mean * 2 - 1)); stdio.chunks.push_back(k); got += k; }
	}
	std::vector<std::string> * keep = new std::vector<std::string>(args);
	keep->insert(keep->begin(), TOOLNAME);
	char ** argv = new char *[keep->size() + 1];
	for (size_t i = 0; i < keep->size(); i++) argv[i] = strdup((*keep)[i].c_str());
	argv[keep->size()] = nullptr;
	int argc = (int)keep->size();
	onExit = finishRun;
	setenv("LC_ALL", c.get("loc", "C.UTF-8").c_str(), 1);
	arm(true);
	stackGarbage();
	InLib lib;
	int rc = c.geti("second") ? tool_main_second(argc, argv) : tool_main(argc, argv);
	exit(rc);
}
static std::vector<std::string> argsOf(const Case & c) { for (auto & o : c.ops) if (o.a[0] == "args") return std::vector<std::string>(o.a.begin() + 1, o.a.end()); return {}; }
static std::string inputOf(const Case & c) {
	std::string s;
	for (auto & o : c.ops) {
		if (o.a[0] == "in") s += o.a[1];
		else if (o.a[0] == "rep") for (int i = atoi(o.a[1].c_str()); i > 0; i--) s += o.a[2];
	}
	return s;
}
struct ToolScenario : Scenario {
	void setup() override {
		setlocale(LC_ALL, "C.UTF-8");
		{ std::ostringstream o; o << 1.5 << 2 << true << std::hex << 3ul; std::wostringstream w; w << 1.5 << 2 << L"x"; std::istringstream i("1 2.5 x"); int a; double d; std::string s; i >> a >> d >> s; std::wistringstream wi(L"1 x"); std::wstring ws; wi >> a >> ws; }
		setlocale(LC_ALL, "C");
		mat.load();
		baseTree();
		passPrefixes.push_back("/usr/lib/locale");
		passPrefixes.push_back("/usr/share/locale");
		passPrefixes.push_back("/usr/lib/x86_64-linux-gnu/gconv");
	}
	void exec(const Case & c, Out &) override { runTool(c, argsOf(c), inputOf(c)); }
	bool opRemovable(const Op & o) override { return o.a[0] != "args"; }
	std::vector<Case> shrinks(const Case & c) override {
		std::vector<Case> v;
		for (size_t i = 0; i < c.ops.size(); i++) {
			if (c.ops[i].a[0] == "rep") {
				int n = atoi(c.ops[i].a[1].c_str());
				for (int k : {1, n / 2, n - 100, n - 10, n - 1}) if (k > 0 && k < n) { Case d = c; d.ops[i].a[1] = std::to_string(k); v.push_back(d); }
			}
			else if (c.ops[i].a[0] == "args") {
				for (size_t j = 1; j < c.ops[i].a.size(); j++) {
					const std::string & a = c.ops[i].a[j];
					if (a == "-d" || a == "-p" || a == "-j" || a == "-o" || a == "-w" || a == "-f") { j++; continue; }
					Case d = c;
					d.ops[i].a.erase(d.ops[i].a.begin() + (long)j);
					v.push_back(d);
				}
			}
		}
		for (const char * k : {"chunk", "outShort"}) if (c.geti(k) > 0) { Case d = c; d.par.erase(k); v.push_back(d); }
		return v;
	}
	// the same command and input, alone and undisturbed
	Out reference(const Case & c, const std::vector<std::string> & args, uint64_t garbage) {
		Case r = c;
		r.sched = Sched();
		r.faults.clear();
		for (const char * k : {"inErrAt", "outErrAt", "outErrN", "inErrN", "outShort", "chunk"}) r.par.erase(k);
		r.garbage = garbage;
		r.seti("second", 1);
		return runChild(r, [&](const Case & k, Out &) { runTool(k, args, inputOf(k)); });
	}
	static Verdict bad(const Out & o, const char * who) {
		if (o.crashed) return Verdict{"HARNESS", std::string(who) + ": " + o.crashInfo};
		if (!o.violClass.empty()) return Verdict{std::string(who) + "-" + o.violClass, o.violDetail};
		return Verdict();
	}
	static std::string kv(const Out & o, const char * k) { auto it = o.kv.find(k); return it == o.kv.end() ? "" : it->second; }
	static std::string diff(const std::string & a, const std::string & b) {
		size_t i = 0;
		while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
		size_t f = i > 10 ? i - 10 : 0;
		return "at byte " + std::to_string(i) + " of " + std::to_string(a.size()) + " (expected " + std::to_string(b.size()) + "): '" + pct(a.substr(f, 40)) + "', expected '" + pct(b.substr(f, 40)) + "'";
	}
};

// ---------------------------------------------------------------- input lines
static std::string cleanWord(Gen & g, const std::string & d, size_t max) {
	std::string w = g.word(d);
	w.erase(std::remove(w.begin(), w.end(), '\n'), w.end());
	if (wide(w).size() > max) w = "kissa";
	return w.empty() ? "a" : w;
}
static std::string oddLine(Gen & g, const std::string & d) {
	switch (g.r.below(9)) {
		case 0: return "";
		case 1: return std::string(250 + g.r.below(10), 'a');
		case 2: return "\xc3\x28" + cleanWord(g, d, 10);                 // invalid UTF-8
		case 3: return cleanWord(g, d, 10) + std::string("\xc3", 1);     // cut UTF-8 sequence at the end
		case 4: return "ka\xcc\x88";
		case 5: return std::string("a\0b", 3);
		case 6: return " ";
		case 7: return "\xf0\x9f\x98\x80" "a";
		default: return cleanWord(g, d, 12) + "\r";
	}
}
static std::string smallDict(Gen & g) { static const std::vector<std::string> v = {"wvfst", "wvfst", "svfst", "svfst", "bevfst", "vfstd"}; return g.r.pick(v); }

static std::string spellOption(Gen & g) {
	static const std::vector<std::string> v = {"ignore_dot", "ignore_numbers", "ignore_nonwords", "accept_first_uppercase", "accept_all_uppercase", "accept_extra_hyphens", "accept_missing_hyphens", "ocr_suggestions", "ignore_dot", "ignore_numbers"};
	return g.r.pick(v) + (g.r.chance(1, 2) ? "=1" : "=0");
}

#if 1
// ---------------------------------------------------------------- C04
struct ParallelScenario : ToolScenario {
	std::string prop() const override { return "C04"; }
	Case gen(uint64_t seed, bool thorough) override {
		Gen g(seed);
		Case c;
		c.prop = "C04";
		c.seed = seed;
		c.par["tool"] = TOOLNAME;
		c.garbage = g.r.next();
		c.reuse = (int)g.r.below(3);
		static const std::vector<uint64_t> means = {40, 300, 2000, 20000, 200000, 2000000};
		c.sched.mode = Sched::RANDOM;
		c.sched.seed = g.r.next() >> 1;
		c.sched.mean = g.r.pick(means);
		c.sched.hot = g.r.chance(1, 3) ? 40 : 0;
		std::string d = smallDict(g);
		int nt = 2 + (int)g.r.below(g.r.chance(1, 3) ? 9 : 3);
		if (d == "vfstd" && g.r.chance(1, 2)) d = "svfst";
		if (g.r.chance(1, 15)) d = "standard";
		std::vector<std::string> a = {"args", "-p", "/dict", "-d", tagOf(d), "-j", std::to_string(nt)};
		bool sugg = false;
		// suggestions are affordable with the smallest dictionary only
		switch (g.r.below(d == "svfst" ? 8 : 4)) {
			case 0: a.push_back("-t"); break;
			case 1: a.push_back("-tt"); break;
			case 2: a.push_back("-m"); break;
			case 3: a.push_back("-M"); break;
			case 4: a.push_back(g.r.chance(1, 2) ? "-x" : "-x:"); sugg = true; break;
			case 5: a.push_back("-s"); sugg = true; break;
			default: break;
		}
		for (size_t i = 0, n = g.r.chance(1, 2) ? 0 : 1 + g.r.below(3); i < n; i++) a.push_back(spellOption(g));
		if (g.r.chance(1, 4)) a.push_back("-c" + std::to_string((int)g.r.below(4) - 1));
		c.add(0, a);
		// number of blocks below, at and above the number of threads; sizes around block boundaries
		int blocks;
		switch (g.r.below(4)) {
			case 0: blocks = (int)g.r.below((uint64_t)nt); break;
			case 1: blocks = nt - 1 + (int)g.r.below(3); break;
			case 2: blocks = (int)g.r.below((uint64_t)nt * 2 + 2); break;
			default: blocks = (int)g.r.below(thorough ? 40 : 8);
		}
		int words = blocks * 500 + (int)g.r.below(3) - 1;
		if (g.r.chance(1, 4)) words = (int)g.r.below(1200);
		if (words < 0) words = 0;
		std::vector<std::string> pool;
		for (size_t i = 0, n = 3 + g.r.below(12); i < n; i++) pool.push_back(cleanWord(g, d, sugg ? 7 : 25));
		if (!sugg) for (size_t i = 0, n = g.r.below(4); i < n; i++) {
			// words that options bear on
			static const std::vector<std::string> v = {"avo", "housu", "bosnialais", "vuotias", "keski", "ylä-paikka", "vir-he", "kaksitoista-vuotias", "KISSA", "Kissa", "kissa.", "kis-sa", "a1", "kissa5", "http://a.fi", "kissa-", "a@b.fi", "kiSSa", "kissa--koira"};
			pool.push_back(g.r.pick(v));
		}
		bool odd = g.r.chance(1, 3);
		std::string buf;
		int left = words;
		while (left > 0) {
			if (g.r.chance(1, 3) && !sugg) {
				// many copies of one cheap word
				int k = 1 + (int)g.r.below((uint64_t)std::min(left, 400));
				if (!buf.empty()) { c.add(0, {"in", buf}); buf.clear(); }
				c.add(0, {"rep", std::to_string(k), g.r.pick(pool) + "\n"});
				left -= k;
			}
			else {
				int k = std::min(left, 1 + (int)g.r.below(30));
				if (sugg && (left > 40 || c.ops.size() > 12)) {
					// suggestions are slow: mostly correct or very short words
					int m = std::min(left, 100 + (int)g.r.below(400));
					if (!buf.empty()) { c.add(0, {"in", buf}); buf.clear(); }
					c.add(0, {"rep", std::to_string(m), (g.r.chance(1, 2) ? g.r.pick(mat.wwords) : std::string("5")) + "\n"});
					left -= m;
					continue;
				}
				for (int i = 0; i < k; i++) buf += (odd && g.r.chance(1, 10) ? oddLine(g, d) : g.r.pick(pool) + (g.r.chance(1, 3) ? std::to_string(g.r.below(100)) : "")) + "\n";
				left -= k;
			}
		}
		if (!buf.empty()) c.add(0, {"in", buf});
		if (g.r.chance(1, 6)) c.add(0, {"in", g.r.pick(pool)});          // last line without newline
		if (g.r.chance(1, 4)) { c.seti("chunk", 1 + (int64_t)g.r.below(3000)); c.par["chunkSeed"] = std::to_string(g.r.next() >> 1); }
		if (g.r.chance(1, 12)) { Fault f; f.kind = F_THREAD; f.nth = 1 + g.r.below(6); f.arg = 0; f.op = -1; c.faults.push_back(f); }
		return c;
	}
	Verdict check(const Case & c, const Out & o) override {
		std::vector<std::string> a = argsOf(c), s;
		for (size_t i = 0; i < a.size(); i++) { s.push_back(a[i]); if (a[i] == "-j" && i + 1 < a.size()) { s.push_back("1"); i++; } }
		Out r = reference(c, s, c.garbage);
		Verdict v = bad(r, "serial");
		if (v.bad()) return v;
		std::string out = kv(o, "out"), want = kv(r, "out");
		if (o.st.fired[F_THREAD]) {
			if (kv(o, "exit") == "0") return Verdict{"thread-failure-ignored", "exit status 0 although a worker thread could not be started"};
			if (want.compare(0, out.size(), out)) return Verdict{"not-a-prefix", "output before the failure differs " + diff(out, want)};
			return Verdict();
		}
		if (out != want) return Verdict{"output-differs", "from -j 1 " + diff(out, want)};
		if (kv(o, "exit") != kv(r, "exit")) return Verdict{"status-differs", "exit status " + kv(o, "exit") + ", with -j 1 " + kv(r, "exit")};
		if (kv(o, "unjoined") != "0") return Verdict{"thread-leak", kv(o, "unjoined") + " threads not joined when the tool ended"};
		return Verdict();
	}
	std::string rule() const override { return "voikkospell -j 2..10 on up to 8 (thorough 40) blocks of words around block boundaries, random output options, chunked input, rarely a failing pthread_create; workers switched at memory accesses by a seeded scheduler; output and status compared with -j 1; non-trivial: at least 3 context switches"; }
	std::string components() const override { return "real: voikkospell and libvoikko (unmodified sources, instrumented), libstdc++, glibc stdio; simulated: threads, scheduler, standard streams, file system, heap"; }
	bool nontrivial(const Case &, const Out & o) override { return o.st.switches >= 3; }
};
#endif

// ---------------------------------------------------------------- C10
struct FilterScenario : ToolScenario {
	std::string prop() const override { return "C10"; }
	Case gen(uint64_t seed, bool thorough) override {
		Gen g(seed);
		Case c;
		c.prop = "C10";
		c.seed = seed;
		c.par["tool"] = TOOLNAME;
		c.garbage = g.r.next();
		c.reuse = (int)g.r.below(3);
		std::string d = isGc ? (g.r.chance(1, 2) ? "standard" : smallDict(g)) : smallDict(g);
		std::vector<std::string> a = {"args", "-p", "/dict", "-d", tagOf(d)};
		size_t big = g.r.chance(1, 3) ? (thorough ? 6000 : 1500) : g.r.chance(1, 2) ? 60 : 6;
		size_t n = g.r.below(big + 1), maxLen = 20;
		if (isSpell) {
			static const std::vector<std::string> o = {"-t", "-tt", "-m", "-M", "-c2", "-c-1"};
			if (g.r.chance(1, 2)) a.push_back(g.r.pick(o));
			for (size_t i = 0, k = g.r.chance(1, 2) ? 0 : 1 + g.r.below(3); i < k; i++) a.push_back(spellOption(g));
			if (d == "svfst" && g.r.chance(1, 3)) { a.push_back(g.r.chance(1, 2) ? "-s" : "-x"); maxLen = 8; if (n > 300) n = 300; }
			if (g.r.chance(1, 5)) { a.push_back("-j"); a.push_back(std::to_string(2 + g.r.below(3))); }
			if (g.r.chance(1, 25)) a = {"args", "-p", "/dict", g.r.chance(1, 2) ? "-l" : "-L"};
			else if (g.r.chance(1, 40)) a = {"args", g.r.chance(1, 2) ? "--help" : "--version"};
		}
		else if (isHyph) {
			static const std::vector<std::string> o = {"no_ugly_hyphenation=1", "no_ugly_hyphenation=0", "hyphenate_unknown_words=0", "min_hyphenated_word_length=6", "-s=", "ignore_dot=1"};
			if (g.r.chance(2, 3)) a.push_back(g.r.pick(o));
			if (g.r.chance(1, 40)) a = {"args", g.r.chance(1, 2) ? "--help" : "--version"};
		}
		else {
			static const std::vector<std::string> o = {"--tokenize", "--split-sentences", "--tokenize", "--split-sentences", "explanation_language=fi", "explanation_language=en", "-n", "accept_titles=1", "accept_unfinished_paragraphs=1", "accept_bulleted_lists=1"};
			for (size_t i = 0, k = g.r.chance(1, 4) ? 0 : 1 + g.r.below(3); i < k; i++) a.push_back(g.r.pick(o));
			if (n > 200) n = 200;
			if (g.r.chance(1, 40)) a = {"args", g.r.chance(1, 2) ? "--help" : "--version"};
		}
		c.add(0, a);
		int oddDen = g.r.chance(1, 2) ? 8 : 1000000;
		std::string first;
		std::string total;
		for (size_t i = 0; i < n;) {
			std::string buf;
			for (int k = 0; k < 10 && i < n; k++, i++) {
				if (g.r.chance(1, (unsigned)oddDen)) buf += oddLine(g, d);
				else if (isGc) { std::string p = g.para(); std::replace(p.begin(), p.end(), '\n', ' '); buf += p; }
				else buf += cleanWord(g, d, maxLen);
				if (i + 1 < n || !g.r.chance(1, 4)) buf += "\n";
			}
			c.add(0, {"in", buf});
			total += buf;
		}
		switch (g.r.below(6)) {
			case 0: case 1: break;
			case 2: c.seti("inErrAt", (int64_t)g.r.below(total.size() + 1)); break;
			case 3: c.seti("inErrAt", g.r.chance(1, 2) ? (int64_t)total.size() : 0); break;
			default: {
				// somewhere in the output, which has roughly the length of the input; often near its end
				c.seti("outErrAt", g.r.chance(1, 4) ? (int64_t)g.r.below(12) : (int64_t)g.r.below(total.size() * 2 + 40));
				static const std::vector<int64_t> e = {28, 5, 32, 11, 4};
				c.seti("outErrno", g.r.pick(e));
				if (g.r.chance(1, 2)) c.seti("outErrN", 1 + (int64_t)g.r.below(3));
			}
		}
		if (c.geti("inErrAt", -1) >= 0 && g.r.chance(1, 4)) c.seti("inErrN", 1);
		if (g.r.chance(2, 3)) { static const std::vector<int64_t> m = {1, 2, 7, 100, 1000, 4096}; c.seti("chunk", g.r.pick(m)); c.par["chunkSeed"] = std::to_string(g.r.next() >> 1); }
		if (g.r.chance(1, 3)) { static const std::vector<int64_t> m = {1, 3, 50, 1000}; c.seti("outShort", g.r.pick(m)); }
		if (g.r.chance(1, 4)) c.seti("pipe", 0);
		if (g.r.chance(1, 10)) c.par["loc"] = "C";
		if (g.r.chance(1, 2)) { c.sched.mode = Sched::RANDOM; c.sched.seed = g.r.next() >> 1; c.sched.mean = 3000; }
		return c;
	}
	Verdict check(const Case & c, const Out & o) override {
		Out r = reference(c, argsOf(c), c.garbage ^ 0x5555);
		Verdict v = bad(r, "undisturbed");
		if (v.bad()) return v;
		bool inErr = kv(o, "inErr") == "1", outErr = kv(o, "outErr") == "1";
		std::string out = kv(o, "out"), want = kv(r, "out");
		if (inErr || outErr) {
			// an error that went away may be retried successfully; only complete output may then be called success
			bool lasting = (inErr && !c.geti("inErrN")) || (outErr && !c.geti("outErrN"));
			if (kv(o, "exit") == "0" && (lasting || out != want)) return Verdict{"error-ignored", std::string("exit status 0 although ") + (outErr ? "standard output could not be written" : "reading standard input failed")};
			return Verdict();
		}
		if (out != want) return Verdict{"output-differs", diff(out, want)};
		if (kv(o, "exit") != kv(r, "exit")) return Verdict{"status-differs", "exit status " + kv(o, "exit") + ", undisturbed " + kv(r, "exit")};
		return Verdict();
	}
	std::string rule() const override { return TOOLNAME + ": random options and input lines (including empty, over-long, undecodable and unterminated ones), input delivered in reads of 1 byte to 4 kB, output accepted in short writes, an error on stdin after a random byte or ENOSPC/EIO/EPIPE/EAGAIN/EINTR on stdout after a random byte, lasting or going away after 1 to 3 calls; output and status compared with the undisturbed run on other uninitialised memory; non-trivial: a short transfer or an error happened"; }
	std::string components() const override { return "real: " + TOOLNAME + " and libvoikko (unmodified sources, instrumented), libstdc++, glibc stdio; simulated: standard streams, file system, threads, heap"; }
	bool nontrivial(const Case &, const Out & o) override { return o.st.fired[F_READ_SHORT] + o.st.fired[F_WRITE_SHORT] + o.st.fired[F_READ_ERR] + o.st.fired[F_WRITE_ERR] > 0; }
};

// ---------------------------------------------------------------- C09
struct CompilerScenario : ToolScenario {
	std::string prop() const override { return "C09"; }
	static std::string num(double w) { char b[40]; snprintf(b, sizeof b, "%g", w); return b; }
	Case gen(uint64_t seed, bool thorough) override {
		Gen g(seed);
		Case c;
		c.prop = "C09";
		c.seed = seed;
		c.par["tool"] = TOOLNAME;
		c.garbage = g.r.next();
		c.reuse = (int)g.r.below(3);
		std::vector<std::string> a = {"args", "-o", "/work/out.vfst"};
		static const std::vector<std::string> fm = {"le", "be", "native"};
		if (g.r.chance(2, 3)) { a.push_back("-f"); a.push_back(g.r.pick(fm)); }
		bool w = g.r.chance(1, 2), lg = g.r.chance(1, 2);
		if (w) { a.push_back("-w"); a.push_back(lg ? "log" : "prob"); }
		c.add(0, a);
		static const std::vector<std::string> syms = {"a", "b", "c", "k", "s", "@0@", "@_SPACE_@", "[Ln]", "[Bc]", "[Xs]", "@P.A.ON@", "@D.A@", "\xc3\xa4", "-", "@_UNKNOWN_SYMBOL_@", "x", "y", "zz"};
		int ns = 1 + (int)g.r.below(g.r.chance(1, 3) ? 400 : 12);
		if (!thorough && ns > 150) ns = 150;
		int maxSym = 2 + (int)g.r.below(syms.size() - 1);
		std::string buf;
		auto wt = [&]() { return lg ? num((double)g.r.below(3000) / 100.0) : num((1.0 + (double)g.r.below(1000)) / 1001.0); };
		auto sym = [&]() { return g.r.chance(1, 12) ? "q" + std::to_string(g.r.below(400)) : syms[g.r.below((uint64_t)maxSym)]; };
		int wideState = g.r.chance(1, 3) ? (int)g.r.below((uint64_t)ns) : -1;
		size_t bytes = 0;
		for (int s = 0; s < ns; s++) {
			int nt = (int)g.r.below(5);
			static const std::vector<int> edge = {253, 254, 255, 256, 257, 300, 700};
			if (s == wideState) nt = g.r.pick(edge);
			bool fin = nt == 0 || g.r.chance(1, 4);
			for (int t = 0; t < nt; t++) {
				buf += std::to_string(s) + "\t" + std::to_string(g.r.below((uint64_t)ns)) + "\t" + (s == wideState ? "w" + std::to_string(t) : sym()) + "\t" + sym();
				if (w) buf += "\t" + wt();
				buf += "\n";
			}
			if (fin) buf += std::to_string(s) + (w && g.r.chance(3, 4) ? "\t" + wt() : "") + "\n";
			if (buf.size() > 2000) { c.add(0, {"in", buf}); bytes += buf.size(); buf.clear(); }
		}
		if (g.r.chance(1, 12)) {
			// a line the compiler may not accept
			static const std::vector<std::string> odd = {"0\t1\ta\n", "7777\t0\ta\tb\t0.5\n", "0\n0\t1\t[\ta\t1\n", "0\t99999\ta\ta\t0.5\n", "0\t\n", "0\tx\n", "\n", "0\t0\ta\ta\tx\n"};
			buf += g.r.pick(odd);
		}
		if (!buf.empty()) { c.add(0, {"in", buf}); bytes += buf.size(); }
		if (g.r.chance(1, 4)) c.par["old"] = std::string(g.r.below(3000), 'o');
		int nf = g.r.chance(1, 3) ? 0 : 1 + (g.r.chance(1, 4) ? 1 : 0);
		for (int i = 0; i < nf; i++) {
			static const std::vector<int> kinds = {F_WRITE_ERR, F_WRITE_ERR, F_WRITE_SHORT, F_CLOSE, F_SEEK, F_OPEN, F_READ_ERR};
			int k = g.r.pick(kinds);
			if (k == F_READ_ERR) { c.seti("inErrAt", (int64_t)g.r.below(bytes + 1)); continue; }
			Fault f;
			f.kind = k;
			f.nth = 1 + g.r.below(k == F_CLOSE || k == F_OPEN ? 1 : k == F_SEEK ? 2 : 6);
			static const std::vector<int> er = {28, 5, 122};
			f.arg = k == F_WRITE_SHORT ? 1 + (int)g.r.below(300) : g.r.pick(er);
			f.op = -1;
			c.faults.push_back(f);
		}
		if (g.r.chance(1, 2)) { static const std::vector<int64_t> m = {1, 3, 50, 1000, 4096}; c.seti("chunk", g.r.pick(m)); c.par["chunkSeed"] = std::to_string(g.r.next() >> 1); }
		if (g.r.chance(1, 4)) c.seti("pipe", 0);
		return c;
	}
	// length of a complete output file, from the input alone; 0 if that cannot be told
	static size_t expectedSize(const std::string & in, bool w) {
		std::set<std::string> syms;
		std::map<long, size_t> cells;
		syms.insert("");
		std::istringstream ss(in);
		std::string l;
		auto conv = [](const std::string & x) { return x == "@0@" ? std::string() : x == "@_SPACE_@" ? std::string(" ") : (x == "@_IDENTITY_SYMBOL_@" || x == "@_UNKNOWN_SYMBOL_@") ? std::string("#") : x; };
		while (std::getline(ss, l)) {
			std::istringstream f(l);
			std::vector<std::string> v;
			std::string x;
			while (f >> x) v.push_back(x);
			if (v.empty() || v[0].find_first_not_of("0123456789") != std::string::npos) return 0;
			cells[atol(v[0].c_str())]++;
			if (v.size() >= 4) { syms.insert(conv(v[2])); syms.insert(conv(v[3])); }
		}
		if (cells.empty()) return 0;
		size_t n = 16 + 2, sz = w ? 16 : 8;
		for (auto & s : syms) n += s.size() + 1;
		n = (n + sz - 1) / sz * sz;
		for (auto & k : cells) n += (k.second + (k.second > 255 ? 1 : 0)) * sz;
		return n;
	}
	Verdict check(const Case & c, const Out & o) override {
		auto a = argsOf(c);
		Out r = reference(c, a, c.garbage ^ 0x77777777ull);
		Verdict v = bad(r, "undisturbed");
		if (v.bad()) return v;
		bool ok = kv(o, "exit") == "0", rok = kv(r, "exit") == "0";
		if (rok) {
			size_t want = expectedSize(inputOf(c), std::find(a.begin(), a.end(), "-w") != a.end());
			if (want && kv(r, "file").size() != want) return Verdict{"incomplete", "exit status 0 with an output file of " + std::to_string(kv(r, "file").size()) + " bytes instead of " + std::to_string(want)};
		}
		bool hard = kv(o, "inErr") == "1";
		std::string what = hard ? "an input read error" : "";
		for (int k : {F_WRITE_ERR, F_CLOSE, F_SEEK, F_OPEN}) {
			uint64_t n = o.st.fired[k];
			if (n) { hard = true; what = std::string("an injected ") + faultNames[k] + " failure"; }
		}
		if (hard) {
			if (ok) return Verdict{"error-ignored", "exit status 0 in spite of " + what};
			return Verdict();
		}
		if (ok != rok) return Verdict{"status-differs", "exit status " + kv(o, "exit") + ", undisturbed " + kv(r, "exit")};
		if (ok && kv(o, "file") != kv(r, "file")) return Verdict{"output-differs", diff(kv(o, "file"), kv(r, "file"))};
		return Verdict();
	}
	std::string rule() const override { return "voikkovfstc on generated AT&T texts (1 to 400 states, states around the 255 transition overflow limit, weighted or not, le/be/native, rarely malformed), chunked input, with write/close/seek/open/read errors, full disk and short writes at random calls; exit status and output bytes compared with the undisturbed run on different uninitialised memory, output length with a model; non-trivial: at least one state written or a fault fired"; }
	std::string components() const override { return "real: voikkovfstc (unmodified source, instrumented), libstdc++ streams, glibc stdio; simulated: standard streams, file system, heap contents"; }
};

void commonSetup() {}
int main(int argc, char ** argv) {
	if (isSpell) return driverMain(argc, argv, {new ParallelScenario(), new FilterScenario()});
	if (isGc || isHyph) return driverMain(argc, argv, {new FilterScenario()});
	return driverMain(argc, argv, {new CompilerScenario()});
}
