// Deterministic simulation runtime for libvoikko.
//
// The code under test is compiled with -fsanitize=thread *instrumentation* but linked
// against this runtime instead of the TSan runtime, so every memory access, atomic and
// synchronisation call is a point where the simulator decides what happens next.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 0) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	uint64_t next() {
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	template<class T> const T & pick(const std::vector<T> & v) { return v[below(v.size())]; }
};

uint64_t hashBytes(uint64_t h, const void * p, size_t n);
inline uint64_t hashStr(uint64_t h, const std::string & s) { return hashBytes(h, s.data(), s.size()); }

// ---------------------------------------------------------------- faults
enum FaultKind {
	F_ALLOC,        // operator new fails
	F_OPEN,         // open()/fopen() fails (arg = errno)
	F_FSTAT,        // fstat() fails
	F_MMAP,         // mmap() fails
	F_READ_ERR,     // read() fails with EIO
	F_READ_SHORT,   // read() returns fewer bytes than asked for
	F_READ_EINTR,   // read() interrupted
	F_OPENDIR,      // opendir() fails
	F_READDIR,      // readdir() fails / ends early
	F_WRITE_ERR,    // write()/writev() fails (arg = errno)
	F_WRITE_SHORT,  // short write
	F_WRITE_EINTR,
	F_CLOSE,        // close() reports an error
	F_SEEK,         // lseek() fails from now on (the file cannot seek)
	F_THREAD,       // pthread_create() fails with EAGAIN
	F_GETPW,        // getpwuid_r() fails
	F_KINDS
};
extern const char * const faultNames[F_KINDS];
int faultByName(const std::string & s);

// fails the nth (1-based) event of this kind while armed; op >= 0 restricts it to (and counts within) one operation
struct Fault { int kind; uint64_t nth; int arg; int op; };

// ---------------------------------------------------------------- schedule
struct Switch { uint64_t step; int tid; };
struct Sched {
	enum Mode { NONE, RANDOM, EXPLICIT } mode = NONE;
	uint64_t seed = 0;
	uint64_t mean = 1000;      // mean quantum in instrumented shared-memory steps
	int hot = 0;               // percent chance to preempt at accesses to writable globals
	std::vector<Switch> list;  // EXPLICIT
};

// ---------------------------------------------------------------- configuration of one run
struct RunConfig {
	std::vector<Fault> faults;
	Sched sched;
	uint64_t garbage = 1;      // contents of uninitialised memory
	int reuse = 0;             // heap reuse policy: 0 LIFO, 1 FIFO, 2 never
	uint64_t stepLimit = 3000000000ull;
	uint64_t idleLimit = 3000000000ull;
	bool softLimit = false;
};

struct RunStats {
	uint64_t steps = 0, switches = 0, allocs = 0, events = 0;
	uint64_t fired[F_KINDS] = {0};
	uint64_t seen[F_KINDS] = {0};
	uint64_t schedHash = 0, logHash = 0;
	uint64_t probes[32] = {0};
};

extern RunStats stats;
extern RunConfig cfg;

void begin(const RunConfig & c);      // start simulating in this process (calling thread = sim thread 0)
void end();
bool active();
void arm(bool on);                    // faults fire only while armed
void beginOp(int id);                 // operation-scoped fault counters start here
void setStepLimit(uint64_t at);        // total steps after which the run counts as hung
bool faultFiredInOp();                // did a fault fire since beginOp?
std::vector<Switch> takenSwitches();

// Threads started by the harness, joined by joinAll
int spawn(std::function<void()> fn);
void joinThread(int tid);
int unjoinedThreads();

// Mark that the current thread is inside code under test (allocations tracked, faults apply)
struct InLib { InLib(); ~InLib(); bool prev; };
struct OutOfLib { OutOfLib(); ~OutOfLib(); bool prev; };
void stackGarbage();                  // scribble over the unused stack below the caller
void touch(const void * p, size_t n);  // the harness reads memory owned by the code under test
void afterFork();                     // in a copy of a simulated process: trap system calls again
void yieldPoint();                    // explicit scheduling point

// Violations: first one wins; does not return (the child process ends)
[[noreturn]] void violation(const char * cls, const std::string & detail);
extern void (*onViolation)(const char * cls, const char * detail);
extern bool detectRaces;
extern bool checkHeap;

// Heap accounting of blocks allocated by the code under test
struct HeapMark { uint64_t blocks, bytes; };
HeapMark heapLive();
uint64_t heapSeq();
std::string heapDescribeSince(uint64_t seq);   // live blocks allocated after seq
void logEvent(const char * what, uint64_t a = 0, uint64_t b = 0);
void logText(const std::string & s);
bool dumpLog();
extern std::string eventText;
extern bool keepText;

// ---------------------------------------------------------------- simulated file system
struct Node {
	bool dir = false;
	bool unreadable = false;
	int memfd = -1;
	int64_t zeroFrom = -1;
};
extern std::map<std::string, Node> & fsTree;      // absolute path -> node
extern std::map<std::string, std::string> & env;  // simulated environment
extern std::string & envDefault;                 // value of every variable that is not set ("" = unset)
extern std::string & homeDir;
extern std::vector<std::string> & passPrefixes;   // real paths the C library may use (locale data)
extern std::vector<std::string> & firedPaths;     // "kind path" of every injected file fault
extern std::string & cwd;
extern uint64_t dirOrderSeed;                   // permutation of directory listings
extern int dtypeMode;                           // 0: real d_type, 1: DT_UNKNOWN
extern bool mapCopy;                            // file mappings become private copies
void fsPut(const std::string & path, const std::string & data);
void fsMkdirs(const std::string & path);
void fsRemove(const std::string & path);        // recursive
bool fsRead(const std::string & path, std::string & data);
void fsLink(const std::string & from, const std::string & to);   // same contents under another name
int openFds();
int openMaps();
std::string describeFds();

// ---------------------------------------------------------------- simulated standard streams (tools)
struct StdIo {
	bool on = false;
	std::string in;                     // what stdin delivers
	std::vector<uint32_t> chunks;       // sizes of successive reads (empty: as asked)
	int64_t inErrAt = -1;               // read error after this many bytes
	std::string out, err;
	int64_t outErrAt = -1;              // write error (ENOSPC) after this many bytes on stdout
	int outErrno = 28;
	int64_t outErrN = 0, inErrN = 0;    // the error goes away after this many failed calls (0: it stays)
	uint32_t outShort = 0;              // max bytes accepted per write (0 = all)
	bool pipe = true;
	size_t inPos = 0, chunkPos = 0;
	uint64_t reads = 0, writes = 0;
	bool inErrFired = false, outErrFired = false, inDone = false;
};
extern StdIo & stdio;
extern void (*onExit)(int code);        // called instead of exit_group while simulating
void sysInit();                         // once per process: signal handlers
void sysThread(bool on);                // per thread: start/stop trapping system calls

} // namespace sim
