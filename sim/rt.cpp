// Runtime core: heap, memory-access hooks, race detector, cooperative scheduler.
#include "rt.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <wchar.h>
#include <new>
#include <iostream>
#include <algorithm>

extern "C" char __data_start, _end;

namespace sim {

const char * const faultNames[F_KINDS] = {"alloc", "open", "fstat", "mmap", "read_err", "read_short", "read_eintr",
	"opendir", "readdir", "write_err", "write_short", "write_eintr", "close", "seek", "thread", "getpw"};
int faultByName(const std::string & s) {
	for (int i = 0; i < F_KINDS; i++) if (s == faultNames[i]) return i;
	return -1;
}

uint64_t hashBytes(uint64_t h, const void * p, size_t n) {
	const unsigned char * c = (const unsigned char *)p;
	h ^= 0xcbf29ce484222325ull;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
	h ^= h >> 29;
	return h;
}

RunStats stats;
RunConfig cfg;
bool detectRaces = true;
bool checkHeap = true;
void (*onViolation)(const char *, const char *) = nullptr;
std::string eventText;
bool keepText = false;

static bool g_active = false;
static bool g_armed = false;

// ================================================================= heap
static const uintptr_t HEAP_BASE = 0x200000000000ull;
static const uintptr_t HEAP_SIZE = 8ull << 30;
static const uintptr_t SHADOW_BASE = 0x280000000000ull;
static const unsigned REDZONE = 16;

struct Hdr {
	uint64_t size;      // user size
	uint64_t seq;
	Hdr * next;
	uint32_t total;     // total bytes / 16
	uint16_t cls;
	uint8_t lib : 1, isNew : 1;
	uint8_t state;      // 1 live, 2 free
	void * pc;
	uint64_t base;      // start of the block
};
static_assert(sizeof(Hdr) == 48, "hdr");

static const int NCLS = 64 + 40 * 8;
// Two arenas: blocks of the harness and blocks of the code under test. What the harness does in between therefore never
// changes the addresses the code under test sees.
static const uintptr_t LIB_START = HEAP_BASE + (HEAP_SIZE >> 1);
struct Arena {
	uintptr_t top, end;
	Hdr * freeHead[NCLS];
	Hdr * freeTail[NCLS];
	uint32_t freeLen[NCLS];
};
static Arena arenas[2];
static inline Arena & arenaOf(uintptr_t a) { return arenas[a >= LIB_START]; }
static uint64_t g_seq = 0;
static uint64_t liveLibBlocks = 0, liveLibBytes = 0;
static volatile int heapLock = 0;
static uint64_t reportedBad = 0;

struct SpinGuard {
	SpinGuard() { while (__sync_lock_test_and_set(&heapLock, 1)) {} }
	~SpinGuard() { __sync_lock_release(&heapLock); }
};

struct Thread;
static __thread Thread * self = nullptr;
// system call trap selector of this thread: 1 while code under test runs
__thread volatile unsigned char sysSel __attribute__((tls_model("initial-exec"))) = 0;
struct SelGuard { unsigned char p; SelGuard() : p(sysSel) { sysSel = 0; } ~SelGuard() { sysSel = p; } };
static inline bool inHeap(uintptr_t a) { return a - HEAP_BASE < HEAP_SIZE; }
static inline uint8_t * shadowOf(uintptr_t a) { return (uint8_t *)(SHADOW_BASE + ((a - HEAP_BASE) >> 3)); }

static void heapInit() {
	void * p = mmap((void *)HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	void * q = mmap((void *)SHADOW_BASE, HEAP_SIZE >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != (void *)HEAP_BASE || q != (void *)SHADOW_BASE) {
		const char m[] = "sim: cannot reserve heap\n";
		(void)!write(2, m, sizeof(m) - 1);
		_exit(3);
	}
	arenas[0].top = HEAP_BASE + 4096;
	arenas[0].end = LIB_START;
	arenas[1].top = LIB_START;
	arenas[1].end = HEAP_BASE + HEAP_SIZE;
}

static int classOf(size_t total, size_t & rounded) {
	if (total <= 1024) {
		rounded = (total + 15) & ~15ull;
		return (int)(rounded / 16) - 1;
	}
	int lg = 63 - __builtin_clzll(total - 1);
	size_t step = 1ull << (lg - 3);
	rounded = (total + step - 1) & ~(step - 1);
	int l2 = 63 - __builtin_clzll(rounded - 1);
	int c = 64 + (l2 - 10) * 8 + (int)(((rounded - 1) >> (l2 - 3)) & 7);
	return c >= NCLS ? NCLS - 1 : c;
}

static void setShadow(uintptr_t a, size_t size, size_t full, bool live) {
	// a is 16-aligned; full is the number of bytes up to the end of the block
	uint8_t * s = shadowOf(a);
	size_t n = (full + 7) / 8;
	if (!live) { memset(s, 0xfd, n); return; }
	size_t whole = size / 8;
	memset(s, 0, whole);
	size_t i = whole;
	if (size & 7) s[i++] = (uint8_t)(size & 7);
	if (i < n) memset(s + i, 0xfa, n - i);
}

static bool libCall();

static uint64_t lastProgress = 0;
static void * heapAlloc(size_t size, size_t align, void * pc, bool lib, bool isNew = false) {
	SpinGuard g;
	if (!arenas[0].top) heapInit();
	Arena & ar = arenas[lib];
	if (size > (2ull << 30)) return nullptr;
	size_t extra = align > 16 ? align : 0;
	size_t rounded;
	int cls = classOf(sizeof(Hdr) + size + REDZONE + extra, rounded);
	uintptr_t base = 0;
	uint32_t need = (cfg.reuse == 1 && g_active) ? 64 : 1;
	if (ar.freeHead[cls] && ar.freeLen[cls] >= need && !(cfg.reuse == 2 && g_active)) {
		Hdr * h = ar.freeHead[cls];
		ar.freeHead[cls] = h->next;
		if (!ar.freeHead[cls]) ar.freeTail[cls] = nullptr;
		ar.freeLen[cls]--;
		base = h->base;
	}
	else {
		base = ar.top;
		if (ar.top + rounded > ar.end) return nullptr;
		ar.top += rounded;
	}
	uintptr_t user = base + sizeof(Hdr);
	if (extra) user = (user + align - 1) & ~(align - 1);
	Hdr * h = (Hdr *)(user - sizeof(Hdr));
	h->size = size;
	h->seq = ++g_seq;
	h->next = nullptr;
	h->total = (uint32_t)(rounded / 16);
	h->cls = (uint16_t)cls;
	h->lib = (uint8_t)lib;
	h->isNew = isNew;
	h->state = 1;
	h->pc = pc;
	h->base = base;
	memset(shadowOf(base), 0xfa, (user - base) / 8);
	setShadow(user, size, base + rounded - user, true);
	if (lib) {
		liveLibBlocks++;
		liveLibBytes += size;
		stats.allocs++;
		lastProgress = stats.steps;
		uint64_t v = (cfg.garbage ^ (stats.allocs * 0x9E3779B97F4A7C15ull));
		v ^= v >> 31; v *= 0xBF58476D1CE4E5B9ull; v ^= v >> 29;
		if (cfg.garbage == 0) v = 0;
		else if ((cfg.garbage >> 12) % 4 == 0) v &= 0x0000007f0000007full;   // small numbers, characters
		size_t i = 0;
		for (; i + 8 <= size; i += 8) memcpy((char *)user + i, &v, 8);
		if (i < size) memcpy((char *)user + i, &v, size - i);
	}
	return (void *)user;
}

static void clearCells(uintptr_t a, size_t n);

static void heapFree(void * p, bool isNew = false) {
	if (!p) return;
	uintptr_t a = (uintptr_t)p;
	Hdr * h = (Hdr *)(a - sizeof(Hdr));
	bool bad = !inHeap(a) || (a & 15) || a > arenaOf(a).top;
	if (!bad && h->state != 1) bad = true;
	if (bad) {
		if (g_active && libCall()) {
			char b[160];
			snprintf(b, sizeof b, "%s", (inHeap(a) && !(a & 15) && a <= arenaOf(a).top && h->state == 2) ? "double free" : "free of a pointer that was not allocated");
			violation("bad-free", b);
		}
		const char m[] = "sim: invalid free in harness\n";
		(void)!write(2, m, sizeof(m) - 1);
		abort();
	}
	if (g_active && h->lib && libCall() && h->isNew != isNew) violation("bad-free", isNew ? "memory from malloc given to operator delete" : "memory from operator new given to free");
	if (g_active) clearCells(a, h->size);
	SpinGuard g;
	size_t rounded = (size_t)h->total * 16;
	if (h->lib) {
		liveLibBlocks--;
		liveLibBytes -= h->size;
		size_t n = h->size;
		memset(p, 0xDB ^ (int)(cfg.garbage & 0xff), n);
	}
	else if (h->size > (256 << 10) && !g_active) {
		// give the pages of large harness buffers back: they would make every fork slower
		uintptr_t lo = (a + 4095) & ~4095ull, hi = (a + h->size) & ~4095ull;
		if (hi > lo) madvise((void *)lo, hi - lo, MADV_DONTNEED);
	}
	h->state = 2;
	setShadow(a, 0, h->base + rounded - a, false);
	h->next = nullptr;
	int c = h->cls;
	Arena & ar = arenaOf(a);
	if (cfg.reuse == 1) {
		if (ar.freeTail[c]) ar.freeTail[c]->next = h; else ar.freeHead[c] = h;
		ar.freeTail[c] = h;
	}
	else {
		h->next = ar.freeHead[c];
		ar.freeHead[c] = h;
		if (!ar.freeTail[c]) ar.freeTail[c] = h;
	}
	ar.freeLen[c]++;
}

HeapMark heapLive() { return HeapMark{liveLibBlocks, liveLibBytes}; }
uint64_t heapSeq() { return g_seq; }

std::string symName(void * pc) {
	Dl_info di;
	if (pc && dladdr(pc, &di)) {
		char b[400];
		if (di.dli_sname) snprintf(b, sizeof b, "%s", di.dli_sname);
		else snprintf(b, sizeof b, "+0x%lx", (long)((char *)pc - (char *)di.dli_fbase));
		return b;
	}
	return "?";
}

std::string heapDescribeSince(uint64_t seq) {
	std::string r;
	int n = 0;
	uintptr_t a = LIB_START;
	while (a < arenas[1].top && n < 12) {
		// blocks are contiguous; the header sits at base unless over-aligned (not used by the code under test)
		Hdr * h = (Hdr *)a;
		if (h->base != a || !h->total) break;
		if (h->state == 1 && h->lib && h->seq > seq) {
			char b[80];
			snprintf(b, sizeof b, "%s%lu bytes from ", n ? "; " : "", (unsigned long)h->size);
			r += b;
			r += symName(h->pc);
			n++;
		}
		a += (size_t)h->total * 16;
	}
	return r;
}

// ================================================================= threads and scheduler
static const int MAXT = 16;
struct VC { uint32_t c[MAXT]; };
enum TState { T_RUN, T_BLOCK, T_DONE };
struct Thread {
	int id;
	TState st;
	bool lib;
	sem_t sem;
	pthread_t real;
	uintptr_t lo, hi;
	VC vc;
	const void * waitOn;
	int waitKind;        // 1 join, 2 mutex, 3 cond, 4 guard, 5 rwlock
	bool timed, timedOut;
	void * (*fn)(void *);
	void * arg;
	void * ret;
	std::function<void()> harnessFn;
	bool detached, joined;
	void * stack[64];    // shadow call stack for reports
	int sp;
};
static Thread * threads[MAXT];
static int nthreads = 0;
static int current = 0;
static Rng schedRng(0);
static uint64_t nextSwitch = ~0ull;
static size_t explicitPos = 0;
static std::vector<Switch> * taken = nullptr;
static uint64_t vclock = 1700000000ull * 1000000000ull;

static bool libCall() { return self && self->lib; }

static uint64_t drawQuantum() {
	uint64_t m = cfg.sched.mean ? cfg.sched.mean : 1;
	// long runs: the quantum doubles every 3000 switches so that the number of switches stays bounded
	uint64_t d = stats.switches / 3000;
	m <<= d > 30 ? 30 : d;
	// geometric-ish: sum of two uniforms, never 0
	return 1 + schedRng.below(2 * m);
}

std::vector<Switch> takenSwitches() { return taken ? *taken : std::vector<Switch>(); }

static void noteSwitch(int tid) {
	stats.switches++;
	stats.schedHash = hashBytes(stats.schedHash, &stats.steps, 8) ^ (uint64_t)tid * 0x9E37;
	bool l = self ? self->lib : false;
	if (self) self->lib = false;
	if (!taken) taken = new std::vector<Switch>();
	if (taken->size() < 2000000) taken->push_back(Switch{stats.steps, tid});
	if (self) self->lib = l;
}

static void handoff(int to, bool wait) {
	SelGuard sg;
	Thread * me = self;
	current = to;
	sem_post(&threads[to]->sem);
	if (wait) while (sem_wait(&me->sem) != 0) {}
}

static int runnableCount(int except) {
	int n = 0;
	for (int i = 0; i < nthreads; i++) if (i != except && threads[i]->st == T_RUN) n++;
	return n;
}
static int pickRunnable(int except) {
	int n = runnableCount(except);
	if (!n) return -1;
	int k;
	if (cfg.sched.mode == Sched::EXPLICIT) {
		// forced switch: follow the trace if it names a switch at this step, else lowest id
		if (explicitPos < cfg.sched.list.size() && cfg.sched.list[explicitPos].step == stats.steps) {
			int t = cfg.sched.list[explicitPos].tid;
			explicitPos++;
			if (t < nthreads && t != except && threads[t]->st == T_RUN) return t;
		}
		k = 0;
	}
	else if (cfg.sched.mode == Sched::RANDOM) k = (int)schedRng.below(n);
	else k = 0;
	for (int i = 0; i < nthreads; i++) if (i != except && threads[i]->st == T_RUN && k-- == 0) return i;
	return -1;
}

static void preempt() {
	// voluntary switch of a runnable thread
	int to = -1;
	if (cfg.sched.mode == Sched::EXPLICIT) {
		while (explicitPos < cfg.sched.list.size() && cfg.sched.list[explicitPos].step <= stats.steps) {
			int t = cfg.sched.list[explicitPos].tid;
			explicitPos++;
			if (t < nthreads && t != self->id && threads[t]->st == T_RUN) to = t;
		}
		nextSwitch = explicitPos < cfg.sched.list.size() ? cfg.sched.list[explicitPos].step : ~0ull;
	}
	else {
		nextSwitch = stats.steps + drawQuantum();
		to = pickRunnable(self->id);
	}
	if (to < 0) return;
	noteSwitch(to);
	handoff(to, true);
}

static void blockSelf(int kind, const void * on, bool timed) {
	Thread * me = self;
	me->st = T_BLOCK;
	me->waitKind = kind;
	me->waitOn = on;
	me->timed = timed;
	me->timedOut = false;
	int to = pickRunnable(me->id);
	if (to < 0) {
		// nobody can run: fire a timed waiter if there is one
		for (int i = 0; i < nthreads; i++) {
			if (threads[i]->st == T_BLOCK && threads[i]->timed) {
				threads[i]->st = T_RUN;
				threads[i]->timedOut = true;
				vclock += 1000000000ull;
				to = i;
				break;
			}
		}
		if (to < 0) violation("deadlock", "no thread can make progress");
		if (to == me->id) return;
	}
	noteSwitch(to);
	handoff(to, true);
}

static void wake(int kind, const void * on, bool all) {
	int cand[MAXT], n = 0;
	for (int i = 0; i < nthreads; i++) if (threads[i]->st == T_BLOCK && threads[i]->waitKind == kind && threads[i]->waitOn == on) cand[n++] = i;
	if (!n) return;
	if (all) { for (int i = 0; i < n; i++) threads[cand[i]]->st = T_RUN; return; }
	int k = (cfg.sched.mode == Sched::RANDOM && n > 1) ? (int)schedRng.below(n) : 0;
	threads[cand[k]]->st = T_RUN;
}

static void joinVC(VC & a, const VC & b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
struct SyncObj { VC vc; int owner; int depth; int readers; int state; };
static std::map<const void *, SyncObj> * syncs = nullptr;
static SyncObj & syncObj(const void * p) {
	bool l = self->lib;
	self->lib = false;
	if (!syncs) syncs = new std::map<const void *, SyncObj>();
	auto it = syncs->find(p);
	if (it == syncs->end()) {
		SyncObj s;
		memset(&s, 0, sizeof s);
		s.owner = -1;
		it = syncs->insert(std::make_pair(p, s)).first;
	}
	self->lib = l;
	return it->second;
}
static void acquire(const void * p) { joinVC(self->vc, syncObj(p).vc); }
static void release(const void * p) {
	joinVC(syncObj(p).vc, self->vc);
	self->vc.c[self->id]++;
}

// ================================================================= race detector
struct Cell {
	uintptr_t key;
	uint32_t wclk;
	uint8_t wtid, wmask;
	uint8_t rmask[MAXT];
	uint32_t rclk[MAXT];
	void * wpc;
	void * rpc[MAXT];
};
static Cell * cells = nullptr;
static size_t cellCap = 0, cellCount = 0;
static void cellsInit() {
	if (cells) return;
	cellCap = 1 << 18;
	cells = (Cell *)mmap(nullptr, cellCap * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static Cell * findCell(uintptr_t key, bool create) {
	size_t i = (key * 0x9E3779B97F4A7C15ull) >> 46;
	i &= cellCap - 1;
	for (size_t n = 0; n < 256; n++) {
		Cell * c = &cells[(i + n) & (cellCap - 1)];
		if (c->key == key) return c;
		if (!c->key) {
			if (!create) return nullptr;
			if (cellCount > cellCap * 3 / 4) return nullptr;
			cellCount++;
			c->key = key;
			return c;
		}
	}
	return nullptr;
}
static void clearCells(uintptr_t a, size_t n) {
	if (!cells || nthreads < 2) return;
	for (uintptr_t k = a >> 3; k <= (a + (n ? n - 1 : 0)) >> 3; k++) {
		Cell * c = findCell(k, false);
		if (c) {
			c->wclk = 0; c->wmask = 0;
			memset(c->rmask, 0, sizeof c->rmask);
			memset(c->rclk, 0, sizeof c->rclk);
		}
	}
}
struct Excl { uintptr_t lo, hi; };
static Excl excl[16];
static int nexcl = 0;

[[gnu::noinline]] static void raceReport(const char * what, void * a, void * b) {
	if (self) self->lib = false;
	std::string s = std::string(what) + " in " + symName(a) + " and " + symName(b);
	violation("data-race", s);
}

static void raceCheck1(uintptr_t key, uint8_t mask, bool w, void * pc) {
	Thread * t = self;
	Cell * c = findCell(key, true);
	if (!c) return;
	if (c->wclk && c->wtid != t->id && (c->wmask & mask) && c->wclk > t->vc.c[c->wtid])
		raceReport(w ? "unsynchronised writes" : "unsynchronised write and read", c->wpc, pc);
	if (w) {
		for (int i = 0; i < nthreads; i++) {
			if (i != t->id && c->rclk[i] && (c->rmask[i] & mask) && c->rclk[i] > t->vc.c[i])
				raceReport("unsynchronised read and write", c->rpc[i], pc);
		}
		c->wclk = t->vc.c[t->id];
		c->wtid = (uint8_t)t->id;
		c->wmask = mask;
		c->wpc = pc;
	}
	else {
		if (c->rclk[t->id] != t->vc.c[t->id]) c->rmask[t->id] = 0;
		c->rclk[t->id] = t->vc.c[t->id];
		c->rmask[t->id] |= mask;
		c->rpc[t->id] = pc;
	}
}

static void raceCheck(uintptr_t a, size_t n, bool w, void * pc) {
	for (int i = 0; i < nexcl; i++) if (a >= excl[i].lo && a < excl[i].hi) return;
	uintptr_t e = a + n;
	for (uintptr_t k = a >> 3; k <= (e - 1) >> 3; k++) {
		unsigned lo = (k << 3) < a ? (unsigned)(a - (k << 3)) : 0;
		unsigned hi = ((k + 1) << 3) > e ? (unsigned)(e - (k << 3)) : 8;
		uint8_t mask = (uint8_t)(((1u << (hi - lo)) - 1) << lo);
		raceCheck1(k, mask, w, pc);
	}
}

// read-only mapped files: reads never race
struct MapRange { uintptr_t lo, hi; };
MapRange mapRanges[64];
int nMapRanges = 0;

// ================================================================= access hook
[[gnu::noinline]] static void badAccess(uintptr_t a, size_t n, bool w, void * pc, uint8_t s) {
	if (self) self->lib = false;
	char b[120];
	// addresses are left out on purpose: the message is part of the reproducible record
	(void)a;
	snprintf(b, sizeof b, "%s of %lu bytes %s in ", w ? "write" : "read", (unsigned long)n, s == 0xfd ? "after free" : "outside an allocated block");
	violation(s == 0xfd ? "use-after-free" : "heap-overflow", std::string(b) + symName(pc));
}

static inline void checkRange(uintptr_t a, size_t n, bool w, void * pc) {
	uint8_t * s = shadowOf(a);
	uintptr_t last = a + n - 1;
	for (uint8_t * e = shadowOf(last); s <= e; s++) {
		if (__builtin_expect(*s != 0, 0)) {
			if (*s < 8) {
				// partially addressable granule: fine if our last byte in it is below *s
				uintptr_t gbase = HEAP_BASE + (((uintptr_t)s - SHADOW_BASE) << 3);
				uintptr_t hi = last < gbase + 7 ? last : gbase + 7;
				if (hi - gbase < *s) continue;
			}
			badAccess(a, n, w, pc, *s);
		}
	}
}

// A run is hanging when it exceeds its step limit (soft limit: the run is only cut short) or when it makes no
// allocation and enters no function for idleLimit steps
static uint64_t limitAt = 0;
static void stepLimits() {
	bool idle = stats.steps - lastProgress > cfg.idleLimit;
	bool over = stats.steps > cfg.stepLimit;
	limitAt = std::min(cfg.stepLimit, stats.steps + (uint64_t)100000000);
	if (idle || over) {
		limitAt = ~0ull;
		if (idle || !cfg.softLimit) violation("hang", "step limit exceeded: no progress");
		violation("truncated", "step limit exceeded in a run over damaged data");
	}
}
void setStepLimit(uint64_t at) {
	cfg.stepLimit = at;
	limitAt = std::min(at, stats.steps + (uint64_t)100000000);
}

static inline void access(uintptr_t a, size_t n, bool w, void * pc) {
	Thread * t = self;
	if (!t || !t->lib || !n) return;
	if (__builtin_expect(++stats.steps > limitAt, 0)) stepLimits();
	if (a - t->lo < t->hi - t->lo) return;
	if (inHeap(a) && checkHeap) checkRange(a, n, w, pc);
	if (nthreads > 1) {
		for (int i = 0; i < nMapRanges; i++) if (a - mapRanges[i].lo < mapRanges[i].hi - mapRanges[i].lo) goto sched;
		if (detectRaces) {
			bool otherStack = false;
			for (int i = 0; i < nthreads; i++) if (a - threads[i]->lo < threads[i]->hi - threads[i]->lo) otherStack = true;
			if (!otherStack) raceCheck(a, n, w, pc);
		}
		if (cfg.sched.hot && cfg.sched.mode == Sched::RANDOM && w && a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end &&
		    stats.switches < 20000 && (int)schedRng.below(100) < cfg.sched.hot) { preempt(); return; }
		sched:
		if (stats.steps >= nextSwitch) preempt();
	}
}

void touch(const void * p, size_t n) {
	if (g_active && self && inHeap((uintptr_t)p)) checkRange((uintptr_t)p, n, false, nullptr);
}

void yieldPoint() {
	if (!self || !g_active || nthreads < 2) return;
	stats.steps++;
	if (cfg.sched.mode == Sched::RANDOM && schedRng.chance(1, 2)) { preempt(); return; }
	if (stats.steps >= nextSwitch) preempt();
}

static void syncPoint() {
	if (!self->lib) return;
	stats.steps++;
	if (nthreads < 2) return;
	if (cfg.sched.mode == Sched::RANDOM && schedRng.chance(1, 3)) preempt();
	else if (stats.steps >= nextSwitch) preempt();
}

// ================================================================= lifecycle
static inline void setLib(bool b) { if (self) { self->lib = b; sysSel = b ? 1 : 0; } }
InLib::InLib() : prev(self ? self->lib : false) { setLib(true); }
InLib::~InLib() { setLib(prev); }
OutOfLib::OutOfLib() : prev(self ? self->lib : false) { setLib(false); }
OutOfLib::~OutOfLib() { setLib(prev); }
void setLibOff() { setLib(false); }
bool active() { return g_active; }
void arm(bool on) { g_armed = on; }
bool inLibNow() { return g_active && self && self->lib; }

static int curOp = -1;
static uint64_t opSeen[F_KINDS];
static bool opFired = false;
void beginOp(int id) { curOp = id; memset(opSeen, 0, sizeof opSeen); opFired = false; }
bool faultFiredInOp() { return opFired; }

bool faultHit(int kind, int * arg) {
	if (!g_active || !self || !g_armed) return false;
	uint64_t n = ++stats.seen[kind];
	uint64_t m = ++opSeen[kind];
	for (const Fault & f : cfg.faults) {
		if (f.kind == kind && (f.op < 0 ? f.nth == n : (f.op == curOp && f.nth == m))) {
			stats.fired[kind]++;
			opFired = true;
			if (arg) *arg = f.arg;
			logEvent(faultNames[kind], n, (uint64_t)f.arg);
			return true;
		}
	}
	return false;
}

void logEvent(const char * what, uint64_t a, uint64_t b) {
	OutOfLib o;
	stats.events++;
	stats.logHash = hashBytes(stats.logHash, what, strlen(what));
	uint64_t v[3] = {a, b, stats.steps};
	stats.logHash = hashBytes(stats.logHash, v, sizeof v);
	if (keepText && eventText.size() < 400000) {
		char buf[200];
		snprintf(buf, sizeof buf, "[%lu t%d] %s %lu %lu\n", (unsigned long)stats.steps, self ? self->id : -1, what, (unsigned long)a, (unsigned long)b);
		eventText += buf;
	}
}
void logText(const std::string & s) {
	OutOfLib o;
	stats.events++;
	stats.logHash = hashStr(stats.logHash, s);
	uint64_t v = stats.steps;
	stats.logHash = hashBytes(stats.logHash, &v, 8);
	if (keepText && eventText.size() < 400000) {
		char buf[64];
		snprintf(buf, sizeof buf, "[%lu t%d] ", (unsigned long)stats.steps, self ? self->id : -1);
		eventText += buf;
		eventText += s.substr(0, 300);
		eventText += "\n";
	}
}

static void stackBounds(Thread * t) {
	pthread_attr_t at;
	void * addr;
	size_t sz;
	pthread_getattr_np(pthread_self(), &at);
	pthread_attr_getstack(&at, &addr, &sz);
	pthread_attr_destroy(&at);
	t->lo = (uintptr_t)addr;
	t->hi = t->lo + sz;
}

static Thread * newThread() {
	bool l = self ? self->lib : false;
	if (self) self->lib = false;
	// a joined thread's slot is used again; its clock goes on counting
	int id = nthreads;
	uint32_t clk = 0;
	for (int i = 1; i < nthreads; i++) if (threads[i]->st == T_DONE && threads[i]->joined) { id = i; clk = threads[i]->vc.c[i]; break; }
	if (id >= MAXT) violation("HARNESS", "too many threads");
	Thread * t = new Thread();
	t->id = id;
	t->st = T_RUN;
	t->lib = false;
	sem_init(&t->sem, 0, 0);
	memset(&t->vc, 0, sizeof t->vc);
	if (self) t->vc = self->vc;
	t->vc.c[id] = clk + 1;
	t->waitOn = nullptr;
	t->waitKind = 0;
	t->timed = t->timedOut = false;
	t->detached = t->joined = false;
	t->fn = nullptr;
	t->sp = 0;
	t->lo = t->hi = 0;
	if (self) self->vc.c[self->id]++;
	threads[id] = t;
	if (id == nthreads) nthreads++;
	if (self) self->lib = l;
	return t;
}
int unjoinedThreads() { int n = 0; for (int i = 1; i < nthreads; i++) if (!threads[i]->joined && !threads[i]->detached) n++; return n; }

template<class T> static void addExcl(T & o) { excl[nexcl].lo = (uintptr_t)&o; excl[nexcl].hi = excl[nexcl].lo + sizeof(T); nexcl++; }

// vector registers end up in signal frames and so on the stack of the code under test
static void clearVectors() {
#define Z1(n) "vpxorq %%zmm" #n ",%%zmm" #n ",%%zmm" #n "\n"
	if (__builtin_cpu_supports("avx512f"))
		asm volatile(Z1(16) Z1(17) Z1(18) Z1(19) Z1(20) Z1(21) Z1(22) Z1(23) Z1(24) Z1(25) Z1(26) Z1(27) Z1(28) Z1(29) Z1(30) Z1(31) ::: "memory");
	if (__builtin_cpu_supports("avx")) asm volatile("vzeroall" ::: "memory", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
}
void begin(const RunConfig & c) {
	clearVectors();
	cfg = c;
	stats = RunStats();
	lastProgress = 0;
	limitAt = std::min(c.stepLimit, (uint64_t)100000000ull);
	schedRng = Rng(c.sched.seed ^ 0x5ced);
	explicitPos = 0;
	taken = new std::vector<Switch>();
	cellsInit();
	nexcl = 0;
	addExcl(std::cin); addExcl(std::cout); addExcl(std::cerr); addExcl(std::clog);
	addExcl(std::wcin); addExcl(std::wcout); addExcl(std::wcerr); addExcl(std::wclog);
	nthreads = 0;
	Thread * t = newThread();
	current = 0;
	t->real = pthread_self();
	stackBounds(t);
	self = t;
	sysThread(true);
	g_active = true;
	g_armed = true;
	nextSwitch = c.sched.mode == Sched::RANDOM ? drawQuantum() : (c.sched.mode == Sched::EXPLICIT && !c.sched.list.empty() ? c.sched.list[0].step : ~0ull);
}

void end() {
	sysSel = 0;
	g_active = false;
	if (self) sysThread(false);
	self = nullptr;
}

void afterFork() { if (g_active && self) sysThread(true); }

[[noreturn]] void violation(const char * cls, const std::string & detail) {
	sysSel = 0;
	g_active = false;
	if (self) self->lib = false;
	if (onViolation) onViolation(cls, detail.c_str());
	fprintf(stderr, "sim: violation %s: %s\n", cls, detail.c_str());
	_exit(4);
}

__attribute__((noinline)) void stackGarbage() {
	volatile char buf[49152];
	uint64_t v = cfg.garbage * 0x9E3779B97F4A7C15ull + 77;
	if (cfg.garbage == 0) v = 0;
	// what lies on the stack is arbitrary, small numbers or a repeated byte
	int kind = cfg.garbage ? (int)(cfg.garbage >> 8) % 4 : 3;
	for (size_t i = 0; i < sizeof buf; i += 8) {
		uint64_t x = kind == 0 ? (v >> 40) & 0x7fff : kind == 1 ? 0x0101010101010101ull * (cfg.garbage & 3) : v;
		memcpy((void *)(buf + i), &x, 8);
		if (cfg.garbage) v = v * 6364136223846793005ull + 1;
	}
	asm volatile("" : : "r"(buf) : "memory");
}

static void * threadMain(void * p) {
	Thread * t = (Thread *)p;
	// wait until scheduled for the first time; TLS self is set before any code under test runs
	while (sem_wait(&t->sem) != 0) {}
	self = t;
	stackBounds(t);
	sysThread(true);
	if (t->fn) {
		stackGarbage();
		setLib(true);
		t->ret = t->fn(t->arg);
		setLib(false);
	}
	else t->harnessFn();
	t->st = T_DONE;
	// release joiners
	for (int i = 0; i < nthreads; i++) {
		if (threads[i]->st == T_BLOCK && threads[i]->waitKind == 1 && threads[i]->waitOn == t) threads[i]->st = T_RUN;
	}
	int to = pickRunnable(t->id);
	if (to < 0) {
		bool anyBlocked = false;
		for (int i = 0; i < nthreads; i++) if (threads[i]->st == T_BLOCK) anyBlocked = true;
		if (anyBlocked) violation("deadlock", "last runnable thread finished while others wait");
		return t->ret;
	}
	noteSwitch(to);
	void * r = t->ret;
	handoff(to, false);
	return r;
}

typedef int (*pcreate_t)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *);
typedef int (*pjoin_t)(pthread_t, void **);
static void * real(const char * n) {
	void * p = dlsym(RTLD_NEXT, n);
	return p;
}

static int startReal(Thread * t) {
	SelGuard sg;
	static pcreate_t rc = (pcreate_t)real("pthread_create");
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstacksize(&at, 1 << 20);
	int r = rc(&t->real, &at, threadMain, t);
	pthread_attr_destroy(&at);
	if (r) { fprintf(stderr, "sim: real pthread_create failed %d\n", r); _exit(3); }
	// stack bounds are filled in by the thread itself; until then mark empty
	return 0;
}

int spawn(std::function<void()> fn) {
	Thread * t = newThread();
	t->harnessFn = std::move(fn);
	startReal(t);
	return t->id;
}

static void joinImpl(Thread * t) {
	SelGuard sg;
	while (t->st != T_DONE) blockSelf(1, t, false);
	joinVC(self->vc, t->vc);
	if (!t->joined && !t->detached) {
		static pjoin_t rj = (pjoin_t)real("pthread_join");
		rj(t->real, nullptr);
		t->joined = true;
		t->lo = t->hi = 0;
	}
}

void joinThread(int tid) { joinImpl(threads[tid]); }

uint64_t virtualNow() { return vclock + stats.steps * 100; }
void clockJump(int64_t ns) { vclock += ns; }
bool simSelf() { return self != nullptr && g_active; }

} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)

// ================================================================= allocator interposition
extern "C" {
void * malloc(size_t n) {
	bool lib = inLibNow();
	if (lib && sim::faultHit(F_ALLOC, nullptr)) { errno = ENOMEM; return nullptr; }
	return heapAlloc(n, 16, PC, lib);
}
void free(void * p) { heapFree(p); }
void * calloc(size_t a, size_t b) {
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) return nullptr;
	void * p = heapAlloc(n, 16, PC, inLibNow());
	if (p) memset(p, 0, n);
	return p;
}
void * realloc(void * p, size_t n) {
	if (!p) return heapAlloc(n, 16, PC, inLibNow());
	Hdr * h = (Hdr *)((uintptr_t)p - sizeof(Hdr));
	void * q = heapAlloc(n, 16, PC, inLibNow());
	if (!q) return nullptr;
	memcpy(q, p, h->size < n ? h->size : n);
	heapFree(p);
	return q;
}
void * memalign(size_t al, size_t n) { return heapAlloc(n, al, PC, inLibNow()); }
void * aligned_alloc(size_t al, size_t n) { return heapAlloc(n, al, PC, inLibNow()); }
int posix_memalign(void ** p, size_t al, size_t n) { *p = heapAlloc(n, al, PC, inLibNow()); return *p ? 0 : ENOMEM; }
size_t malloc_usable_size(void * p) { return p ? ((Hdr *)((uintptr_t)p - sizeof(Hdr)))->size : 0; }
}

static void * newImpl(size_t n, void * pc, bool thr, size_t al = 16) {
	bool lib = inLibNow();
	if (lib && sim::faultHit(F_ALLOC, nullptr)) {
		if (thr) { OutOfLib o; throw std::bad_alloc(); }
		return nullptr;
	}
	void * p = heapAlloc(n ? n : 1, al, pc, lib, true);
	if (!p && thr) throw std::bad_alloc();
	return p;
}
void * operator new(size_t n) { return newImpl(n, PC, true); }
void * operator new[](size_t n) { return newImpl(n, PC, true); }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return newImpl(n, PC, false); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return newImpl(n, PC, false); }
void * operator new(size_t n, std::align_val_t a) { return newImpl(n, PC, true, (size_t)a); }
void * operator new[](size_t n, std::align_val_t a) { return newImpl(n, PC, true, (size_t)a); }
void operator delete(void * p) noexcept { heapFree(p, true); }
void operator delete[](void * p) noexcept { heapFree(p, true); }
void operator delete(void * p, size_t) noexcept { heapFree(p, true); }
void operator delete[](void * p, size_t) noexcept { heapFree(p, true); }
void operator delete(void * p, const std::nothrow_t &) noexcept { heapFree(p, true); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { heapFree(p, true); }
void operator delete(void * p, std::align_val_t) noexcept { heapFree(p, true); }
void operator delete[](void * p, std::align_val_t) noexcept { heapFree(p, true); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { heapFree(p, true); }
void operator delete[](void * p, size_t, std::align_val_t) noexcept { heapFree(p, true); }

// ================================================================= instrumentation interface
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void * pc) { (void)pc; if (self && self->lib) { lastProgress = stats.steps; if (++stats.steps > limitAt) stepLimits(); } }
void __tsan_func_exit() {}
#define RW(n) \
void __tsan_read##n(void * a) { access((uintptr_t)a, n, false, PC); } \
void __tsan_write##n(void * a) { access((uintptr_t)a, n, true, PC); } \
void __tsan_unaligned_read##n(void * a) { access((uintptr_t)a, n, false, PC); } \
void __tsan_unaligned_write##n(void * a) { access((uintptr_t)a, n, true, PC); } \
void __tsan_read_write##n(void * a) { access((uintptr_t)a, n, true, PC); } \
void __tsan_unaligned_read_write##n(void * a) { access((uintptr_t)a, n, true, PC); } \
void __tsan_volatile_read##n(void * a) { access((uintptr_t)a, n, false, PC); } \
void __tsan_volatile_write##n(void * a) { access((uintptr_t)a, n, true, PC); } \
void __tsan_unaligned_volatile_read##n(void * a) { access((uintptr_t)a, n, false, PC); } \
void __tsan_unaligned_volatile_write##n(void * a) { access((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void ** a, void * v) { (void)v; access((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void ** a) { access((uintptr_t)a, 8, false, PC); }
void __tsan_read_range(void * a, size_t n) { access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void * a, size_t n) { access((uintptr_t)a, n, true, PC); }
void * __tsan_memcpy(void * d, const void * s, size_t n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); return memcpy(d, s, n); }
void * __tsan_memmove(void * d, const void * s, size_t n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); return memmove(d, s, n); }
void * __tsan_memset(void * d, int c, size_t n) { access((uintptr_t)d, n, true, PC); return memset(d, c, n); }

static void atomicPoint(const void * a) { if (self && self->lib && g_active) { syncPoint(); acquire(a); release(a); } }
#define ATOM(bits, T) \
T __tsan_atomic##bits##_load(const volatile T * a, int mo) { (void)mo; atomicPoint((const void *)a); return *a; } \
void __tsan_atomic##bits##_store(volatile T * a, T v, int mo) { (void)mo; atomicPoint((const void *)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_exchange(volatile T * a, T v, int mo) { (void)mo; atomicPoint((const void *)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_add(volatile T * a, T v, int mo) { (void)mo; atomicPoint((const void *)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_sub(volatile T * a, T v, int mo) { (void)mo; atomicPoint((const void *)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_and(volatile T * a, T v, int mo) { (void)mo; atomicPoint((const void *)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_or(volatile T * a, T v, int mo) { (void)mo; atomicPoint((const void *)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_xor(volatile T * a, T v, int mo) { (void)mo; atomicPoint((const void *)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_nand(volatile T * a, T v, int mo) { (void)mo; atomicPoint((const void *)a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T * a, T * c, T v, int mo, int fmo) { (void)mo; (void)fmo; atomicPoint((const void *)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T * a, T * c, T v, int mo, int fmo) { (void)mo; (void)fmo; atomicPoint((const void *)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T * a, T c, T v, int mo, int fmo) { (void)mo; (void)fmo; atomicPoint((const void *)a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// libc string functions called from instrumented code (linked with --wrap)
#define CK(p, n, w) access((uintptr_t)(p), (n), (w), PC)
void * __wrap_memcpy(void * d, const void * s, size_t n) { CK(s, n, false); CK(d, n, true); return memcpy(d, s, n); }
void * __wrap_memmove(void * d, const void * s, size_t n) { CK(s, n, false); CK(d, n, true); return memmove(d, s, n); }
void * __wrap_memset(void * d, int c, size_t n) { CK(d, n, true); return memset(d, c, n); }
int __wrap_memcmp(const void * a, const void * b, size_t n) { CK(a, n, false); CK(b, n, false); return memcmp(a, b, n); }
int __wrap_bcmp(const void * a, const void * b, size_t n) { CK(a, n, false); CK(b, n, false); return memcmp(a, b, n); }
void * __wrap_memchr(const void * a, int c, size_t n) {
	const unsigned char * p = (const unsigned char *)a;
	for (size_t i = 0; i < n; i++) { CK(p + i, 1, false); if (p[i] == (unsigned char)c) return (void *)(p + i); }
	return nullptr;
}
size_t __wrap_strlen(const char * s) { size_t n = 0; for (;; n++) { CK(s + n, 1, false); if (!s[n]) return n; } }
char * __wrap_strcpy(char * d, const char * s) { size_t n = 0; for (;; n++) { CK(s + n, 1, false); if (!s[n]) break; } CK(d, n + 1, true); memcpy(d, s, n + 1); return d; }
char * __wrap_strncpy(char * d, const char * s, size_t m) {
	size_t n = 0;
	for (; n < m; n++) { CK(s + n, 1, false); if (!s[n]) break; }
	CK(d, m, true);
	return strncpy(d, s, m);
}
char * __wrap_strcat(char * d, const char * s) { size_t l = __wrap_strlen(d); __wrap_strcpy(d + l, s); return d; }
int __wrap_strcmp(const char * a, const char * b) {
	for (size_t i = 0;; i++) {
		CK(a + i, 1, false); CK(b + i, 1, false);
		unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
		if (x != y) return x < y ? -1 : 1;
		if (!x) return 0;
	}
}
int __wrap_strncmp(const char * a, const char * b, size_t n) {
	for (size_t i = 0; i < n; i++) {
		CK(a + i, 1, false); CK(b + i, 1, false);
		unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
		if (x != y) return x < y ? -1 : 1;
		if (!x) return 0;
	}
	return 0;
}
char * __wrap_strchr(const char * s, int c) {
	for (;; s++) { CK(s, 1, false); if (*s == (char)c) return (char *)s; if (!*s) return nullptr; }
}
size_t __wrap_wcslen(const wchar_t * s) { size_t n = 0; for (;; n++) { CK(s + n, 4, false); if (!s[n]) return n; } }
wchar_t * __wrap_wcscpy(wchar_t * d, const wchar_t * s) { size_t n = 0; for (;; n++) { CK(s + n, 4, false); if (!s[n]) break; } CK(d, (n + 1) * 4, true); memcpy(d, s, (n + 1) * 4); return d; }
wchar_t * __wrap_wcsncpy(wchar_t * d, const wchar_t * s, size_t m) {
	size_t n = 0;
	for (; n < m; n++) { CK(s + n, 4, false); if (!s[n]) break; }
	CK(d, m * 4, true);
	return wcsncpy(d, s, m);
}
wchar_t * __wrap_wcscat(wchar_t * d, const wchar_t * s) { size_t l = __wrap_wcslen(d); __wrap_wcscpy(d + l, s); return d; }
int __wrap_wcscmp(const wchar_t * a, const wchar_t * b) {
	for (size_t i = 0;; i++) {
		CK(a + i, 4, false); CK(b + i, 4, false);
		if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
		if (!a[i]) return 0;
	}
}
int __wrap_wcsncmp(const wchar_t * a, const wchar_t * b, size_t n) {
	for (size_t i = 0; i < n; i++) {
		CK(a + i, 4, false); CK(b + i, 4, false);
		if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
		if (!a[i]) return 0;
	}
	return 0;
}
wchar_t * __wrap_wcschr(const wchar_t * s, wchar_t c) {
	for (;; s++) { CK(s, 4, false); if (*s == c) return (wchar_t *)s; if (!*s) return nullptr; }
}
wchar_t * __wrap_wcsstr(const wchar_t * a, const wchar_t * b) { __wrap_wcslen(a); __wrap_wcslen(b); return (wchar_t *)wcsstr(a, b); }
wchar_t * __wrap_wmemchr(const wchar_t * s, wchar_t c, size_t n) {
	for (size_t i = 0; i < n; i++) { CK(s + i, 4, false); if (s[i] == c) return (wchar_t *)(s + i); }
	return nullptr;
}
wchar_t * __wrap_wmemcpy(wchar_t * d, const wchar_t * s, size_t n) { CK(s, n * 4, false); CK(d, n * 4, true); return wmemcpy(d, s, n); }
wchar_t * __wrap_wmemmove(wchar_t * d, const wchar_t * s, size_t n) { CK(s, n * 4, false); CK(d, n * 4, true); return wmemmove(d, s, n); }
wchar_t * __wrap_wmemset(wchar_t * d, wchar_t c, size_t n) { CK(d, n * 4, true); return wmemset(d, c, n); }
int __wrap_wmemcmp(const wchar_t * a, const wchar_t * b, size_t n) { CK(a, n * 4, false); CK(b, n * 4, false); return wmemcmp(a, b, n); }
}

// ================================================================= pthread interposition
#define SIM (sim::simSelf())
extern "C" {
int pthread_create(pthread_t * out, const pthread_attr_t * attr, void * (*fn)(void *), void * arg) {
	if (!SIM) {
		static pcreate_t rc = (pcreate_t)real("pthread_create");
		return rc(out, attr, fn, arg);
	}
	syncPoint();
	if (sim::faultHit(F_THREAD, nullptr)) return EAGAIN;
	Thread * t = newThread();
	t->fn = fn;
	t->arg = arg;
	bool l = self->lib;
	self->lib = false;
	startReal(t);
	self->lib = l;
	*out = t->real;
	logEvent("pthread_create", t->id);
	syncPoint();
	return 0;
}
int pthread_join(pthread_t th, void ** ret) {
	static pjoin_t rj = (pjoin_t)real("pthread_join");
	if (!SIM) return rj(th, ret);
	Thread * t = nullptr;
	for (int i = 0; i < nthreads; i++) if (threads[i]->real == th && !threads[i]->joined) t = threads[i];
	if (!t || t->joined || t->detached || t == self) {
		logEvent("pthread_join of unknown thread");
		violation("bad-join", "join of a thread that does not exist or was already joined");
	}
	syncPoint();
	bool l = self->lib;
	self->lib = false;
	joinImpl(t);
	self->lib = l;
	if (ret) *ret = t->ret;
	logEvent("pthread_join", t->id);
	return 0;
}
int pthread_detach(pthread_t th) {
	if (SIM) {
		for (int i = 0; i < nthreads; i++) if (threads[i]->real == th) { threads[i]->detached = true; }
		return 0;
	}
	static int (*r)(pthread_t) = (int (*)(pthread_t))real("pthread_detach");
	return r(th);
}
int pthread_mutex_lock(pthread_mutex_t * m) {
	if (!SIM) { static int (*r)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))real("pthread_mutex_lock"); return r(m); }
	syncPoint();
	SyncObj & s = syncObj(m);
	if (s.owner == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { s.depth++; return 0; }
	while (syncObj(m).owner >= 0) blockSelf(2, m, false);
	SyncObj & s2 = syncObj(m);
	s2.owner = self->id;
	s2.depth = 1;
	acquire(m);
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t * m) {
	if (!SIM) { static int (*r)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))real("pthread_mutex_trylock"); return r(m); }
	syncPoint();
	SyncObj & s = syncObj(m);
	if (s.owner >= 0) return EBUSY;
	s.owner = self->id;
	s.depth = 1;
	acquire(m);
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t * m) {
	if (!SIM) { static int (*r)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))real("pthread_mutex_unlock"); return r(m); }
	SyncObj & s = syncObj(m);
	if (s.owner == self->id && --s.depth > 0) return 0;
	release(m);
	s.owner = -1;
	wake(2, m, true);
	syncPoint();
	return 0;
}
static int condWait(pthread_cond_t * c, pthread_mutex_t * m, bool timed) {
	SyncObj & s = syncObj(m);
	release(m);
	s.owner = -1;
	wake(2, m, true);
	blockSelf(3, c, timed);
	bool to = self->timedOut;
	acquire(c);
	while (syncObj(m).owner >= 0) blockSelf(2, m, false);
	SyncObj & s2 = syncObj(m);
	s2.owner = self->id;
	s2.depth = 1;
	acquire(m);
	return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) {
	if (!SIM) { static int (*r)(pthread_cond_t *, pthread_mutex_t *) = (int (*)(pthread_cond_t *, pthread_mutex_t *))real("pthread_cond_wait"); return r(c, m); }
	return condWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts) {
	if (!SIM) { static int (*r)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *) = (int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *))real("pthread_cond_timedwait"); return r(c, m, ts); }
	return condWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * ts) {
	if (!SIM) { static int (*r)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *) = (int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *))real("pthread_cond_clockwait"); return r(c, m, k, ts); }
	return condWait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t * c) {
	if (!SIM) { static int (*r)(pthread_cond_t *) = (int (*)(pthread_cond_t *))real("pthread_cond_signal"); return r(c); }
	release(c);
	wake(3, c, false);
	syncPoint();
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c) {
	if (!SIM) { static int (*r)(pthread_cond_t *) = (int (*)(pthread_cond_t *))real("pthread_cond_broadcast"); return r(c); }
	release(c);
	wake(3, c, true);
	syncPoint();
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t * m) {
	if (!SIM) { static int (*r)(pthread_rwlock_t *) = (int (*)(pthread_rwlock_t *))real("pthread_rwlock_rdlock"); return r(m); }
	syncPoint();
	while (syncObj(m).owner >= 0) blockSelf(5, m, false);
	syncObj(m).readers++;
	acquire(m);
	return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t * m) {
	if (!SIM) { static int (*r)(pthread_rwlock_t *) = (int (*)(pthread_rwlock_t *))real("pthread_rwlock_wrlock"); return r(m); }
	syncPoint();
	while (syncObj(m).owner >= 0 || syncObj(m).readers > 0) blockSelf(5, m, false);
	syncObj(m).owner = self->id;
	acquire(m);
	return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t * m) {
	if (!SIM) { static int (*r)(pthread_rwlock_t *) = (int (*)(pthread_rwlock_t *))real("pthread_rwlock_unlock"); return r(m); }
	SyncObj & s = syncObj(m);
	release(m);
	if (s.owner == self->id) s.owner = -1;
	else if (s.readers > 0) s.readers--;
	wake(5, m, true);
	syncPoint();
	return 0;
}
int pthread_once(pthread_once_t * o, void (*fn)(void)) {
	if (!SIM) { static int (*r)(pthread_once_t *, void (*)(void)) = (int (*)(pthread_once_t *, void (*)(void)))real("pthread_once"); return r(o, fn); }
	syncPoint();
	while (syncObj(o).state == 1) blockSelf(4, o, false);
	if (syncObj(o).state == 0 && *(volatile int *)o != 2) {
		syncObj(o).state = 1;
		fn();
		syncObj(o).state = 2;
		*(volatile int *)o = 2;
		release(o);
		wake(4, o, true);
	}
	else acquire(o);
	return 0;
}
// function-local statics
int __cxa_guard_acquire(uint64_t * g) {
	volatile char * b = (volatile char *)g;
	if (!SIM || !self->lib) { if (b[0]) return 0; b[1] = 1; return 1; }
	if (b[0]) { acquire(g); return 0; }
	while (b[1]) { if (b[0]) break; blockSelf(4, g, false); }
	if (b[0]) { acquire(g); return 0; }
	b[1] = 1;
	syncPoint();
	return 1;
}
void __cxa_guard_release(uint64_t * g) {
	volatile char * b = (volatile char *)g;
	bool sm = SIM && self->lib;
	if (sm) release(g);
	b[0] = 1;
	b[1] = 0;
	if (sm) { wake(4, g, true); syncPoint(); }
}
void __cxa_guard_abort(uint64_t * g) {
	volatile char * b = (volatile char *)g;
	b[1] = 0;
	if (SIM) { wake(4, g, true); }
}
int sched_yield() { if (SIM) { yieldPoint(); return 0; } return (int)syscall(SYS_sched_yield); }
int nanosleep(const struct timespec * ts, struct timespec * rem) {
	if (SIM && self->lib) { clockJump(ts->tv_sec * 1000000000ll + ts->tv_nsec); yieldPoint(); return 0; }
	return (int)syscall(SYS_nanosleep, ts, rem);
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec * ts, struct timespec * rem) {
	if (SIM && self->lib) { clockJump(ts->tv_sec * 1000000000ll + ts->tv_nsec); yieldPoint(); return 0; }
	return (int)syscall(SYS_clock_nanosleep, k, fl, ts, rem);
}
int usleep(useconds_t u) { struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&ts, nullptr); }
int clock_gettime(clockid_t k, struct timespec * ts) {
	if (SIM && self->lib) { uint64_t n = virtualNow(); ts->tv_sec = (time_t)(n / 1000000000ull); ts->tv_nsec = (long)(n % 1000000000ull); return 0; }
	return (int)syscall(SYS_clock_gettime, k, ts);
}
int gettimeofday(struct timeval * tv, void *) {
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
time_t time(time_t * t) {
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
}
