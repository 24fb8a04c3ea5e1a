// System-call seam: while code under test runs, every system call of the thread traps here (Syscall User Dispatch)
// and is answered from the simulated file system, environment and standard streams.
#include "rt.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <time.h>
#include <errno.h>
#include <fcntl.h>
#include <pwd.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <termios.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>

namespace sim {

bool faultHit(int kind, int * arg);
bool inLibNow();
bool simSelf();
struct MapRange { uintptr_t lo, hi; };
extern MapRange mapRanges[64];
extern int nMapRanges;
extern __thread volatile unsigned char sysSel __attribute__((tls_model("initial-exec")));

template<class T> static T & leaky() { return *new T(); }
std::map<std::string, Node> & fsTree = leaky<std::map<std::string, Node>>();
std::map<std::string, std::string> & env = leaky<std::map<std::string, std::string>>();
std::string & homeDir = leaky<std::string>();
std::string & cwd = leaky<std::string>();
std::string & envDefault = leaky<std::string>();
std::vector<std::string> & passPrefixes = leaky<std::vector<std::string>>();
std::vector<std::string> & firedPaths = leaky<std::vector<std::string>>();
StdIo & stdio = leaky<StdIo>();
uint64_t dirOrderSeed = 0;
int dtypeMode = 0;
bool mapCopy = false;
void (*onExit)(int) = nullptr;

struct OpenFile {
	std::string path;
	bool dir = false, writable = false, append = false, unseekable = false;
	std::vector<std::pair<std::string, unsigned char>> ents;
	size_t pos = 0;
};
static std::map<int, OpenFile> & fds = leaky<std::map<int, OpenFile>>();
struct Mapping { size_t len; std::string path; };
static std::map<uintptr_t, Mapping> & maps = leaky<std::map<uintptr_t, Mapping>>();
static const size_t GUARD = 1 << 20;
static uintptr_t mapNext = 0x300000000000ull;

int openFds() { return (int)fds.size(); }
int openMaps() { return (int)maps.size(); }
std::string describeFds() {
	std::string s;
	for (auto & f : fds) s += (f.second.dir ? "directory " : "file ") + f.second.path + "; ";
	for (auto & m : maps) s += "mapping of " + m.second.path + "; ";
	return s;
}

// ---------------------------------------------------------------- tree
static std::string normalise(const std::string & in) {
	std::string p = in;
	if (p.empty() || p[0] != '/') p = (cwd.empty() ? std::string("/") : cwd) + "/" + p;
	std::vector<std::string> parts;
	size_t i = 0;
	while (i < p.size()) {
		size_t j = p.find('/', i);
		if (j == std::string::npos) j = p.size();
		std::string c = p.substr(i, j - i);
		if (c == "..") { if (!parts.empty()) parts.pop_back(); }
		else if (!c.empty() && c != ".") parts.push_back(c);
		i = j + 1;
	}
	std::string r;
	for (auto & c : parts) r += "/" + c;
	return r.empty() ? "/" : r;
}
static std::string parentOf(const std::string & p) {
	size_t i = p.rfind('/');
	return i == 0 || i == std::string::npos ? "/" : p.substr(0, i);
}
void fsMkdirs(const std::string & path) {
	std::string p = normalise(path);
	while (true) {
		Node & n = fsTree[p];
		n.dir = true;
		if (p == "/") break;
		p = parentOf(p);
	}
}
static int newMemfd(const char * data, size_t n) {
	int fd = memfd_create("sim", MFD_CLOEXEC);
	if (fd < 0) { perror("sim: memfd_create"); _exit(3); }
	// keep the low descriptors free
	int hi = fcntl(fd, F_DUPFD_CLOEXEC, 200);
	if (hi >= 0) { close(fd); fd = hi; }
	size_t o = 0;
	while (o < n) {
		ssize_t w = write(fd, data + o, n - o);
		if (w <= 0) { perror("sim: memfd write"); _exit(3); }
		o += (size_t)w;
	}
	return fd;
}
void fsPut(const std::string & path, const std::string & data) {
	std::string p = normalise(path);
	fsMkdirs(parentOf(p));
	Node & n = fsTree[p];
	n = Node();
	n.memfd = newMemfd(data.data(), data.size());
}
void fsLink(const std::string & from, const std::string & to) {
	std::string a = normalise(from), b = normalise(to);
	fsMkdirs(parentOf(b));
	Node n = fsTree[a];
	fsTree[b] = n;
}
void fsRemove(const std::string & path) {
	std::string p = normalise(path);
	fsTree.erase(p);
	std::string pre = p + "/";
	for (auto it = fsTree.lower_bound(pre); it != fsTree.end() && it->first.compare(0, pre.size(), pre) == 0;) it = fsTree.erase(it);
}
bool fsRead(const std::string & path, std::string & data) {
	auto it = fsTree.find(normalise(path));
	if (it == fsTree.end() || it->second.dir || it->second.memfd < 0) return false;
	struct stat st;
	fstat(it->second.memfd, &st);
	data.resize((size_t)st.st_size);
	size_t o = 0;
	while (o < data.size()) {
		ssize_t r = pread(it->second.memfd, &data[o], data.size() - o, (off_t)o);
		if (r <= 0) break;
		o += (size_t)r;
	}
	return true;
}

static bool passThrough(const std::string & p) {
	for (auto & pre : passPrefixes) if (p.compare(0, pre.size(), pre) == 0) return true;
	return false;
}
static void fired(int kind, const std::string & p) { firedPaths.push_back(std::string(faultNames[kind]) + " " + p); }

static long raw(long nr, long a, long b, long c, long d, long e, long f) {
	long ret;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return ret;
}

// lookup honouring permissions of the directories on the way
static int lookup(const std::string & p, Node ** out) {
	std::string d = parentOf(p);
	while (d != "/") {
		auto it = fsTree.find(d);
		if (it == fsTree.end()) return ENOENT;
		if (!it->second.dir) return ENOTDIR;
		if (it->second.unreadable) return EACCES;
		d = parentOf(d);
	}
	auto it = fsTree.find(p);
	if (it == fsTree.end()) return ENOENT;
	*out = &it->second;
	return 0;
}

static int faultErrno(int arg, int dflt) { return arg > 0 ? arg : dflt; }

static long doOpen(int dirfd, const char * cpath, int flags, long mode) {
	(void)mode;
	std::string p = cpath;
	if (p.empty()) return -ENOENT;
	if (p[0] != '/' && dirfd != AT_FDCWD) {
		auto it = fds.find(dirfd);
		if (it == fds.end()) return -EBADF;
		p = it->second.path + "/" + p;
	}
	p = normalise(p);
	if (passThrough(p)) return raw(SYS_openat, AT_FDCWD, (long)p.c_str(), flags, mode, 0, 0);
	Node * n = nullptr;
	int e = lookup(p, &n);
	bool wantDir = (flags & O_DIRECTORY) || (!e && n->dir);
	int arg = 0;
	int kind = wantDir ? F_OPENDIR : F_OPEN;
	if (faultHit(kind, &arg)) { fired(kind, p); return -faultErrno(arg, EIO); }
	int acc = flags & O_ACCMODE;
	if (e == ENOENT && (flags & O_CREAT)) {
		Node * par = nullptr;
		std::string d = parentOf(p);
		if (d != "/") {
			int pe = lookup(d, &par);
			if (pe) return -pe;
			if (!par->dir) return -ENOTDIR;
			if (par->unreadable) return -EACCES;
		}
	}
	else if (e) return -e;
	else if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
	if (!e && n->unreadable) return -EACCES;
	OpenFile of;
	of.path = p;
	if (!e && n->dir) {
		if (acc != O_RDONLY) return -EISDIR;
		of.dir = true;
		std::string pre = p == "/" ? "/" : p + "/";
		std::vector<std::pair<std::string, unsigned char>> v;
		v.push_back({".", DT_DIR});
		v.push_back({"..", DT_DIR});
		for (auto it = fsTree.lower_bound(pre); it != fsTree.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) {
			std::string rest = it->first.substr(pre.size());
			if (rest.empty() || rest.find('/') != std::string::npos) continue;
			v.push_back({rest, (unsigned char)(it->second.dir ? DT_DIR : DT_REG)});
		}
		Rng r(dirOrderSeed ^ hashStr(7, p));
		if (dirOrderSeed) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
		of.ents = v;
		int fd = (int)raw(SYS_openat, AT_FDCWD, (long)"/", O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0, 0, 0);
		if (fd < 0) return fd;
		fds[fd] = of;
		logEvent("opendir", hashStr(1, p));
		return fd;
	}
	if (flags & O_DIRECTORY) return -ENOTDIR;
	int fd;
	if (acc == O_RDONLY) {
		char b[64];
		snprintf(b, sizeof b, "/proc/self/fd/%d", n->memfd);
		fd = (int)raw(SYS_openat, AT_FDCWD, (long)b, O_RDONLY | O_CLOEXEC, 0, 0, 0);
	}
	else {
		of.writable = true;
		of.append = flags & O_APPEND;
		std::string data;
		if (!e && !(flags & O_TRUNC)) fsRead(p, data);
		Node nn;
		nn.memfd = newMemfd(data.data(), data.size());
		fsTree[p] = nn;
		char b[64];
		snprintf(b, sizeof b, "/proc/self/fd/%d", nn.memfd);
		fd = (int)raw(SYS_openat, AT_FDCWD, (long)b, acc | (flags & O_APPEND) | O_CLOEXEC, 0, 0, 0);
	}
	if (fd < 0) { fprintf(stderr, "sim: cannot reopen backing file: %d\n", -fd); _exit(3); }
	fds[fd] = of;
	logEvent("open", hashStr(1, p), (uint64_t)flags);
	return fd;
}

static long doReadStd(char * buf, size_t n) {
	StdIo & s = stdio;
	s.reads++;
	if (s.inErrAt >= 0 && (int64_t)s.inPos >= s.inErrAt) { s.inErrFired = true; stats.fired[F_READ_ERR]++; logEvent("stdin error", s.inPos); if (s.inErrN && --s.inErrN == 0) s.inErrAt = -1; return -EIO; }
	size_t k = s.in.size() - s.inPos;
	if (s.inErrAt >= 0 && (int64_t)(s.inPos + k) > s.inErrAt) k = (size_t)(s.inErrAt - (int64_t)s.inPos);
	if (k > n) k = n;
	if (s.chunkPos < s.chunks.size()) {
		size_t c = s.chunks[s.chunkPos++];
		if (c == 0) c = 1;
		if (k > c) { k = c; stats.fired[F_READ_SHORT]++; }
	}
	memcpy(buf, s.in.data() + s.inPos, k);
	s.inPos += k;
	if (k == 0) s.inDone = true;
	logEvent("read stdin", k);
	return (long)k;
}
static long doWriteStd(int fd, const char * buf, size_t n) {
	StdIo & s = stdio;
	if (fd == 2) { if (s.err.size() < 100000) s.err.append(buf, n); return (long)n; }
	s.writes++;
	size_t k = n;
	if (s.outErrAt >= 0) {
		if ((int64_t)s.out.size() >= s.outErrAt) {
			if (n) { s.outErrFired = true; stats.fired[F_WRITE_ERR]++; logEvent("stdout error", s.out.size()); if (s.outErrN && --s.outErrN == 0) s.outErrAt = -1; return -s.outErrno; }
		}
		else if ((int64_t)(s.out.size() + k) > s.outErrAt) k = (size_t)(s.outErrAt - (int64_t)s.out.size());
	}
	if (s.outShort && k > s.outShort) { k = s.outShort; stats.fired[F_WRITE_SHORT]++; }
	s.out.append(buf, k);
	logEvent("write stdout", k);
	return (long)k;
}

static long doRead(int fd, char * buf, size_t n, bool pos, off_t off) {
	if (fd == 0 && stdio.on) return doReadStd(buf, n);
	auto it = fds.find(fd);
	if (it == fds.end()) return pos ? raw(SYS_pread64, fd, (long)buf, (long)n, off, 0, 0) : raw(SYS_read, fd, (long)buf, (long)n, 0, 0, 0);
	if (it->second.dir) return -EISDIR;
	int arg = 0;
	if (faultHit(F_READ_ERR, &arg)) { fired(F_READ_ERR, it->second.path); return -faultErrno(arg, EIO); }
	if (faultHit(F_READ_EINTR, &arg)) { fired(F_READ_EINTR, it->second.path); return -EINTR; }
	if (n > 1 && faultHit(F_READ_SHORT, &arg)) { fired(F_READ_SHORT, it->second.path); size_t k = arg > 0 ? (size_t)arg : 1; if (n > k) n = k; }
	long r = pos ? raw(SYS_pread64, fd, (long)buf, (long)n, off, 0, 0) : raw(SYS_read, fd, (long)buf, (long)n, 0, 0, 0);
	logEvent("read", (uint64_t)r);
	return r;
}
static long doWrite(int fd, const char * buf, size_t n, bool pos, off_t off) {
	if ((fd == 1 || fd == 2) && stdio.on) return doWriteStd(fd, buf, n);
	auto it = fds.find(fd);
	if (it == fds.end()) return pos ? raw(SYS_pwrite64, fd, (long)buf, (long)n, off, 0, 0) : raw(SYS_write, fd, (long)buf, (long)n, 0, 0, 0);
	int arg = 0;
	if (faultHit(F_WRITE_ERR, &arg)) { fired(F_WRITE_ERR, it->second.path); return -faultErrno(arg, ENOSPC); }
	if (n > 1 && faultHit(F_WRITE_SHORT, &arg)) { fired(F_WRITE_SHORT, it->second.path); size_t k = arg > 0 ? (size_t)arg : 1; if (n > k) n = k; }
	long r = pos ? raw(SYS_pwrite64, fd, (long)buf, (long)n, off, 0, 0) : raw(SYS_write, fd, (long)buf, (long)n, 0, 0, 0);
	logEvent("write", (uint64_t)r);
	return r;
}

static void fillStat(struct stat * st, const Node & n) {
	memset(st, 0, sizeof *st);
	st->st_nlink = 1;
	st->st_blksize = 4096;
	if (n.dir) st->st_mode = S_IFDIR | 0755;
	else {
		struct stat r;
		raw(SYS_fstat, n.memfd, (long)&r, 0, 0, 0, 0);
		st->st_mode = S_IFREG | (n.unreadable ? 0 : 0644);
		st->st_size = r.st_size;
		st->st_blocks = (r.st_size + 511) / 512;
	}
}
static long doFstat(int fd, struct stat * st) {
	if (fd >= 0 && fd <= 2 && stdio.on) {
		memset(st, 0, sizeof *st);
		st->st_mode = (stdio.pipe ? S_IFIFO : S_IFREG) | 0600;
		st->st_blksize = 4096;
		return 0;
	}
	auto it = fds.find(fd);
	if (it == fds.end()) return raw(SYS_fstat, fd, (long)st, 0, 0, 0, 0);
	int arg = 0;
	if (faultHit(F_FSTAT, &arg)) { fired(F_FSTAT, it->second.path); return -faultErrno(arg, EIO); }
	long r = raw(SYS_fstat, fd, (long)st, 0, 0, 0, 0);
	if (it->second.dir) { st->st_mode = S_IFDIR | 0755; st->st_size = 4096; }
	st->st_ino = 1; st->st_dev = 1; st->st_mtime = st->st_ctime = st->st_atime = 1700000000;
	st->st_mtim.tv_nsec = st->st_ctim.tv_nsec = st->st_atim.tv_nsec = 0;
	return r;
}
static long doStatPath(int dirfd, const char * cp, struct stat * st, int flags) {
	if ((flags & AT_EMPTY_PATH) && (!cp || !*cp)) return doFstat(dirfd, st);
	std::string p = cp;
	if (p.empty()) return -ENOENT;
	if (p[0] != '/' && dirfd != AT_FDCWD) {
		auto it = fds.find(dirfd);
		if (it == fds.end()) return -EBADF;
		p = it->second.path + "/" + p;
	}
	p = normalise(p);
	if (passThrough(p)) return raw(SYS_newfstatat, AT_FDCWD, (long)p.c_str(), (long)st, flags, 0, 0);
	Node * n = nullptr;
	int arg = 0;
	if (faultHit(F_FSTAT, &arg)) { fired(F_FSTAT, p); return -faultErrno(arg, EIO); }
	int e = lookup(p, &n);
	if (e) return -e;
	fillStat(st, *n);
	return 0;
}
static long doAccess(const char * cp, int mode) {
	std::string p = normalise(cp);
	if (passThrough(p)) return raw(SYS_access, (long)p.c_str(), mode, 0, 0, 0, 0);
	Node * n = nullptr;
	int e = lookup(p, &n);
	if (e) return -e;
	if (n->unreadable && (mode & R_OK)) return -EACCES;
	return 0;
}

static void rangesRebuild() {
	nMapRanges = 0;
	for (auto & m : maps) {
		if (nMapRanges >= 64) break;
		mapRanges[nMapRanges].lo = m.first;
		mapRanges[nMapRanges].hi = m.first + m.second.len;
		nMapRanges++;
	}
}
static long doMmap(long addr, size_t len, int prot, int flags, int fd, off_t off) {
	auto it = fd >= 0 ? fds.find(fd) : fds.end();
	if (it == fds.end()) return raw(SYS_mmap, addr, (long)len, prot, flags, fd, off);
	int arg = 0;
	if (faultHit(F_MMAP, &arg)) { fired(F_MMAP, it->second.path); return -faultErrno(arg, ENOMEM); }
	if (len == 0) return -EINVAL;
	if (it->second.dir) return -ENODEV;
	if (len > (1ull << 38)) return -ENOMEM;
	size_t rl = (len + 4095) & ~4095ull;
	uintptr_t base = mapNext;
	mapNext += rl + 2 * GUARD;
	long r = raw(SYS_mmap, (long)base, (long)(rl + 2 * GUARD), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (r < 0) { fprintf(stderr, "sim: map reserve failed %ld\n", r); _exit(3); }
	uintptr_t at = base + GUARD;
	r = raw(SYS_mmap, (long)at, (long)len, prot, flags | MAP_FIXED, fd, off);
	if (r < 0) return r;
	if (mapCopy && !(prot & PROT_WRITE)) {
		// same contents in private memory: a forked run then needs no page faults to read it
		void * tmp = mremap((void *)at, rl, rl, MREMAP_MAYMOVE | MREMAP_FIXED, (void *)(base + (1ull << 40)));
		if (tmp == MAP_FAILED) { perror("sim: mremap"); _exit(3); }
		raw(SYS_mmap, (long)at, (long)rl, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
		struct stat st;
		if (fstat(fd, &st) == 0 && off < st.st_size) memcpy((void *)at, tmp, std::min(len, (size_t)(st.st_size - off)));
		munmap(tmp, rl);
		mprotect((void *)at, rl, prot);
	}
	maps[at] = Mapping{rl, it->second.path};
	rangesRebuild();
	logEvent("mmap", len);
	return (long)at;
}
static long doMunmap(uintptr_t addr, size_t len) {
	auto it = maps.find(addr);
	if (it == maps.end()) {
		if (addr >= 0x300000000000ull && addr < mapNext) {
			logEvent("munmap of nothing");
			return 0;
		}
		return raw(SYS_munmap, (long)addr, (long)len, 0, 0, 0, 0);
	}
	if (len == 0) return -EINVAL;
	if (len > (1ull << 38)) return -ENOMEM;
	size_t rl = (len + 4095) & ~4095ull;
	if (rl < it->second.len) {
		Mapping m = it->second;
		m.len -= rl;
		maps.erase(it);
		maps[addr + rl] = m;
	}
	else maps.erase(it);
	rangesRebuild();
	raw(SYS_mmap, (long)addr, (long)rl, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	logEvent("munmap", len);
	return 0;
}
struct KDirent { uint64_t ino; int64_t off; unsigned short reclen; unsigned char type; char name[]; };
static long doGetdents(int fd, char * buf, size_t n) {
	auto it = fds.find(fd);
	if (it == fds.end()) return raw(SYS_getdents64, fd, (long)buf, (long)n, 0, 0, 0);
	OpenFile & f = it->second;
	if (!f.dir) return -ENOTDIR;
	int arg = 0;
	if (faultHit(F_READDIR, &arg)) { fired(F_READDIR, f.path); return -faultErrno(arg, EIO); }
	size_t o = 0;
	// hand out few entries per call so that a fault can hit the middle of a listing
	int given = 0;
	while (f.pos < f.ents.size() && given < 3) {
		const std::string & nm = f.ents[f.pos].first;
		size_t rl = (offsetof(KDirent, name) + nm.size() + 1 + 7) & ~7ull;
		if (o + rl > n) break;
		KDirent * d = (KDirent *)(buf + o);
		d->ino = f.pos + 10;
		d->off = (int64_t)f.pos + 1;
		d->reclen = (unsigned short)rl;
		d->type = dtypeMode ? (unsigned char)DT_UNKNOWN : f.ents[f.pos].second;
		memcpy(d->name, nm.c_str(), nm.size() + 1);
		o += rl;
		f.pos++;
		given++;
	}
	logEvent("getdents", o);
	return (long)o;
}
static long doRename(const std::string & a0, const std::string & b0) {
	std::string a = normalise(a0), b = normalise(b0);
	Node * n = nullptr;
	int e = lookup(a, &n);
	if (e) return -e;
	Node copy = *n;
	fsTree.erase(a);
	fsTree[b] = copy;
	return 0;
}

static long dispatch(long nr, long a, long b, long c, long d, long e, long f) {
	switch (nr) {
		case SYS_open: return doOpen(AT_FDCWD, (const char *)a, (int)b, c);
		case SYS_openat: return doOpen((int)a, (const char *)b, (int)c, d);
		case SYS_creat: return doOpen(AT_FDCWD, (const char *)a, O_CREAT | O_WRONLY | O_TRUNC, b);
		case SYS_read: return doRead((int)a, (char *)b, (size_t)c, false, 0);
		case SYS_pread64: return doRead((int)a, (char *)b, (size_t)c, true, d);
		case SYS_readv: {
			struct iovec * v = (struct iovec *)b;
			for (int i = 0; i < (int)c; i++) if (v[i].iov_len) return doRead((int)a, (char *)v[i].iov_base, v[i].iov_len, false, 0);
			return 0;
		}
		case SYS_write: return doWrite((int)a, (const char *)b, (size_t)c, false, 0);
		case SYS_pwrite64: return doWrite((int)a, (const char *)b, (size_t)c, true, d);
		case SYS_writev: {
			struct iovec * v = (struct iovec *)b;
			std::string all;
			for (int i = 0; i < (int)c; i++) all.append((const char *)v[i].iov_base, v[i].iov_len);
			return doWrite((int)a, all.data(), all.size(), false, 0);
		}
		case SYS_lseek: {
			if (a >= 0 && a <= 2 && stdio.on) {
				if (stdio.pipe || a != 0) return -ESPIPE;
				size_t np = c == SEEK_SET ? (size_t)b : c == SEEK_CUR ? stdio.inPos + b : stdio.in.size() + b;
				if (np > stdio.in.size()) return -EINVAL;
				stdio.inPos = np;
				return (long)np;
			}
			auto it = fds.find((int)a);
			int arg = 0;
			if (it != fds.end() && faultHit(F_SEEK, &arg)) { fired(F_SEEK, it->second.path); it->second.unseekable = true; }
			if (it != fds.end() && it->second.unseekable) return -ESPIPE;
			if (it != fds.end() && it->second.dir) { it->second.pos = (size_t)b; return b; }
			return raw(nr, a, b, c, d, e, f);
		}
		case SYS_close: {
			if (a >= 0 && a <= 2 && stdio.on) {
				int arg = 0;
				if (a == 1 && faultHit(F_CLOSE, &arg)) { fired(F_CLOSE, "stdout"); stdio.outErrFired = true; return -faultErrno(arg, EIO); }
				return 0;
			}
			auto it = fds.find((int)a);
			if (it == fds.end()) return raw(nr, a, b, c, d, e, f);
			std::string p = it->second.path;
			fds.erase(it);
			raw(nr, a, 0, 0, 0, 0, 0);
			int arg = 0;
			logEvent("close");
			if (faultHit(F_CLOSE, &arg)) { fired(F_CLOSE, p); return -faultErrno(arg, EIO); }
			return 0;
		}
		case SYS_fstat: return doFstat((int)a, (struct stat *)b);
		case SYS_newfstatat: return doStatPath((int)a, (const char *)b, (struct stat *)c, (int)d);
		case SYS_stat: case SYS_lstat: return doStatPath(AT_FDCWD, (const char *)a, (struct stat *)b, 0);
		case SYS_statx: {
			struct stat st;
			long r = doStatPath((int)a, (const char *)b, &st, (int)c);
			if (r) return r;
			struct statx * x = (struct statx *)e;
			memset(x, 0, sizeof *x);
			x->stx_mask = STATX_BASIC_STATS;
			x->stx_mode = (uint16_t)st.st_mode;
			x->stx_size = (uint64_t)st.st_size;
			x->stx_nlink = 1;
			x->stx_blksize = 4096;
			return 0;
		}
		case SYS_access: return doAccess((const char *)a, (int)b);
		case SYS_faccessat: case SYS_faccessat2: return doAccess((const char *)b, (int)c);
		case SYS_mmap: return doMmap(a, (size_t)b, (int)c, (int)d, (int)e, f);
		case SYS_munmap: return doMunmap((uintptr_t)a, (size_t)b);
		case SYS_getdents64: return doGetdents((int)a, (char *)b, (size_t)c);
		case SYS_ioctl: if (a >= 0 && a <= 2 && stdio.on) return -ENOTTY; return raw(nr, a, b, c, d, e, f);
		case SYS_unlink: { std::string p = normalise((const char *)a); if (!fsTree.count(p)) return -ENOENT; fsTree.erase(p); return 0; }
		case SYS_unlinkat: { std::string p = normalise((const char *)b); if (!fsTree.count(p)) return -ENOENT; fsTree.erase(p); return 0; }
		case SYS_rename: return doRename((const char *)a, (const char *)b);
		case SYS_renameat: case SYS_renameat2: return doRename((const char *)b, (const char *)d);
		case SYS_readlink: case SYS_readlinkat: return -EINVAL;
		case SYS_getcwd: {
			std::string p = cwd.empty() ? "/" : cwd;
			if (p.size() + 1 > (size_t)b) return -ERANGE;
			memcpy((void *)a, p.c_str(), p.size() + 1);
			return (long)p.size() + 1;
		}
		case SYS_chdir: {
			std::string p = normalise((const char *)a);
			auto it = fsTree.find(p);
			if (it == fsTree.end() || !it->second.dir) return -ENOENT;
			cwd = p;
			return 0;
		}
		case SYS_fsync: case SYS_fdatasync: {
			auto it = fds.find((int)a);
			int arg = 0;
			if (it != fds.end() && faultHit(F_CLOSE, &arg)) { fired(F_CLOSE, it->second.path); return -faultErrno(arg, EIO); }
			return 0;
		}
		case SYS_mkdir: { fsMkdirs((const char *)a); return 0; }
		case SYS_sendfile: case SYS_copy_file_range: case SYS_splice: return -ENOSYS;
		case SYS_socket: case SYS_connect: return -EACCES;
		case SYS_kill: case SYS_execve: case SYS_fork: case SYS_vfork: case SYS_mount: case SYS_rmdir: case SYS_link: case SYS_symlink:
		case SYS_chmod: case SYS_chown: case SYS_truncate: return -EPERM;
		case SYS_exit_group:
			if (onExit) { sim::end(); onExit((int)a); }
			return raw(nr, a, b, c, d, e, f);
		default: return raw(nr, a, b, c, d, e, f);
	}
}

static void onSys(int, siginfo_t * si, void * ucv) {
	int se = errno;
	sysSel = 0;
	ucontext_t * uc = (ucontext_t *)ucv;
	greg_t * r = uc->uc_mcontext.gregs;
	long ret;
	{
		OutOfLib o;
		ret = dispatch(si->si_syscall, r[REG_RDI], r[REG_RSI], r[REG_RDX], r[REG_R10], r[REG_R8], r[REG_R9]);
	}
	r[REG_RAX] = ret;
	errno = se;
	sysSel = 1;
}

std::string symName(void * pc);
void setLibOff();
static void onCrash(int sig, siginfo_t *, void * uc) {
	sysSel = 0;
	signal(sig, SIG_DFL);
	const char * n = sig == SIGSEGV ? "invalid memory access" : sig == SIGBUS ? "access beyond the end of a mapped file" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "arithmetic exception" : "illegal instruction";
	if (simSelf()) {
		setLibOff();
		violation("crash", std::string(n) + " in " + symName((void *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP]));
	}
	raise(sig);
}

static uintptr_t restorer = 0;
struct KSigaction { void * handler; unsigned long flags; void (*rest)(); uint64_t mask; };

void sysInit() {
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = onSys;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigaction(SIGSYS, &sa, nullptr);
	KSigaction k;
	memset(&k, 0, sizeof k);
	raw(SYS_rt_sigaction, SIGSYS, 0, (long)&k, 8, 0, 0);
	restorer = (uintptr_t)k.rest;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = onCrash;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
	signal(SIGPIPE, SIG_IGN);
}

#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif
void sysThread(bool on) {
	if (on) {
		sysSel = 0;
		long r = raw(SYS_prctl, PR_SET_SYSCALL_USER_DISPATCH, 1, (long)restorer, 32, (long)&sysSel, 0);
		if (r) { fprintf(stderr, "sim: syscall user dispatch unavailable: %ld\n", r); _exit(3); }
		static __thread char * alt = nullptr;
		if (!alt) {
			alt = (char *)mmap(nullptr, 1 << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			stack_t ss;
			memset(&ss, 0, sizeof ss);
			ss.ss_sp = alt;
			ss.ss_size = 1 << 17;
			sigaltstack(&ss, nullptr);
		}
	}
	else raw(SYS_prctl, PR_SET_SYSCALL_USER_DISPATCH, 0, 0, 0, 0, 0);
}

} // namespace sim

// ---------------------------------------------------------------- interposed library calls
using namespace sim;
extern "C" {
extern char ** environ;
static char * realGetenv(const char * n) {
	size_t l = strlen(n);
	for (char ** e = environ; e && *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
	return nullptr;
}
char * getenv(const char * n) {
	if (!simSelf() || !inLibNow()) return realGetenv(n);
	OutOfLib o;
	auto it = env.find(n);
	if (it == env.end()) return envDefault.empty() ? nullptr : const_cast<char *>(envDefault.c_str());
	return const_cast<char *>(it->second.c_str());
}
char * secure_getenv(const char * n) { return getenv(n); }
static struct passwd * fillPw(struct passwd * pw, char * buf, size_t n) {
	if (homeDir.size() + 8 > n) return nullptr;
	memset(pw, 0, sizeof *pw);
	strcpy(buf, homeDir.c_str());
	pw->pw_dir = buf;
	pw->pw_name = buf + homeDir.size();
	pw->pw_passwd = pw->pw_gecos = pw->pw_shell = pw->pw_name;
	return pw;
}
int getpwuid_r(uid_t, struct passwd * pw, char * buf, size_t n, struct passwd ** res) {
	OutOfLib o;
	int arg = 0;
	*res = nullptr;
	if (faultHit(F_GETPW, &arg)) { firedPaths.push_back("getpw -"); return EIO; }
	if (homeDir.empty()) return 0;
	*res = fillPw(pw, buf, n);
	return *res ? 0 : ERANGE;
}
// functions with hidden static state: using them from two threads is a race on that state
void __tsan_write8(void *);
static long hiddenState[8];
static void hidden(int i) { if (simSelf() && inLibNow()) __tsan_write8(&hiddenState[i]); }
struct passwd * getpwuid(uid_t u) {
	hidden(0);
	static struct passwd pw;
	static char buf[512];
	struct passwd * r;
	return getpwuid_r(u, &pw, buf, sizeof buf, &r) == 0 ? r : nullptr;
}
char * strtok(char * s, const char * d) {
	static char * save;
	hidden(1);
	return strtok_r(s, d, &save);
}
int rand(void) { static unsigned st = 1; hidden(2); return rand_r(&st); }
void srand(unsigned) { hidden(2); }
struct tm * localtime(const time_t * t) { static struct tm r; hidden(3); memset(&r, 0, sizeof r); r.tm_sec = (int)(*t % 60); return &r; }
struct tm * gmtime(const time_t * t) { static struct tm r; hidden(3); memset(&r, 0, sizeof r); r.tm_sec = (int)(*t % 60); return &r; }
int setenv(const char * n, const char * v, int over) {
	static int (*real)(const char *, const char *, int) = (int (*)(const char *, const char *, int))dlsym(RTLD_NEXT, "setenv");
	if (!simSelf() || !inLibNow()) return real(n, v, over);
	hidden(4);
	OutOfLib o;
	if (over || !env.count(n)) env[n] = v;
	return 0;
}
int unsetenv(const char * n) {
	static int (*real)(const char *) = (int (*)(const char *))dlsym(RTLD_NEXT, "unsetenv");
	if (!simSelf() || !inLibNow()) return real(n);
	hidden(4);
	OutOfLib o;
	env.erase(n);
	return 0;
}
char * setlocale(int c, const char * l) {
	static char * (*real)(int, const char *) = (char * (*)(int, const char *))dlsym(RTLD_NEXT, "setlocale");
	hidden(5);
	OutOfLib o;
	return real(c, l);
}
}
