// gensim: deterministic simulation of the table generators.
//
// The generators of the repository are compiled, unmodified, as shared objects. Each
// simulated generator process is one thread with its own garbage-filled stack, running the
// generator's real main(). All storage, clock, identity, randomness and allocation calls
// (made by the generator or by libstdc++ on its behalf) are interposed here and served from
// an in-memory file system. Exactly one simulated process runs at a time; the plan (read
// from stdin, one plan per run) says at which event control moves to another process and
// which fault is delivered at which call. Every run executes in a fresh forked child, so the
// plan determines the execution completely.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

typedef std::string S;
extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);

static uint64_t splitmix(uint64_t &x)
{
	uint64_t z = (x += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
static uint64_t fnv(uint64_t h, const void *p, size_t n)
{
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++)
		h = (h ^ c[i]) * 0x100000001b3ull;
	return h;
}
static uint64_t hashbytes(const S &s)
{
	// 8 bytes at a time: tables are megabytes long
	uint64_t h = 0xcbf29ce484222325ull ^ s.size();
	size_t i = 0;
	for (; i + 8 <= s.size(); i += 8)
	{
		uint64_t w;
		memcpy(&w, s.data() + i, 8);
		h = (h ^ w) * 0x9E3779B97F4A7C15ull;
		h ^= h >> 29;
	}
	return fnv(h, s.data() + i, s.size() - i);
}

// ---------------------------------------------------------------- plan
enum Op { OP_OPEN, OP_WRITE, OP_CLOSE, OP_READ, OP_FSYNC, OP_RENAME, OP_UNLINK, OP_OTHER, OP_ALLOC, OP_N };
static const char *opname[] = {"open", "write", "close", "read", "fsync", "rename", "unlink", "other", "alloc"};
struct Fault {
	int op; long k; S act; long a; long n; // act: err(a=errno,n=count,-1 forever) short(a=bytes) eintr crash crashafter crashpart(a) crashoff(a=file offset, k=-1) closelose(a=errno, n=bytes)
};
struct GenPlan {
	S kind; int epoch; bool hasarg; S arg, arg0; uint64_t stackseed = 0, heapseed = 0, chunkseed = 0; long chunkmin = 0, chunkmax = 0; int closed = 0;
	std::vector<Fault> faults;
};
struct FilePlan { S path, how, ref; long n; uint64_t seed; int ro; };
struct Plan {
	S id, cwd = "/w"; std::vector<GenPlan> gens; std::vector<FilePlan> files; std::vector<S> dirs;
	std::map<std::pair<int, long>, int> switches; std::set<std::pair<int, long>> stops; std::vector<S> env; long clock = 1500000000, pid = 4711; long diskcap = -1; int dumpall = 0;
	uint64_t rnd = 1, envany = 0, layout = 0;
};

// ---------------------------------------------------------------- simulated world
struct Inode { S data; bool ro = false; long mtime = 0; };
typedef std::shared_ptr<Inode> IP;
struct Fd { IP ino; size_t off; int flags; S path; int gen; FILE *fp; bool dirty; size_t lastoff; };
enum State { NOTSTARTED, READY, EXITED, KILLED, SIGNALLED, HUNG, BLOCKED };
struct Gen {
	int id; GenPlan *p; State st = NOTSTARTED; int code = 0; long cnt[OP_N] = {0}; sem_t sem; pthread_t th; char *stack = 0;
	int (*mainf)(int, char **) = 0; void (*fini)() = 0; uint64_t chunk, heap; std::set<int> fds; long events = 0; S err, outbuf; int sfd[3] = {-2, -2, -2}; std::map<S, int> fired;
	std::map<long, Fault> sticky;
};
static std::map<S, IP> vfs;
static std::set<S> vdirs;
static std::map<int, Fd> fdtab;
static std::map<FILE *, int> fptab;
static std::vector<Gen *> G;
static Plan *PL;
static sem_t donesem;
static long evno = 0, nswitch = 0;
static uint64_t tracehash = 1469598103934665603ull, schedhash = 1469598103934665603ull;
static long diskused = 0, ticks = 0; // ticks: simulated ns beyond those of the events (sleeps, clock reads)
static const long DISKMAX = 256l << 20; // a generator that writes this much never ends
static std::vector<S> mutlog;
static int curepoch = 0;
static thread_local Gen *cur = nullptr;
static thread_local int insim = 0;
static const long EVCAP = 3000000;
struct Guard { Guard() { insim++; } ~Guard() { insim--; } };
#define INSIM() (cur && !insim)
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))

[[noreturn]] static void die(State st, int code);
static S normpath(const char *p)
{
	S full = p[0] == '/' ? S(p) : PL->cwd + "/" + p;
	std::vector<S> parts; std::stringstream ss(full); S x;
	while (std::getline(ss, x, '/'))
	{
		if (x.empty() || x == ".") continue;
		if (x == "..") { if (!parts.empty()) parts.pop_back(); continue; }
		parts.push_back(x);
	}
	S r;
	for (auto &q : parts) r += "/" + q;
	return r.empty() ? "/" : r;
}
static S dirnameof(const S &p) { size_t i = p.rfind('/'); return i == 0 ? "/" : p.substr(0, i); }
static void v_now(struct timespec *ts);
static void mutated(const char *op, const S &path)
{
	auto ft = vfs.find(path);
	if (ft != vfs.end()) { struct timespec ts; v_now(&ts); ft->second->mtime = ts.tv_sec; }
	S l = std::to_string(cur->id) + " " + op + " " + path;
	if (mutlog.empty() || mutlog.back() != l)
		if (mutlog.size() < 2000) mutlog.push_back(l);
}
static void trace(const char *op, long a, long b)
{
	long v[4] = {cur ? cur->id : -1, a, b, 0};
	tracehash = fnv(tracehash, op, strlen(op)); tracehash = fnv(tracehash, v, sizeof v);
}

static Gen *picknext()
{
	for (auto g : G) if (g->st == READY && g->p->epoch == curepoch) return g;
	for (;;)
	{
		bool later = false;
		for (auto g : G) if (g->p->epoch > curepoch) later = true;
		if (!later) return nullptr;
		curepoch++;
		Gen *first = nullptr;
		for (auto g : G) if (g->p->epoch == curepoch) { g->st = READY; if (!first) first = g; }
		if (first) return first;
	}
}
static void park() { Guard gd; for (;;) pause(); }
// the current process has ended: hand over and never come back
[[noreturn]] static void leave()
{
	Gen *n = picknext();
	cur = nullptr; insim++;
	sem_post(n ? &n->sem : &donesem);
	park();
	abort();
}
// advisory locks: flock and open-file-description locks belong to the descriptor, POSIX record locks to the process
struct Lk { Inode *ino; int gen, fd; bool ex; };
static std::vector<Lk> locks;
static void wake() { for (auto g : G) if (g->st == BLOCKED) g->st = READY; }
static void droplocks(int gen, int fd, Inode *ino)
{
	size_t n = locks.size();
	locks.erase(std::remove_if(locks.begin(), locks.end(), [&](const Lk &l) { return (fd >= 0 && l.fd == fd) || (l.fd < 0 && l.gen == gen && l.ino == ino); }), locks.end());
	if (locks.size() != n) wake();
}
static void closeall(Gen *g)
{
	locks.erase(std::remove_if(locks.begin(), locks.end(), [&](const Lk &l) { return l.gen == g->id; }), locks.end());
	wake();
	for (int fd : g->fds) { auto it = fdtab.find(fd); if (it != fdtab.end()) { if (it->second.fp) fptab.erase(it->second.fp); fdtab.erase(it); } }
	g->fds.clear();
}
[[noreturn]] static void die(State st, int code)
{
	insim++;
	cur->st = st; cur->code = code; trace("end", st, code); closeall(cur);
	leave();
}
static void fired(const Fault &f)
{
	std::ostringstream o; o << opname[f.op] << ":" << f.act << (f.act == "err" || f.act == "closelose" ? S("-") + strerrorname_np(f.a) : S()); cur->fired[o.str()]++;
}
// a scheduling and fault point. Returns the fault to apply at this call, if any.
static const Fault *point(Op op)
{
	static thread_local Fault store;
	Gen *g = cur;
	if (op != OP_ALLOC)
	{
		long e = g->events++; evno++;
		if (evno > EVCAP) die(HUNG, 0);
		auto it = PL->switches.find({g->id, e});
		if (it != PL->switches.end() && it->second < (int)G.size())
		{
			Gen *o = G[it->second];
			if (o != g && o->st == READY && o->p->epoch == curepoch)
			{
				nswitch++; trace("switch", e, o->id); long v[2] = {(long)g->id * 100000 + g->events, o->id}; schedhash = fnv(schedhash, v, sizeof v);
				sem_post(&o->sem);
				while (sem_wait(&g->sem) != 0) {}
			}
		}
		// stopped here, and killed without running again
		if (PL->stops.count({g->id, e})) { g->fired["stopped:killed"]++; die(KILLED, 9); }
	}
	long k = g->cnt[op]++;
	if (op == OP_ALLOC && k > EVCAP) die(HUNG, 0);
	auto st = g->sticky.find(op);
	if (st != g->sticky.end()) { fired(st->second); return &st->second; }
	for (auto &f : g->p->faults)
		if (f.op == op && (k == f.k || (f.act == "err" && f.n > 1 && k > f.k && k < f.k + f.n)))
		{
			store = f; trace("fault", op, k); fired(f);
			if (f.act == "crash") die(KILLED, 9);
			if (f.act == "err" && f.n < 0) g->sticky[op] = f;
			return &store;
		}
	return nullptr;
}

// ---------------------------------------------------------------- VFS primitives
// A descriptor has a number of its own (>= 1000). A process started with standard descriptors closed knows it by the
// lowest free one of those instead: sfd[i] is -2 for an untouched standard descriptor, -1 for a closed one.
static int newfd(Fd f) { static int n = 1000; int fd = n++; fdtab[fd] = f; cur->fds.insert(fd); for (int &i : cur->sfd) if (i == -1) { i = fd; break; } return fd; }
static int own(int fd) { return cur && fd >= 0 && fd < 3 && cur->sfd[fd] >= 0 ? cur->sfd[fd] : fd; } // number given by the program -> own number
static int shown(int fd) { if (cur) for (int i = 0; i < 3; i++) if (cur->sfd[i] == fd && fd >= 0) return i; return fd; }
static bool crashafter(const Fault *f) { return f && f->act == "crashafter"; }
static bool isdir(const S &p) { return p == "/" || p == "/w" || p == PL->cwd || vdirs.count(p) || p == "/tmp" || p == "/dev"; }

static int v_open(const char *path, int flags)
{
	Guard gd;
	const Fault *f = point(OP_OPEN);
	S p = normpath(path);
	trace("open", flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND | O_EXCL), fnv(1, p.data(), p.size()));
	if (f && f->act == "err") { errno = f->a; return -1; }
	if (f && f->act == "eintr") { errno = EINTR; return -1; }
	if (isdir(p)) { if ((flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; } errno = EISDIR; return -1; }
	bool wr = (flags & O_ACCMODE) != O_RDONLY;
	auto it = vfs.find(p);
	if (it == vfs.end())
	{
		if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
		if (!isdir(dirnameof(p))) { errno = ENOENT; return -1; }
		vfs[p] = std::make_shared<Inode>(); mutated("create", p);
	}
	else
	{
		if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
		if (wr && it->second->ro) { errno = EACCES; return -1; }
	}
	IP i = vfs[p];
	if (wr && (flags & O_TRUNC)) { mutated("truncate", p); diskused -= i->data.size(); i->data.clear(); }
	int fd = newfd(Fd{i, 0, flags, p, cur->id, nullptr, false, 0});
	if (crashafter(f)) die(KILLED, 9);
	return fd;
}
// one write(2) call
static ssize_t v_write(int fd, const char *buf, size_t n)
{
	Guard gd;
	Fd &d = fdtab[fd];
	const Fault *f = point(OP_WRITE);
	trace("write", fd, n);
	if ((d.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
	size_t m = n;
	bool crash = false;
	if (f)
	{
		if (f->act == "err") { errno = f->a; return -1; }
		if (f->act == "eintr") { errno = EINTR; return -1; }
		if (f->act == "short") m = std::min<size_t>(n, std::max<long>(1, f->a));
		if (f->act == "crashpart") { m = std::min<size_t>(n, f->a); crash = true; }
		if (f->act == "crashafter") crash = true;
	}
	else if (cur->p->chunkmax > 0 && n > 0)
	{
		uint64_t r = splitmix(cur->chunk);
		if (r % 11 == 0) { cur->fired["write:eintr"]++; errno = EINTR; return -1; }
		m = std::min<size_t>(n, cur->p->chunkmin + (r >> 8) % (cur->p->chunkmax - cur->p->chunkmin + 1));
		if (m < n) cur->fired["write:short"]++;
	}
	if (PL->diskcap >= 0)
	{
		size_t off0 = (d.flags & O_APPEND) ? d.ino->data.size() : d.off, grow = off0 + m > d.ino->data.size() ? off0 + m - d.ino->data.size() : 0;
		long room = PL->diskcap - diskused;
		if ((long)grow > room)
		{
			size_t cut = grow - std::max(0l, room);
			cur->fired["write:disk-full"]++;
			if (cut >= m) { errno = ENOSPC; return -1; }
			m -= cut;
		}
	}
	if (d.flags & O_APPEND) d.off = d.ino->data.size();
	// killed when the file has grown to a given size
	for (auto &q : cur->p->faults)
		if (q.act == "crashoff" && d.off <= (size_t)q.a && d.off + m > (size_t)q.a) { m = q.a - d.off; crash = true; trace("crashoff", q.a, 0); fired(q); break; }
	if (m)
	{
		S &s = d.ino->data;
		mutated("write", d.path);
		if (d.off + m > s.size()) { diskused += d.off + m - s.size(); if (diskused > DISKMAX) die(HUNG, 0); s.resize(d.off + m, '\0'); }
		memcpy(&s[d.off], buf, m);
		d.lastoff = d.off; d.off += m; d.dirty = true;
	}
	if (crash) die(KILLED, 9);
	return m;
}
static int v_close(int fd)
{
	Guard gd;
	const Fault *f = point(OP_CLOSE);
	trace("close", fd, 0);
	Fd d = fdtab[fd];
	fdtab.erase(fd); cur->fds.erase(fd); for (int &i : cur->sfd) if (i == fd) i = -1;
	droplocks(cur->id, fd, d.ino.get());
	if (d.fp) fptab.erase(d.fp);
	int r = 0;
	if (f && f->act == "closelose")
	{
		// delayed write-back failed: the last bytes never reach the file
		size_t lose = std::min<size_t>(d.dirty ? f->n : 0, d.ino->data.size());
		d.ino->data.resize(d.ino->data.size() - lose);
		errno = f->a; r = -1;
	}
	else if (f && f->act == "err") { errno = f->a; r = -1; }
	if (crashafter(f)) die(KILLED, 9);
	return r;
}
static ssize_t v_read(int fd, char *buf, size_t n)
{
	Guard gd;
	Fd &d = fdtab[fd];
	const Fault *f = point(OP_READ);
	if (f && f->act == "err") { errno = f->a; return -1; }
	if (f && f->act == "eintr") { errno = EINTR; return -1; }
	S &s = d.ino->data;
	size_t m = d.off >= s.size() ? 0 : std::min(n, s.size() - d.off);
	if (f && f->act == "short") m = std::min<size_t>(m, std::max<long>(1, f->a));
	memcpy(buf, s.data() + d.off, m); d.off += m;
	trace("read", fd, m);
	return m;
}
static off_t v_lseek(int fd, off_t o, int wh)
{
	Guard gd; Fd &d = fdtab[fd];
	long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)d.off : (long)d.ino->data.size();
	if (b + o < 0) { errno = EINVAL; return -1; }
	d.off = b + o; trace("lseek", fd, d.off); return d.off;
}
static bool vfd(int fd) { return cur && fd >= 1000 && fdtab.count(fd); }

static int modeflags(const char *m)
{
	int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
	if (strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
	if (strchr(m, 'x')) fl |= O_EXCL;
	return fl;
}
static ssize_t ck_read(void *c, char *b, size_t n) { int s = insim; insim = 0; ssize_t r = v_read((int)(long)c, b, n); insim = s; return r; }
static ssize_t ck_write(void *c, const char *b, size_t n)
{
	int s = insim; insim = 0; size_t done = 0;
	while (done < n) { ssize_t r = v_write((int)(long)c, b + done, n - done); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; done += r; }
	insim = s; return done;
}
static int ck_seek(void *c, off64_t *o, int wh) { off_t r = v_lseek((int)(long)c, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { int s = insim; insim = 0; int r = v_close((int)(long)c); insim = s; return r; }
static FILE *wrapfd(int fd, const char *mode)
{
	Guard gd;
	cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
	S m; for (const char *c = mode; *c; c++) if (*c == 'r' || *c == 'w' || *c == 'a' || *c == '+') m += *c;
	FILE *fp = fopencookie((void *)(long)fd, m.c_str(), io);
	fdtab[fd].fp = fp; fptab[fp] = fd;
	return fp;
}

// ---------------------------------------------------------------- process exit
static void procexit(int code, bool finalizers)
{
	Gen *g = cur;
	if (finalizers)
	{
		if (g->fini) g->fini();
		std::vector<FILE *> open;
		for (int fd : g->fds) if (fdtab[fd].fp) open.push_back(fdtab[fd].fp);
		for (auto fp : open) REAL(fflush)(fp);
		if (!g->outbuf.empty()) { int s = insim; insim = 0; S b; b.swap(g->outbuf); write(1, b.data(), b.size()); insim = s; }
	}
	die(EXITED, code & 0xff);
}

#define EXPORT extern "C" __attribute__((visibility("default")))
EXPORT FILE *fopen(const char *p, const char *m)
{
	static auto r = REAL(fopen);
	if (!INSIM()) return r(p, m);
	int fd = v_open(p, modeflags(m));
	return fd < 0 ? nullptr : wrapfd(fd, m);
}
// ---- the standard streams of the simulated process: stderr writes at once, stdout is buffered as in front of a file
static ssize_t stdput(int i, const char *b, size_t n)
{
	size_t done = 0;
	while (done < n)
	{
		ssize_t r = write(i, b + done, n - done);
		if (r < 0 && errno == EINTR) continue;
		if (r <= 0) return -1;
		done += r;
	}
	return n;
}
static bool outflush()
{
	S b; { Guard gd; b.swap(cur->outbuf); }
	return b.empty() || stdput(1, b.data(), b.size()) >= 0;
}
static ssize_t output(int i, const char *b, size_t n)
{
	if (i == 2) return stdput(2, b, n);
	{ Guard gd; cur->outbuf.append(b, n); }
	if (cur->outbuf.size() >= 4096 && !outflush()) return -1;
	return n;
}
static ssize_t std_ck(void *c, const char *b, size_t n)
{
	if (!cur) return n;
	int s = insim; insim = 0; ssize_t r = output((int)(long)c, b, n); insim = s;
	return r < 0 ? 0 : r;
}
struct StdBuf : std::streambuf {
	int i; StdBuf(int n) : i(n) {}
	std::streamsize xsputn(const char *b, std::streamsize n) override { if (cur) std_ck((void *)(long)i, b, n); return n; }
	int overflow(int c) override { char k = c; if (c != EOF) xsputn(&k, 1); return c == EOF ? 0 : c; }
	int sync() override { if (cur && i == 1) { int s = insim; insim = 0; outflush(); insim = s; } return 0; }
};
static void stdstreams()
{
	cookie_io_functions_t io = {nullptr, std_ck, nullptr, nullptr};
	stdout = fopencookie((void *)1, "w", io); setvbuf(stdout, nullptr, _IONBF, 0);
	stderr = fopencookie((void *)2, "w", io); setvbuf(stderr, nullptr, _IONBF, 0);
	std::cout.rdbuf(new StdBuf(1)); std::cerr.rdbuf(new StdBuf(2)); std::clog.rdbuf(new StdBuf(2));
}
EXPORT int fflush(FILE *f) { static auto r = REAL(fflush); if (INSIM() && (!f || f == stdout) && !outflush()) return EOF; return r(f); }
EXPORT FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
static bool outflush();
EXPORT FILE *freopen(const char *p, const char *m, FILE *f)
{
	static auto r = REAL(freopen);
	if (!INSIM()) return r(p, m, f);
	if (f != stdout && f != stderr) return fopen(p, m);
	int i = f == stdout ? 1 : 2;
	if (i == 1) outflush();
	if (cur->sfd[i] >= 0) v_close(cur->sfd[i]);
	int fd = v_open(p, modeflags(m));
	if (fd < 0) return nullptr;
	for (int &k : cur->sfd) if (k == fd) k = -1;
	cur->sfd[i] = fd;
	return f;
}
EXPORT FILE *fdopen(int fd, const char *m) { static auto r = REAL(fdopen); fd = own(fd); if (!cur || !vfd(fd)) return r(fd, m); return wrapfd(fd, m); }
EXPORT int fileno(FILE *f)
{
	static auto r = REAL(fileno);
	if (cur) { Guard gd; auto it = fptab.find(f); if (it != fptab.end()) return shown(it->second); if (f == stdin || f == stdout || f == stderr) return f == stdin ? 0 : f == stdout ? 1 : 2; }
	return r(f);
}
EXPORT int open(const char *p, int fl, ...)
{
	va_list ap; va_start(ap, fl); mode_t md = va_arg(ap, mode_t); va_end(ap);
	if (!INSIM()) return syscall(SYS_openat, AT_FDCWD, p, fl, md);
	return shown(v_open(p, fl));
}
EXPORT int open64(const char *p, int fl, ...)
{
	va_list ap; va_start(ap, fl); mode_t md = va_arg(ap, mode_t); va_end(ap);
	if (!INSIM()) return syscall(SYS_openat, AT_FDCWD, p, fl, md);
	return shown(v_open(p, fl));
}
EXPORT int openat(int d, const char *p, int fl, ...)
{
	va_list ap; va_start(ap, fl); mode_t md = va_arg(ap, mode_t); va_end(ap);
	if (!INSIM()) return syscall(SYS_openat, d, p, fl, md);
	return shown(v_open(p, fl));
}
EXPORT int creat(const char *p, mode_t m) { if (!INSIM()) return syscall(SYS_creat, p, m); return shown(v_open(p, O_WRONLY | O_CREAT | O_TRUNC)); }
static ssize_t stdwrite(int fd, const char *b, size_t n) { if (cur->sfd[fd] == -1) { errno = EBADF; return -1; } Guard gd; if (cur->err.size() < 4000) cur->err.append(b, n); return n; }
EXPORT ssize_t write(int fd, const void *b, size_t n)
{
	if (!INSIM()) return syscall(SYS_write, fd, b, n);
	fd = own(fd);
	if (fd == 1 || fd == 2) return stdwrite(fd, (const char *)b, n);
	if (!vfd(fd)) { errno = EBADF; return -1; }
	return v_write(fd, (const char *)b, n);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c)
{
	if (!INSIM()) return syscall(SYS_writev, fd, v, c);
	fd = own(fd);
	S all; { Guard gd; for (int i = 0; i < c; i++) all.append((const char *)v[i].iov_base, v[i].iov_len); }
	if (fd == 1 || fd == 2) return stdwrite(fd, all.data(), all.size());
	if (!vfd(fd)) { errno = EBADF; return -1; }
	return v_write(fd, all.data(), all.size());
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
	if (!INSIM()) return syscall(SYS_pwrite64, fd, b, n, o);
	fd = own(fd);
	if (!vfd(fd)) { errno = EBADF; return -1; }
	size_t save = fdtab[fd].off; fdtab[fd].off = o; ssize_t r = v_write(fd, (const char *)b, n); fdtab[fd].off = save; return r;
}
EXPORT ssize_t read(int fd, void *b, size_t n)
{
	if (!INSIM()) return syscall(SYS_read, fd, b, n);
	fd = own(fd);
	if (fd == 0) { if (cur->sfd[0] == -1) { errno = EBADF; return -1; } return 0; }
	if (!vfd(fd)) { errno = EBADF; return -1; }
	return v_read(fd, (char *)b, n);
}
EXPORT int close(int fd) { if (!INSIM()) return syscall(SYS_close, fd); fd = own(fd); if (fd >= 0 && fd < 3) { if (cur->sfd[fd] == -1) { errno = EBADF; return -1; } cur->sfd[fd] = -1; return 0; } if (!vfd(fd)) return syscall(SYS_close, fd); return v_close(fd); }
EXPORT off_t lseek(int fd, off_t o, int w) { fd = own(fd); if (!INSIM() || !vfd(fd)) return syscall(SYS_lseek, fd, o, w); return v_lseek(fd, o, w); }
EXPORT off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
static int v_sync(int fd)
{
	Guard gd; const Fault *f = point(OP_FSYNC);
	if (f && (f->act == "err")) { errno = f->a; return -1; }
	return 0;
}
EXPORT int fsync(int fd) { if (!INSIM()) return syscall(SYS_fsync, fd); return v_sync(own(fd)); }
EXPORT int fdatasync(int fd) { if (!INSIM()) return syscall(SYS_fdatasync, fd); return v_sync(own(fd)); }
static int v_ftruncate(int fd, off_t n)
{
	Guard gd; const Fault *f = point(OP_OTHER);
	if (f && f->act == "err") { errno = f->a; return -1; }
	Fd &d = fdtab[fd]; mutated("truncate", d.path); d.ino->data.resize(n, '\0'); return 0;
}
EXPORT int ftruncate(int fd, off_t n) { if (!INSIM()) return syscall(SYS_ftruncate, fd, n); fd = own(fd); if (!vfd(fd)) { errno = EBADF; return -1; } return v_ftruncate(fd, n); }
EXPORT int truncate(const char *p, off_t n)
{
	if (!INSIM()) return syscall(SYS_truncate, p, n);
	Guard gd; auto it = vfs.find(normpath(p)); if (it == vfs.end()) { errno = ENOENT; return -1; }
	mutated("truncate", it->first); it->second->data.resize(n, '\0'); return 0;
}
EXPORT int rename(const char *a, const char *b)
{
	if (!INSIM()) return syscall(SYS_rename, a, b);
	Guard gd; const Fault *f = point(OP_RENAME); S x = normpath(a), y = normpath(b);
	trace("rename", fnv(1, x.data(), x.size()), fnv(1, y.data(), y.size()));
	if (f && f->act == "err") { errno = f->a; return -1; }
	auto it = vfs.find(x); if (it == vfs.end()) { errno = ENOENT; return -1; }
	if (isdir(y)) { errno = EISDIR; return -1; }
	mutated("rename-from", x); mutated("rename-to", y);
	IP i = it->second; vfs.erase(it); vfs[y] = i;
	if (crashafter(f)) die(KILLED, 9);
	return 0;
}
static int v_unlink(const char *p)
{
	Guard gd; const Fault *f = point(OP_UNLINK); S x = normpath(p); trace("unlink", fnv(1, x.data(), x.size()), 0);
	if (f && f->act == "err") { errno = f->a; return -1; }
	auto it = vfs.find(x); if (it == vfs.end()) { errno = ENOENT; return -1; }
	mutated("unlink", x); vfs.erase(it);
	if (crashafter(f)) die(KILLED, 9);
	return 0;
}
EXPORT int unlink(const char *p) { if (!INSIM()) return syscall(SYS_unlink, p); return v_unlink(p); }
EXPORT int remove(const char *p) { if (!INSIM()) { static auto r = REAL(remove); return r(p); } return v_unlink(p); }
EXPORT int mkdir(const char *p, mode_t m) { if (!INSIM()) return syscall(SYS_mkdir, p, m); Guard gd; S x = normpath(p); if (isdir(x)) { errno = EEXIST; return -1; } mutated("mkdir", x); vdirs.insert(x); return 0; }
EXPORT int chmod(const char *p, mode_t m) { if (!INSIM()) return syscall(SYS_chmod, p, m); return 0; }
EXPORT int link(const char *a, const char *b) { if (!INSIM()) return syscall(SYS_link, a, b); Guard gd; point(OP_OTHER); S x = normpath(a), y = normpath(b); if (!vfs.count(x)) { errno = ENOENT; return -1; } if (vfs.count(y)) { errno = EEXIST; return -1; } mutated("link", y); vfs[y] = vfs[x]; return 0; }
EXPORT int symlink(const char *a, const char *b) { if (!INSIM()) return syscall(SYS_symlink, a, b); return link(a, b); }
static int v_stat(const S &x, struct stat *st)
{
	memset(st, 0, sizeof *st);
	auto it = vfs.find(x);
	if (it != vfs.end()) { st->st_mode = S_IFREG | (it->second->ro ? 0444 : 0644); st->st_size = it->second->data.size(); st->st_blksize = 4096; st->st_nlink = 1; st->st_mtime = it->second->mtime; return 0; }
	if (isdir(x)) { st->st_mode = S_IFDIR | 0755; return 0; }
	errno = ENOENT; return -1;
}
EXPORT int stat(const char *p, struct stat *st) { if (!INSIM()) { static auto r = REAL(stat); return r(p, st); } Guard gd; return v_stat(normpath(p), st); }
EXPORT int lstat(const char *p, struct stat *st) { if (!INSIM()) { static auto r = REAL(lstat); return r(p, st); } Guard gd; return v_stat(normpath(p), st); }
EXPORT int stat64(const char *p, struct stat64 *st) { if (!INSIM()) { static auto r = REAL(stat64); return r(p, st); } Guard gd; return v_stat(normpath(p), (struct stat *)st); }
EXPORT int fstat(int fd, struct stat *st) { fd = own(fd); if (!INSIM() || !vfd(fd)) { static auto r = REAL(fstat); return r(fd, st); } Guard gd; memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = fdtab[fd].ino->data.size(); st->st_blksize = 4096; return 0; }
EXPORT int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
EXPORT int access(const char *p, int m) { if (!INSIM()) return syscall(SYS_access, p, m); Guard gd; struct stat st; if (v_stat(normpath(p), &st)) return -1; auto it = vfs.find(normpath(p)); if ((m & W_OK) && it != vfs.end() && it->second->ro) { errno = EACCES; return -1; } return 0; }
EXPORT int ioctl(int fd, unsigned long rq, ...)
{
	va_list ap; va_start(ap, rq); void *a = va_arg(ap, void *); va_end(ap);
	fd = own(fd);
	if (!INSIM() || !vfd(fd)) return syscall(SYS_ioctl, fd, rq, a);
	if (rq == FIONREAD) { Fd &d = fdtab[fd]; *(int *)a = d.off < d.ino->data.size() ? d.ino->data.size() - d.off : 0; return 0; }
	errno = ENOTTY; return -1;
}
// m: 0 unlock, 1 shared, 2 exclusive (whole file)
static int v_lock(int fd, int ofd, int m, bool nb, int busy)
{
	Guard gd; Inode *i = fdtab[fd].ino.get(); Gen *g = cur;
	point(OP_OTHER); trace("lock", m, nb);
	auto own = [&](const Lk &l) { return l.ino == i && (ofd >= 0 ? l.fd == ofd : l.fd < 0 && l.gen == g->id); };
	size_t n = locks.size();
	locks.erase(std::remove_if(locks.begin(), locks.end(), own), locks.end());
	if (locks.size() != n) wake();
	while (m)
	{
		bool conflict = false;
		for (auto &l : locks) if (l.ino == i && (l.fd < 0) == (ofd < 0) && (l.ex || m == 2)) conflict = true;
		if (!conflict) { locks.push_back(Lk{i, g->id, ofd, m == 2}); break; }
		g->fired["lock:contended"]++;
		if (nb) { errno = busy; return -1; }
		// wait: some other process of this epoch runs
		Gen *o = nullptr;
		for (auto q : G) if (q != g && q->st == READY && q->p->epoch == curepoch) { o = q; break; }
		if (!o) die(HUNG, 0);
		g->st = BLOCKED; trace("blocked", g->id, o->id); nswitch++; long v[2] = {(long)g->id * 100000 + g->events, o->id}; schedhash = fnv(schedhash, v, sizeof v);
		sem_post(&o->sem);
		while (sem_wait(&g->sem) != 0) {}
		g->st = READY;
	}
	return 0;
}
EXPORT int fcntl(int fd, int c, ...)
{
	va_list ap; va_start(ap, c); void *a = va_arg(ap, void *); va_end(ap);
	fd = own(fd);
	if (!INSIM() || !vfd(fd)) return syscall(SYS_fcntl, fd, c, a);
	if (c == F_SETLK || c == F_SETLKW || c == F_OFD_SETLK || c == F_OFD_SETLKW)
	{
		struct flock *l = (struct flock *)a; bool ofd = c == F_OFD_SETLK || c == F_OFD_SETLKW, wait = c == F_SETLKW || c == F_OFD_SETLKW;
		return v_lock(fd, ofd ? fd : -1, l->l_type == F_UNLCK ? 0 : l->l_type == F_WRLCK ? 2 : 1, !wait, EAGAIN);
	}
	if (c == F_GETLK || c == F_OFD_GETLK) { struct flock *l = (struct flock *)a; bool t = false; for (auto &x : locks) if (x.ino == fdtab[fd].ino.get() && x.gen != cur->id) t = true; if (!t) l->l_type = F_UNLCK; return 0; }
	return c == F_GETFL ? fdtab[fd].flags : 0;
}
EXPORT int fcntl64(int fd, int c, ...) { va_list ap; va_start(ap, c); void *a = va_arg(ap, void *); va_end(ap); return fcntl(fd, c, a); }
EXPORT int flock(int fd, int op) { fd = own(fd); if (!INSIM() || !vfd(fd)) return syscall(SYS_flock, fd, op); return v_lock(fd, fd, (op & LOCK_UN) ? 0 : (op & LOCK_EX) ? 2 : 1, op & LOCK_NB, EWOULDBLOCK); }
EXPORT int lockf(int fd, int c, off_t)
{
	fd = own(fd);
	if (!INSIM() || !vfd(fd)) { static auto r = REAL(lockf); return r(fd, c, 0); }
	if (c == F_TEST) { for (auto &x : locks) if (x.ino == fdtab[fd].ino.get() && x.gen != cur->id) { errno = EACCES; return -1; } return 0; }
	return v_lock(fd, -1, c == F_ULOCK ? 0 : 2, c == F_TLOCK, EAGAIN);
}
static int v_mkstemp(char *t, int suf)
{
	static const char al[] = "abcdefghijklmnopqrstuvwxyz0123456789";
	Guard gd; char *x = t + strlen(t) - suf - 6;
	for (int i = 0; i < 6; i++) x[i] = al[splitmix(PL->rnd) % 36];
	insim--; int r = v_open(t, O_RDWR | O_CREAT | O_EXCL); insim++; return r;
}
EXPORT int mkstemp(char *t) { if (!INSIM()) { static auto r = REAL(mkstemp); return r(t); } return v_mkstemp(t, 0); }
EXPORT char *getcwd(char *b, size_t n) { if (!INSIM()) { static auto r = REAL(getcwd); return r(b, n); } if (!b) b = (char *)malloc(n ? n : 4096); strcpy(b, PL->cwd.c_str()); return b; }
static void v_now(struct timespec *ts) { ticks += 10000; long ns = evno * 1000003l + ticks; ts->tv_sec = PL->clock + ns / 1000000000l; ts->tv_nsec = ns % 1000000000l; }
EXPORT time_t time(time_t *t) { if (!INSIM()) { static auto r = REAL(time); return r(t); } struct timespec ts; v_now(&ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) { if (!INSIM()) return syscall(SYS_clock_gettime, c, ts); v_now(ts); return 0; }
EXPORT int gettimeofday(struct timeval *tv, void *) { if (!INSIM()) return syscall(SYS_gettimeofday, tv, 0); struct timespec ts; v_now(&ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
EXPORT clock_t clock() { if (!INSIM()) { static auto r = REAL(clock); return r(); } ticks += 10000; return (PL->clock % 1000) * 1000 + evno + ticks / 1000000; }
// a sleeping or yielding process lets the next ready one run
static void v_sleep(long ns)
{
	Guard gd;
	point(OP_OTHER);
	ticks += std::max(0l, ns);
	Gen *g = cur;
	for (size_t i = 1; i < G.size(); i++)
	{
		Gen *o = G[(g->id + i) % G.size()];
		if (o == g || o->st != READY || o->p->epoch != curepoch) continue;
		nswitch++; trace("slept", g->id, o->id); long v[2] = {(long)g->id * 100000 + g->events, o->id}; schedhash = fnv(schedhash, v, sizeof v);
		sem_post(&o->sem);
		while (sem_wait(&g->sem) != 0) {}
		break;
	}
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *b) { if (!INSIM()) return syscall(SYS_nanosleep, a, b); v_sleep(a->tv_sec * 1000000000l + a->tv_nsec); return 0; }
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b)
{
	if (!INSIM()) { long r = syscall(SYS_clock_nanosleep, c, fl, a, b); return r < 0 ? errno : 0; }
	long ns = a->tv_sec * 1000000000l + a->tv_nsec;
	if (fl & TIMER_ABSTIME) { struct timespec ts; v_now(&ts); ns -= ts.tv_sec * 1000000000l + ts.tv_nsec; }
	v_sleep(ns);
	return 0;
}
EXPORT int usleep(useconds_t u) { if (!INSIM()) { static auto r = REAL(usleep); return r(u); } v_sleep(u * 1000l); return 0; }
EXPORT unsigned sleep(unsigned n) { if (!INSIM()) { static auto r = REAL(sleep); return r(n); } v_sleep(n * 1000000000l); return 0; }
EXPORT int sched_yield() { if (!INSIM()) return syscall(SYS_sched_yield); v_sleep(0); return 0; }
EXPORT pid_t getpid() { if (!INSIM()) return syscall(SYS_getpid); return PL->pid + cur->id; }
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) { if (!INSIM()) return syscall(SYS_getrandom, b, n, f); for (size_t i = 0; i < n; i++) ((char *)b)[i] = splitmix(PL->rnd); return n; }
EXPORT int getentropy(void *b, size_t n) { if (!INSIM()) return syscall(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1; for (size_t i = 0; i < n; i++) ((char *)b)[i] = splitmix(PL->rnd); return 0; }
// a seeded value for any variable the generator asks for
EXPORT char *getenv(const char *n)
{
	size_t l = strlen(n);
	if (INSIM() && PL->envany)
	{
		Guard gd;
		static char *const vals[] = {(char *)"1", (char *)"0", (char *)"", (char *)"yes", (char *)"/tmp", (char *)"17", (char *)"1700000000", (char *)"C.UTF-8", (char *)"-1", (char *)"x y"};
		uint64_t x = PL->envany ^ fnv(7, n, l); x = splitmix(x);
		cur->fired["env:asked"]++;
		if (x % 3) return vals[(x >> 8) % (sizeof vals / sizeof *vals)];
		if (x & 64) return nullptr;
	}
	for (char **e = environ; e && *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
	return nullptr;
}
EXPORT char *secure_getenv(const char *n) { return getenv(n); }
EXPORT char *realpath(const char *p, char *b)
{
	if (!INSIM()) { static auto r = REAL(realpath); return r(p, b); }
	Guard gd; S x = normpath(p); struct stat st; if (!vfs.count(x) && !isdir(x)) { errno = ENOENT; return nullptr; }
	(void)st; if (!b) b = (char *)__libc_malloc(4096); strcpy(b, x.c_str()); return b;
}
EXPORT ssize_t readlink(const char *p, char *b, size_t n) { if (!INSIM()) return syscall(SYS_readlink, p, b, n); errno = EINVAL; return -1; }
EXPORT uid_t getuid() { if (!INSIM()) return syscall(SYS_getuid); return 1000 + PL->pid % 7; }
EXPORT pid_t getppid() { if (!INSIM()) return syscall(SYS_getppid); return PL->pid - 1; }
EXPORT int renameat(int, const char *a, int, const char *b) { return rename(a, b); }
EXPORT int unlinkat(int d, const char *p, int f) { if (!INSIM()) return syscall(SYS_unlinkat, d, p, f); return v_unlink(p); }
EXPORT int posix_fallocate(int fd, off_t o, off_t n)
{
	fd = own(fd);
	if (!INSIM() || !vfd(fd)) return EBADF;
	Guard gd; Fd &d = fdtab[fd]; if ((size_t)(o + n) > d.ino->data.size()) { mutated("truncate", d.path); diskused += o + n - d.ino->data.size(); d.ino->data.resize(o + n, '\0'); } return 0;
}
EXPORT int fallocate(int fd, int, off_t o, off_t n) { int e = posix_fallocate(fd, o, n); if (e) { errno = e; return -1; } return 0; }
EXPORT int gethostname(char *b, size_t n) { snprintf(b, n, "host%ld", PL ? PL->pid : 0); return 0; }
EXPORT void *malloc(size_t n)
{
	void *p;
	if (cur && !insim)
	{
		Guard gd;
		const Fault *f = point(OP_ALLOC);
		if (f) { errno = ENOMEM; return nullptr; }
		p = __libc_malloc(n);
		if (p && cur->p->heapseed) { uint64_t h = cur->heap; uint64_t z = splitmix(h); cur->heap = h; memset(p, (int)z, n); }
		return p;
	}
	return __libc_malloc(n);
}
EXPORT void exit(int c) { if (!INSIM()) { static auto r = REAL(exit); r(c); } procexit(c, true); __builtin_unreachable(); }
EXPORT void _exit(int c) { if (INSIM()) { Guard gd; die(EXITED, c & 0xff); } syscall(SYS_exit_group, c); __builtin_unreachable(); }
EXPORT void _Exit(int c) { _exit(c); }
EXPORT void quick_exit(int c) { _exit(c); }
EXPORT void abort() { if (cur) { Guard gd; die(SIGNALLED, SIGABRT); } signal(SIGABRT, SIG_DFL); syscall(SYS_kill, (int)syscall(SYS_getpid), SIGABRT); for (;;) {} }
EXPORT void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void)f; (void)l; (void)fn; if (cur) cur->err += S("assert ") + e; abort(); }
struct ThrWrap { void *(*f)(void *); void *a; Gen *g; sem_t s; };
static void *thrwrap(void *v) { ThrWrap *w = (ThrWrap *)v; cur = w->g; void *r = w->f(w->a); cur = nullptr; sem_post(&w->s); return r; }
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a)
{
	static auto r = REAL(pthread_create);
	if (!INSIM()) return r(t, at, f, a);
	// helper threads of a generator are serialised: each runs to completion when created
	Guard gd; ThrWrap *w = new ThrWrap{f, a, cur, {}}; sem_init(&w->s, 0, 0);
	int e = r(t, at, thrwrap, w); if (!e) sem_wait(&w->s); return e;
}

// ---------------------------------------------------------------- running one plan
static std::map<S, S> gold; // kind -> bytes
struct So { int (*m)(int, char **); void (*fini)(); };
static std::map<S, std::vector<So>> sos;

static void segv(int sig, siginfo_t *, void *) { if (cur) { Guard gd; die(SIGNALLED, sig); } signal(sig, SIG_DFL); raise(sig); }

static void *genmain(void *v)
{
	Gen *g = (Gen *)v;
	stack_t ss = {}; ss.ss_sp = __libc_malloc(65536); ss.ss_size = 65536; sigaltstack(&ss, 0);
	while (sem_wait(&g->sem) != 0) {}
	if (PL->layout) for (uint64_t i = 0, z = PL->layout; i < 5; i++) { void *q = __libc_malloc(16 + splitmix(z) % 3000); (void)q; }
	cur = g;
	std::vector<char *> argv;
	argv.push_back((char *)g->p->arg0.c_str());
	if (g->p->hasarg) argv.push_back((char *)g->p->arg.c_str());
	int argc = argv.size(); argv.push_back(nullptr);
	int rc;
	try { rc = g->mainf(argc, argv.data()); }
	catch (...) { Guard gd; die(SIGNALLED, SIGABRT); }
	procexit(rc, true);
	return nullptr;
}
static S jstr(const S &s)
{
	S r = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
	return r + "\"";
}
// 0: braces unbalanced (no C++ compiler accepts it); 1: balanced; 2: has conditional directives
static int braces(const S &s)
{
	long d = 0; bool cond = false;
	for (size_t i = 0; i < s.size(); i++)
	{
		char c = s[i];
		if (c == '/' && i + 1 < s.size() && s[i + 1] == '/') { while (i < s.size() && s[i] != '\n') i++; }
		else if (c == '/' && i + 1 < s.size() && s[i + 1] == '*') { size_t e = s.find("*/", i + 2); if (e == S::npos) return 0; i = e + 1; }
		else if (c == '"' || c == '\'') { size_t j = i + 1; while (j < s.size() && s[j] != c && s[j] != '\n') { if (s[j] == '\\') j++; j++; } i = j; }
		else if (c == '{') d++;
		else if (c == '}') { if (--d < 0) return cond ? 2 : 0; }
		else if (c == '#') { size_t j = i + 1; while (j < s.size() && s[j] == ' ') j++; if (s.compare(j, 2, "if") == 0 || s.compare(j, 6, "define") == 0) cond = true; }
	}
	return cond ? 2 : d == 0;
}
static std::map<S, S> initial;
static S makefile(const FilePlan &f)
{
	S g = f.ref.empty() ? S() : gold[f.ref];
	uint64_t x = f.seed;
	if (f.how == "empty") return S();
	if (f.how == "golden") return g;
	if (f.how == "prefix") return g.substr(0, std::min<size_t>(f.n, g.size()));
	if (f.how == "longer") { S r = g; r += "\n// "; for (long i = 0; i < f.n; i++) r += (char)(33 + splitmix(x) % 90); r += "\n"; return r; }
	if (f.how == "oldtail") { S r = g; for (long i = 0; i < f.n; i++) r += (char)(33 + splitmix(x) % 90); return r; }
	if (f.how == "altered") { S r = g; size_t p = r.find("1,"); for (long i = 0; i < f.n && p != S::npos; i++) { r[p] = '7'; p = r.find("1,", p + 1); } return r; }
	if (f.how == "hole") { S r = g; for (size_t i = g.size() / 3; i < g.size() / 2; i++) r[i] = 0; return r; }
	S r; for (long i = 0; i < f.n; i++) r += (char)splitmix(x); return r; // garbage
}
static void runchild(Plan *pl, int outfd, const S &dumpdir)
{
	PL = pl;
	int nul = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
	syscall(SYS_dup2, nul, 2); syscall(SYS_dup2, nul, 1); syscall(SYS_dup2, nul, 0);
	for (auto &e : pl->env) putenv(strdup(e.c_str()));
	for (auto &d : pl->dirs) vdirs.insert(d);
	for (auto &f : pl->files) { auto i = std::make_shared<Inode>(); i->data = makefile(f); i->ro = f.ro; vfs[f.path] = i; initial[f.path] = i->data; diskused += i->data.size(); }
	struct sigaction sa = {}; sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, 0);
	sem_init(&donesem, 0, 0);
	stdstreams();
	std::map<S, int> copies;
	for (auto &gp : pl->gens)
	{
		Gen *g = new Gen; g->id = G.size(); g->p = &gp; sem_init(&g->sem, 0, 0); g->chunk = gp.chunkseed; g->heap = gp.heapseed; for (int i = 0; i < 3; i++) if (gp.closed >> i & 1) g->sfd[i] = -1;
		auto &v = sos[gp.kind]; So &so = v[(copies[gp.kind]++ + pl->layout) % v.size()]; // copies of the generator loaded at different addresses
		g->mainf = so.m; g->fini = so.fini;
		G.push_back(g);
	}
	const size_t SS = 8u << 20;
	// another address layout: stacks and heaps move
	if (pl->layout) mmap(0, 4096 * (1 + pl->layout % 3000), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	for (auto g : G)
	{
		// a fresh stack filled with garbage for each simulated process
		char *st = (char *)mmap(0, SS + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		mprotect(st, 4096, PROT_NONE);
		uint64_t x = g->p->stackseed; uint64_t *q = (uint64_t *)(st + SS + 4096);
		if (x) for (size_t i = 0; i < (1u << 20) / 8; i++) *--q = splitmix(x);
		pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, st + 4096, SS);
		REAL(pthread_create)(&g->th, &at, genmain, g);
	}
	curepoch = -1;
	Gen *first = picknext();
	if (first) { sem_post(&first->sem); while (sem_wait(&donesem) != 0) {} }
	std::ostringstream o;
	static const char *sn[] = {"notstarted", "ready", "exit", "killed", "signal", "hung", "blocked"};
	o << "{\"id\":" << jstr(pl->id) << ",\"events\":" << evno << ",\"switches\":" << nswitch << ",\"trace\":\"" << std::hex << tracehash << "\",\"sched\":\"" << schedhash << std::dec << "\",\"gens\":[";
	for (auto g : G)
	{
		o << (g->id ? "," : "") << "{\"kind\":" << jstr(g->p->kind) << ",\"st\":\"" << sn[g->st] << "\",\"code\":" << g->code << ",\"cnt\":{";
		for (int i = 0; i < OP_N; i++) o << (i ? "," : "") << "\"" << opname[i] << "\":" << g->cnt[i];
		o << "},\"fired\":{";
		auto &fc = g->fired;
		bool fst = true; for (auto &f : fc) { o << (fst ? "" : ",") << jstr(f.first) << ":" << f.second; fst = false; }
		o << "},\"err\":" << jstr(g->err) << "}";
	}
	o << "],\"files\":{";
	bool fst = true;
	for (auto &kv : vfs)
	{
		const S &d = kv.second->data; uint64_t h = hashbytes(d);
		o << (fst ? "" : ",") << jstr(kv.first) << ":{\"len\":" << d.size() << ",\"hash\":\"" << std::hex << h << std::dec << "\""; fst = false;
		for (auto &g : gold) if (g.second == d) o << ",\"gold\":" << jstr(g.first);
		auto it = initial.find(kv.first);
		o << ",\"init\":" << (it != initial.end() && it->second == d ? "true" : "false");
		int b = braces(d); o << ",\"braces\":" << b << "}";
		bool isg = false; for (auto &g : gold) if (g.second == d) isg = true;
		if (pl->dumpall || (!isg && b && !(it != initial.end() && it->second == d)))
		{
			std::ostringstream fn; fn << dumpdir << "/" << std::hex << h;
			S tmp = fn.str() + ".tmp" + std::to_string(syscall(SYS_getpid));
			int fd = syscall(SYS_openat, AT_FDCWD, tmp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
			if (fd >= 0) { size_t off = 0; while (off < d.size()) { long r = syscall(SYS_write, fd, d.data() + off, d.size() - off); if (r <= 0) break; off += r; } syscall(SYS_close, fd); syscall(SYS_rename, tmp.c_str(), fn.str().c_str()); }
		}
	}
	o << "},\"gone\":[";
	fst = true; for (auto &kv : initial) if (!vfs.count(kv.first)) { o << (fst ? "" : ",") << jstr(kv.first); fst = false; }
	o << "],\"mut\":[";
	for (size_t i = 0; i < mutlog.size(); i++) o << (i ? "," : "") << jstr(mutlog[i]);
	o << "]}\n";
	S r = o.str(); size_t off = 0;
	while (off < r.size()) { long k = syscall(SYS_write, outfd, r.data() + off, r.size() - off); if (k <= 0) break; off += k; }
	syscall(SYS_exit_group, 0);
}

static bool parseplan(FILE *in, Plan &p)
{
	char *line = nullptr; size_t cap = 0; bool any = false;
	while (getline(&line, &cap, in) > 0)
	{
		std::istringstream s(line); S w; if (!(s >> w) || w[0] == '#') continue;
		any = true;
		if (w == "END") { free(line); return true; }
		if (w == "RUN") s >> p.id;
		else if (w == "CWD") s >> p.cwd;
		else if (w == "GEN") { GenPlan g; int ha; s >> g.kind >> g.epoch >> ha >> g.arg0 >> g.arg; g.hasarg = ha; p.gens.push_back(g); }
		else if (w == "STACK") { int g; uint64_t x; s >> g >> x; if (g < (int)p.gens.size()) p.gens[g].stackseed = x; }
		else if (w == "HEAP") { int g; uint64_t x; s >> g >> x; if (g < (int)p.gens.size()) p.gens[g].heapseed = x; }
		else if (w == "STDCLOSED") { int g, m; s >> g >> m; if (g < (int)p.gens.size()) p.gens[g].closed = m; }
		else if (w == "CHUNK") { int g; uint64_t x; long a, b; s >> g >> x >> a >> b; if (g < (int)p.gens.size()) { p.gens[g].chunkseed = x; p.gens[g].chunkmin = a; p.gens[g].chunkmax = b; } }
		else if (w == "FAULT") { int g; S op; Fault f; s >> g >> op >> f.k >> f.act >> f.a >> f.n; f.op = OP_OTHER; for (int i = 0; i < OP_N; i++) if (op == opname[i]) f.op = i; if (g < (int)p.gens.size()) p.gens[g].faults.push_back(f); }
		else if (w == "SWITCH") { int g, t; long e; s >> g >> e >> t; p.switches[{g, e}] = t; }
		else if (w == "STOP") { int g, t; long e; s >> g >> e >> t; p.switches[{g, e}] = t; p.stops.insert({g, e}); }
		else if (w == "FILE") { FilePlan f; s >> f.path >> f.how >> f.ref >> f.n >> f.seed >> f.ro; if (f.ref == "-") f.ref = ""; p.files.push_back(f); }
		else if (w == "DIR") { S d; s >> d; p.dirs.push_back(d); }
		else if (w == "ENV") { S e; s >> e; p.env.push_back(e); }
		else if (w == "ENVANY") s >> p.envany;
		else if (w == "LAYOUT") s >> p.layout;
		else if (w == "CLOCK") s >> p.clock;
		else if (w == "PID") s >> p.pid;
		else if (w == "RND") s >> p.rnd;
		else if (w == "DISKCAP") s >> p.diskcap;
		else if (w == "DUMPALL") p.dumpall = 1;
	}
	free(line);
	return any && false;
}
static S slurp(const char *f) { FILE *fp = fopen(f, "rb"); S r; if (!fp) return r; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) r.append(b, n); fclose(fp); return r; }

int main(int argc, char **argv)
{
	if (!getenv("GENSIM_NOASLR"))
	{
		int pers = personality(0xffffffff);
		setenv("GENSIM_NOASLR", "1", 1);
		if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	S dumpdir = "."; int timeout = 120;
	for (int i = 1; i < argc; i++)
	{
		S a = argv[i];
		if (a == "--dump") dumpdir = argv[++i];
		else if (a == "--timeout") timeout = atoi(argv[++i]);
		else if (a == "--so") // kind=path
		{
			S x = argv[++i]; size_t e = x.find('='); S k = x.substr(0, e), f = x.substr(e + 1);
			void *h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
			if (!h) { fprintf(stderr, "dlopen %s: %s\n", f.c_str(), dlerror()); return 2; }
			So so; so.m = (int (*)(int, char **))dlsym(h, "main"); so.fini = (void (*)())dlsym(h, "gensim_fini");
			if (!so.m || !so.fini) { fprintf(stderr, "no main in %s\n", f.c_str()); return 2; }
			sos[k].push_back(so);
		}
		else if (a == "--gold") { S x = argv[++i]; size_t e = x.find('='); gold[x.substr(0, e)] = slurp(x.substr(e + 1).c_str()); }
	}
	signal(SIGPIPE, SIG_IGN);
	for (;;)
	{
		Plan *p = new Plan;
		if (!parseplan(stdin, *p)) break;
		int pf[2]; if (pipe(pf)) return 2;
		pid_t c = fork();
		if (c == 0) { syscall(SYS_close, pf[0]); runchild(p, pf[1], dumpdir); }
		syscall(SYS_close, pf[1]);
		S out; bool to = false;
		for (;;)
		{
			struct pollfd pp = {pf[0], POLLIN, 0};
			int r = poll(&pp, 1, timeout * 1000);
			if (r == 0) { to = true; kill(c, SIGKILL); break; }
			char b[65536]; long n = syscall(SYS_read, pf[0], b, sizeof b);
			if (n <= 0) break;
			out.append(b, n);
		}
		syscall(SYS_close, pf[0]);
		int st = 0; waitpid(c, &st, 0);
		if (to) printf("{\"id\":%s,\"timeout\":true}\n", jstr(p->id).c_str());
		else if (out.empty() || out.back() != '\n') printf("{\"id\":%s,\"simerror\":\"child status %d\"}\n", jstr(p->id).c_str(), st);
		else fputs(out.c_str(), stdout);
		fflush(stdout);
		delete p;
	}
	return 0;
}
