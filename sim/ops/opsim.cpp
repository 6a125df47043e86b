// opsim: the library's operations under a deterministic scheduler and fault injector.
//
// The op_*.cpp files and the library's own sources are compiled with -fsanitize=thread but linked against the runtime in this
// file instead of libtsan: every memory access, function entry and exit and atomic operation of the code under test is a
// point where the simulator may switch threads, run other operations (an interrupt), change the rounding mode, refill the
// dead stack and registers with garbage, or stop the thread for good. Simulated threads are real threads of which
// exactly one runs at a time; who runs is decided only here. One run = one forked child of a process that has executed no
// library operation, so every run starts at "first use".
#include "ops.h"
#include <cxxabi.h>
#include <errno.h>
#include <fenv.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <xmmintrin.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <dlfcn.h>
#include <algorithm>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <iostream>
#include <string>
#include <vector>
typedef uint64_t u64;
typedef uint32_t u32;

// ------------------------------------------------------------------ registry
struct OpDef { std::string type, op, sig; OpFn fn; PrFn pr; int bits, es; unsigned flags; int unit; };
static int UNIT; // the file whose operations are being registered
static std::vector<OpDef> *OPSp;
#define OPS (*OPSp)
void reg_op(const char *type, const char *op, OpFn fn, const char *sig, int bits, int es, unsigned flags)
{ OpDef d; d.type = type; d.op = op; d.sig = sig; d.fn = fn; d.pr = 0; d.bits = bits; d.es = es; d.unit = UNIT; d.flags = flags; OPS.push_back(d); }
void reg_pr(const char *type, PrFn fn, const char *sig, int bits, int es, unsigned flags)
{ OpDef d; d.type = type; d.op = "print"; d.sig = sig; d.fn = 0; d.pr = fn; d.bits = bits; d.es = es; d.unit = UNIT; d.flags = flags | F_PRINT; OPS.push_back(d); }
void init_posit1(); void init_posit2(); void init_posit3(); void init_positmul(); void init_tab(); void init_positf(); void init_unpacked(); void init_binary();

// ------------------------------------------------------------------ random numbers
struct Rng {
  u64 s;
  explicit Rng(u64 x = 1) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  u64 next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  u64 below(u64 n) { return n ? (next() >> 11) % n : 0; }
  bool p(double x) { return (next() >> 11) * (1.0 / 9007199254740992.0) < x; }
};
static u64 mix(u64 a, u64 b) { u64 x = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2)); x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 29; return x; }

// ------------------------------------------------------------------ plans
enum { MAXTH = 6, MAXCALLS = 256, MAXTRACE = 20000, TEXTMAX = 16384 };
struct Call { int id, th, op; u64 a[6]; u64 flip[6]; };
struct Dec { int th, id; u32 acc; char kind; int64_t param; };
// loc: 1 = the stream has a locale of its own, 2 = the global locale is a foreign one, 4 = it changes whenever the output takes a chunk
struct StreamCfg { int flags, prec, width, fill, exc, chunk, failat, failkind, loc; StreamCfg() : flags(0), prec(6), width(0), fill(' '), exc(0), chunk(0), failat(-1), failkind(0), loc(0) {} };
enum Mode { M_THREADS, M_HISTORY, M_INTERRUPT, M_ROUND, M_GARBAGE, M_ALLOC, M_FLIP, M_STALL, M_PRINT, M_PRINTTHREADS, M_ABANDON, M_FPENV, M_INIT, M_CORRUPT, M_STACK, M_SHARED, M_UPDATE, M_LEAK };
struct Plan {
  std::string prop; int nth, start; std::vector<Call> calls; std::vector<Dec> decs; std::vector<StreamCfg> streams; std::vector<int> order; u64 lseed; int llen, lfault;
  Plan() : nth(1), start(0), lseed(0), llen(0), lfault(0) {}
};
static Mode mode_of(const std::string &p)
{
  if (p == "P10") return M_HISTORY; if (p == "P11") return M_INTERRUPT; if (p == "P12") return M_ROUND; if (p == "P13") return M_GARBAGE;
  if (p == "P14") return M_ALLOC; if (p == "P15") return M_FLIP; if (p == "P16" || p == "P17" || p == "P25") return M_PRINT; if (p == "P18") return M_PRINTTHREADS; if (p == "P19") return M_STALL;
  if (p == "P20") return M_ABANDON; if (p == "P21") return M_FPENV; if (p == "P22") return M_INIT; if (p == "P23") return M_CORRUPT;
  if (p == "P26") return M_STACK; if (p == "P27") return M_SHARED; if (p == "P28") return M_UPDATE; if (p == "P29") return M_LEAK;
  return M_THREADS;
}
struct CallRes { int status; u64 r[4]; u32 acc, allocs, allocfailed; int round_bad, errno_bad; u64 tables; int textend, state, flagsbad, caught; };
struct Shm {
  volatile int outcome; char cls[32]; char detail[400];
  CallRes res[MAXCALLS + 8];
  int ntrace; Dec trace[MAXTRACE];
  u64 steps, points, switches, interrupts, rounds, garbage, stalls, allocs, allocfails, flips, sharedwrites, blocked, atomics, sinkfail, sinkchunk, hist, armed, parks, abandons, fpenvs, inits, exits, initcalls, exitcalls, locales, guards, watches, shared;
  int nhot; uintptr_t hot[64];
  int textlen[MAXTH]; char text[MAXTH][TEXTMAX]; int sstate[MAXTH], sexc[MAXTH];
  int badidx; u64 badval[4]; int tblbad;
};
static Shm *S;

// ------------------------------------------------------------------ objects of the program
struct Sym { uintptr_t lo, hi; int table; char name[48]; };
static std::vector<Sym> *SYMSp;
#define SYMS (*SYMSp)
static uintptr_t tbl_lo = ~(uintptr_t)0, tbl_hi = 0;
static std::vector<std::pair<Sym, std::vector<char> > > *SNAPp;
static int find_sym(uintptr_t a)
{
  size_t l = 0, h = SYMS.size();
  while (l < h) { size_t m = (l + h) / 2; if (SYMS[m].hi <= a) l = m + 1; else h = m; }
  return l < SYMS.size() && SYMS[l].lo <= a ? (int)l : -1;
}
extern "C" char __data_start, _end;
static inline bool is_global(uintptr_t a) { return a >= (uintptr_t)0x400000 && a < (uintptr_t)&_end; }

// ------------------------------------------------------------------ simulated threads
struct Th {
  int idx; volatile int go; int state; // 0 ready 1 finished 2 stalled
  int id; u32 acc; int depth; int incall; u32 allocs, allocfail, allocfailed; int track; u64 tables;
  uintptr_t stklo, stksz; u32 sinceswitch; int round; int midflip; int pollblock; int inalloc;
  u32 tgt[4]; int ntgt; const Call *call;
  StreamCfg sc; pthread_t pt; jmp_buf jb; u32 fpctl, fpwant;
  uintptr_t stkfloor; const void *wp; unsigned wn; u64 wold, wnew; bool wknown;
};
static __thread Th *T __attribute__((tls_model("initial-exec"))) = 0;
static __thread int QUIET __attribute__((tls_model("initial-exec"))) = 1;
static Th TH[MAXTH];
static void *STK[MAXTH];
enum { STKSZ = 256 * 1024 };
static const Plan *PL;
static Mode MODE;
static bool REPLAY, STACKPTS, TABLEWATCH;
static Rng RR;
static volatile int ALLDONE;
static int NLIVE;
struct Cfg { double psw, phot, pwr, pintr; int victim, victim2; u64 stallat; double pstallhot; u64 stepcap; int maxintr; int park; u64 parkat, parklen; };
static Cfg CF;
static u32 ALONEACC[MAXCALLS + 8];
static u64 ALONERES[MAXCALLS + 8]; static bool ALONEOK[MAXCALLS + 8];
static int NEXTINTR, POLLS, PARKED; static u64 PARKEND; // PARKED: 0 not yet, 1 now, 2 was
static std::map<u64, std::vector<Dec> > *DECp; // (th,id) -> decisions
static std::set<uintptr_t> *HOTp;

static void fin(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
static void fin(const char *cls, const char *fmt, ...)
{
  QUIET = 1;
  snprintf(S->cls, sizeof S->cls, "%s", cls);
  va_list ap; va_start(ap, fmt); vsnprintf(S->detail, sizeof S->detail, fmt, ap); va_end(ap);
  S->outcome = 2;
  _exit(0);
}
static void fwait(volatile int *f) { while (!__atomic_load_n(f, __ATOMIC_ACQUIRE)) syscall(SYS_futex, f, FUTEX_WAIT, 0, 0, 0, 0); }
static void fset(volatile int *f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE, 1, 0, 0, 0); }

static std::string callname(const Call &c)
{
  std::string s = OPS[c.op].type + "." + OPS[c.op].op + "(";
  char b[32];
  for (size_t i = 0; i < OPS[c.op].sig.size(); i++) { snprintf(b, sizeof b, "%s0x%llx", i ? "," : "", (unsigned long long)(c.a[i] ^ c.flip[i])); s += b; }
  return s + ")";
}

static void rec(Th *t, char kind, int64_t param)
{
  if (S->ntrace < MAXTRACE) { Dec &d = S->trace[S->ntrace++]; d.th = t->idx; d.id = t->id; d.acc = t->acc; d.kind = kind; d.param = param; }
}
static const Dec *lookup(Th *t, char kind)
{
  std::map<u64, std::vector<Dec> >::iterator it = DECp->find(((u64)(u32)t->idx << 32) | (u32)t->id);
  if (it == DECp->end()) return 0;
  for (size_t i = 0; i < it->second.size(); i++) if (it->second[i].acc == t->acc && it->second[i].kind == kind) return &it->second[i];
  return 0;
}
// threads that could run, other than t
static int other_ready(Th *t, int *out) { int n = 0; for (int k = 1; k < PL->nth; k++) { int j = (t->idx + k) % PL->nth; if (TH[j].state == 0) out[n++] = j; } return n; }
// the same without a thread that is parked in the middle of something
static int other_unparked(Th *t, int *out)
{
  int n = other_ready(t, out), m = 0;
  if (PARKED != 1 || S->points >= PARKEND) return n;
  for (int k = 0; k < n; k++) if (out[k] != CF.park) out[m++] = out[k];
  return m;
}
static void go_to(Th *t, int j)
{
  int q = QUIET; QUIET = 1;
  S->switches++;
  t->sinceswitch = 0; TH[j].sinceswitch = 0;
  TH[j].pollblock = 0;
  fset(&TH[j].go);
  fwait(&t->go); t->go = 0;
  QUIET = q;
}
static void forever() { static volatile int never; for (;;) fwait(&never); }
// leave for good: hand the baton to someone, or end the run
static void leave(Th *t)
{
  int o[MAXTH], n = other_ready(t, o);
  if (!n) { fset(&ALLDONE); forever(); }
  int j = o[0];
  if (REPLAY) { const Dec *d = lookup(t, 'E'); if (d) for (int k = 0; k < n; k++) if (o[k] == d->param) j = d->param; }
  else if (n > 1) { int f[MAXTH], m = other_unparked(t, f); j = m ? f[RR.below(m)] : o[RR.below(n)]; if (j != o[0]) rec(t, 'E', j); }
  S->switches++;
  fset(&TH[j].go);
  forever();
}
// the current thread cannot go on (lock held by someone else)
static void blocked_poll(Th *t)
{
  S->blocked++;
  if (t->depth > 0) fin("blocked", "an operation run from an interrupt waits for the operation it interrupted");
  int o[MAXTH], n = other_ready(t, o);
  if (++S->steps > CF.stepcap) fin("no-progress", "threads wait for each other for %llu steps", (unsigned long long)S->steps);
  if (!n || ++POLLS > 4 * PL->nth + 8) fin("deadlock", "every remaining thread waits; %s", S->stalls ? "a stopped thread holds what they wait for" : "nobody can run");
  int j = o[0];
  if (REPLAY) { const Dec *d = lookup(t, 'B'); if (d) for (int k = 0; k < n; k++) if (o[k] == d->param) j = d->param; }
  else { j = o[RR.below(n)]; if (j != o[0]) rec(t, 'B', j); }
  go_to(t, j);
}
static void exec_call(Th *t, const Call &c);
static void stall(Th *t)
{
  S->stalls++;
  t->state = 2;
  QUIET = 1;
  leave(t);
}
static void interrupt(Th *t, int id)
{
  const Call *c = 0;
  for (size_t i = 0; i < PL->calls.size(); i++) if (PL->calls[i].id == id) c = &PL->calls[i];
  if (!c) return;
  S->interrupts++;
  int sid = t->id; u32 sacc = t->acc, sal = t->allocs, saf = t->allocfail; const Call *sc = t->call; u32 st[4]; int sn = t->ntgt, sin = t->incall, smf = t->midflip; memcpy(st, t->tgt, sizeof st);
  t->depth++;
  int r0 = fegetround(), e0 = errno;
  exec_call(t, *c);
  fesetround(r0); errno = e0;
  t->depth--;
  t->id = sid; t->acc = sacc; t->allocs = sal; t->allocfail = saf; t->call = sc; t->ntgt = sn; t->incall = sin; t->midflip = smf; memcpy(t->tgt, st, sizeof st);
}
// dead stack and call-clobbered registers
__attribute__((noinline)) static void garbage_fill(u64 seed)
{
  enum { N = 6144 };
  volatile unsigned char buf[N];
  u64 x = seed * 0x9E3779B97F4A7C15ull + 77;
  int k = seed % 7;
  for (int i = 0; i < N; i++) {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    buf[i] = k == 0 ? 0xff : k == 1 ? 0x01 : k == 2 ? 0x7f : k == 3 ? 0x80 : k == 4 ? (i & 3 ? 0 : (unsigned char)(x & 3)) : (unsigned char)(x >> 32);
  }
  double g; u64 y = x | 0x3f00000000000000ull; memcpy(&g, &y, 8);
  asm volatile("movq %0, %%xmm0\n movddup %%xmm0, %%xmm0\n movaps %%xmm0,%%xmm1\n movaps %%xmm0,%%xmm2\n movaps %%xmm0,%%xmm3\n movaps %%xmm0,%%xmm4\n movaps %%xmm0,%%xmm5\n movaps %%xmm0,%%xmm6\n movaps %%xmm0,%%xmm7\n"
               "movaps %%xmm0,%%xmm8\n movaps %%xmm0,%%xmm9\n movaps %%xmm0,%%xmm10\n movaps %%xmm0,%%xmm11\n movaps %%xmm0,%%xmm12\n movaps %%xmm0,%%xmm13\n movaps %%xmm0,%%xmm14\n movaps %%xmm0,%%xmm15\n"
               "mov %0,%%rcx\n mov %0,%%rdx\n mov %0,%%rsi\n mov %0,%%rdi\n mov %0,%%r8\n mov %0,%%r9\n mov %0,%%r10\n mov %0,%%r11\n"
               : : "r"(y) : "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15", "memory");
}
static const int RMODES[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
static void set_round(Th *t, int m) { fesetround(RMODES[m & 3]); t->round = RMODES[m & 3]; S->rounds++; }

// flush-to-zero, denormals-are-zero and unmasked floating-point traps of the thread
static void set_fpenv(Th *t, int m)
{
  u32 c = 0x1f80;
  if (m & 1) c |= 0x8000; if (m & 2) c |= 0x40; if (m & 4) c &= ~0x80u; if (m & 8) c &= ~0x200u; if (m & 16) c &= ~0x400u; if (m & 32) c &= ~0x800u; if (m & 64) c &= ~0x100u; if (m & 128) c &= ~0x1000u;
  t->fpctl = t->fpwant = c; S->fpenvs++;
}
// the operation is given up: its frames disappear, its destructors do not run
static void abandon(Th *t) { S->abandons++; QUIET = 1; _longjmp(t->jb, 1); }
static void apply(Th *t, char kind, int64_t param)
{
  switch (kind) {
  case 'P': if (param >= 0 && param < PL->nth && param != t->idx && TH[param].state == 0) go_to(t, param); break;
  case 'I': if (t->depth < 3) interrupt(t, (int)param); break;
  case 'R': set_round(t, (int)param); t->midflip = 1; break;
  case 'G': S->garbage++; garbage_fill(param); break;
  case 'S': stall(t); break;
  case 'X': abandon(t); break;
  case 'F': set_fpenv(t, (int)param); t->midflip = 1; break;
  }
}
// one possible scheduling or fault point inside an operation; hot = touches memory that somebody writes
static void point(Th *t, bool hot, bool wr)
{
  QUIET = 1;
  if (MODE == M_FPENV) { t->fpctl = _mm_getcsr() & ~0x3fu; _mm_setcsr(0x1f80); }
  if (++S->steps > CF.stepcap) fin("no-progress", "operation %s does not finish (%llu steps)", t->call ? callname(*t->call).c_str() : "?", (unsigned long long)S->steps);
  S->points++;
  POLLS = 0;
  if (REPLAY) {
    std::map<u64, std::vector<Dec> >::iterator it = DECp->find(((u64)(u32)t->idx << 32) | (u32)t->id);
    if (it != DECp->end())
      for (size_t i = 0; i < it->second.size(); i++) {
        const Dec d = it->second[i];
        if (d.acc == t->acc && d.kind != 'E' && d.kind != 'B' && d.kind != 'A') apply(t, d.kind, d.param);
      }
  } else {
    bool tgt = false;
    for (int i = 0; i < t->ntgt; i++) if (t->tgt[i] == t->acc) tgt = true;
    switch (MODE) {
    case M_THREADS: case M_PRINTTHREADS: case M_STALL: case M_SHARED: {
      if (MODE == M_STALL && (t->idx == CF.victim || t->idx == CF.victim2) && ((CF.stallat && S->points >= CF.stallat) || (hot && RR.p(CF.pstallhot)))) { rec(t, 'S', 0); stall(t); }
      // one thread is left standing in the middle of an operation while the others do many
      if (t->idx == CF.park && !PARKED && S->points >= CF.parkat) {
        int o[MAXTH], n = other_ready(t, o);
        if (n) { PARKED = 1; PARKEND = S->points + CF.parklen; S->parks++; int j = o[RR.below(n)]; rec(t, 'P', j); go_to(t, j); PARKED = 2; }
        break;
      }
      double p = wr ? CF.pwr : hot ? CF.phot : CF.psw;
      if (RR.p(p)) { int o[MAXTH], n = other_unparked(t, o); if (n) { int j = o[RR.below(n)]; rec(t, 'P', j); go_to(t, j); } }
      break; }
    case M_INTERRUPT:
      if ((tgt || (hot && RR.p(CF.phot))) && t->depth < 3 && NEXTINTR < CF.maxintr) {
        int k = -1, seen = 0;
        for (size_t i = 0; i < PL->calls.size(); i++) if (PL->calls[i].th < 0) { if (seen++ == NEXTINTR) { k = PL->calls[i].id; break; } }
        if (k >= 0) { NEXTINTR++; rec(t, 'I', k); interrupt(t, k); }
      }
      break;
    case M_ROUND: if (tgt) { int m = RR.below(4); rec(t, 'R', m); set_round(t, m); t->midflip = 1; } break;
    case M_FPENV: if (tgt) { int m = RR.below(64); rec(t, 'F', m); set_fpenv(t, m); t->midflip = 1; } break;
    case M_ABANDON: case M_UPDATE: if (tgt && t->depth == 0) { rec(t, 'X', 0); abandon(t); } break;
    case M_GARBAGE: if (tgt) { int64_t g = RR.below(1 << 30); rec(t, 'G', g); S->garbage++; garbage_fill(g); } break;
    default: break;
    }
  }
  // a thread that only spins must not keep the others from running
  if (++t->sinceswitch > 20000) { int o[MAXTH], n = other_ready(t, o); t->sinceswitch = 0; if (n && t->depth == 0) go_to(t, o[0]); }
  if (MODE == M_FPENV) _mm_setcsr(t->fpctl);
  QUIET = 0;
}
static __attribute__((noinline)) void slow(Th *t, uintptr_t a, unsigned sz, bool w, bool atomic)
{
  struct Errno { int e; Errno() : e(errno) {} ~Errno() { errno = e; } } keep_errno;
  bool stack = a - t->stklo < t->stksz;
  bool hot = atomic, wr = false;
  if (!stack && a) {
    if (w) {
      S->sharedwrites++; wr = true; hot = true;
      QUIET = 1; HOTp->insert(a >> 3);
      if (is_global(a) && S->nhot < 64) { bool in = false; for (int i = 0; i < S->nhot; i++) in |= S->hot[i] == a >> 3; if (!in) S->hot[S->nhot++] = a >> 3; }
      QUIET = 0;
    } else if (!HOTp->empty() && HOTp->count(a >> 3)) hot = true;
    if (t->track && is_global(a)) {
      int k = find_sym(a);
      if (k < 0) t->tables |= 1ull << 63; else if (SYMS[k].table) t->tables |= 1ull << (SYMS[k].table & 31);
      if (k >= 0 && a + sz > SYMS[k].hi) t->tables |= 1ull << 63;
    }
  }
  if (stack && !STACKPTS) return;
  if (atomic) S->atomics++;
  point(t, hot, wr);
}
enum { STACKLIMIT = 8192 }; // P26: what an operation may use
static __attribute__((noinline)) void overflow(Th *t, uintptr_t a) { fin("stack-overflow", "%s needs more than %d bytes of stack (%ld)", t->call ? callname(*t->call).c_str() : "?", (int)STACKLIMIT, (long)(t->stkfloor + STACKLIMIT - a)); }
static u64 watched(Th *t) { u64 v = 0; memcpy(&v, t->wp, t->wn); return v; }
// what a reader of the value, or a process that is restarted with it, finds at this moment
static __attribute__((noinline)) void look(Th *t)
{
  u64 v = watched(t);
  S->watches++;
  if (v != t->wold && (!t->wknown || v != t->wnew)) { if (t->wknown) fin("torn-update", "%s: the value updated in place holds 0x%llx in the middle of the operation; before 0x%llx, after 0x%llx", callname(*t->call).c_str(), (unsigned long long)v, (unsigned long long)t->wold, (unsigned long long)t->wnew); }
}
static inline void guard(Th *t, uintptr_t a)
{
  if (t->stkfloor) {
    uintptr_t f = (uintptr_t)__builtin_frame_address(0);
    if (f < t->stkfloor) overflow(t, f);
    if (a < t->stkfloor && a - t->stklo < t->stksz) overflow(t, a);
  }
  if (t->wp) look(t);
}
static inline void hook(uintptr_t a, unsigned sz, bool w)
{
  if (TABLEWATCH && w && a + sz > tbl_lo && a < tbl_hi) { int k = find_sym(a); if (k >= 0 && SYMS[k].table) { if (!S->tblbad) S->tblbad = k + 1; } }
  if (QUIET) return;
  Th *t = T;
  t->acc++;
  if (t->stkfloor || t->wp) guard(t, a);
  slow(t, a, sz, w, false);
}
static inline void fhook() { if (QUIET) return; Th *t = T; t->acc++; if (t->stkfloor || t->wp) guard(t, 0); slow(t, 0, 0, false, false); }
static inline void ahook(volatile void *a, unsigned sz, bool w) { if (QUIET) return; Th *t = T; t->acc++; slow(t, (uintptr_t)a, sz, w, true); }

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { fhook(); }
void __tsan_func_exit() { fhook(); }
#define RW(n) \
  void __tsan_read##n(void *a) { hook((uintptr_t)a, n, false); } \
  void __tsan_write##n(void *a) { hook((uintptr_t)a, n, true); } \
  void __tsan_unaligned_read##n(void *a) { hook((uintptr_t)a, n, false); } \
  void __tsan_unaligned_write##n(void *a) { hook((uintptr_t)a, n, true); } \
  void __tsan_volatile_read##n(void *a) { hook((uintptr_t)a, n, false); } \
  void __tsan_volatile_write##n(void *a) { hook((uintptr_t)a, n, true); } \
  void __tsan_unaligned_volatile_read##n(void *a) { hook((uintptr_t)a, n, false); } \
  void __tsan_unaligned_volatile_write##n(void *a) { hook((uintptr_t)a, n, true); } \
  void __tsan_read_write##n(void *a) { hook((uintptr_t)a, n, false); hook((uintptr_t)a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { hook((uintptr_t)a, n, false); }
void __tsan_write_range(void *a, unsigned long n) { hook((uintptr_t)a, n, true); }
void __tsan_vptr_update(void **a, void *) { hook((uintptr_t)a, 8, true); }
void __tsan_vptr_read(void **a) { hook((uintptr_t)a, 8, false); }
#define AT(n, ty) \
  ty __tsan_atomic##n##_load(const volatile ty *a, int) { ahook((volatile void *)a, n / 8, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile ty *a, ty v, int) { ahook(a, n / 8, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); ahook(a, n / 8, false); } \
  ty __tsan_atomic##n##_exchange(volatile ty *a, ty v, int) { ahook(a, n / 8, true); ty r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); ahook(a, n / 8, false); return r; } \
  ty __tsan_atomic##n##_fetch_add(volatile ty *a, ty v, int) { ahook(a, n / 8, true); ty r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); ahook(a, n / 8, false); return r; } \
  ty __tsan_atomic##n##_fetch_sub(volatile ty *a, ty v, int) { ahook(a, n / 8, true); ty r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); ahook(a, n / 8, false); return r; } \
  ty __tsan_atomic##n##_fetch_and(volatile ty *a, ty v, int) { ahook(a, n / 8, true); ty r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); ahook(a, n / 8, false); return r; } \
  ty __tsan_atomic##n##_fetch_or(volatile ty *a, ty v, int) { ahook(a, n / 8, true); ty r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); ahook(a, n / 8, false); return r; } \
  ty __tsan_atomic##n##_fetch_xor(volatile ty *a, ty v, int) { ahook(a, n / 8, true); ty r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); ahook(a, n / 8, false); return r; } \
  ty __tsan_atomic##n##_fetch_nand(volatile ty *a, ty v, int) { ahook(a, n / 8, true); ty r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); ahook(a, n / 8, false); return r; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile ty *a, ty *e, ty v, int, int) { ahook(a, n / 8, true); int r = __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); ahook(a, n / 8, false); return r; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile ty *a, ty *e, ty v, int, int) { ahook(a, n / 8, true); int r = __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); ahook(a, n / 8, false); return r; } \
  ty __tsan_atomic##n##_compare_exchange_val(volatile ty *a, ty e, ty v, int, int) { ahook(a, n / 8, true); __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); ahook(a, n / 8, false); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, u64)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); fhook(); }
void __tsan_atomic_signal_fence(int) {}

// ---- locks: try, and let the scheduler decide who runs until it succeeds
typedef int (*mfn)(pthread_mutex_t *);
static mfn R_try, R_unlock, R_lock;
static void resolve()
{
  if (R_try) return;
  R_lock = (mfn)dlsym(RTLD_NEXT, "pthread_mutex_lock"); R_unlock = (mfn)dlsym(RTLD_NEXT, "pthread_mutex_unlock"); R_try = (mfn)dlsym(RTLD_NEXT, "pthread_mutex_trylock");
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
  resolve();
  if (QUIET || !T) return R_lock(m);
  ahook(m, 8, true);
  for (;;) { int r = R_try(m); if (r != EBUSY) { ahook(m, 8, true); return r; } QUIET = 1; blocked_poll(T); QUIET = 0; }
}
int pthread_mutex_trylock(pthread_mutex_t *m) { resolve(); ahook(m, 8, true); int r = R_try(m); ahook(m, 8, false); return r; }
int pthread_mutex_unlock(pthread_mutex_t *m) { resolve(); if (QUIET || !T) return R_unlock(m); ahook(m, 8, true); int r = R_unlock(m); POLLS = 0; ahook(m, 8, true); return r; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
  static int (*real)(pthread_rwlock_t *), (*tr)(pthread_rwlock_t *);
  if (!real) { real = (int (*)(pthread_rwlock_t *))dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"); tr = (int (*)(pthread_rwlock_t *))dlsym(RTLD_NEXT, "pthread_rwlock_tryrdlock"); }
  if (QUIET || !T) return real(m);
  ahook(m, 8, true);
  for (;;) { int r = tr(m); if (r != EBUSY) { ahook(m, 8, true); return r; } QUIET = 1; blocked_poll(T); QUIET = 0; }
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
  static int (*real)(pthread_rwlock_t *), (*tr)(pthread_rwlock_t *);
  if (!real) { real = (int (*)(pthread_rwlock_t *))dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"); tr = (int (*)(pthread_rwlock_t *))dlsym(RTLD_NEXT, "pthread_rwlock_trywrlock"); }
  if (QUIET || !T) return real(m);
  ahook(m, 8, true);
  for (;;) { int r = tr(m); if (r != EBUSY) { ahook(m, 8, true); return r; } QUIET = 1; blocked_poll(T); QUIET = 0; }
}
int pthread_spin_lock(pthread_spinlock_t *m)
{
  if (QUIET || !T) { while (__atomic_exchange_n(m, 2, __ATOMIC_ACQUIRE) == 2) sched_yield(); return 0; }
  ahook((void *)m, 4, true);
  for (;;) { int z = 0; z = __atomic_exchange_n(m, 2, __ATOMIC_SEQ_CST); if (z != 2) { ahook((void *)m, 4, true); return 0; } QUIET = 1; blocked_poll(T); QUIET = 0; }
}
int pthread_spin_unlock(pthread_spinlock_t *m) { ahook((void *)m, 4, true); __atomic_store_n(m, 1, __ATOMIC_SEQ_CST); POLLS = 0; return 0; }
int pthread_once(pthread_once_t *o, void (*f)(void))
{
  if (QUIET || !T) { if (__atomic_load_n(o, __ATOMIC_ACQUIRE) != 2) { f(); __atomic_store_n(o, 2, __ATOMIC_RELEASE); } return 0; }
  ahook(o, 4, false);
  for (;;) {
    int v = *o;
    if (v == 2) return 0;
    if (v == 0) { *o = 1; ahook(o, 4, true); try { f(); } catch (...) { *o = 0; throw; } *o = 2; POLLS = 0; ahook(o, 4, true); return 0; }
    QUIET = 1; blocked_poll(T); QUIET = 0;
  }
}
int sched_yield() { if (QUIET || !T) return syscall(SYS_sched_yield); QUIET = 1; blocked_poll(T); QUIET = 0; return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (QUIET || !T) return syscall(SYS_nanosleep, a, b); QUIET = 1; blocked_poll(T); QUIET = 0; return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { if (QUIET || !T) return -syscall(SYS_clock_nanosleep, c, f, a, b); QUIET = 1; blocked_poll(T); QUIET = 0; return 0; }
int usleep(useconds_t u) { if (QUIET || !T) { struct timespec ts = {u / 1000000, (long)(u % 1000000) * 1000}; return syscall(SYS_nanosleep, &ts, 0); } QUIET = 1; blocked_poll(T); QUIET = 0; return 0; }
// ---- function-local statics
int __cxa_guard_acquire(u64 *g)
{
  char *b = (char *)g;
  if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
  if (QUIET || !T) { if (b[1]) abort(); b[1] = 1; return 1; }
  ahook(g, 8, true);
  for (;;) {
    if (b[0]) return 0;
    if (!b[1]) { b[1] = 1; ahook(g, 8, true); return 1; }
    QUIET = 1; blocked_poll(T); QUIET = 0;
  }
}
void __cxa_guard_release(u64 *g) { char *b = (char *)g; ahook(g, 8, true); __atomic_store_n(b, 1, __ATOMIC_RELEASE); b[1] = 0; POLLS = 0; }
void __cxa_guard_abort(u64 *g) { char *b = (char *)g; b[1] = 0; POLLS = 0; }
// ---- memory
void *__real_memset(void *, int, size_t);
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
// the allocator as interrupts see it: an operation interrupted inside it holds its lock
static void alloc_visit()
{
  Th *t = T;
  if (QUIET || !t || !t->incall || MODE != M_INTERRUPT) return;
  if (t->inalloc) fin("blocked", "an operation run from an interrupt needs the memory allocator, inside which it interrupted another");
  t->inalloc = 1; t->acc++;
  point(t, true, true);
  t->inalloc = 0;
}
// memory the operations of a long history took and did not give back
static bool LEAKON; static int64_t LIVE; static u64 LALLOCS, LFAILS; static int LFAIL; static Rng LR;
static void *lived(void *p) { if (LEAKON && p) LIVE += malloc_usable_size(p) + 16; return p; }
static void died(void *p) { if (LEAKON && p) LIVE -= malloc_usable_size(p) + 16; }
static bool alloc_fails()
{
  Th *t = T;
  if (LEAKON) { LALLOCS++; if (LFAIL && LR.below(LFAIL) == 0) { LFAILS++; errno = ENOMEM; return true; } return false; }
  if (QUIET || !t || !t->incall) return false;
  alloc_visit();
  t->allocs++; S->allocs++;
  if (t->allocfail && t->allocs >= t->allocfail) { t->allocfailed++; S->allocfails++; errno = ENOMEM; return true; }
  return false;
}
static void *dirty(void *p, size_t n) { if (p && !QUIET && T && T->incall && MODE == M_GARBAGE) { unsigned char *q = (unsigned char *)p; for (size_t i = 0; i < n; i++) q[i] = (unsigned char)(S->garbage * 37 + i * 11 + 0x5a); } return p; }
void *malloc(size_t n) { if (alloc_fails()) return 0; return lived(dirty(__libc_malloc(n), n)); }
void free(void *p) { died(p); if (p) alloc_visit(); if (p && MODE == M_INIT && T) __real_memset(p, 0xdd, malloc_usable_size(p)); __libc_free(p); }
void *calloc(size_t a, size_t b) { if (alloc_fails()) return 0; return lived(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n) { if (alloc_fails()) return 0; int64_t was = LEAKON && p ? malloc_usable_size(p) + 16 : 0; void *q = __libc_realloc(p, n); if (q || !n) LIVE -= was; return lived(q); }
void *memalign(size_t a, size_t n) { if (alloc_fails()) return 0; return lived(dirty(__libc_memalign(a, n), n)); }
void *aligned_alloc(size_t a, size_t n) { if (alloc_fails()) return 0; return lived(dirty(__libc_memalign(a, n), n)); }
int posix_memalign(void **p, size_t a, size_t n) { if (alloc_fails()) return ENOMEM; *p = lived(dirty(__libc_memalign(a, n), n)); return *p ? 0 : ENOMEM; }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) __THROW
{
  long r = syscall(SYS_mmap, a, n, pr, fl, fd, o);
  if (LEAKON && r != -1) LIVE += n;
  return (void *)r;
}
int munmap(void *a, size_t n) __THROW { if (LEAKON) LIVE -= n; return syscall(SYS_munmap, a, n); }
// ---- block copies made by the code under test (calls redirected by the linker)
void *__real_memcpy(void *, const void *, size_t); void *__real_memset(void *, int, size_t); void *__real_memmove(void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
  if (QUIET) { if (TABLEWATCH) hook((uintptr_t)d, n, true); return __real_memcpy(d, s, n); }
  hook((uintptr_t)s, n, false); hook((uintptr_t)d, n, true);
  if (n == 1 || n == 2 || n == 4 || n == 8) return __real_memcpy(d, s, n);
  size_t h = n / 2; __real_memcpy(d, s, h); hook((uintptr_t)d, n, true); __real_memcpy((char *)d + h, (const char *)s + h, n - h); return d;
}
// ---- values seen by others
static char SLOTS[MAXTH][8][64] __attribute__((aligned(64)));
void *opsim_slot() { return T ? SLOTS[T->idx][T->depth & 7] : SLOTS[0][0]; }
void opsim_watch(const void *p, unsigned n)
{
  Th *t = T;
  if (QUIET || !t || MODE != M_UPDATE) return;
  t->wp = p; t->wn = n > 8 ? 8 : n; t->wold = watched(t); t->wknown = ALONEOK[t->id]; t->wnew = ALONERES[t->id];
  look(t);
}
uint64_t opsim_unwatch(unsigned n) { u64 v = 0; Th *t = T; if (t) t->wp = 0; memcpy(&v, opsim_slot(), n > 8 ? 8 : n); return v; }
struct Shared { const void *type; u64 w; char now[40], was[40]; };
enum { MAXSHARED = 2048 };
static Shared SHARED[MAXSHARED] __attribute__((aligned(64)));
static int NSHARED;
const void *opsim_shared(const void *type, uint64_t w, void (*make)(void *, uint64_t))
{
  int q = QUIET; QUIET = 1;
  int i = 0;
  while (i < NSHARED && (SHARED[i].type != type || SHARED[i].w != w)) i++;
  if (i == NSHARED) {
    if (T) S->shared++;
    if (NSHARED == MAXSHARED) i = NSHARED = 0; // only long histories come here: start over
    NSHARED = i + 1;
    __real_memset(&SHARED[i], 0, sizeof SHARED[i]);
    SHARED[i].type = type; SHARED[i].w = w;
    make(SHARED[i].now, w);
    memcpy(SHARED[i].was, SHARED[i].now, sizeof SHARED[i].was);
  }
  QUIET = q;
  return SHARED[i].now;
}
void *__wrap_memmove(void *d, const void *s, size_t n) { hook((uintptr_t)s, n, false); hook((uintptr_t)d, n, true); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { hook((uintptr_t)d, n, true); return __real_memset(d, c, n); }
}

// ------------------------------------------------------------------ simulated outputs
struct SinkError { int x; };
struct Punct : std::numpunct<char> {
  char do_decimal_point() const { return ';'; } char do_thousands_sep() const { return '_'; } std::string do_grouping() const { return "\1\2"; }
  std::string do_truename() const { return "ja"; } std::string do_falsename() const { return "nein"; }
};
static int GLOC;
static void set_global_locale(int on)
{
  int q = QUIET; QUIET = 1;
  if (on != GLOC) {
    GLOC = on; S->locales++;
    setlocale(LC_ALL, on ? "de_DE.UTF-8" : "C");
    std::locale::global(on ? std::locale(std::locale::classic(), new Punct) : std::locale::classic());
  }
  QUIET = q;
}
class Sink : public std::streambuf {
  StreamCfg c; int th; bool failed; std::vector<char> buf;
public:
  Sink(const StreamCfg &cfg, int t) : c(cfg), th(t), failed(false) { if (c.chunk > 0) { buf.resize(c.chunk); setp(&buf[0], &buf[0] + c.chunk); } }
  // takes one byte, or fails on the plan
  bool take(char ch)
  {
    if (c.failat >= 0 && (c.failkind == 3 ? !failed : true) && S->textlen[th] >= c.failat) {
      failed = true; S->sinkfail++;
      if (c.failkind == 1) { SinkError e; e.x = 1; throw e; }
      if (c.failkind == 2) throw std::bad_alloc();
      return false;
    }
    if (S->textlen[th] < TEXTMAX) S->text[th][S->textlen[th]] = ch;
    S->textlen[th]++;
    return true;
  }
  bool drain()
  {
    S->sinkchunk++;
    if (c.loc & 4) set_global_locale(!GLOC);
    fhook(); // the output may make the writer wait
    char *p = pbase(), *e = pptr();
    while (p < e) {
      bool ok;
      try { ok = take(*p); } catch (...) { rest(p, e); throw; }
      if (!ok) { rest(p, e); return false; }
      p++;
    }
    setp(&buf[0], &buf[0] + buf.size());
    return true;
  }
  void rest(char *, char *) { setp(&buf[0], &buf[0] + buf.size()); } // what could not be written is lost
  int_type overflow(int_type ch)
  {
    if (c.chunk > 0) {
      if (!drain()) return traits_type::eof();
      if (!traits_type::eq_int_type(ch, traits_type::eof())) { *pptr() = traits_type::to_char_type(ch); pbump(1); }
      return traits_type::not_eof(ch);
    }
    if (c.loc & 4) set_global_locale(!GLOC);
    fhook();
    if (traits_type::eq_int_type(ch, traits_type::eof())) return traits_type::not_eof(ch);
    if (!take(traits_type::to_char_type(ch))) return traits_type::eof();
    fhook();
    return ch;
  }
  int sync() { if (c.chunk > 0) return drain() ? 0 : -1; return 0; }
};
class MemSink : public std::streambuf {
public:
  char *b; int cap, n, fail;
  MemSink(char *bb, int c, int f = -1) : b(bb), cap(c), n(0), fail(f) {}
  int_type overflow(int_type ch) { if (n == fail) { SinkError e; e.x = 2; throw e; } if (traits_type::eq_int_type(ch, traits_type::eof())) return 0; if (n < cap) b[n] = (char)ch; n++; return ch; }
};
static const std::ios::fmtflags BASES[4] = {std::ios::dec, std::ios::hex, std::ios::oct, std::ios::fmtflags(0)};
static std::ios::fmtflags mkflags(int f)
{
  std::ios::fmtflags r = BASES[f & 3];
  if (f & 4) r |= std::ios::showbase; if (f & 8) r |= std::ios::uppercase; if (f & 16) r |= std::ios::showpos; if (f & 32) r |= std::ios::showpoint;
  if (f & 64) r |= std::ios::fixed; if (f & 128) r |= std::ios::scientific; if (f & 256) r |= std::ios::left; if (f & 512) r |= std::ios::internal; if (f & 1024) r |= std::ios::boolalpha; if (f & 2048) r |= std::ios::unitbuf;
  return r;
}

// ------------------------------------------------------------------ static initialisers and exit handlers of the code under test
// The objects of the library, its tables and the thunks were linked with their initialiser lists renamed to vinit_<unit>, so nothing
// of them runs before main: the simulator decides in which order, and what runs between them.
typedef void (*InitFn)(int, char **, char **);
#define VI(k) extern "C" { extern InitFn __start_vinit_##k[] __attribute__((weak)); extern InitFn __stop_vinit_##k[] __attribute__((weak)); }
VI(0) VI(1) VI(2) VI(3) VI(4) VI(5) VI(6) VI(7) VI(8) VI(9) VI(10) VI(11) VI(12) VI(13) VI(14) VI(15)
enum { NUNIT = 16, NOPUNIT = 8 };
#define VP(k) { __start_vinit_##k, __stop_vinit_##k }
static InitFn *const VINIT[NUNIT][2] = { VP(0), VP(1), VP(2), VP(3), VP(4), VP(5), VP(6), VP(7), VP(8), VP(9), VP(10), VP(11), VP(12), VP(13), VP(14), VP(15) };
static bool INITED;
static char *NOARG[1];
static void init_unit(int k) { if (VINIT[k][0]) for (InitFn *f = VINIT[k][0]; f < VINIT[k][1]; f++) if (*f && *f != (InitFn)-1) { if (T) S->inits++; (*f)(0, NOARG, environ); } }
static void ensure_init() { if (INITED) return; INITED = true; for (int k = 0; k < NUNIT; k++) init_unit(k); }
struct ExitFn { void (*f)(void *); void *a; int unit; }; // unit >= 0: the destructor of a static object of the user, in that file
static std::vector<ExitFn> *EXITS, *TLSEXITS;
extern "C" int __cxa_atexit(void (*f)(void *), void *a, void *d)
{
  static int (*real)(void (*)(void *), void *, void *);
  if (T && MODE == M_INIT && EXITS) { int q = QUIET; QUIET = 1; ExitFn e = {f, a, -1}; EXITS->push_back(e); QUIET = q; return 0; }
  if (!real) real = (int (*)(void (*)(void *), void *, void *))dlsym(RTLD_NEXT, "__cxa_atexit");
  return real(f, a, d);
}
// destructors of thread-local objects of the main thread run before the exit handlers
extern "C" int __cxa_thread_atexit(void (*f)(void *), void *a, void *d)
{
  static int (*real)(void (*)(void *), void *, void *);
  if (T && MODE == M_INIT && EXITS) { int q = QUIET; QUIET = 1; ExitFn e = {f, a, -2}; TLSEXITS->push_back(e); QUIET = q; return 0; }
  if (!real) real = (int (*)(void (*)(void *), void *, void *))dlsym(RTLD_NEXT, "__cxa_thread_atexit_impl");
  return real(f, a, d);
}

// ------------------------------------------------------------------ executing calls
static int MEMFAIL = -1;
static void run_op(const OpDef &o, const u64 *a, u64 *r)
{
  if (o.fn) { o.fn(a, r); return; }
  char b[512]; // an insertion: the result is the text
  MemSink ms(b, sizeof b, MEMFAIL);
  std::ostream os(&ms);
  if (MEMFAIL >= 0) os.exceptions(std::ios::badbit);
  os.flags(BASES[a[5] & 3]);
  o.pr(a, os);
  u64 h = 1469598103934665603ull;
  for (int i = 0; i < ms.n && i < (int)sizeof b; i++) h = (h ^ (unsigned char)b[i]) * 1099511628211ull;
  r[0] = h; r[1] = ms.n; r[2] = os.rdstate();
}
static void exec_call(Th *t, const Call &c)
{
  u64 a[6], r[4] = {0, 0, 0, 0};
  QUIET = 1;
  for (int i = 0; i < 6; i++) { a[i] = c.a[i] ^ c.flip[i]; if (c.flip[i]) S->flips++; }
  const OpDef &o = OPS[c.op];
  t->id = c.id; t->acc = 0; t->call = &c; t->allocs = 0; t->allocfail = 0; t->allocfailed = 0; t->tables = 0; t->midflip = 0; t->ntgt = 0;
  CallRes &cr = S->res[c.id];
  // faults that act from the start of the operation
  u64 gseed = 0; bool garb = false;
  if (REPLAY) {
    const Dec *d;
    if ((d = lookup(t, 'A'))) t->allocfail = d->param;
    if ((d = lookup(t, 'R'))) set_round(t, d->param);
    if ((d = lookup(t, 'G'))) { garb = true; gseed = d->param; }
    if ((d = lookup(t, 'F'))) set_fpenv(t, d->param);
  } else {
    u32 n = ALONEACC[c.id];
    if (MODE == M_ROUND) { int m = RR.below(4); rec(t, 'R', m); set_round(t, m); if (RR.p(0.5)) for (int k = 1 + RR.below(3); k > 0; k--) t->tgt[t->ntgt++] = 1 + RR.below(n); }
    if (MODE == M_FPENV) { int m = RR.below(64); rec(t, 'F', m); set_fpenv(t, m); if (RR.p(0.5)) for (int k = 1 + RR.below(3); k > 0; k--) t->tgt[t->ntgt++] = 1 + RR.below(n); }
    if ((MODE == M_ABANDON || MODE == M_UPDATE) && RR.p(0.4)) t->tgt[t->ntgt++] = 1 + RR.below(n);
    if (MODE == M_GARBAGE) { gseed = RR.below(1 << 30); garb = true; rec(t, 'G', gseed); if (RR.p(0.5)) for (int k = 1 + RR.below(3); k > 0; k--) t->tgt[t->ntgt++] = 1 + RR.below(n); }
    if (MODE == M_ALLOC) { t->allocfail = 1 + (RR.p(0.6) ? 0 : RR.below(4)); rec(t, 'A', t->allocfail); S->armed++; }
    if (MODE == M_INTERRUPT && n) for (int k = t->depth ? RR.p(0.3) : 1 + RR.below(2); k > 0; k--) t->tgt[t->ntgt++] = 1 + RR.below(n);
  }
  t->incall = 1;
  volatile int status = 1;
  if (garb) { S->garbage++; garbage_fill(gseed); }
  if ((MODE == M_ABANDON || MODE == M_UPDATE) && _setjmp(t->jb)) { QUIET = 1; t->incall = 0; if (t->wp) look(t); t->wp = 0; cr.status = 3; return; }
  if (MODE == M_FPENV) _mm_setcsr(t->fpctl);
  if (MODE == M_STACK) { t->stkfloor = (uintptr_t)__builtin_frame_address(0) - STACKLIMIT; S->guards++; }
  const int EN = 0x5a5a;
  errno = EN;
  try { QUIET = 0; run_op(o, a, r); QUIET = 1; cr.errno_bad = errno != EN; } catch (...) { QUIET = 1; status = 2; }
  t->incall = 0; t->stkfloor = 0; t->wp = 0;
  bool fpbad = false;
  if (MODE == M_FPENV) { u32 c = _mm_getcsr() & ~0x3fu; _mm_setcsr(0x1f80); fpbad = !t->midflip && c != t->fpwant; }
  int rm = fegetround();
  cr.status = status; memcpy(cr.r, r, sizeof r); cr.acc = t->acc; cr.allocs = t->allocs; cr.allocfailed = t->allocfailed; cr.tables = t->tables;
  cr.round_bad = (MODE == M_ROUND && !t->midflip && rm != t->round) || fpbad;
  if (MODE == M_ROUND) { fesetround(FE_TONEAREST); t->round = FE_TONEAREST; }
}
// a whole program life: initialisers in the planned order, calls from static objects, from main and from exit handlers
static void exec_life(Th *t)
{
  EXITS = new std::vector<ExitFn>; TLSEXITS = new std::vector<ExitFn>;
  for (size_t k = 0; k < PL->order.size(); k++) {
    int u = PL->order[k];
    if (u < 0 || u >= NUNIT) continue;
    init_unit(u);
    if (u >= NOPUNIT) continue;
    for (size_t i = 0; i < PL->calls.size(); i++) if (PL->calls[i].th == 0 && OPS[PL->calls[i].op].unit == u) { S->initcalls++; exec_call(t, PL->calls[i]); }
    ExitFn e = {0, 0, u}; EXITS->push_back(e);
  }
  for (size_t i = 0; i < PL->calls.size(); i++) if (PL->calls[i].th == 1) exec_call(t, PL->calls[i]);
  while (!EXITS->empty()) {
    while (!TLSEXITS->empty()) { ExitFn e = TLSEXITS->back(); TLSEXITS->pop_back(); S->exits++; e.f(e.a); }
    ExitFn e = EXITS->back(); EXITS->pop_back();
    if (e.unit < 0) { S->exits++; e.f(e.a); continue; }
    for (size_t i = 0; i < PL->calls.size(); i++) if (PL->calls[i].th == 2 && OPS[PL->calls[i].op].unit == e.unit) { S->exitcalls++; exec_call(t, PL->calls[i]); }
  }
}
// all insertions of one thread into its stream
static void exec_stream(Th *t)
{
  QUIET = 1;
  const StreamCfg &c = t->sc;
  Sink sink(c, t->idx);
  std::ostream os(&sink);
  if (c.loc & 1) os.imbue(std::locale(std::locale::classic(), new Punct));
  if (c.loc & 6) set_global_locale(c.loc >> 1 & 1);
  std::locale o0 = os.getloc(); std::ios::iostate e0;
  os.flags(mkflags(c.flags)); os.precision(c.prec); os.fill((char)c.fill);
  if (c.exc) os.exceptions((std::ios::iostate)((c.exc & 1 ? std::ios::badbit : 0) | (c.exc & 2 ? std::ios::failbit : 0)));
  e0 = os.exceptions();
  std::ios::fmtflags f0 = os.flags(); std::streamsize p0 = os.precision(); char l0 = os.fill();
  int exc = 0;
  for (size_t i = 0; i < PL->calls.size(); i++) {
    const Call &k = PL->calls[i];
    if (k.th != t->idx) continue;
    CallRes &cr = S->res[k.id];
    t->id = k.id; t->acc = 0; t->call = &k; t->allocs = 0; t->allocfail = 0; t->ntgt = 0;
    if (REPLAY) { const Dec *d = lookup(t, 'A'); if (d) t->allocfail = d->param; }
    else if (MODE == M_PRINT && PL->prop == "P17" && RR.p(0.3)) { t->allocfail = 1 + RR.below(3); rec(t, 'A', t->allocfail); }
    os.width(c.width);
    t->incall = 1;
    int caught = 0;
    try { QUIET = 0; OPS[k.op].pr(k.a, os); QUIET = 1; } catch (...) { QUIET = 1; caught = 1; }
    t->incall = 0;
    exc += caught;
    cr.status = caught ? 2 : 1; cr.acc = t->acc; cr.textend = S->textlen[t->idx]; cr.state = os.rdstate(); cr.caught = caught; cr.allocs = t->allocs;
    cr.flagsbad = (os.flags() != f0) | (os.precision() != p0) << 1 | (os.fill() != l0) << 2 | !(os.getloc() == o0) << 3 | (os.exceptions() != e0) << 4 | (os.rdbuf() != &sink) << 5 | (os.tie() != 0) << 6;
    os.flags(f0); os.precision(p0); os.fill(l0);
    if (cr.flagsbad & 8) os.imbue(o0);
    if (cr.flagsbad & 32) os.rdbuf(&sink);
  }
  try { QUIET = 0; os.flush(); QUIET = 1; } catch (...) { QUIET = 1; exc++; }
  S->sstate[t->idx] = os.rdstate(); S->sexc[t->idx] = exc;
}
static void *thread_main(void *v)
{
  Th *t = (Th *)v;
  T = t; QUIET = 1;
  fwait(&t->go); t->go = 0;
  if (MODE == M_INIT) exec_life(t);
  else if (MODE == M_PRINT || MODE == M_PRINTTHREADS) exec_stream(t);
  else
    for (size_t i = 0; i < PL->calls.size(); i++) if (PL->calls[i].th == t->idx) exec_call(t, PL->calls[i]);
  QUIET = 1;
  t->state = 1; t->id = -1; t->acc = 0;
  leave(t);
  return 0;
}
// runs in the child
static void run_child()
{
  struct rlimit rl = {20, 20}; setrlimit(RLIMIT_CPU, &rl);
  struct rlimit nc = {0, 0}; setrlimit(RLIMIT_CORE, &nc);
  alarm(60);
  ALLDONE = 0; POLLS = 0; NEXTINTR = 0; PARKED = 0; PARKEND = 0;
  DECp = new std::map<u64, std::vector<Dec> >;
  for (size_t i = 0; i < PL->decs.size(); i++) (*DECp)[((u64)(u32)PL->decs[i].th << 32) | (u32)PL->decs[i].id].push_back(PL->decs[i]);
  if (MODE != M_INIT) ensure_init();
  STACKPTS = MODE == M_INTERRUPT || MODE == M_ABANDON || MODE == M_FPENV || MODE == M_ROUND || MODE == M_GARBAGE || MODE == M_UPDATE;
  for (int i = 0; i < PL->nth; i++) {
    Th &t = TH[i]; memset(&t, 0, sizeof t);
    t.idx = i; t.id = -1; t.stklo = (uintptr_t)STK[i]; t.stksz = STKSZ; t.round = FE_TONEAREST; t.fpctl = t.fpwant = 0x1f80; t.track = MODE == M_FLIP || MODE == M_CORRUPT;
    if (i < (int)PL->streams.size()) t.sc = PL->streams[i];
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, STK[i], STKSZ);
    if (pthread_create(&t.pt, &at, thread_main, &t)) { S->outcome = 3; snprintf(S->detail, sizeof S->detail, "pthread_create"); _exit(0); }
  }
  fset(&TH[PL->start % PL->nth].go);
  fwait(&ALLDONE);
  if (MODE == M_SHARED) for (int i = 0; i < NSHARED; i++) if (memcmp(SHARED[i].now, SHARED[i].was, sizeof SHARED[i].now)) fin("operand-changed", "an operation changed one of its constant operands (0x%llx)", (unsigned long long)SHARED[i].w);
  S->outcome = 1;
  _exit(0);
}
static bool spawn(int *sig)
{
  S->outcome = 0; S->ntrace = 0; S->cls[0] = S->detail[0] = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(5); }
  if (p == 0) { run_child(); _exit(9); }
  int st;
  while (waitpid(p, &st, 0) < 0) if (errno != EINTR) { perror("waitpid"); exit(5); }
  *sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
  if (S->outcome == 3) { fprintf(stderr, "%s\n", S->detail); exit(6); }
  if (!*sig && !S->outcome) { *sig = 1000 + WEXITSTATUS(st); } // exit() inside an operation
  return true;
}

// ------------------------------------------------------------------ what a call does alone, in a pristine process
struct Alone { bool ok; u64 r[4]; u32 acc, allocs; u64 tables; };
static Alone run_alone(const Call &c, bool flip)
{
  Alone A; memset(&A, 0, sizeof A);
  Plan p; p.nth = 1;
  Call k = c; k.id = 0; k.th = 0;
  if (!flip) memset(k.flip, 0, sizeof k.flip);
  p.calls.push_back(k);
  const Plan *sp = PL; Mode sm = MODE; bool srep = REPLAY; Cfg sc = CF;
  PL = &p; REPLAY = true; MODE = MODE == M_FLIP || MODE == M_CORRUPT ? MODE : M_THREADS; CF.stepcap = 2000000;
  memset(&S->res[0], 0, sizeof S->res[0]);
  int sig; spawn(&sig);
  A.ok = !sig && S->outcome == 1 && S->res[0].status == 1;
  memcpy(A.r, S->res[0].r, sizeof A.r); A.acc = S->res[0].acc; A.allocs = S->res[0].allocs; A.tables = S->res[0].tables;
  PL = sp; MODE = sm; REPLAY = srep; CF = sc;
  return A;
}
static std::string AloneText(const Plan &q, int th, std::vector<int> &ends, bool &ok)
{
  Plan p; p.nth = 1; p.prop = q.prop;
  for (size_t i = 0; i < q.calls.size(); i++) if (q.calls[i].th == th) { Call k = q.calls[i]; k.th = 0; p.calls.push_back(k); }
  StreamCfg c = q.streams[th]; c.chunk = 0; c.failat = -1; c.exc = 0; c.loc &= 1;
  p.streams.push_back(c);
  const Plan *sp = PL; bool srep = REPLAY; Cfg sc = CF;
  PL = &p; REPLAY = true; CF.stepcap = 2000000;
  S->textlen[0] = 0;
  int sig; spawn(&sig);
  ok = !sig && S->outcome == 1 && S->textlen[0] < TEXTMAX;
  std::string t(S->text[0], ok ? S->textlen[0] : 0);
  ends.clear();
  for (size_t i = 0; i < p.calls.size(); i++) { if (S->res[p.calls[i].id].status != 1) ok = false; ends.push_back(S->res[p.calls[i].id].textend); }
  PL = sp; REPLAY = srep; CF = sc;
  return t;
}

// ------------------------------------------------------------------ judging a run
struct Verdict { std::string cls, detail; Verdict() {} Verdict(const std::string &c, const std::string &d) : cls(c), detail(d) {} bool bad() const { return !cls.empty(); } };
static std::string hexs(const u64 *r) { char b[100]; snprintf(b, sizeof b, "%llx/%llx/%llx/%llx", (unsigned long long)r[0], (unsigned long long)r[1], (unsigned long long)r[2], (unsigned long long)r[3]); return b; }
static Verdict judge(const Plan &p, int sig, const std::vector<Alone> &al, const std::vector<std::string> &texts)
{
  Mode m = mode_of(p.prop);
  if (sig && m == M_INIT && sig < 1000) { char b[80]; snprintf(b, sizeof b, "the program dies with signal %d during initialisation, main or exit", sig); return Verdict(sig == SIGXCPU || sig == SIGKILL || sig == SIGALRM ? "hang" : "crash", b); }
  if (sig) { char b[80]; snprintf(b, sizeof b, sig >= 1000 ? "the process exits (%d) inside an operation" : "the process dies with signal %d", sig >= 1000 ? sig - 1000 : sig); return Verdict(sig == SIGXCPU || sig == SIGKILL || sig == SIGALRM ? "hang" : "crash", b); }
  if (S->outcome == 2) return Verdict(S->cls, S->detail);
  if (m == M_PRINT || m == M_PRINTTHREADS) {
    for (int t = 0; t < p.nth; t++) {
      const std::string &want = texts[t];
      std::string got(S->text[t], std::min(S->textlen[t], (int)TEXTMAX));
      char b[300];
      if (p.prop == "P17") {
        for (size_t i = 0; i < p.calls.size(); i++) if (p.calls[i].th == t && S->res[p.calls[i].id].flagsbad) { int f = S->res[p.calls[i].id].flagsbad; return Verdict("format-state", "printing " + callname(p.calls[i]) + " changed the stream's" + (f & 1 ? " flags" : "") + (f & 2 ? " precision" : "") + (f & 4 ? " fill" : "") + (f & 8 ? " locale" : "") + (f & 16 ? " exception mask" : "") + (f & 32 ? " buffer" : "") + (f & 64 ? " tie" : "")); }
        continue;
      }
      if (p.prop == "P16") {
        if (got.size() > want.size() || want.compare(0, got.size(), got)) { snprintf(b, sizeof b, "the output received %d bytes that are not a prefix of the fault-free text (%d bytes)", (int)got.size(), (int)want.size()); return Verdict("not-prefix", b); }
        if (got.size() < want.size() && !(S->sstate[t] & (std::ios::badbit | std::ios::failbit)) && !S->sexc[t]) { snprintf(b, sizeof b, "%d of %d bytes reached the output but the stream reports success", (int)got.size(), (int)want.size()); return Verdict("silent-loss", b); }
        continue;
      }
      if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) k++; snprintf(b, sizeof b, "thread %d printed text differing at byte %d (%d bytes, alone %d)", t, (int)k, (int)got.size(), (int)want.size()); return Verdict("text", b); }
    }
    return Verdict();
  }
  for (size_t i = 0; i < p.calls.size(); i++) {
    const Call &c = p.calls[i]; const CallRes &r = S->res[c.id]; const Alone &a = al[i];
    if (!r.status || !a.ok || r.status == 3) continue;
    if (r.status == 2) return Verdict("threw", callname(c) + " threw an exception");
    if (m == M_CORRUPT) { if (r.tables & ~a.tables & (1ull << 63)) return Verdict("outside-object", callname(c) + " read outside every object of the program"); if (r.acc > 32 * a.acc + 20000) { char b[80]; snprintf(b, sizeof b, " took %u steps", r.acc); return Verdict("slow", callname(c) + b); } continue; }
    if (memcmp(r.r, a.r, sizeof r.r)) return Verdict("wrong-result", callname(c) + " returned " + hexs(r.r) + ", alone " + hexs(a.r));
    if (r.errno_bad && m == M_INTERRUPT && !(OPS[c.op].flags & F_FP)) return Verdict("errno", callname(c) + " changed errno");
    if (r.round_bad) return Verdict("rounding-mode", callname(c) + (m == M_FPENV ? " left another floating-point mode" : " left another rounding mode"));
    if (m == M_FLIP && (r.tables & ~a.tables)) return Verdict("outside-table", callname(c) + " read outside its table");
  }
  if (m == M_STALL)
    for (size_t i = 0; i < p.calls.size(); i++) {
      const Call &c = p.calls[i];
      if (S->res[c.id].status == 1 && al[i].ok && S->res[c.id].acc > 4 * al[i].acc + 1000) { char b[120]; snprintf(b, sizeof b, " took %u steps, alone %u", S->res[c.id].acc, al[i].acc); return Verdict("slow", callname(c) + b); }
    }
  if (m == M_STALL || m == M_THREADS || m == M_INTERRUPT || m == M_ABANDON || m == M_SHARED)
    for (size_t i = 0; i < p.calls.size(); i++) {
      const Call &c = p.calls[i];
      if (c.th < 0 || !al[i].ok) continue;
      if (!S->res[c.id].status && TH[0].idx == 0 && !S->stalls) return Verdict("lost", callname(c) + " never finished");
    }
  return Verdict();
}

// ------------------------------------------------------------------ generating
static u64 gen_pos(Rng &r, int bits, int es)
{
  u64 top = 1ull << (bits - 1), m = bits == 64 ? ~0ull : (1ull << bits) - 1, v;
  switch (r.below(10)) {
  case 0: v = 0; break;
  case 1: v = top; break;
  case 2: v = r.p(0.5) ? top - 1 - r.below(2) : top + 1 + r.below(2); break;
  case 3: v = r.p(0.5) ? 1 + r.below(2) : m - r.below(2); break;
  case 4: v = (top >> 1) + r.below(3) - 1; if (r.p(0.3)) v = (m + 1 - v) & m; break;
  default: v = r.next() & m;
  }
  int64_t s = (int64_t)(v << (64 - bits)) >> (64 - bits);
  return (u64)s;
}
static u64 gen_emu(Rng &r, int bits, int expb)
{
  int fb = bits - 1 - expb; u64 e, f, s = r.below(2), em = (1ull << expb) - 1, fm = (1ull << fb) - 1, bias = em >> 1;
  switch (r.below(10)) {
  case 0: e = 0; f = 0; break;
  case 1: e = em; f = r.p(0.5) ? 0 : 1ull << (fb - 1); break;
  case 2: e = 0; f = r.next() & fm; break;
  case 3: e = bias; f = r.below(2); break;
  case 4: e = em - 1; f = r.p(0.5) ? fm : r.next() & fm; break;
  case 5: case 6: e = r.next() & em; f = r.next() & fm; break;
  default: e = bias + r.below(9) - 4; e &= em; f = r.next() & fm;
  }
  return s << (bits - 1) | e << fb | f;
}
static u64 gen_int(Rng &r)
{
  static const int sp[] = {0, 1, -1, 2, 3, 7, -8, 100, 127, 128, 255, 256, 2147483647, -2147483647, 16777217, 33554435, 123456789, 1 << 30};
  if (r.p(0.5)) return (u64)(int64_t)sp[r.below(sizeof sp / sizeof *sp)];
  int k = r.below(31); return (u64)(int64_t)(int)((r.next() & ((1ull << k) | ((1ull << k) - 1))) * (r.p(0.5) ? 1 : -1));
}
static u64 gen_arg(Rng &r, char k, const OpDef &o)
{
  switch (k) {
  case 'p': return gen_pos(r, o.bits, o.es);
  case 'q': return gen_emu(r, o.bits, o.es);
  case 'f': return gen_emu(r, 32, 8);
  case 'd': return r.p(0.6) ? of_d((double)f_of(gen_emu(r, 32, 8))) : gen_emu(r, 64, 11);
  case 'i': return gen_int(r);
  case 'h': return gen_emu(r, 16, 5);
  default: return r.next();
  }
}
// an operand resembling another one: a cache that looks at part of an operand mistakes one for the other
static u64 relate(Rng &r, u64 v, char k, const OpDef &o)
{
  int n = k == 'p' || k == 'q' ? o.bits : k == 'd' ? 64 : k == 'h' ? 16 : k == 'n' ? 4 : 32;
  u64 m = n == 64 ? ~0ull : (1ull << n) - 1, w = v & m;
  switch (r.below(6)) {
  case 0: w ^= 1ull << r.below(n); break;
  case 1: w += 1ull << r.below(n); break;
  case 2: w = 0 - w; break;
  case 3: w = ~w; break;
  case 4: { int h = 1 + r.below(n - 1); u64 lo = (1ull << h) - 1; w = (w & lo) | (r.next() & ~lo); break; }
  default: { int h = 1 + r.below(n - 1); u64 lo = (1ull << h) - 1; w = (w & ~lo) | (r.next() & lo); }
  }
  w &= m;
  if (k == 'p') return (u64)((int64_t)(w << (64 - n)) >> (64 - n));
  if (k == 'i') { int64_t x = (int64_t)(int32_t)(u32)w; if (x == -2147483647 - 1) x = 5; return (u64)x; }
  return w;
}
struct UCall { Call c; Alone a; };
struct Cluster { std::vector<UCall> v; };
static std::vector<int> eligible(const std::string &prop)
{
  std::vector<int> e;
  for (size_t i = 0; i < OPS.size(); i++) {
    unsigned f = OPS[i].flags; bool ok;
    bool pr = (f & F_PRINT) != 0;
    if (prop == "P08") ok = (f & F_TAB) && !pr; else if (prop == "P09") ok = (f & F_TPL) && !pr; else if (prop == "P10" || prop == "P22" || prop == "P27" || prop == "P29") ok = true; else if (prop == "P28") ok = (f & F_UPD) != 0;
    else if (prop == "P12") ok = !(f & F_FP) && !pr; else if (prop == "P21") ok = !(f & F_FP) && !pr && !((f & F_TAB) && (OPS[i].op == "fromf" || OPS[i].op == "fromd" || OPS[i].op == "toi")); else if (prop == "P15") ok = (f & F_TBLOP) != 0; else if (prop == "P23") ok = OPS[i].sig.find('p') != std::string::npos && !pr; else if (prop == "P16" || prop == "P17" || prop == "P18" || prop == "P25") ok = pr; else ok = !pr;
    if ((f & F_LONG) && prop != "P26") ok = false;
    if (ok) e.push_back(i);
  }
  return e;
}
static Cluster gen_cluster(Rng &r, const std::string &prop, const std::vector<int> &el, int n, double fresh = 0.2)
{
  Cluster cl;
  std::map<std::string, std::vector<int> > by;
  for (size_t i = 0; i < el.size(); i++) by[OPS[el[i]].type].push_back(el[i]);
  std::vector<std::string> types; for (std::map<std::string, std::vector<int> >::iterator it = by.begin(); it != by.end(); ++it) types.push_back(it->first);
  std::vector<int> ops; int nt = r.p(0.6) ? 1 : r.p(0.7) ? 2 : 4;
  for (int i = 0; i < nt; i++) { const std::vector<int> &o = by[types[r.below(types.size())]]; ops.insert(ops.end(), o.begin(), o.end()); }
  if (r.p(0.35)) { std::vector<int> few; int k = 1 + r.below(3); for (int i = 0; i < k; i++) few.push_back(ops[r.below(ops.size())]); ops = few; }
  std::map<std::string, std::vector<u64> > pool; // operands are shared between the calls of a cluster
  for (int i = 0; i < n; i++) {
    UCall u; memset(&u.c, 0, sizeof u.c);
    u.c.op = ops[r.below(ops.size())];
    const OpDef &o = OPS[u.c.op];
    for (size_t k = 0; k < o.sig.size(); k++) {
      char key[16]; snprintf(key, sizeof key, "%c%d.%d", o.sig[k], o.sig[k] == 'p' || o.sig[k] == 'q' ? o.bits : 0, o.sig[k] == 'q' ? o.es : 0);
      std::vector<u64> &pv = pool[key];
      if (pv.size() < 3 || r.p(fresh)) pv.push_back(!pv.empty() && r.p(0.35) ? relate(r, pv[r.below(pv.size())], o.sig[k], o) : gen_arg(r, o.sig[k], o));
      u.c.a[k] = pv[r.p(0.3) ? pv.size() - 1 - r.below(std::min<size_t>(pv.size(), 3)) : r.below(pv.size())];
    }
    if (o.flags & F_PRINT) u.c.a[5] = r.below(3);
    if (prop == "P15" && o.bits < 16 && o.bits > 8) for (size_t k = 0; k < o.sig.size(); k++) if (o.sig[k] == 'p') u.c.flip[k] = (r.p(0.3) ? (0xffffull << o.bits) : r.next() << o.bits) & 0xffff;
    // the whole stored word, wider than the format or not
    if (prop == "P23") for (size_t k = 0; k < o.sig.size(); k++) if (o.sig[k] == 'p' && r.p(0.8)) u.c.flip[k] = r.p(0.5) ? 1ull << r.below(32) : r.p(0.5) ? (r.next() & 0xffffffffull) << o.bits : r.next() & 0xffffffffull;
    cl.v.push_back(u);
  }
  return cl;
}
static StreamCfg gen_stream(Rng &r, const std::string &prop, int approx)
{
  StreamCfg c;
  c.flags = r.below(3) | (r.p(0.05) ? 3 : 0);
  if (r.p(0.5)) c.flags |= (int)(r.next() & 0xFFC) & (r.p(0.5) ? 0xFFC : (1 << (2 + r.below(10))));
  if ((c.flags & 192) == 192) c.flags &= ~64;
  if (!r.p(0.15)) c.flags &= ~2048;
  c.prec = r.p(0.6) ? 6 : r.below(12); c.width = r.p(0.7) ? 0 : r.below(40); c.fill = r.p(0.6) ? ' ' : "*0_#"[r.below(4)];
  static const int chunks[] = {0, 0, 1, 2, 3, 7, 16, 64, 512};
  c.chunk = chunks[r.below(9)];
  c.loc = prop == "P25" ? (r.p(0.4) ? 1 : 0) | (r.p(0.5) ? 2 : r.p(0.5) ? 4 : 6) : r.p(0.15) ? 1 : 0;
  if (prop != "P18" && prop != "P25") {
    c.exc = r.p(0.5) ? 0 : 1 + r.below(3);
    if (prop == "P16" || r.p(0.6)) { c.failat = r.below(approx + 2); c.failkind = r.below(4); }
  }
  // libstdc++ flushes a unitbuf stream from a destructor: an error that has to throw there ends the process whatever is printed
  if (c.exc || (c.failat >= 0 && (c.failkind == 1 || c.failkind == 2))) c.flags &= ~2048;
  return c;
}

// ------------------------------------------------------------------ plan text
static int op_index(const std::string &t, const std::string &o) { for (size_t i = 0; i < OPS.size(); i++) if (OPS[i].type == t && OPS[i].op == o) return i; return -1; }
static std::string plan_text(const Plan &p)
{
  std::ostringstream o;
  o << "PROP " << p.prop << "\nTHREADS " << p.nth << "\nSTART " << p.start << "\n";
  if (!p.order.empty()) { o << "ORDER"; for (size_t i = 0; i < p.order.size(); i++) o << " " << p.order[i]; o << "\n"; }
  if (p.llen) o << "LONG " << p.lseed << " " << p.llen << " " << p.lfault << "\n";
  for (size_t i = 0; i < p.streams.size(); i++) { const StreamCfg &c = p.streams[i]; o << "STREAM " << i << " " << c.flags << " " << c.prec << " " << c.width << " " << c.fill << " " << c.exc << " " << c.chunk << " " << c.failat << " " << c.failkind << " " << c.loc << "\n"; }
  for (size_t i = 0; i < p.calls.size(); i++) {
    const Call &c = p.calls[i];
    o << "CALL " << c.id << " " << c.th << " " << OPS[c.op].type << " " << OPS[c.op].op << std::hex;
    for (int k = 0; k < 6; k++) o << " " << c.a[k];
    for (int k = 0; k < 6; k++) o << " " << c.flip[k];
    o << std::dec << "\n";
  }
  for (size_t i = 0; i < p.decs.size(); i++) { const Dec &d = p.decs[i]; o << "D " << d.th << " " << d.id << " " << d.acc << " " << d.kind << " " << d.param << "\n"; }
  return o.str();
}
static bool parse_plan(std::istream &in, Plan &p)
{
  std::string l;
  while (std::getline(in, l)) {
    std::istringstream s(l); std::string k; s >> k;
    if (k == "PROP") s >> p.prop; else if (k == "THREADS") s >> p.nth; else if (k == "START") s >> p.start; else if (k == "LONG") s >> p.lseed >> p.llen >> p.lfault; else if (k == "ORDER") { int u; while (s >> u) p.order.push_back(u); }
    else if (k == "STREAM") { size_t i; StreamCfg c; s >> i >> c.flags >> c.prec >> c.width >> c.fill >> c.exc >> c.chunk >> c.failat >> c.failkind >> c.loc; if (p.streams.size() <= i) p.streams.resize(i + 1); p.streams[i] = c; }
    else if (k == "CALL") { Call c; memset(&c, 0, sizeof c); std::string t, o; s >> c.id >> c.th >> t >> o >> std::hex; for (int i = 0; i < 6; i++) s >> c.a[i]; for (int i = 0; i < 6; i++) s >> c.flip[i]; c.op = op_index(t, o); if (c.op < 0 || !s) return false; p.calls.push_back(c); }
    else if (k == "D") { Dec d; std::string q; s >> d.th >> d.id >> d.acc >> q >> d.param; d.kind = q[0]; if (!s) return false; p.decs.push_back(d); }
    else if (k == "END") break;
  }
  return p.nth >= 1 && p.nth <= MAXTH;
}

// ------------------------------------------------------------------ histories (P10)
static const std::vector<UCall> *HU; static const std::vector<int> *HSEQ;
// runs in a child: every call must return what it returns alone
static void hist_child()
{
  struct rlimit rl = {40, 40}; setrlimit(RLIMIT_CPU, &rl);
  struct rlimit nc = {0, 0}; setrlimit(RLIMIT_CORE, &nc);
  alarm(120);
  TABLEWATCH = true;
  for (size_t i = 0; i < HSEQ->size(); i++) {
    const UCall &u = (*HU)[(*HSEQ)[i]];
    u64 r[4] = {0, 0, 0, 0};
    S->badidx = i;
    try { run_op(OPS[u.c.op], u.c.a, r); } catch (...) { snprintf(S->cls, sizeof S->cls, "threw"); S->outcome = 2; _exit(0); }
    S->hist++;
    if (u.a.ok && memcmp(r, u.a.r, sizeof r)) { memcpy(S->badval, r, sizeof r); snprintf(S->cls, sizeof S->cls, "wrong-result"); S->outcome = 2; _exit(0); }
    if (S->tblbad) { snprintf(S->cls, sizeof S->cls, "table-modified"); S->outcome = 2; _exit(0); }
  }
  if (HSEQ->size() >= 64 || (HSEQ->size() & 7) == 3)
    for (size_t i = 0; i < SNAPp->size(); i++) if (memcmp((void *)(*SNAPp)[i].first.lo, &(*SNAPp)[i].second[0], (*SNAPp)[i].second.size())) { snprintf(S->cls, sizeof S->cls, "table-modified"); S->outcome = 2; _exit(0); }
  S->outcome = 1; _exit(0);
}
static Verdict hist_run(const std::vector<UCall> &u, const std::vector<int> &seq)
{
  HU = &u; HSEQ = &seq;
  S->outcome = 0; S->tblbad = 0; S->cls[0] = 0; S->badidx = 0;
  fflush(stdout);
  pid_t p = fork(); if (p < 0) { perror("fork"); exit(5); }
  if (p == 0) { hist_child(); }
  int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) exit(5);
  if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) return Verdict("hang", callname(u[seq[S->badidx]].c) + " does not finish"); return Verdict("crash", "dies on " + callname(u[seq[S->badidx]].c)); }
  if (S->outcome == 1) return Verdict();
  if (S->outcome == 0) return Verdict("crash", "exits on " + callname(u[seq[S->badidx]].c));
  const UCall &c = u[seq[S->badidx]];
  if (!strcmp(S->cls, "wrong-result")) return Verdict(S->cls, callname(c.c) + " returned " + hexs(S->badval) + " after this history, alone " + hexs(c.a.r));
  return Verdict(S->cls, callname(c.c) + (S->tblbad ? " wrote to a table" : " in this history"));
}
// Wide histories: many distinct calls, executed in one order by one process and in another order by a second one; the results of
// every call must agree. A disagreement is then settled by running that call alone.
struct WideRes { u64 r[4]; };
enum { MAXWIDE = 24000 };
static WideRes *WR;
static int wide_run(const std::vector<UCall> &u, const std::vector<int> &seq, WideRes *out)
{
  S->outcome = 0; S->tblbad = 0; S->badidx = 0; S->cls[0] = 0;
  fflush(stdout);
  pid_t p = fork(); if (p < 0) { perror("fork"); exit(5); }
  if (p == 0) {
    struct rlimit rl = {40, 40}, nc = {0, 0}; setrlimit(RLIMIT_CPU, &rl); setrlimit(RLIMIT_CORE, &nc);
    alarm(120);
    TABLEWATCH = true;
    for (size_t i = 0; i < seq.size(); i++) {
      u64 r[4] = {0, 0, 0, 0};
      S->badidx = i;
      try { run_op(OPS[u[seq[i]].c.op], u[seq[i]].c.a, r); } catch (...) { S->outcome = 4; _exit(0); }
      memcpy(out[seq[i]].r, r, sizeof r);
      S->hist++;
      if (S->tblbad) { S->outcome = 2; _exit(0); }
    }
    for (size_t i = 0; i < SNAPp->size(); i++) if (memcmp((void *)(*SNAPp)[i].first.lo, &(*SNAPp)[i].second[0], (*SNAPp)[i].second.size())) { S->outcome = 2; _exit(0); }
    S->outcome = 1; _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) exit(5);
  return S->outcome == 1 ? -1 : S->badidx; // position of the call that ended it
}
// true: sq and u hold a history whose last call is wrong
static bool wide_history(Rng &r, const std::vector<int> &el, std::vector<UCall> &u, std::vector<int> &sq, u64 *h)
{
  u.clear();
  size_t n = r.p(0.5) ? 500 + r.below(3000) : 4000 + r.below(MAXWIDE - 6000);
  double fresh = r.p(0.5) ? 0.5 : 0.9;
  while (u.size() < n) { Cluster c = gen_cluster(r, "P10", el, 20 + r.below(r.p(0.5) ? 60 : 1500), fresh); for (size_t j = 0; j < c.v.size(); j++) { UCall x = c.v[j]; memset(&x.a, 0, sizeof x.a); u.push_back(x); } }
  if (u.size() > MAXWIDE) u.resize(MAXWIDE);
  for (size_t i = 0; i < u.size(); i += 97) { *h = mix(*h, u[i].c.op); *h = mix(*h, u[i].c.a[0]); }
  std::vector<int> s[2];
  for (size_t i = 0; i < u.size(); i++) s[0].push_back(i);
  s[1] = s[0];
  if (r.p(0.3)) std::reverse(s[1].begin(), s[1].end()); else for (size_t i = s[1].size(); i > 1; i--) std::swap(s[1][i - 1], s[1][r.below(i)]);
  for (int o = 0; o < 2; o++)
    for (int tries = 0;; tries++) {
      int k = wide_run(u, s[o], WR + o * MAXWIDE);
      if (k < 0) break;
      if (S->outcome == 2) { sq.assign(s[o].begin(), s[o].begin() + k + 1); return true; }
      int bad = s[o][k];
      u[bad].a = run_alone(u[bad].c, false);
      if (u[bad].a.ok) { sq.assign(s[o].begin(), s[o].begin() + k + 1); return true; }
      if (tries > 40) return false; // too many calls fail even alone
      for (int q = 0; q < 2; q++) s[q].erase(std::find(s[q].begin(), s[q].end(), bad));
    }
  for (size_t i = 0; i < s[0].size(); i++) {
    int x = s[0][i];
    if (!memcmp(WR[x].r, WR[MAXWIDE + x].r, sizeof WR[x].r)) continue;
    u[x].a = run_alone(u[x].c, false);
    if (!u[x].a.ok) continue;
    int o = memcmp(WR[x].r, u[x].a.r, sizeof u[x].a.r) ? 0 : 1;
    std::vector<int>::iterator e = std::find(s[o].begin(), s[o].end(), x);
    sq.assign(s[o].begin(), e + 1);
    return true;
  }
  return false;
}
static std::vector<int> hist_minimise(const std::vector<UCall> &u, std::vector<int> seq, const std::string &cls)
{
  if (S->badidx + 1 < (int)seq.size()) { std::vector<int> c(seq.begin(), seq.begin() + S->badidx + 1); if (hist_run(u, c).cls == cls) seq = c; }
  struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  size_t n = 2; int tests = 0;
  while (seq.size() >= 1) {
    size_t ch = std::max<size_t>(1, seq.size() / n); bool red = false;
    for (size_t i = 0; i < seq.size();) {
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if (++tests > 1500 || t1.tv_sec - t0.tv_sec > 15) return seq;
      std::vector<int> c(seq.begin(), seq.begin() + i); if (i + ch < seq.size()) c.insert(c.end(), seq.begin() + i + ch, seq.end());
      if (!c.empty() && hist_run(u, c).cls == cls) { if (S->badidx + 1 < (int)c.size()) c.resize(S->badidx + 1); seq = c; red = true; if (n > 2) n--; } else i += ch;
    }
    if (!red) { if (ch == 1) break; n = std::min(seq.size(), n * 2); }
  }
  return seq;
}

// ------------------------------------------------------------------ long histories (P29)
enum { LEAKLIMIT = 256 * 1024 };
static int count_dir(const char *d) { int n = 0; DIR *x = opendir(d); if (!x) return 0; while (readdir(x)) n++; closedir(x); return n; }
static void leak_child(const Plan &p)
{
  struct rlimit rl = {80, 80}, nc = {0, 0}; setrlimit(RLIMIT_CPU, &rl); setrlimit(RLIMIT_CORE, &nc);
  alarm(200);
  Rng r(p.lseed); LR = Rng(p.lseed ^ 77);
  int fd0 = count_dir("/proc/self/fd"), th0 = count_dir("/proc/self/task");
  std::vector<u64> old;
  int64_t half = 0; int len = p.llen, lim = p.llen * 40;
  for (int i = 0; i < len; i++) {
    if (i == len / 2) half = LIVE;
    const OpDef &o = OPS[p.calls[r.below(p.calls.size())].op];
    u64 a[6] = {0, 0, 0, 0, 0, 0}, w[4];
    for (size_t k = 0; k < o.sig.size(); k++) a[k] = gen_arg(r, o.sig[k], o);
    if (o.flags & F_PRINT) a[5] = r.below(3);
    S->badidx = i; S->badval[0] = &o - &OPS[0];
    bool f = (p.lfault & 1) && r.p(0.3); MEMFAIL = (p.lfault & 2) && r.p(0.5) ? (int)r.below(24) : -1;
    LFAIL = f ? 1 + r.below(3) : 0;
    S->outcome = 5;
    LEAKON = true;
    try { run_op(o, a, w); } catch (...) { }
    LEAKON = false;
    S->outcome = 0;
    S->hist++;
    if (LIVE > LEAKLIMIT) { snprintf(S->cls, sizeof S->cls, "accumulates"); S->badval[1] = LIVE; S->outcome = 2; _exit(0); }
    // still growing: go on until the limit is passed or the growth stops
    if (i == len - 1 && LIVE > half + 512 && len < lim) len *= 2;
  }
  S->allocs += LALLOCS; S->allocfails += LFAILS;
  if (count_dir("/proc/self/fd") > fd0 + 4 || count_dir("/proc/self/task") > th0 + 4) { snprintf(S->cls, sizeof S->cls, "handles"); S->outcome = 2; _exit(0); }
  S->badval[1] = LIVE;
  S->outcome = 1; _exit(0);
}
static Verdict leak_run(const Plan &p)
{
  S->outcome = 0; S->cls[0] = 0; S->badidx = 0;
  fflush(stdout);
  pid_t c = fork(); if (c < 0) { perror("fork"); exit(5); }
  if (c == 0) leak_child(p);
  int st; while (waitpid(c, &st, 0) < 0) if (errno != EINTR) exit(5);
  if (S->outcome != 2) return Verdict(); // an operation that crashes on its operands is another property's business
  char b[200];
  if (!strcmp(S->cls, "handles")) { snprintf(b, sizeof b, "open descriptors or threads remain after %d operations", p.llen); return Verdict("handles", b); }
  snprintf(b, sizeof b, "after %d operations the library holds %lld bytes of memory, the last one %s.%s", S->badidx + 1, (long long)S->badval[1], OPS[S->badval[0]].type.c_str(), OPS[S->badval[0]].op.c_str());
  return Verdict(S->cls, b);
}

// ------------------------------------------------------------------ search
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void put_viol(const std::string &dir, int worker, int k, const Plan &p, const Verdict &v, u64 runseed)
{
  char f[300]; snprintf(f, sizeof f, "%s/viol-%d-%d.plan", dir.c_str(), worker, k);
  FILE *o = fopen(f, "w"); fprintf(o, "%s", plan_text(p).c_str()); fclose(o);
  printf("VIOL %s %llu %s :: %s\n", f, (unsigned long long)runseed, v.cls.c_str(), v.detail.c_str()); fflush(stdout);
}
static int search(const std::string &prop, u64 seed, int worker, double budget, int maxruns, const std::string &dir)
{
  MODE = mode_of(prop);
  if (MODE != M_INIT) ensure_init();
  std::vector<int> el = eligible(prop);
  double t0 = now();
  u64 runs = 0, dropped = 0, ucalls = 0, nontriv = 0, wide = 0; std::set<u64> hashes; int viols = 0; std::set<u64> opsused;
  Shm tot; memset((void *)&tot, 0, sizeof tot);
  std::set<uintptr_t> carry;
  u64 chain = 1469598103934665603ull;
  for (u64 epoch = 0; viols < 2; epoch++) {
    if (now() - t0 > budget || (maxruns && (int)runs >= maxruns)) break;
    Rng r(mix(mix(seed, worker), epoch));
    bool printing = MODE == M_PRINT || MODE == M_PRINTTHREADS;
    int ncl = 24, per = 14;
    std::vector<Cluster> U;
    for (int i = 0; i < ncl; i++) {
      Cluster c = gen_cluster(r, prop, el, per), k;
      for (size_t j = 0; j < c.v.size(); j++) {
        if (MODE == M_LEAK) continue;
        if (!printing) { c.v[j].a = run_alone(c.v[j].c, false); ucalls++; if (!c.v[j].a.ok) { dropped++; continue; } }
        k.v.push_back(c.v[j]);
        opsused.insert(c.v[j].c.op);
      }
      if (k.v.size() >= 2) U.push_back(k);
    }
    if (U.empty() && MODE != M_LEAK) continue;
    std::vector<UCall> flat; for (size_t i = 0; i < U.size(); i++) flat.insert(flat.end(), U[i].v.begin(), U[i].v.end());
    int nruns = MODE == M_HISTORY ? 40 : 160;
    if (MODE == M_HISTORY) for (int w = 0; w < 4 && viols < 2; w++) {
      u64 rs = mix(mix(mix(seed, worker), epoch), 500 + w), h = rs;
      Rng q(rs); std::vector<UCall> wu; std::vector<int> sq;
      S->hist = 0;
      bool bad = wide_history(q, el, wu, sq, &h);
      runs += 2; nontriv += 2; hashes.insert(h); hashes.insert(~h); tot.hist += S->hist; wide += wu.size();
      chain = mix(chain, mix(h, S->hist));
      if (!bad) continue;
      Verdict v = hist_run(wu, sq);
      if (!v.bad()) { dropped++; continue; }
      std::vector<int> m = hist_minimise(wu, sq, v.cls);
      Verdict v2 = hist_run(wu, m);
      Plan p; p.prop = prop;
      for (size_t i = 0; i < m.size(); i++) { Call c = wu[m[i]].c; c.id = i; c.th = 0; p.calls.push_back(c); }
      put_viol(dir, worker, viols++, p, v2.bad() ? v2 : v, rs);
    }
    for (int k = 0; k < nruns && viols < 2; k++) {
      if (now() - t0 > budget || (maxruns && (int)runs >= maxruns)) break;
      u64 rs = mix(mix(mix(seed, worker), epoch), 1000 + k);
      Rng q(rs);
      memset((void *)&S->steps, 0, (char *)&S->nhot - (char *)&S->steps); S->nhot = 0;
      u64 h = 0;
      if (MODE == M_LEAK) {
        Plan p; p.prop = prop; p.lseed = q.next() >> 1; p.lfault = q.p(0.5) ? 0 : 1 + q.below(3);
        std::vector<int> ops;
        int first = el[(worker / 2 + 4 * (epoch * nruns + k)) % el.size()]; // every operation in turn, alone or among others of its type
        ops.push_back(first);
        if (q.p(0.3)) for (size_t i = 0; i < el.size(); i++) if (OPS[el[i]].type == OPS[first].type) ops.push_back(el[i]);
        p.llen = (int)(q.p(0.04) ? 200000 : ops.size() > 1 ? 40000 : 12000 + q.below(12000));
        for (size_t i = 0; i < ops.size() && i < MAXCALLS; i++) { Call c; memset(&c, 0, sizeof c); c.id = i; c.op = ops[i]; p.calls.push_back(c); h = mix(h, ops[i]); opsused.insert(ops[i]); }
        Verdict v = leak_run(p);
        runs++; hashes.insert(mix(h, p.lseed)); nontriv++;
        if (S->outcome == 5 || (!v.bad() && S->outcome != 1)) dropped++;
        if (worker == 0 && runs <= 2) { char f[300]; snprintf(f, sizeof f, "%s/sample-%d.plan", dir.c_str(), (int)runs); FILE *o = fopen(f, "w"); if (o) { fprintf(o, "%s", plan_text(p).c_str()); fclose(o); } }
        tot.hist += S->hist; tot.allocs += S->allocs; tot.allocfails += S->allocfails;
        chain = mix(chain, mix(h, S->hist));
        if (v.bad()) put_viol(dir, worker, viols++, p, v, rs);
        continue;
      }
      if (MODE == M_HISTORY) {
        std::vector<int> seq; int kind = q.below(10);
        size_t len = kind < 4 ? 2 + q.below(30) : kind < 7 ? 100 + q.below(900) : kind < 9 ? 2000 + q.below(8000) : q.p(0.3) ? 150000 + q.below(150000) : 20000 + q.below(60000);
        size_t lo = 0, n = flat.size();
        if (kind < 4 || q.p(0.4)) { n = std::min<size_t>(flat.size(), 2 + q.below(24)); lo = q.below(flat.size() - n + 1); }
        if (q.p(0.15)) { n = 1; lo = q.below(flat.size()); }
        while (seq.size() < len) { int x = lo + q.below(n); int rep = q.p(0.1) ? 1 + q.below(4) : 1; while (rep-- > 0) seq.push_back(x); }
        for (size_t i = 0; i < seq.size() && i < 400; i++) h = mix(h, seq[i]);
        Verdict v = hist_run(flat, seq);
        runs++; hashes.insert(h); nontriv++;
        if (worker == 0 && runs <= 2) { Plan sp; sp.prop = prop; for (size_t i = 0; i < seq.size() && i < 12; i++) { Call c = flat[seq[i]].c; c.id = i; sp.calls.push_back(c); } char f[300]; snprintf(f, sizeof f, "%s/sample-%d.plan", dir.c_str(), (int)runs); FILE *o = fopen(f, "w"); if (o) { fprintf(o, "# first calls of %d\n%s", (int)seq.size(), plan_text(sp).c_str()); fclose(o); } }
        tot.hist += S->hist;
        chain = mix(chain, mix(h, S->hist));
        if (v.bad()) {
          std::vector<int> m = hist_minimise(flat, seq, v.cls);
          Verdict v2 = hist_run(flat, m);
          Plan p; p.prop = prop;
          for (size_t i = 0; i < m.size(); i++) { Call c = flat[m[i]].c; c.id = i; c.th = 0; p.calls.push_back(c); }
          put_viol(dir, worker, viols++, p, v2.bad() ? v2 : v, rs);
        }
        continue;
      }
      Plan p; p.prop = prop;
      std::vector<Alone> al; std::vector<std::string> texts;
      const Cluster *c1 = &U[q.below(U.size())], *c2 = q.p(0.3) ? &U[q.below(U.size())] : c1;
      p.nth = MODE == M_THREADS || MODE == M_SHARED || MODE == M_STALL || MODE == M_PRINTTHREADS ? 2 + (q.p(0.4) ? 1 : 0) + (q.p(0.15) ? 1 : 0) : 1;
      if ((MODE == M_INTERRUPT || MODE == M_ABANDON) && q.p(0.15)) p.nth = 2;
      p.start = q.below(p.nth);
      int id = 0, nid = 0;
      bool park = (MODE == M_THREADS || MODE == M_SHARED || MODE == M_PRINTTHREADS) && q.p(MODE == M_PRINTTHREADS ? 0.15 : 0.3);
      CF.park = park ? q.below(p.nth) : -1;
      Cluster same;
      if (park && q.p(0.6)) { int x = c1->v[q.below(c1->v.size())].c.op; for (size_t i = 0; i < c1->v.size(); i++) if (c1->v[i].c.op == x) same.v.push_back(c1->v[i]); if (same.v.size() > 1) c1 = c2 = &same; }
      for (int t = 0; t < p.nth; t++) {
        int n = MODE == M_PRINT ? 1 + q.below(3) : MODE == M_PRINTTHREADS ? 1 + q.below(4) : MODE == M_ROUND || MODE == M_GARBAGE || MODE == M_ALLOC || MODE == M_FLIP || MODE == M_ABANDON || MODE == M_FPENV || MODE == M_CORRUPT || MODE == M_INIT || MODE == M_STACK || MODE == M_UPDATE ? 12 + q.below(24) : q.p(0.3) ? 1 + q.below(2) : (MODE == M_THREADS || MODE == M_SHARED || MODE == M_STALL) && q.p(0.08) ? 20 + q.below(24) : 2 + q.below(8);
        if (park) n = t == CF.park ? 1 + q.below(6) : MODE == M_PRINTTHREADS ? 6 + q.below(14) : 8 + q.below(36);
        for (int i = 0; i < n; i++) { const Cluster *c = q.p(0.5) ? c1 : c2; const UCall &u = c->v[q.below(c->v.size())]; Call k = u.c; k.id = id++; k.th = t; p.calls.push_back(k); al.push_back(u.a); }
      }
      if (MODE == M_INIT) {
        p.start = 0;
        for (int k = 0; k < NUNIT; k++) p.order.push_back(k);
        for (int k = NUNIT; k > 1; k--) std::swap(p.order[k - 1], p.order[q.below(k)]);
        for (size_t i = 0; i < p.calls.size(); i++) p.calls[i].th = q.p(0.45) ? 0 : q.p(0.6) ? 2 : 1;
        for (int k = 0; k < NUNIT; k++) h = mix(h, p.order[k]);
      }
      nid = 0;
      if (MODE == M_INTERRUPT) { nid = 2 + q.below(5); for (int i = 0; i < nid; i++) { const Cluster *c = q.p(0.6) ? c1 : c2; const UCall &u = c->v[q.below(c->v.size())]; Call k = u.c; k.id = id++; k.th = -1; p.calls.push_back(k); al.push_back(u.a); } }
      if (printing) {
        bool ok = true;
        for (int t = 0; t < p.nth; t++) {
          p.streams.push_back(gen_stream(q, prop, 20));
        }
        for (int t = 0; t < p.nth && ok; t++) { std::vector<int> ends; texts.push_back(AloneText(p, t, ends, ok)); if (p.streams[t].failat >= 0) p.streams[t].failat = q.below(texts[t].size() + 1); }
        if (!ok) { dropped++; continue; }
        memset((void *)&S->steps, 0, (char *)&S->nhot - (char *)&S->steps);
      }
      // how this run schedules
      static const double ps[] = {0.5, 0.25, 0.1, 0.03, 0.3};
      CF.psw = ps[q.below(5)]; CF.phot = 0.25 + 0.5 * q.below(2); CF.pwr = q.p(0.8) ? 0.5 : 0.9; CF.victim = q.below(p.nth); CF.victim2 = p.nth > 2 && q.p(0.4) ? (CF.victim + 1) % p.nth : -1; CF.stepcap = MODE == M_STACK ? 40000000 : 400000; CF.maxintr = nid;
      u64 tot_acc = 0; for (size_t i = 0; i < al.size(); i++) { ALONEACC[p.calls[i].id] = al[i].acc; tot_acc += al[i].acc; ALONERES[p.calls[i].id] = al[i].r[0]; ALONEOK[p.calls[i].id] = al[i].ok; }
      CF.stallat = q.p(0.7) ? 1 + q.below(60 + (q.p(0.5) ? tot_acc / 4 : 0)) : 0; CF.pstallhot = q.p(0.6) ? 0.5 : 0.1;
      if (park) { CF.psw = q.p(0.5) ? 0.005 : 0.05; CF.phot = q.p(0.5) ? 0.02 : 0.2; CF.pwr = q.p(0.5) ? 0.02 : 0.3; }
      CF.parkat = 1 + q.below(10 + (q.p(0.5) ? 60 : tot_acc / 2)); CF.parklen = q.p(0.5) ? 1 + q.below(2000) : 1u << (4 + q.below(13));
      RR = Rng(q.next());
      HOTp->clear(); if (q.p(0.7)) *HOTp = carry;
      PL = &p; REPLAY = false;
      for (int t = 0; t < MAXTH; t++) S->textlen[t] = 0;
      memset(S->res, 0, sizeof S->res);
      int sig; spawn(&sig);
      for (int i = 0; i < S->nhot; i++) if (carry.size() < 256) carry.insert(S->hot[i]);
      runs++;
      for (size_t i = 0; i < p.calls.size(); i++) h = mix(h, p.calls[i].op);
      u64 th = 0; for (int i = 0; i < S->ntrace; i++) { const Dec &d = S->trace[i]; th = mix(th, ((u64)d.th << 56) ^ ((u64)d.id << 40) ^ ((u64)d.acc << 12) ^ ((u64)d.kind << 4) ^ d.param); }
      u64 ch = 0; for (size_t i = 0; i < p.order.size(); i++) ch = mix(ch, p.order[i]);
      for (size_t i = 0; i < p.calls.size(); i++) { ch = mix(ch, p.calls[i].op * 4 + (MODE == M_INIT ? p.calls[i].th : 0)); for (int k2 = 0; k2 < 6; k2++) ch = mix(ch, p.calls[i].a[k2] ^ p.calls[i].flip[k2]); }
      for (size_t i = 0; i < p.streams.size(); i++) ch = mix(ch, mix(p.streams[i].flags * 64 + p.streams[i].chunk, p.streams[i].failat * 8 + p.streams[i].failkind));
      if (worker == 0 && runs <= 2) { Plan sp = p; for (int i = 0; i < S->ntrace; i++) sp.decs.push_back(S->trace[i]); char f[300]; snprintf(f, sizeof f, "%s/sample-%d.plan", dir.c_str(), (int)runs); FILE *o = fopen(f, "w"); if (o) { fprintf(o, "%s", plan_text(sp).c_str()); fclose(o); } }
      bool nt = false;
      if (S->switches + S->interrupts + S->rounds + S->garbage + S->stalls + S->flips + S->abandons + S->fpenvs + S->initcalls + S->exitcalls + S->sinkfail + S->sinkchunk + S->locales + S->guards + S->watches > 0 || MODE == M_ALLOC) { nontriv++; nt = true; }
      if (nt) hashes.insert(mix(th, ch));
      u64 *a = (u64 *)&tot.steps, *b = (u64 *)&S->steps; for (size_t i = 0; i < ((char *)&S->nhot - (char *)&S->steps) / 8; i++) a[i] += b[i];
      chain = mix(chain, mix(th, S->steps));
      Verdict v = judge(p, sig, al, texts);
      if (v.bad()) {
        for (int i = 0; i < S->ntrace; i++) p.decs.push_back(S->trace[i]);
        if (S->ntrace < MAXTRACE) put_viol(dir, worker, viols++, p, v, rs); else dropped++;
      }
    }
  }
  { char f[300]; snprintf(f, sizeof f, "%s/hash-%d.txt", dir.c_str(), worker); FILE *o = fopen(f, "w"); if (o) { for (std::set<u64>::iterator it = hashes.begin(); it != hashes.end(); ++it) fprintf(o, "%016llx\n", (unsigned long long)*it); fclose(o); } }
  printf("STAT {\"runs\":%llu,\"distinct\":%llu,\"nontrivial\":%llu,\"dropped\":%llu,\"alone_calls\":%llu,\"ops_used\":%llu,\"ops_eligible\":%llu,\"steps\":%llu,\"points\":%llu,\"switches\":%llu,\"interrupts\":%llu,\"rounding_changes\":%llu,\"garbage_fills\":%llu,\"stalls\":%llu,"
         "\"allocations_seen\":%llu,\"allocations_failed\":%llu,\"bit_flips\":%llu,\"shared_writes_seen\":%llu,\"lock_waits\":%llu,\"atomics_seen\":%llu,\"sink_failures\":%llu,\"sink_chunks\":%llu,\"history_calls\":%llu,\"allocation_failure_armed\":%llu,\"wide_calls\":%llu,\"parked_threads\":%llu,\"abandoned_operations\":%llu,\"fp_environment_changes\":%llu,\"initialisers_run\":%llu,\"exit_handlers_run\":%llu,\"calls_during_initialisation\":%llu,\"calls_during_exit\":%llu,\"locale_changes\":%llu,\"stack_guards\":%llu,\"update_observations\":%llu,\"shared_operands\":%llu,\"viols\":%d,\"wall\":%.2f,\"chain\":\"%016llx\"}\n",
         (unsigned long long)runs, (unsigned long long)hashes.size(), (unsigned long long)nontriv, (unsigned long long)dropped, (unsigned long long)ucalls, (unsigned long long)opsused.size(), (unsigned long long)el.size(), (unsigned long long)tot.steps, (unsigned long long)tot.points, (unsigned long long)tot.switches,
         (unsigned long long)tot.interrupts, (unsigned long long)tot.rounds, (unsigned long long)tot.garbage, (unsigned long long)tot.stalls, (unsigned long long)tot.allocs, (unsigned long long)tot.allocfails, (unsigned long long)tot.flips, (unsigned long long)tot.sharedwrites,
         (unsigned long long)tot.blocked, (unsigned long long)tot.atomics, (unsigned long long)tot.sinkfail, (unsigned long long)tot.sinkchunk, (unsigned long long)tot.hist, (unsigned long long)tot.armed, (unsigned long long)wide, (unsigned long long)tot.parks, (unsigned long long)tot.abandons, (unsigned long long)tot.fpenvs, (unsigned long long)tot.inits, (unsigned long long)tot.exits, (unsigned long long)tot.initcalls, (unsigned long long)tot.exitcalls, (unsigned long long)tot.locales, (unsigned long long)tot.guards, (unsigned long long)tot.watches, (unsigned long long)tot.shared, viols, now() - t0, (unsigned long long)chain);
  return 0;
}
static Verdict replay_plan(Plan &p, u64 *hash)
{
  MODE = mode_of(p.prop);
  if (MODE != M_INIT) ensure_init();
  *hash = 0;
  if (MODE == M_LEAK) {
    S->hist = 0;
    if (p.calls.empty()) return Verdict();
    Verdict v = leak_run(p); *hash = mix(mix(S->hist, S->badidx), v.bad() ? S->badval[1] : 0); return v;
  }
  if (MODE == M_HISTORY) {
    std::vector<UCall> u; std::vector<int> seq;
    std::map<std::string, int> known;
    for (size_t i = 0; i < p.calls.size(); i++) {
      std::string n = callname(p.calls[i]) + (OPS[p.calls[i].op].flags & F_PRINT ? (char)('0' + p.calls[i].a[5]) : ' ');
      if (!known.count(n)) { UCall x; x.c = p.calls[i]; x.a = run_alone(x.c, false); if (!x.a.ok) continue; known[n] = u.size(); u.push_back(x); }
      seq.push_back(known[n]);
    }
    Verdict v = hist_run(u, seq);
    *hash = mix(S->hist, v.bad() ? S->badval[0] : 0);
    return v;
  }
  std::vector<Alone> al; std::vector<std::string> texts;
  if (MODE == M_PRINT || MODE == M_PRINTTHREADS) {
    if ((int)p.streams.size() < p.nth) return Verdict("bad-plan", "streams");
    for (int t = 0; t < p.nth; t++) { bool ok; std::vector<int> e; texts.push_back(AloneText(p, t, e, ok)); if (!ok) return Verdict(); }
  } else
    for (size_t i = 0; i < p.calls.size(); i++) al.push_back(run_alone(p.calls[i], false));
  for (size_t i = 0; i < al.size(); i++) { ALONERES[p.calls[i].id] = al[i].r[0]; ALONEOK[p.calls[i].id] = al[i].ok; }
  memset((void *)&S->steps, 0, (char *)&S->nhot - (char *)&S->steps); S->nhot = 0;
  memset(S->res, 0, sizeof S->res);
  for (int t = 0; t < MAXTH; t++) S->textlen[t] = 0;
  CF.stepcap = MODE == M_STACK ? 40000000 : 400000; PL = &p; REPLAY = true; HOTp->clear();
  int sig; spawn(&sig);
  u64 h = sig;
  h = mix(h, S->steps); h = mix(h, S->switches); h = mix(h, S->interrupts); h = mix(h, S->outcome);
  for (size_t i = 0; i < p.calls.size(); i++) { CallRes &r = S->res[p.calls[i].id]; h = mix(h, r.status); for (int k = 0; k < 4; k++) h = mix(h, r.r[k]); h = mix(h, r.acc); }
  for (int t = 0; t < p.nth; t++) for (int i = 0; i < S->textlen[t] && i < TEXTMAX; i++) h = mix(h, S->text[t][i]);
  *hash = h;
  return judge(p, sig, al, texts);
}
int main(int argc, char **argv)
{
  signal(SIGPIPE, SIG_DFL);
  OPSp = new std::vector<OpDef>; SYMSp = new std::vector<Sym>; SNAPp = new std::vector<std::pair<Sym, std::vector<char> > >; HOTp = new std::set<uintptr_t>;
  { void (*const in[NOPUNIT])() = {init_posit1, init_posit2, init_posit3, init_positmul, init_tab, init_positf, init_unpacked, init_binary}; for (UNIT = 0; UNIT < NOPUNIT; UNIT++) in[UNIT](); }
  S = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  WR = (WideRes *)mmap(0, 2 * MAXWIDE * sizeof(WideRes), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < MAXTH; i++) STK[i] = mmap(0, STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (getenv("OPSIM_SYMS")) {
    FILE *f = fopen(getenv("OPSIM_SYMS"), "r"); char n[256]; unsigned long long a, z; int tb;
    while (f && fscanf(f, "%llx %llx %d %255s", &a, &z, &tb, n) == 4) { Sym s; s.lo = a; s.hi = a + z; s.table = tb; snprintf(s.name, sizeof s.name, "%s", n); SYMS.push_back(s); }
    if (f) fclose(f);
    for (size_t i = 0; i < SYMS.size(); i++) if (SYMS[i].table) { tbl_lo = std::min(tbl_lo, SYMS[i].lo); tbl_hi = std::max(tbl_hi, SYMS[i].hi); std::vector<char> v((char *)SYMS[i].lo, (char *)SYMS[i].hi); SNAPp->push_back(std::make_pair(SYMS[i], v)); }
  }
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "list") { for (size_t i = 0; i < OPS.size(); i++) printf("%s %s %s %u\n", OPS[i].type.c_str(), OPS[i].op.c_str(), OPS[i].sig.c_str(), OPS[i].flags); return 0; }
  if (cmd == "search" && argc >= 8) return search(argv[2], strtoull(argv[3], 0, 10), atoi(argv[4]), atof(argv[5]), atoi(argv[6]), argv[7]);
  if (cmd == "replay") { // any number of plans on stdin, separated by END
    while (std::cin.peek() != EOF) {
      Plan p;
      if (!parse_plan(std::cin, p)) { printf("RESULT bad-plan 0 ::\n"); fflush(stdout); continue; }
      u64 h; Verdict v = replay_plan(p, &h);
      printf("RESULT %s %016llx :: %s\n", v.bad() ? v.cls.c_str() : "ok", (unsigned long long)h, v.detail.c_str()); fflush(stdout);
    }
    return 0;
  }
  fprintf(stderr, "usage\n");
  return 2;
}
