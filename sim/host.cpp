// Deterministic simulator with fault injection for the directx_math library.
//
// The library under test (a shared object built from /repo by ../check.py) runs for real. What the simulator owns:
//  * threads: real threads holding a baton, so exactly one runs; who runs next is decided by the scenario,
//  * switch points: every memory access of the library (own __tsan_* runtime, engine I) or every instruction of an
//    optimised build (single-stepping, engine T); also every caller callback,
//  * blocking: futex, sleep, yield; the clock (incl. rdtsc) and the random source; the heap,
//  * the caller-supplied iterator, sink and comparison; the FP mode; placement of every argument object; leftover
//    stack, register, heap and output contents.
// One run = one fork of a pristine process + one scenario, a pure function of the seed (or of a replay file).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "host.h"
#include "gen.h"
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <poll.h>
#include <dirent.h>
#include <sched.h>
#include <sys/uio.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

// ---------------------------------------------------------------- raw system calls (libc's syscall() is a seam below)
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); return r;
}
static void fwait(volatile int* p, int v) { raw6(SYS_futex, (long)p, FUTEX_WAIT, v, 0, 0, 0); }
static void fwake(volatile int* p) { raw6(SYS_futex, (long)p, FUTEX_WAKE, 1, 0, 0, 0); }
static u64 real_ns() { timespec t; raw6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t, 0, 0, 0, 0); return t.tv_sec * 1000000000ull + t.tv_nsec; }

// ---------------------------------------------------------------- globals
static const FnDesc* T; static size_t NF;
static char ENG = 'I';                       // I instrumented, P plain, T plain + single-stepping
static u64 text_lo, text_hi; struct Seg { u8* p; size_t n; }; static std::vector<Seg> rwsegs; static size_t tls_mod = 0, tls_size = 0;
static u64 so_lo, so_hi;
enum Chk { C01 = 1, C02, C03, C04, C05, C06, C07, C08, C09, C10, C13 = 13, C14 };
static int CHK = C01;
static const u32 MX_DEFAULT = 0x1f80;

struct Shm {
  volatile int violated; char kind[48]; char detail[1400];
  u64 loghash, ilhash, points, switches, forced, ncalls, nested, blocked, callbacks, alloc_calls, alloc_failed, sink_failed, stream_faults, panics, kills, snaps, neigh, clockreads, objects, stackmax;
  u64 fired[A_NACT], planned; u64 simtime, cut;
  // reference result
  int rstatus; u32 rlen, rtext, rwret, nhot, nclone, nnext, nwrite, ncmp; u64 rpoints; int touches; u32 hot[512]; u8 val[4096], mask[4096]; char text[20000];
};
static Shm* shm;

struct Frame; struct VT;
struct FrameMem { alignas(64) u8 slots[MAXSLOT * 512]; char text[16384]; };
struct alignas(32) RB { u32 mx_in, mx_out; u16 cw_in, cw_out; u32 tf; u64 flags_out; u64 gpr; u8 ymm[32]; u32 mx_host; u16 cw_host; u64 stk; };
struct Frame {
  Frame* up; const Step* st; const FnDesc* fd; const Call* call; const Ref* ref; VT* vt; int depth; FrameMem* fm;
  void* ptr[MAXSLOT]; u64 pts, stop, limit, nextforce; const Event* ev; const Event* evend; volatile int busy; bool snap, prof, tf, inlib, fpe, chkacc;
  u32 id; // log id
  // caller-supplied parts
  int pos[16]; bool ended[16]; int nstream; u32 nnext, nclone, nwrite, ncmp, nalloc, tlen; bool sfault, wfault, after; u64 nested_done; u32 nmade, ndropped; u8 gone[64];
  u8 prefill[MAXSLOT][64 + 32]; int win[MAXSLOT]; RB rb;
};
enum VS { S_READY, S_RUN, S_BLOCKED, S_SUSP, S_DONE };
static const int NVT = 300, DEPTHS = 40;
struct VT { int id; volatile int go; int state; pthread_t th; void* waddr; bool woken; u32 last_mx; std::vector<Step>* steps; bool mid; Frame* top; };
static VT vts[NVT]; static int nvt; static volatile int main_go; static int midcalls; static bool multi;
static FrameMem* fmem[NVT][DEPTHS];
static __thread Frame* cur; static __thread VT* myvt;
static Scen* S; static std::vector<const Ref*> refs; static std::vector<std::vector<u8*>> shared_in;
static u64 simclock, simrand; static bool in_run = false, ref_mode = false, scouting = false;

static const char* CNAME() { static char b[8]; snprintf(b, 8, "C%02d", CHK); return b; }
static void logev(u64 x) { shm->loghash = mix2(shm->loghash, x); }

[[noreturn]] static void violate(const char* kind, const char* fmt, ...) {
  if (!shm->violated) {
    snprintf(shm->kind, sizeof shm->kind, "%s", kind);
    va_list ap; va_start(ap, fmt); vsnprintf(shm->detail, sizeof shm->detail, fmt, ap); va_end(ap);
    shm->violated = 1; logev(0xbad); for (const char* c = kind; *c; c++) logev(*c);
  }
  raw6(SYS_exit_group, 1, 0, 0, 0, 0, 0); __builtin_unreachable();
}
static const char* where(char* b, size_t n) {
  Frame* f = cur; if (!f) { snprintf(b, n, "outside any call"); return b; }
  int k = snprintf(b, n, "%s (thread %d, call %u, point %llu", f->fd->name, f->vt->id, f->id, (unsigned long long)f->pts);
  for (Frame* u = f->up; u && k < (int)n; u = u->up) k += snprintf(b + k, n - k, "; nested in %s at point %llu", u->fd->name, (unsigned long long)u->pts);
  if (k < (int)n) snprintf(b + k, n - k, ")"); return b;
}

// ---------------------------------------------------------------- scheduler
static void park(VT* v) { while (!v->go) fwait(&v->go, 0); v->go = 0; v->state = S_RUN; }
static void handto(VT* v) { shm->switches++; v->go = 1; fwake(&v->go); }
static VT* pick(VT* me, int want) {
  if (want >= 0 && want < nvt && vts[want].state == S_READY && &vts[want] != me) return &vts[want];
  int b = me ? me->id : -1; for (int k = 1; k <= nvt; k++) { VT* v = &vts[(b + k) % nvt]; if (v != me && v->state == S_READY) return v; }
  return nullptr;
}
static void stuck_or_done(VT*) {
  char w[700];
  for (int i = 0; i < nvt; i++) if (vts[i].state == S_BLOCKED) { cur = vts[i].top; violate(CHK == C06 ? "waits-for-other-thread" : "deadlock", "thread %d is blocked in %s and nothing can wake it", i, where(w, sizeof w)); }
  main_go = 1; fwake(&main_go);
}
static void yield_to(VT* me, int want, bool forced) {
  VT* n = pick(me, want); if (!n) return;
  if (forced) shm->forced++;
  logev(0x5000 + me->id * 64 + n->id); me->state = S_READY; handto(n); park(me);
}
static void stop_forever(VT* me) {   // suspended or killed: never runs again
  me->state = S_SUSP; VT* n = pick(me, -1); logev(0x6000 + me->id);
  if (n) handto(n); else stuck_or_done(me);
  volatile int never = 0; for (;;) fwait(&never, 0);
}
[[noreturn]] static void blocks(const char* how) { char w[600]; Frame* f = cur; f->busy = 1; violate("blocks-in-the-os", "%s: %s", where(w, sizeof w), how); }
static long block_on(void* addr, bool timed) {
  if (CHK == C06) blocks("waits on a futex (another thread has to wake it)");
  VT* me = myvt; shm->blocked++; me->waddr = addr; me->woken = false; me->state = S_BLOCKED; me->top = cur; logev(0x7000 + me->id);
  VT* n = pick(me, -1);
  if (!n) { if (timed) { me->state = S_RUN; simclock += 1000000; return -ETIMEDOUT; } stuck_or_done(me); volatile int never = 0; for (;;) fwait(&never, 0); }
  handto(n); park(me); return me->woken ? 0 : -ETIMEDOUT;
}

// ---------------------------------------------------------------- calls
static void run_step(VT* vt, const Step& st, u32 callidx, int depth, u32 id, bool light);

static void check_windows(Frame* f, const char* when);
static void check_old_or_new(Frame* f) {
  shm->snaps++;
  for (u32 i = 0, o = 0; i < f->fd->nslots; i++) {
    const Slot& s = f->fd->slots[i]; if (s.dir < D_OUT) continue;
    if (s.dir == D_OUT) {
      const u8* p = (u8*)f->ptr[i];
      for (u32 c = 0; c < s.cmp; c += s.comp) {
        bool old = !memcmp(p + c, f->prefill[i] + c, s.comp), nw = true;
        for (u32 b = 0; b < s.comp; b++) if (p[c + b] != (f->ref->mask[o + c + b] ? f->ref->val[o + c + b] : f->prefill[i][c + b])) nw = false;
        if (!old && !nw) { char w[500]; f->busy = 1; u32 x = 0, y = 0, z = 0; memcpy(&x, f->prefill[i] + c, s.comp < 4 ? s.comp : 4); memcpy(&y, &f->ref->val[o + c], s.comp < 4 ? s.comp : 4); memcpy(&z, p + c, s.comp < 4 ? s.comp : 4);
          violate("torn-store", "stopping %s leaves destination byte %u as 0x%08x, neither the old 0x%08x nor the new 0x%08x", where(w, sizeof w), c, z, x, y); }
      }
    }
    o += s.cmp;
  }
  if (f->st->place && f->depth == 0) check_windows(f, "during the call");
}
static u8 img[NVT > 8 ? 8 : NVT][10][8192]; static u8* windows[8][10];
static const size_t WIN = 8192, GUARD = 65536;
static void check_windows(Frame* f, const char* when) {
  for (u32 i = 0; i < f->fd->nslots; i++) if (f->win[i] >= 0) {
    u8* w = windows[f->vt->id][f->win[i]]; const u8* m = img[f->vt->id][f->win[i]]; size_t off = (u8*)f->ptr[i] - w, end = off + f->fd->slots[i].size;
    if (memcmp(w, m, off) || memcmp(w + end, m + end, WIN - end)) {
      size_t k = 0; for (; k < WIN; k++) if ((k < off || k >= end) && w[k] != m[k]) break;
      char b[500]; f->busy = 1; violate("wrote-outside", "%s: memory %ld bytes from the start of a %u-byte argument (slot %u) was changed or a neighbour's update lost (%s)", where(b, sizeof b), (long)k - (long)off, f->fd->slots[i].size, i, when);
    }
  }
}
static void neighbour(Frame* f, u32 arg) {
  std::vector<u32> c; u32 pick_ = 0, n = 0;
  for (u32 i = 0; i < f->fd->nslots; i++) if (f->win[i] >= 0 && f->fd->slots[i].dir != D_REF) n++;
  if (!n) return; u32 want = arg % n;
  for (u32 i = 0; i < f->fd->nslots; i++) if (f->win[i] >= 0 && f->fd->slots[i].dir != D_REF && pick_++ == want) {
    u8* w = windows[f->vt->id][f->win[i]]; u8* m = img[f->vt->id][f->win[i]]; long off = (u8*)f->ptr[i] - w, end = off + f->fd->slots[i].size;
    for (long k = off - 16; k < off; k++) if (k >= 0) { m[k] ^= 0x5a; w[k] = m[k]; }
    for (long k = end; k < end + 16; k++) if (k < (long)WIN) { m[k] ^= 0xa5; w[k] = m[k]; }
    shm->neigh++;
  }
}
static void fire(Frame* f, const Event& e) {
  shm->fired[e.act]++; logev(mix2(f->id * 8 + e.act, f->pts) ^ e.arg); shm->ilhash = mix2(shm->ilhash, mix2(mix2((u64)(f->fd - T), f->pts), e.act * 64 + f->vt->id));
  switch (e.act) {
    case A_PREEMPT: if (multi) yield_to(f->vt, e.arg, false); break;
    case A_NEST: if (f->depth < DEPTHS - 1) { shm->nested++; run_step(f->vt, S->nested[e.arg], S->nested[e.arg].call, f->depth + 1, 0x10000 + e.arg, false); } break;
    case A_SUSPEND: shm->kills++; if (multi && f->depth == 0) stop_forever(f->vt); break;
    case A_NEIGHBOUR: neighbour(f, e.arg); break;
  }
}
static bool others_mid(Frame* f) { return midcalls - (f->vt->mid ? 1 : 0) > 0; }
static void set_stop(Frame* f) {
  u64 s = f->limit; if (f->ev < f->evend && f->ev->point < s) s = f->ev->point; if (f->nextforce < s) s = f->nextforce; f->stop = s;
}
static __attribute__((noinline)) void stop_here(Frame* f) {
  f->busy = 1; u64 idx = f->pts - 1;
  while (f->ev < f->evend && f->ev->point <= idx) { const Event& e = *f->ev++; fire(f, e); }
  if (idx >= f->nextforce) { f->nextforce = idx + (ENG == 'T' ? 4000 : 20000); if (multi) yield_to(f->vt, -1, true); }
  if (idx >= f->limit) { char w[600]; if (f->ref->status == 3) violate("never-finishes", "%s made %llu steps without finishing, and never finishes alone either", where(w, sizeof w), (unsigned long long)f->pts); violate(CHK == C06 ? "waits-for-other-thread" : "no-progress", "%s made %llu steps without finishing (alone it takes %llu)", where(w, sizeof w), (unsigned long long)f->pts, (unsigned long long)f->ref->points); }
  set_stop(f); f->busy = 0;
}
static bool is_hot(Frame* f, void* addr) {
  u64 a = (u64)addr, sp = (u64)__builtin_frame_address(0);
  if (a >= sp - 65536 && a < sp + (1 << 20)) return false;
  for (auto& s : rwsegs) if (addr >= s.p && addr < s.p + s.n) return true;
  if (a >= so_lo && a < so_hi) return false;
  u8* m = (u8*)f->fm; if ((u8*)addr >= m && (u8*)addr < m + sizeof(FrameMem)) return false;
  for (u32 i = 0; i < f->fd->nslots; i++) if ((u8*)addr >= (u8*)f->ptr[i] - 64 && (u8*)addr < (u8*)f->ptr[i] + f->fd->slots[i].size + 64) return false;
  return true;
}
// C04, engine I: an access that overlaps argument memory must lie inside one argument object. Pages and windows around the
// objects are ours, so this also sees over-reads that stay clear of inaccessible pages on purpose.
static u8* win_lo; static u8* win_hi;
static __attribute__((noinline)) void check_access(Frame* f, u8* a, size_t n, bool wr) {
  u8* m = f->fm->slots; bool in = (win_lo && a < win_hi && a + n > win_lo) || (a < m + sizeof f->fm->slots && a + n > m); if (!in) return;
  for (u32 i = 0; i < f->fd->nslots; i++) { u8* p = (u8*)f->ptr[i]; if (a >= p && a + n <= p + f->fd->slots[i].size) { if (wr && f->fd->slots[i].dir == D_REF) continue; return; } }
  int best = -1; long bd = 1l << 40; for (u32 i = 0; i < f->fd->nslots; i++) { u8* p = (u8*)f->ptr[i]; long d = a >= p ? a - p : p - a; if (d < bd) { bd = d; best = (int)i; } }
  char w[600]; f->busy = 1; violate("touched-outside", "%s: a %zu-byte %s at byte %ld of a %u-byte argument (slot %d%s)", where(w, sizeof w), n, wr ? "write" : "read", (long)(a - (u8*)f->ptr[best]), f->fd->slots[best].size, best, f->fd->slots[best].dir == D_REF ? ", read-only" : "");
}
static inline void tick(Frame* f, void* addr) {
  if (f->snap) check_old_or_new(f);
  if (f->prof && addr && is_hot(f, addr)) { shm->touches = 1; if (shm->nhot < 512) shm->hot[shm->nhot++] = (u32)f->pts; }
  if (f->pts++ >= f->stop) stop_here(f);
}
static inline void point(void* addr) { Frame* f = cur; if (f && !f->busy) tick(f, addr); }
static inline void acc(void* addr, size_t n, bool wr) { Frame* f = cur; if (f && !f->busy) { if (f->chkacc && n) check_access(f, (u8*)addr, n, wr); tick(f, addr); } }
// the memory-access seam
#define PT extern "C" __attribute__((visibility("default"))) void
PT __tsan_init() {} PT __tsan_func_entry(void*) {} PT __tsan_func_exit() {}
#define RW(n) PT __tsan_read##n(void* a) { acc(a, n, 0); } PT __tsan_write##n(void* a) { acc(a, n, 1); } PT __tsan_unaligned_read##n(void* a) { acc(a, n, 0); } PT __tsan_unaligned_write##n(void* a) { acc(a, n, 1); } \
  PT __tsan_volatile_read##n(void* a) { acc(a, n, 0); } PT __tsan_volatile_write##n(void* a) { acc(a, n, 1); } PT __tsan_read_write##n(void* a) { acc(a, n, 0); acc(a, n, 1); } PT __tsan_unaligned_read_write##n(void* a) { acc(a, n, 0); acc(a, n, 1); } \
  PT __tsan_unaligned_volatile_read##n(void* a) { acc(a, n, 0); } PT __tsan_unaligned_volatile_write##n(void* a) { acc(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
PT __tsan_read_range(void* a, long n) { acc(a, n, 0); } PT __tsan_write_range(void* a, long n) { acc(a, n, 1); }
PT __tsan_vptr_update(void** a, void*) { point(a); } PT __tsan_vptr_read(void** a) { point(a); }
extern "C" __attribute__((visibility("default"))) void* __tsan_memcpy(void* d, const void* s, size_t n) { acc((void*)s, n, 0); acc(d, n, 1); return memcpy(d, s, n); }
extern "C" __attribute__((visibility("default"))) void* __tsan_memmove(void* d, const void* s, size_t n) { acc((void*)s, n, 0); acc(d, n, 1); return memmove(d, s, n); }
extern "C" __attribute__((visibility("default"))) void* __tsan_memset(void* d, int c, size_t n) { acc(d, n, 1); return memset(d, c, n); }
#define AT extern "C" __attribute__((visibility("default")))
#define ATOM(bits, ty) \
  AT ty __tsan_atomic##bits##_load(const volatile ty* a, int) { point((void*)a); return __atomic_load_n(a, 5); } \
  AT void __tsan_atomic##bits##_store(volatile ty* a, ty v, int) { point((void*)a); __atomic_store_n(a, v, 5); point(nullptr); } \
  AT ty __tsan_atomic##bits##_exchange(volatile ty* a, ty v, int) { point((void*)a); ty r = __atomic_exchange_n(a, v, 5); point(nullptr); return r; } \
  AT ty __tsan_atomic##bits##_fetch_add(volatile ty* a, ty v, int) { point((void*)a); ty r = __atomic_fetch_add(a, v, 5); point(nullptr); return r; } \
  AT ty __tsan_atomic##bits##_fetch_sub(volatile ty* a, ty v, int) { point((void*)a); ty r = __atomic_fetch_sub(a, v, 5); point(nullptr); return r; } \
  AT ty __tsan_atomic##bits##_fetch_and(volatile ty* a, ty v, int) { point((void*)a); ty r = __atomic_fetch_and(a, v, 5); point(nullptr); return r; } \
  AT ty __tsan_atomic##bits##_fetch_or(volatile ty* a, ty v, int) { point((void*)a); ty r = __atomic_fetch_or(a, v, 5); point(nullptr); return r; } \
  AT ty __tsan_atomic##bits##_fetch_xor(volatile ty* a, ty v, int) { point((void*)a); ty r = __atomic_fetch_xor(a, v, 5); point(nullptr); return r; } \
  AT ty __tsan_atomic##bits##_fetch_nand(volatile ty* a, ty v, int) { point((void*)a); ty r = __atomic_fetch_nand(a, v, 5); point(nullptr); return r; } \
  AT int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* a, ty* c, ty v, int, int) { point((void*)a); int r = __atomic_compare_exchange_n(a, c, v, 0, 5, 5); point(nullptr); return r; } \
  AT int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* a, ty* c, ty v, int, int) { point((void*)a); int r = __atomic_compare_exchange_n(a, c, v, 0, 5, 5); point(nullptr); return r; } \
  AT ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* a, ty c, ty v, int, int) { point((void*)a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); point(nullptr); return c; }
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64)
PT __tsan_atomic_thread_fence(int) { point(nullptr); } PT __tsan_atomic_signal_fence(int) {}
typedef unsigned __int128 u128;
// 128-bit atomics do not occur on the targets built here; a library that starts using them fails to load and the check says so.

// ---------------------------------------------------------------- other seams: blocking, time, randomness, heap
static bool simulated() { return in_run && cur && !cur->busy; }
struct Busy { Frame* f; int o; Busy() : f(cur) { o = f ? f->busy : 0; if (f) f->busy = 1; } ~Busy() { if (f) f->busy = o; } };
extern "C" __attribute__((visibility("default"))) long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a[6]; for (auto& x : a) x = va_arg(ap, long); va_end(ap);
  if (simulated()) {
    if (n == SYS_futex) {
      Busy b; int op = (int)a[1] & 0x7f; volatile int* u = (volatile int*)a[0];
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) { if (*u != (int)a[2]) { errno = EAGAIN; return -1; } long r = block_on((void*)u, a[3] != 0); if (r < 0) { errno = -r; return -1; } return 0; }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { long k = 0; for (int i = 0; i < nvt && k < a[2]; i++) if (vts[i].state == S_BLOCKED && vts[i].waddr == (void*)u) { vts[i].woken = true; vts[i].state = S_READY; k++; } return k; }
    }
    if (n == SYS_getrandom) { shm->clockreads++; u8* p = (u8*)a[0]; for (long i = 0; i < a[1]; i++) { simrand = mix64(simrand); p[i] = (u8)simrand; } return a[1]; }
    if (n == SYS_sched_yield) { Busy b; if (multi) yield_to(myvt, -1, false); return 0; }
  }
  long r = raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]); if (r < 0 && r > -4096) { errno = -r; return -1; } return r;
}
extern "C" __attribute__((visibility("default"))) ssize_t getrandom(void* p, size_t n, unsigned f) { return syscall(SYS_getrandom, p, n, f); }
extern "C" __attribute__((visibility("default"))) int sched_yield() { return (int)syscall(SYS_sched_yield); }
static int simsleep(u64 ns) { if (CHK == C06) blocks("sleeps"); Busy b; simclock += ns; shm->simtime += ns; if (multi) yield_to(myvt, -1, false); return 0; }
extern "C" __attribute__((visibility("default"))) int nanosleep(const timespec* t, timespec* r) { if (simulated()) return simsleep(t->tv_sec * 1000000000ull + t->tv_nsec); return (int)raw6(SYS_nanosleep, (long)t, (long)r, 0, 0, 0, 0); }
extern "C" __attribute__((visibility("default"))) int clock_nanosleep(clockid_t c, int f, const timespec* t, timespec* r) { if (simulated()) { u64 ns = t->tv_sec * 1000000000ull + t->tv_nsec; return simsleep(f ? (ns > simclock ? ns - simclock : 0) : ns); } return (int)-raw6(SYS_clock_nanosleep, c, f, (long)t, (long)r, 0, 0); }
extern "C" __attribute__((visibility("default"))) int usleep(useconds_t u) { timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
static void tick() { if (ref_mode) { simclock += 1 + simclock % 977; return; }   // alone: a quick machine; in a run: anything from a nanosecond to a day may pass between two readings
  static const u64 most[8] = {977, 977, 977, 50000, 3000000, 40000000, 5000000000ull, 90000000000000ull}; u64 h = mix64(simclock + 3); u64 d = 1 + (h >> 3) % most[h & 7]; simclock += d; shm->simtime += d; }
extern "C" __attribute__((visibility("default"))) int clock_gettime(clockid_t c, timespec* t) {
  if (in_run && cur) { shm->clockreads++; tick(); if (!ref_mode && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { u64 h = mix64(simclock), v = simclock + (1ull << 60); if (h % 5 == 0) v -= (h >> 8) % 7200000000000ull; t->tv_sec = v / 1000000000ull; t->tv_nsec = v % 1000000000ull; return 0; }   // the wall clock may be set back
    t->tv_sec = simclock / 1000000000ull; t->tv_nsec = simclock % 1000000000ull; return 0; }
  return (int)raw6(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
}
extern "C" __attribute__((visibility("default"))) int gettimeofday(timeval* t, void*) { timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
extern "C" __attribute__((visibility("default"))) time_t time(time_t* t) { timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
static bool env_varies = false;   // C03 runs: every variable the library asks for has a seeded value (the reference runs with none)
extern "C" __attribute__((visibility("default"))) char* getenv(const char* n) {
  if (in_run && cur && cur->inlib) { shm->clockreads++; if (!env_varies) return nullptr; static char v[5][8] = {"1", "0", "", "true", "full"}; u64 h = simrand; for (const char* c = n; *c; c++) h = mix2(h, *c); h %= 7; return h < 5 ? v[h] : nullptr; }
  for (char** e = environ; e && *e; e++) { size_t k = strlen(n); if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1; } return nullptr;
}
// Input and output from inside the library: for C06 the simulated device never answers.
#define SEAM extern "C" __attribute__((visibility("default")))
[[noreturn]] static void outside(const char* what) { char w[600]; Frame* f = cur; f->busy = 1; violate("outside-effect", "%s: %s", where(w, sizeof w), what); }
static bool leaves() { return CHK == C13 && in_run && cur && cur->inlib && !cur->busy; }
static bool io_stalls() { return CHK == C06 && in_run && cur && cur->inlib && !cur->busy; }
#define IOSEAM(ret, name, params, num, a, b, c, d) SEAM ret name params { if (io_stalls()) blocks("calls " #name "(), which never returns when the other side stalls"); if (leaves()) outside("calls " #name "()"); long r = raw6(num, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
IOSEAM(ssize_t, read, (int fd, void* p, size_t n), SYS_read, fd, p, n, 0)
IOSEAM(ssize_t, write, (int fd, const void* p, size_t n), SYS_write, fd, p, n, 0)
IOSEAM(ssize_t, writev, (int fd, const struct iovec* v, int n), SYS_writev, fd, v, n, 0)
IOSEAM(int, poll, (struct pollfd* p, nfds_t n, int t), SYS_poll, p, n, t, 0)
#define FDSEAM(name, params, call) SEAM int name params { if (leaves()) outside("calls " #name "()"); long r = call; if (r < 0) { errno = -r; return -1; } return (int)r; }
FDSEAM(open, (const char* p, int fl, ...), raw6(SYS_open, (long)p, fl, 0600, 0, 0, 0))
FDSEAM(open64, (const char* p, int fl, ...), raw6(SYS_open, (long)p, fl, 0600, 0, 0, 0))
FDSEAM(openat, (int d, const char* p, int fl, ...), raw6(SYS_openat, d, (long)p, fl, 0600, 0, 0))
FDSEAM(socket, (int a, int b, int c), raw6(SYS_socket, a, b, c, 0, 0, 0))
FDSEAM(dup, (int a), raw6(SYS_dup, a, 0, 0, 0, 0, 0))
FDSEAM(kill, (pid_t a, int b), raw6(SYS_kill, a, b, 0, 0, 0, 0))
SEAM int pthread_join(pthread_t t, void** r) { static auto real = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join"); if (io_stalls()) blocks("waits for another thread to end"); return real(t, r); }
SEAM int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) { static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create"); if (in_run && cur && cur->inlib && !cur->busy && CHK == C09 && cur->st->plan.afrom >= 0) { shm->alloc_failed++; return EAGAIN; } return real(t, a, fn, arg); }
// The machine: seeded for C03 runs, the real one for the reference.
SEAM int sched_getcpu() { if (in_run && cur && cur->inlib) { shm->clockreads++; return env_varies ? (int)(mix64(simrand) % 64) : 0; } return 0; }
SEAM pid_t getpid() { if (in_run && cur && cur->inlib) { shm->clockreads++; return env_varies ? 2 + (int)(mix64(simrand) % 60000) : 4242; } return (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0); }
SEAM int sched_getaffinity(pid_t p, size_t n, cpu_set_t* m) { if (in_run && cur && cur->inlib) { shm->clockreads++; memset(m, 0, n); u32 k = env_varies ? 1 + mix64(simrand) % 32 : 4; for (u32 i = 0; i < k; i++) ((u8*)m)[i / 8] |= 1 << i % 8; return 0; } long r = raw6(SYS_sched_getaffinity, p, n, (long)m, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }
static volatile long live_bytes, live_blocks;
SEAM u8* sim_alloc(size_t n, size_t al) {
  Frame* f = cur;
  if (in_run && f && f->inlib && !f->busy) {
    u32 k = f->nalloc++; shm->alloc_calls++; const Plan& p = f->st->plan;
    if (p.afrom >= 0 && (int)k >= p.afrom && (p.acount < 0 || (int)k < p.afrom + p.acount)) { shm->alloc_failed++; logev(0xa110c + k); return nullptr; }
  }
  void* r = nullptr; if (al < 16) al = 16; if (posix_memalign(&r, al, n ? n : 1)) return nullptr;
  u64 s = f ? mix2(f->st->poison, f->nalloc) : 7; u8* b = (u8*)r; size_t lim = n < 65536 ? n : 65536; for (size_t i = 0; i < lim; i++) b[i] = (u8)(s >> (i % 8 * 8)) ^ (u8)i;
  __atomic_fetch_add(&live_bytes, (long)n, 5); __atomic_fetch_add(&live_blocks, 1, 5);
  return b;
}
extern "C" __attribute__((visibility("default"))) void sim_free(u8* p, size_t n, size_t) { __atomic_fetch_sub(&live_bytes, (long)n, 5); __atomic_fetch_sub(&live_blocks, 1, 5); free(p); }

// ---------------------------------------------------------------- caller-supplied parts
static void check_fp_in_callback(Frame* f, const char* what) {
  if (CHK != C05) return; u32 mx; u16 cw; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
  u32 want = f->rb.mx_in; if (((mx ^ want) & (f->fpe ? 0xe040 : 0xffc0)) || cw != f->rb.cw_in) { char w[500]; f->busy = 1; violate("fp-state-in-callback", "the %s callback of %s runs with MXCSR control 0x%04x (caller's: 0x%04x), x87 control 0x%04x (0x%04x)", what, where(w, sizeof w), mx & 0xffc0, want & 0xffc0, cw, f->rb.cw_in); }
}
// Which of the 24 generated points a stream of n delivers at position p. Long streams repeat the first twelve; the others come
// at every 64th position and as the last six, so that a point dropped at a block boundary or at the end is missed.
static inline u32 stream_index(u32 p, u32 n) { if (n <= (u32)MAXPTS) return p; if (p + 6 >= n) return 23 - (n - 1 - p); if (p % 64 == 63) return 12 + (p / 64) % 6; return p % 12; }
// The caller's own arithmetic in a callback leaves exception flags behind.
static u32 sticky(u32 seed);
static inline void cb_flags(Frame* f) { if ((CHK == C02 || CHK == C03 || CHK == C07) && f->st->poison > 3 && f->st->poison < 1000000) { u32 mx; asm volatile("stmxcsr %0" : "=m"(mx)); mx |= sticky(f->st->poison + f->nnext + f->nwrite * 7); asm volatile("ldmxcsr %0" : : "m"(mx)); } }
extern "C" __attribute__((visibility("default"))) i64 sim_cb(u32 kind, u64 id, u64 n) {
  Frame* f = cur; if (!f) return -1;
  if (!f->busy && kind != 6) { shm->callbacks++; if (f->prof && shm->nhot < 512) shm->hot[shm->nhot++] = (u32)f->pts; check_fp_in_callback(f, kind == 4 ? "comparison" : "stream"); tick(f, nullptr); }
  cb_flags(f); const Plan& p = f->st->plan; u32 tok = (u32)(id >> 8); id &= 255; if (id >= 16) id = 15;
  if (CHK == C13 && kind < 6 && tok < 64 && f->gone[tok]) { char w[500]; f->busy = 1; violate(kind == 5 ? "dropped-twice" : "used-after-drop", "%s: caller object %u (of %u made) was %s after it had been dropped", where(w, sizeof w), tok, f->nmade, kind == 5 ? "dropped again" : kind == 1 ? "cloned" : "used"); }
  if (kind == 5) { f->ndropped++; if (tok < 64) f->gone[tok] = 1; return 0; }
  if (kind == 6) { shm->objects++; return f->nmade++; }
  switch (kind) {
    case 0: {
      int k = (int)f->nnext++; if (k == p.pnext) { f->sfault = true; shm->stream_faults++; return -2; }
      if (f->ended[id]) { if (f->pos[id] < (int)n + p.tail) { shm->stream_faults++; return f->pos[id]++ % MAXPTS; } return -1; }
      if (f->pos[id] >= (int)n) { f->ended[id] = true; return -1; }
      return stream_index((u32)f->pos[id]++, (u32)n); }
    case 1: {
      int k = (int)f->nclone++; if (k == p.pclone) { f->sfault = true; shm->stream_faults++; return -2; }
      int j = f->nstream < 15 ? ++f->nstream : 15; f->pos[j] = f->pos[id]; f->ended[j] = f->ended[id]; return j; }
    case 2: { i64 left = (i64)n - f->pos[id]; if (left < 0) left = 0; switch (p.hint) { case 0: return left; case 1: case 2: return 0; case 3: return left + 5; case 4: return left > 1 ? left - 1 : 0; default: return left; } }
    case 3: { i64 left = (i64)n - f->pos[id]; if (left < 0) left = 0; switch (p.hint) { case 0: return left; case 1: return -1; case 2: return 0; case 3: return left + 5; case 4: return left > 1 ? left - 1 : 0; default: return 1000000; } }
    case 4: { int k = (int)f->ncmp++; if (k == p.pcmp) { f->sfault = true; return -2; } return 0; }
  }
  return 0;
}
extern "C" __attribute__((visibility("default"))) u32 sim_write(const char* p, size_t n) {
  Frame* f = cur; if (!f) return 0;
  if (!f->busy) { shm->callbacks++; if (f->prof && shm->nhot < 512) shm->hot[shm->nhot++] = (u32)f->pts; check_fp_in_callback(f, "sink"); tick(f, nullptr); }
  cb_flags(f); const Plan& pl = f->st->plan; int k = (int)f->nwrite++;
  if (f->wfault) { f->after = true; return pl.wpanic ? 2 : 1; }
  bool fail = pl.wfail == k;
  if (pl.wbytes >= 0 && (int)(f->tlen + n) > pl.wbytes) { size_t room = pl.wbytes - f->tlen; if (room > n) room = n; memcpy(f->fm->text + f->tlen, p, room); f->tlen += room; fail = true; }
  if (fail) { f->wfault = true; shm->sink_failed++; logev(0x51e4 + k); return pl.wpanic ? 2 : 1; }
  if (f->tlen + n < sizeof f->fm->text) { memcpy(f->fm->text + f->tlen, p, n); f->tlen += n; }
  return 0;
}

// ---------------------------------------------------------------- entering the library
// tramp(thunk, args, rb): loads the FP mode and leftover register contents, optionally sets the trap flag, calls, reads back.
extern "C" u32 tramp(void* thunk, void* args, RB* rb);
asm(R"(
.text
.globl tramp
.type tramp,@function
tramp:
  .cfi_startproc
  pushq %rbx
  .cfi_adjust_cfa_offset 8
  .cfi_offset %rbx, -16
  pushq %r12
  .cfi_adjust_cfa_offset 8
  pushq %r13
  .cfi_adjust_cfa_offset 8
  movq %rdx, %rbx
  movq %rdi, %r12
  movq %rsi, %rdi
  stmxcsr 64(%rbx)
  fnstcw 68(%rbx)
  ldmxcsr 0(%rbx)
  fldcw 8(%rbx)
  vmovups 32(%rbx), %ymm0
  vmovups %ymm0, %ymm1
  vmovups %ymm0, %ymm2
  vmovups %ymm0, %ymm3
  vmovups %ymm0, %ymm4
  vmovups %ymm0, %ymm5
  vmovups %ymm0, %ymm6
  vmovups %ymm0, %ymm7
  vmovups %ymm0, %ymm8
  vmovups %ymm0, %ymm9
  vmovups %ymm0, %ymm10
  vmovups %ymm0, %ymm11
  vmovups %ymm0, %ymm12
  vmovups %ymm0, %ymm13
  vmovups %ymm0, %ymm14
  vmovups %ymm0, %ymm15
  movq 24(%rbx), %rax
  movq %rax, %rcx
  movq %rax, %rdx
  movq %rax, %rsi
  movq %rax, %r8
  movq %rax, %r9
  movq %rax, %r10
  movq %rax, %r11
  cmpl $0, 12(%rbx)
  je 1f
  pushfq
  orq $0x100, (%rsp)
  popfq
1:
  movq %rsp, %r13
  cmpq $0, 72(%rbx)
  je 2f
  movq 72(%rbx), %rsp
2:
  call *%r12
  movq %r13, %rsp
  stmxcsr 4(%rbx)
  fnstcw 10(%rbx)
  pushfq
  movq (%rsp), %rcx
  movq %rcx, 16(%rbx)
  andq $~0x500, (%rsp)
  popfq
  ldmxcsr 64(%rbx)
  fldcw 68(%rbx)
  vzeroupper
  popq %r13
  .cfi_adjust_cfa_offset -8
  popq %r12
  .cfi_adjust_cfa_offset -8
  popq %rbx
  .cfi_adjust_cfa_offset -8
  ret
  .cfi_endproc
.size tramp,.-tramp
.section .note.GNU-stack,"",@progbits
.text
)");
static_assert(offsetof(RB, mx_out) == 4 && offsetof(RB, cw_in) == 8 && offsetof(RB, cw_out) == 10 && offsetof(RB, tf) == 12 && offsetof(RB, flags_out) == 16 && offsetof(RB, gpr) == 24 && offsetof(RB, ymm) == 32 && offsetof(RB, mx_host) == 64 && offsetof(RB, cw_host) == 68 && offsetof(RB, stk) == 72, "layout");

static u64 pword(u32 seed, u32 k) {   // leftover contents: zeros, ones, NaNs, or arbitrary floats
  if (!seed) return 0; if (seed == 1000001) return mix64(k + 99); if (seed == 1000002) return ~mix64(k + 99); switch (seed % 4) { case 0: return 0xffffffffffffffffull; case 1: return 0x7fc000007fc00000ull; case 2: return 0x3f8000003f800000ull ^ ((u64)(k * 2654435761u) << 8 & 0x007fffff007fffffull); default: return mix64(seed * 1000003ull + k); }
}
static u32 sticky(u32 seed) { if (!seed || seed == 1000001) return 0; if (seed == 1000002) return 0x3f; u64 h = mix64(seed * 77ull + 5); return h % 5 < 2 ? 0 : h % 5 == 2 ? 0x3f : (u32)(h >> 20) & 0x3f; }
static __attribute__((noinline)) void poison_stack(u32 seed) {
  volatile u64 b[1024]; for (u32 i = 0; i < 1024; i++) b[i] = pword(seed, i & 63); asm volatile("" : : "r"(b) : "memory");
}
static u32 mxmode(u32 m) { if (!m || m > 16) return MX_DEFAULT; m--; return MX_DEFAULT | (m & 3) << 13 | (m & 4 ? 0x8000 : 0) | (m & 8 ? 0x40 : 0); }
// C14: the call runs on a stack of its own of STACK_KB with an inaccessible page below it.
static u8* smallstk; static size_t stk_size() { return (ENG == 'I' ? 256 : 64) * 1024; } static const size_t STK_MAP = 1 << 20;
static void stack_make() { if (smallstk) return; u8* m = (u8*)mmap(nullptr, STK_MAP + stk_size(), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); smallstk = m + STK_MAP; mprotect(smallstk, stk_size(), PROT_READ | PROT_WRITE); }
static void* api_unwinding;
static __attribute__((noinline)) u32 enter(Frame* f, u32 stackoff) {
  if (CHK == C14 && f->depth == 0) {
    stack_make(); u64* b = (u64*)smallstk; size_t n = stk_size() / 8; for (size_t i = 0; i < n; i++) b[i] = 0x5ca1ab1e0ddba11ull; f->rb.stk = (u64)(smallstk + stk_size() - 64 - (stackoff & 0x3f0));
    f->inlib = true; f->busy = 0; u32 r = tramp((void*)f->fd->thunk, (void*)f->ptr, &f->rb); f->busy = 1; f->inlib = false; f->rb.stk = 0;
    size_t k = 0; while (k < n && b[k] == 0x5ca1ab1e0ddba11ull) k++; if ((n - k) * 8 > shm->stackmax) { shm->stackmax = (n - k) * 8; if (getenv("DXSIM_STACK")) fprintf(stderr, "stack %zu %s%s\n", (n - k) * 8, f->fd->name, r ? " (unwound)" : ""); } return r;
  }
  volatile char* pad = (volatile char*)alloca(stackoff + 16); pad[0] = 1;
  void* unw[2] = {(void*)f->fd->thunk, (void*)f->ptr}; bool u = f->st->late == 2 && api_unwinding;   // made by a destructor while a panic of the caller's unwinds
  f->inlib = true; f->busy = 0; u32 r = u ? tramp(api_unwinding, (void*)unw, &f->rb) : tramp((void*)f->fd->thunk, (void*)f->ptr, &f->rb); f->busy = 1; f->inlib = false; return r;
}

static size_t out_bytes(const FnDesc& fd) { size_t n = 0; for (u32 i = 0; i < fd.nslots; i++) if (fd.slots[i].dir >= D_OUT) n += fd.slots[i].cmp; return n; }
static void hexs(char* o, const u8* p, u32 n) { for (u32 i = 0; i < n; i++) sprintf(o + 2 * i, "%02x", p[i]); }
static void enclosure(Frame* f);

static const u32 ARRAY = 1u << 25;
static void run_step(VT* vt, const Step& st, u32 callidx, int depth, u32 id, bool light) {
  Frame fr; Frame* f = &fr; const Call& c = S->calls[callidx]; const FnDesc& fd = T[c.fn]; static const Ref noref; const Ref* ref = callidx < refs.size() && refs[callidx] ? refs[callidx] : &noref;
  f->up = cur; f->st = &st; f->fd = &fd; f->call = &c; f->ref = ref; f->vt = vt; f->depth = depth; f->fm = fmem[vt->id][depth]; f->id = id; f->pts = 0; f->busy = 1; f->inlib = false;
  f->fpe = false; f->ev = st.ev.data(); f->evend = f->ev + st.ev.size(); f->prof = false; f->nstream = 0; f->pos[0] = 0; f->ended[0] = false; f->nnext = f->nclone = f->nwrite = f->ncmp = f->nalloc = f->tlen = 0; f->sfault = f->wfault = f->after = false; f->nmade = f->ndropped = 0; memset(f->gone, 0, sizeof f->gone);
  f->snap = CHK == C10 && (fd.flags & FL_STORE) && ref->status == 0 && !light; 
  f->chkacc = CHK == C04 && ENG == 'I' && depth == 0 && !light;
  bool haveref = ref->status >= 0; u64 base = haveref ? ref->points : 0; f->limit = !haveref ? 400000000 : ref->status == 3 ? 70000000 : ENG == 'T' ? base * 50 + 60000 : base * 50 + 300000; f->nextforce = ENG == 'T' ? base * 4 + 4000 : base * 4 + 20000; if (CHK == C06 && !st.ev.empty()) {}
  if (!multi) f->nextforce = ~0ull;
  Rng pl(mix2(st.place, 0x71ace)); int nw = 0;
  for (u32 i = 0; i < fd.nslots; i++) {
    const Slot& s = fd.slots[i]; f->win[i] = -1; u8* p = nullptr; bool byref = s.dir == D_REF || s.dir == D_OUT || s.dir == D_INOUT;
    if (byref && st.place && depth == 0 && vt->id < 8 && nw < 10) {
      int wi = nw++; u8* w = windows[vt->id][wi]; u8* m = img[vt->id][wi]; u32 mode = pl.n(8); size_t off, al = s.align;
      if (st.place & ARRAY) off = (WIN - s.size * (((st.place >> 1) & 15) + 1)) / al * al;   // an element of an array that ends where the window ends
      else if (mode < 3) off = (WIN - s.size) / al * al; else if (mode < 4) off = 0; else if (mode < 6) off = ((4096 - pl.n(s.size) ) / al) * al; else off = 512 + pl.n(2048 / al) * al;
      if (off + s.size > WIN) off = (WIN - s.size) / al * al;
      u64 pat = pl.next(); u64* m8 = (u64*)m; for (size_t k = 0; k < WIN / 8; k++) m8[k] = pat + k * 0x0101010101010101ull; memcpy(w, m, WIN); p = w + off; f->win[i] = wi;
    } else {
      size_t jit = 64; if (st.place || st.poison) { jit = 64 + (mix2(st.place ^ st.poison, i) % 8) * s.align; if (jit + s.size > 500) jit = 64; }
      p = f->fm->slots + i * 512 + (jit & ~(size_t)(s.align - 1));
    }
    f->ptr[i] = p;
    if (!c.in[i].empty()) {
      if (s.dir == D_REF && st.share == 1 && callidx < shared_in.size() && shared_in[callidx].size()) { f->ptr[i] = shared_in[callidx][i]; f->win[i] = -1; }
      else {
        memcpy(p, c.in[i].data(), s.size);
        if (st.share == 2 && s.dir == D_REF) for (u32 j = 0; j < i; j++) if (fd.slots[j].dir == D_REF && fd.slots[j].align >= s.align && c.in[j] == c.in[i]) { f->ptr[i] = f->ptr[j]; f->win[i] = -1; break; }
      }
    } else {
      u32 sz = s.size < sizeof f->prefill[i] ? s.size : sizeof f->prefill[i];
      for (u32 k = 0; k < sz; k += 8) { u64 w = pword(st.poison, i * 16 + k / 8 + 1); u32 m = sz - k < 8 ? sz - k : 8; memcpy(f->prefill[i] + k, &w, m); }
      if (s.dir == D_RET && s.kind == K_BOOL) f->prefill[i][0] = 0;
      memcpy(p, f->prefill[i], sz);
    }
  }
  bool prot = st.place && (st.place & 1) && depth == 0;
  if (prot) for (u32 i = 0; i < fd.nslots; i++) if (f->win[i] >= 0 && fd.slots[i].dir == D_REF) mprotect(windows[vt->id][f->win[i]], WIN, PROT_READ);
  memset(&f->rb, 0, sizeof f->rb); f->rb.mx_in = st.mx == 255 ? vt->last_mx : mxmode(st.mx); f->rb.cw_in = 0x37f; if (st.mx && st.mx != 255) f->rb.cw_in = 0x07f | ((st.mx * 7) & 3) << 8 | ((st.mx * 5) & 3) << 10 | (0x40 & 0); if ((f->rb.cw_in & 0x300) == 0x100) f->rb.cw_in |= 0x300;
  if (CHK != C05) f->rb.mx_in |= sticky(st.poison);   // exception flags the caller's own arithmetic left behind
  f->rb.gpr = pword(st.poison, 5); for (int k = 0; k < 4; k++) { u64 w = pword(st.poison, 9 + k); memcpy(f->rb.ymm + 8 * k, &w, 8); }
  if (!light) poison_stack(st.poison);
  f->tf = ENG == 'T' && depth == 0 && !light && (f->ev < f->evend || f->snap || others_mid(f) || ref_mode); f->rb.tf = f->tf;
  if (ref_mode) { f->prof = true; f->limit = ENG == 'T' ? 400000 : scouting ? 4000000 : 60000000; if (ENG == 'T') f->tf = f->rb.tf = 1; }
  set_stop(f); logev(0x1000 + id * 16 + depth); shm->ncalls++;
  if (depth == 0 && !vt->mid) { vt->mid = true; midcalls++; }
  vt->top = f; cur = f;
  u32 status = enter(f, light ? 0 : (st.poison >> 3) % 1500);
  bool own = status == 5; if (status) status = 1;
  cur = f->up; vt->top = f->up; if (depth == 0) { vt->mid = false; midcalls--; } shm->points += f->pts;
  if (prot) for (u32 i = 0; i < fd.nslots; i++) if (f->win[i] >= 0 && fd.slots[i].dir == D_REF) mprotect(windows[vt->id][f->win[i]], WIN, PROT_READ | PROT_WRITE);
  if (status) shm->panics++;
  vt->last_mx = (f->rb.mx_out & 0xffc0);
  cur = f;  // for messages
  char w[600];
  if (CHK == C05) {
    if (((f->rb.mx_out ^ f->rb.mx_in) & 0xffc0) || f->rb.cw_out != f->rb.cw_in || (f->rb.flags_out & 0x400))
      violate("fp-state-changed", "%s %s with MXCSR control 0x%04x (at entry 0x%04x), x87 control 0x%04x (0x%04x), direction flag %d", where(w, sizeof w), status ? "unwound" : "returned", f->rb.mx_out & 0xffc0, f->rb.mx_in & 0xffc0, f->rb.cw_out, f->rb.cw_in, (int)(f->rb.flags_out >> 10 & 1));
    if (st.share == 3 && status == 0 && !st.plan.hint) { // once more with every exception it does not raise unmasked
      u32 raised = f->rb.mx_out & 0x3f; memset(f->pos, 0, sizeof f->pos); memset(f->ended, 0, sizeof f->ended); f->nstream = 0; f->nmade = f->ndropped = 0; memset(f->gone, 0, sizeof f->gone); f->rb.mx_in = (f->rb.mx_in & 0xe040) | ((raised << 7) & 0x1f80); f->rb.tf = 0;
      u32 sticky = f->rb.mx_in; cur = f; f->tlen = 0; u32 s2 = enter(f, 0); if (((f->rb.mx_out ^ sticky) & (f->fpe ? 0xe040 : 0xffc0))) violate("fp-state-changed", "%s returned with MXCSR control 0x%04x (at entry 0x%04x)", where(w, sizeof w), f->rb.mx_out & 0xffc0, sticky & 0xffc0); (void)s2; }
    cur = f->up; logev(status); return;
  }
  if (CHK == C13) {
    if (f->ndropped != f->nmade) violate(f->ndropped < f->nmade ? "never-dropped" : "dropped-twice", "%s %s: of %u caller objects (streams and their clones, compared values) %u were dropped", where(w, sizeof w), status ? "unwound" : "returned", f->nmade, f->ndropped);
    logev(status); cur = f->up; return;
  }
  if (CHK == C14) { logev(status); cur = f->up; return; }
  if (f->prof) {   // reference run: record what it did
    shm->rstatus = status; size_t o = 0; shm->rpoints = f->pts; shm->nnext = f->nnext; shm->nclone = f->nclone; shm->nwrite = f->nwrite; shm->ncmp = f->ncmp;
    for (u32 i = 0; i < fd.nslots; i++) if (fd.slots[i].dir >= D_OUT) { if (!(status && fd.slots[i].dir == D_RET)) memcpy(shm->val + o, f->ptr[i], fd.slots[i].cmp); else memset(shm->val + o, 0, fd.slots[i].cmp); for (u32 k = 0; k < fd.slots[i].cmp; k++) shm->mask[o + k] = fd.slots[i].dir == D_OUT ? ((u8*)f->ptr[i])[k] != f->prefill[i][k] : 1; o += fd.slots[i].cmp; }
    shm->rlen = o; shm->rtext = f->tlen; memcpy(shm->text, f->fm->text, f->tlen); cur = f->up; return;
  }
  if (st.place && depth == 0) check_windows(f, "after the call");
  if (!haveref || ref->status > 1) { cur = f->up; return; }
  // ---- caller-part faults
  if (f->sfault) {
    if (CHK == C07) {
      if (!status) violate("stream-panic-lost", "%s returned normally although its stream panicked", where(w, sizeof w));
      if (!own) violate("stream-panic-replaced", "%s unwound with another panic than its stream's", where(w, sizeof w));
      for (u32 i = 0; i < fd.nslots; i++) if (fd.slots[i].dir == D_OUT && memcmp(f->ptr[i], f->prefill[i], fd.slots[i].cmp)) { char h[300], g[300]; hexs(h, (u8*)f->ptr[i], fd.slots[i].cmp); hexs(g, f->prefill[i], fd.slots[i].cmp); violate("output-changed-by-panicking-stream", "%s: the output volume was %s, is %s after the stream panicked", where(w, sizeof w), g, h); }
    }
    logev(0xfa); cur = f->up; return;
  }
  if (f->wfault) {
    if (CHK == C08) {
      if (f->after) violate("written-after-failure", "%s wrote to the sink again after the sink had failed", where(w, sizeof w));
      u32 ret = 0; memcpy(&ret, f->ptr[2], 4);
      if (st.plan.wpanic) { if (!status) violate("sink-panic-lost", "%s returned although the sink panicked", where(w, sizeof w)); if (!own) violate("sink-panic-replaced", "%s unwound with another panic than its sink's", where(w, sizeof w)); }
      else { if (status) violate("panicked-on-sink-failure", "%s panicked when the sink failed", where(w, sizeof w)); if (!ret) violate("sink-failure-hidden", "%s reported success although the sink failed after %u bytes", where(w, sizeof w), f->tlen); }
      if (f->tlen > ref->text.size() || memcmp(f->fm->text, ref->text.data(), f->tlen)) violate("not-a-prefix", "%s: the sink accepted '%.*s', not a prefix of '%.200s'", where(w, sizeof w), (int)(f->tlen < 200 ? f->tlen : 200), f->fm->text, ref->text.c_str());
    }
    logev(0xfb); cur = f->up; return;
  }
  // ---- same result as alone
  if ((int)status != ref->status) violate(status ? "panic" : "missing-panic", "%s %s; alone it %s", where(w, sizeof w), status ? "panicked" : "returned", ref->status ? "panics" : "returns");
  size_t o = 0; u64 h = status;
  for (u32 i = 0; i < fd.nslots; i++) {
    const Slot& s = fd.slots[i]; if (s.dir < D_OUT) continue;
    if (!(status && s.dir == D_RET)) {
      const u8* p = (u8*)f->ptr[i];
      for (u32 k = 0; k < s.cmp; k++) { u8 want = ref->mask[o + k] ? ref->val[o + k] : (s.dir == D_OUT ? f->prefill[i][k] : ref->val[o + k]);
        if (p[k] != want) { char h1[200], h2[200]; u32 n = s.cmp < 64 ? s.cmp : 64; hexs(h1, p, n); u8 e[64]; for (u32 q = 0; q < n; q++) e[q] = ref->mask[o + q] || s.dir != D_OUT ? ref->val[o + q] : f->prefill[i][q]; hexs(h2, e, n);
          violate("different-result", "%s: %s is %s, alone it is %s", where(w, sizeof w), s.dir == D_RET ? "the return value" : "an output", h1, h2); }
        h = h * 31 + p[k]; }
    }
    o += s.cmp;
  }
  if ((fd.flags & FL_DEBUG) && !status && (f->tlen != ref->text.size() || memcmp(f->fm->text, ref->text.data(), f->tlen))) violate("different-text", "%s wrote '%.*s', alone it writes '%.200s'", where(w, sizeof w), (int)(f->tlen < 200 ? f->tlen : 200), f->fm->text, ref->text.c_str());
  if (CHK == C07 && !status && (fd.flags & FL_STREAM)) enclosure(f);
  if (CHK == C03 && !status && ref->undef >= 0) violate("output-undefined", "%s leaves part of its output (slot %d) as it found it, so the result is whatever was there before", where(w, sizeof w), ref->undef);
  logev(h); cur = f->up;
}

// Model oracle for C07: the volume contains every delivered point, up to rounding.
static void enclosure(Frame* f) {
  const u32* w = (u32*)f->call->in[1].data(); u32 n = w[0]; const float* pts = (const float*)(w + 1); const float* v = (const float*)f->ptr[0]; if (!n) return;
  std::vector<float> del; { u32 seen = 0; for (u32 i = 0; i < n; i++) { u32 k = stream_index(i, n); if (seen >> k & 1) continue; seen |= 1u << k; for (int q = 0; q < 3; q++) del.push_back(pts[k * 3 + q]); } } const float* p = del.data(); const u32 total = n; n = del.size() / 3;
  double mag = 0; for (u32 i = 0; i < 3 * n; i++) { if (!std::isfinite(p[i])) return; mag = std::max(mag, (double)std::fabs(p[i])); }
  if (mag > 1e15 || mag < 1e-12) return;
  double spread = 0; for (int k = 0; k < 3; k++) { double lo = 1e300, hi = -1e300; for (u32 i = 0; i < n; i++) { lo = std::min(lo, (double)p[i * 3 + k]); hi = std::max(hi, (double)p[i * 3 + k]); } spread = std::max(spread, hi - lo); }
  u32 words = f->fd->slots[0].size / 4; const char* nm = f->fd->name; bool sph = words == 4, obb = words == 10;
  double tol = mag * (obb ? 2e-4 : 2e-5), worst = 0; int bad = -1;

  double R[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  if (obb) { double q[4], s = 0; for (int i = 0; i < 4; i++) { q[i] = v[6 + i]; s += q[i] * q[i]; } s = std::sqrt(s); if (!(std::fabs(s - 1) < 1e-2)) { char b[400]; violate("not-a-box", "%s: orientation has length %g", where(b, sizeof b), s); } for (auto& x : q) x /= s;
    double x = q[0], y = q[1], z = q[2], ww = q[3]; double t[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y + z * ww), 2 * (x * z - y * ww)}, {2 * (x * y - z * ww), 1 - 2 * (x * x + z * z), 2 * (y * z + x * ww)}, {2 * (x * z + y * ww), 2 * (y * z - x * ww), 1 - 2 * (x * x + y * y)}}; memcpy(R, t, sizeof t); }
  for (u32 i = 0; i < n; i++) {
    double d[3]; for (int k = 0; k < 3; k++) d[k] = (double)p[i * 3 + k] - v[k]; double ex;
    if (sph) ex = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]) - v[3];
    else { ex = -1e300; for (int k = 0; k < 3; k++) { double l = obb ? d[0] * R[k][0] + d[1] * R[k][1] + d[2] * R[k][2] : d[k]; ex = std::max(ex, std::fabs(l) - v[3 + k]); } }
    if (!(ex <= tol)) { if (bad < 0 || !(ex <= worst)) { worst = ex; bad = i; } }
  }
  if (bad < 0) {   // and nothing but what was delivered: every face (or the surface) is held by some delivered point
    char b[400]; double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300}, far = 0, diag = 0;
    for (u32 i = 0; i < n; i++) { double d[3], l[3]; for (int k = 0; k < 3; k++) d[k] = (double)p[i * 3 + k] - v[k]; far = std::max(far, std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])); for (int k = 0; k < 3; k++) { l[k] = obb ? d[0] * R[k][0] + d[1] * R[k][1] + d[2] * R[k][2] : d[k]; lo[k] = std::min(lo[k], l[k]); hi[k] = std::max(hi[k], l[k]); } }
    if (sph) {
      for (int k = 0; k < 3; k++) { diag += (hi[k] - lo[k]) * (hi[k] - lo[k]); if (lo[k] > tol || hi[k] < -tol) violate("encloses-more", "%s: the sphere's centre lies outside the box of the delivered points by %g on axis %d", where(b, sizeof b), std::max(lo[k], -hi[k]), k); }
      if (v[3] - far > tol || v[3] > std::sqrt(diag) + tol) violate("encloses-more", "%s: radius %g, but the farthest delivered point is %g away", where(b, sizeof b), (double)v[3], far);
    } else for (int k = 0; k < 3; k++) if (v[3 + k] - hi[k] > tol || v[3 + k] + lo[k] > tol) violate("encloses-more", "%s: extent %g on axis %d, but the delivered points only reach from %g to %g", where(b, sizeof b), (double)v[3 + k], k, lo[k], hi[k]);
  }
  if (bad >= 0) { char b[400]; violate("point-not-enclosed", "%s: distinct delivered point %d (of %u delivered) (%g, %g, %g) lies %g outside the %s", where(b, sizeof b), bad, total, p[bad * 3], p[bad * 3 + 1], p[bad * 3 + 2], worst, nm); }
}

// ---------------------------------------------------------------- signals
static u8 altstacks[NVT + 1][32768];
// cpuid, where the processor can be made to trap on it: C03 runs may see a lesser processor than the reference did.
static bool cpuid_traps = false;
static void emulate_cpuid(ucontext_t* uc, bool lib) {
  u32 a = (u32)uc->uc_mcontext.gregs[REG_RAX], c = (u32)uc->uc_mcontext.gregs[REG_RCX], l = a, sl = c, b, d; raw6(SYS_arch_prctl, 0x1012, 1, 0, 0, 0, 0); asm volatile("cpuid" : "+a"(a), "=b"(b), "+c"(c), "=d"(d)); raw6(SYS_arch_prctl, 0x1012, 0, 0, 0, 0, 0);
  if (lib) { shm->clockreads++; u64 h = mix64(simrand + 5); if (l == 1) { if (h & 1) c &= ~(1u << 12); if (h & 2) c &= ~(1u << 28 | 1u << 29 | 1u << 12); if (h & 4) c &= ~(1u << 19 | 1u << 20 | 1u << 9 | 1u << 28 | 1u << 29 | 1u << 12); } if (l == 7 && sl == 0 && (h & 15)) { b &= ~(1u << 5 | 1u << 16 | 1u << 3 | 1u << 8); } }
  auto* g = uc->uc_mcontext.gregs; g[REG_RAX] = a; g[REG_RBX] = b; g[REG_RCX] = c; g[REG_RDX] = d; g[REG_RIP] += 2;
}
static u64 calls_then; static u32 extended, run_ms; static void vtimer(int ms);
static void on_fault(int sig, siginfo_t* si, void* uc_) {
  ucontext_t* uc = (ucontext_t*)uc_; u8* ip = (u8*)uc->uc_mcontext.gregs[REG_RIP];
  if (sig == SIGSEGV && in_run && (u64)ip >= so_lo && (u64)ip < so_hi && ((ip[0] == 0x0f && ip[1] == 0x31) || (ip[0] == 0x0f && ip[1] == 0x01 && ip[2] == 0xf9))) {   // rdtsc(p): the simulated clock
    tick(); shm->clockreads++; uc->uc_mcontext.gregs[REG_RAX] = (u32)simclock; uc->uc_mcontext.gregs[REG_RDX] = simclock >> 32; uc->uc_mcontext.gregs[REG_RIP] += ip[1] == 0x31 ? 2 : 3; return; }
  if (sig == SIGSEGV && in_run && cpuid_traps && ip[0] == 0x0f && ip[1] == 0xa2) { emulate_cpuid(uc, (u64)ip >= so_lo && (u64)ip < so_hi); return; }
  // C05 only: an exception the caller had unmasked was raised. Legal; mask it and go on, noting that the mask bits say nothing now.
  if (sig == SIGFPE && CHK == C05 && cur && cur->inlib && !cur->fpe) { cur->fpe = true; uc->uc_mcontext.fpregs->mxcsr |= 0x1f80; return; }
  Frame* f = cur; int was = f ? f->busy : 0; if (f) f->busy = 1; char w[600], a[200] = "";
  if (f && (sig == SIGSEGV || sig == SIGBUS)) for (u32 i = 0; i < f->fd->nslots; i++) if (f->win[i] >= 0) { u8* x = (u8*)si->si_addr; u8* p = (u8*)f->ptr[i]; if (x >= windows[f->vt->id][f->win[i]] - GUARD && x < windows[f->vt->id][f->win[i]] + WIN + GUARD) snprintf(a, sizeof a, " accessing byte %ld of a %u-byte argument (slot %u%s)", (long)(x - p), f->fd->slots[i].size, i, f->fd->slots[i].dir == D_REF ? ", read-only" : ""); }
  // Out of processor time: a hang if no call was begun since the last time, otherwise just a long run (which is cut off in the end, without a verdict).
  if (sig == SIGVTALRM && in_run && !ref_mode && shm->ncalls != calls_then) { calls_then = shm->ncalls; if (++extended > 3) { shm->cut = 1; raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0); } if (f) f->busy = was; vtimer(run_ms); return; }
  if (sig == SIGVTALRM) violate(f && (!f->ref || f->ref->status == 3 || f->ref->status < 0) ? (CHK == 0 ? "hang" : "never-finishes") : CHK == C06 ? "waits-for-other-thread" : "hang", "%s did not finish", where(w, sizeof w));
  if (CHK == C14 && sig == SIGSEGV && smallstk && (u8*)si->si_addr < smallstk && (u8*)si->si_addr >= smallstk - STK_MAP) violate("stack-exhausted", "%s needs more than %zu KiB of stack", where(w, sizeof w), stk_size() >> 10);
  const char* kind = sig == SIGABRT ? "abort" : CHK == C04 && a[0] ? "touched-outside" : "crash";
  violate(kind, "%s: signal %d (%s)%s", where(w, sizeof w), sig, strsignal(sig), a);
}
static u64 rw_hash_prev; static std::vector<std::vector<u8>> rwsnap;
static u8* tls_block() { struct { u64 m, o; } ti = {tls_mod, 0}; extern void* tls_get(void*) asm("__tls_get_addr"); return tls_mod ? (u8*)tls_get(&ti) : nullptr; }
static void rw_take() { rwsnap.clear(); for (auto& s : rwsegs) rwsnap.emplace_back(s.p, s.p + s.n); if (tls_mod) { u8* t = tls_block(); rwsnap.emplace_back(t, t + tls_size); } }
static bool rw_changed(bool update) {
  bool ch = false; size_t i = 0; for (auto& s : rwsegs) { if (memcmp(rwsnap[i].data(), s.p, s.n)) { ch = true; if (update) memcpy(rwsnap[i].data(), s.p, s.n); } i++; }
  if (tls_mod) { u8* t = tls_block(); if (memcmp(rwsnap[i].data(), t, tls_size)) { ch = true; if (update) memcpy(rwsnap[i].data(), t, tls_size); } } return ch;
}
static void on_trap(int, siginfo_t*, void* uc_) {
  ucontext_t* uc = (ucontext_t*)uc_; Frame* f = cur; u64 ip = uc->uc_mcontext.gregs[REG_RIP];
  if (f && !f->tf) for (Frame* u = f->up; u; u = u->up) if (u->tf) return;
  if (!f || !f->tf) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return; }
  if (f->busy) return;
  if (ip >= text_lo && ip < text_hi) {
    if (f->prof && rw_changed(true)) { shm->touches = 1; if (shm->nhot < 512) shm->hot[shm->nhot++] = (u32)f->pts; }
    tick(f, nullptr);
  }
  if (!f->prof && !f->snap && f->ev >= f->evend && !others_mid(f)) { f->tf = false; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; }
}
static void sigs(int slot) {
  stack_t ss = {altstacks[slot], 0, sizeof altstacks[slot]}; sigaltstack(&ss, nullptr);
}
static void install() {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
  sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, nullptr);
}

// ---------------------------------------------------------------- running one scenario (in a forked child)
static void vt_steps(VT* v, bool late) {
  u32 n = 0;
  for (auto& st : *v->steps) {
    if ((st.late == 1) != late) { n++; continue; }
    if (st.rep <= 1) run_step(v, st, st.call, 0, n, false);
    else { Step q = st; q.ev.clear(); for (u32 k = 0; k < st.rep; k++) { u32 ci = S->cycle[(k * 2654435761u >> 8) % S->cycle.size()]; q.poison = (k & 15) ? st.poison : k; run_step(v, q, ci, 0, n, true); } }
    n++;
  }
}
// A thread ends in a destructor that runs after those of the library's thread-local objects: "late" steps are calls made from there.
static pthread_key_t endkey;
static void vt_end(void* p) {
  VT* v = (VT*)p; vt_steps(v, true); v->state = S_DONE; logev(0x8000 + v->id);
  VT* n = pick(v, -1); if (n) handto(n); else stuck_or_done(v);
}
static void* vt_main(void* p) { VT* v = (VT*)p; tls_block(); myvt = v;   // the thread's copy of the library's thread-locals exists, as in a program linked with it
  sigs(v->id); pthread_setspecific(endkey, v); park(v); vt_steps(v, false); return nullptr; }
static void alloc_fmem(int id, int depths) { for (int d = 0; d < depths; d++) if (!fmem[id][d]) fmem[id][d] = (FrameMem*)mmap(nullptr, sizeof(FrameMem), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
static void vtimer(int ms) { itimerval t = {{0, 0}, {ms / 1000, (ms % 1000) * 1000}}; setitimer(ITIMER_VIRTUAL, &t, nullptr); }
// C13: what the process holds besides memory
static u64 world(char* what, size_t n) {
  u64 h = 1; static u64 part[8]; u64 p[8] = {0};
  for (int i = 0; i < 128; i++) if (raw6(SYS_fcntl, i, F_GETFD, 0, 0, 0, 0) >= 0) p[0] = mix2(p[0], i + 1);
  for (int s = 1; s < 65; s++) if (s != 32 && s != 33) { struct { void* h; u64 fl; void* r; u64 m; } a = {}; if (!raw6(SYS_rt_sigaction, s, 0, (long)&a, 8, 0, 0)) { p[1] = mix2(p[1], (u64)a.h); p[1] = mix2(p[1], a.fl ^ a.m); } }
  u64 m = 0; raw6(SYS_rt_sigprocmask, 0, 0, (long)&m, 8, 0, 0); p[2] = m; stack_t ss; sigaltstack(nullptr, &ss); p[2] = mix2(p[2], (u64)ss.ss_sp);
  itimerval t; for (int w : {ITIMER_REAL, ITIMER_PROF}) { getitimer((__itimer_which)w, &t); p[3] = mix2(p[3], t.it_value.tv_sec != 0 || t.it_value.tv_usec != 0); }
  for (char** e = environ; e && *e; e++) for (const char* c = *e; *c; c++) p[4] = p[4] * 31 + *c;
  int th = 0; for (int w = 0; w < 2000; w++) {   // a joined thread may still be listed for a moment
    th = 0; int fd = (int)raw6(SYS_open, (long)"/proc/self/task", O_RDONLY | O_DIRECTORY, 0, 0, 0, 0); if (fd >= 0) { static char b[8192]; long k; while ((k = raw6(SYS_getdents64, fd, (long)b, sizeof b, 0, 0, 0)) > 0) for (long q = 0; q < k;) { u16 l = *(u16*)(b + q + 16); if (b[q + 19] != '.') th++; q += l; } raw6(SYS_close, fd, 0, 0, 0, 0, 0); }
    if (!what || (u64)th == part[5]) break; timespec t = {0, 1000000}; raw6(SYS_nanosleep, (long)&t, 0, 0, 0, 0, 0); }
  p[5] = th;
  char cwd[512] = ""; raw6(SYS_getcwd, (long)cwd, sizeof cwd, 0, 0, 0, 0); for (char* c = cwd; *c; c++) p[6] = p[6] * 31 + *c; char nm[16] = ""; prctl(PR_GET_NAME, nm); for (char* c = nm; *c; c++) p[6] = p[6] * 31 + *c;
  for (int i = 0; i < 16; i++) { rlimit r; if (!getrlimit((__rlimit_resource)i, &r)) p[7] = mix2(p[7], r.rlim_cur); } cpu_set_t cs; memset(&cs, 0, sizeof cs); raw6(SYS_sched_getaffinity, 0, sizeof cs, (long)&cs, 0, 0, 0); p[7] = mix2(p[7], raw6(SYS_getpriority, PRIO_PROCESS, 0, 0, 0, 0, 0)); for (size_t i = 0; i < 16; i++) p[7] = mix2(p[7], ((u64*)&cs)[i]);
  static const char* nmz[8] = {"open files", "signal handlers", "the signal mask or signal stack", "timers", "environment variables", "threads", "working directory or thread name", "resource limits or scheduling"};
  if (what) { what[0] = 0; for (int i = 0; i < 8; i++) if (p[i] != part[i]) snprintf(what, n, "%s", nmz[i]); } else memcpy(part, p, sizeof p);
  for (u64 x : p) h = mix2(h, x); return h;
}
static const int ROUNDS = 6; static long held[80][2]; static u32 nheld;
static void hold() { if (nheld < 80) { held[nheld][0] = live_bytes; held[nheld++][1] = live_blocks; } }
static void grew(const char* unit) {   // more and more after each of the last rounds, although they made the same calls
  static const char* nm[2] = {"bytes", "heap blocks"};
  for (int q = 0; q < 2; q++) { bool up = nheld >= 5; for (u32 i = nheld - 3; up && i < nheld; i++) up = held[i][q] > held[i - 1][q]; if (up) violate("memory-grows", "making the same calls again leaves more %s allocated each time: after the last four %s %+ld, %+ld, %+ld, %+ld", nm[q], unit, held[nheld - 4][q] - held[0][q], held[nheld - 3][q] - held[0][q], held[nheld - 2][q] - held[0][q], held[nheld - 1][q] - held[0][q]); }
}
static void run_child(Scen& sc, u32 cpu_ms) {
  tls_block(); S = &sc; install(); sigs(NVT); prctl(PR_SET_TSC, PR_TSC_SIGSEGV, 0, 0, 0); calls_then = extended = 0; run_ms = cpu_ms; vtimer(cpu_ms);
  simclock = mix64(sc.clock) >> 8; simrand = mix64(sc.clock + 17); env_varies = CHK == C03 && sc.clock % 4 == 0; cpuid_traps = env_varies && raw6(SYS_arch_prctl, 0x1012, 0, 0, 0, 0, 0) == 0;
  std::vector<int> dep(sc.nested.size(), 1); int deep = sc.nested.empty() ? 1 : 4;   // a nested step only refers to earlier ones
  for (size_t i = 0; i < sc.nested.size(); i++) { for (auto& e : sc.nested[i].ev) if (e.act == A_NEST && e.arg < i) dep[i] = std::max(dep[i], dep[e.arg] + 1); deep = std::min(DEPTHS, std::max(deep, dep[i] + 1)); }
  nvt = (int)sc.th.size(); if (nvt > NVT) nvt = NVT; multi = nvt > 1 && !sc.seq; midcalls = 0;
  for (int i = 0; i < nvt; i++) { vts[i].id = i; vts[i].go = 0; vts[i].state = S_READY; vts[i].steps = &sc.th[i]; vts[i].last_mx = MX_DEFAULT; vts[i].mid = false; vts[i].top = nullptr; alloc_fmem(i, deep); }
  // shared read-only copies of the arguments
  shared_in.assign(sc.calls.size(), {});
  for (auto& th : sc.th) for (auto& st : th) if (st.share == 1 && shared_in[st.call].empty()) { auto& c = sc.calls[st.call]; auto& v = shared_in[st.call]; v.assign(c.in.size(), nullptr); for (size_t i = 0; i < c.in.size(); i++) if (!c.in[i].empty()) { void* m; if (posix_memalign(&m, 64, 512)) _exit(2); memcpy(m, c.in[i].data(), c.in[i].size()); v[i] = (u8*)m; } }
  in_run = true; cur = nullptr; pthread_key_create(&endkey, vt_end);
  if (CHK == C13) world(nullptr, 0);
  if (CHK == C13 && !sc.seq) {
    myvt = &vts[0]; vts[0].state = S_RUN; for (int r = 0; r < ROUNDS; r++) { vt_steps(&vts[0], false); cur = nullptr; hold(); }
    in_run = false; char w[100]; world(w, sizeof w); if (w[0]) violate("left-behind", "the calls changed the process: %s", w); grew("rounds"); in_run = true;
  } else if (nvt == 1 && !sc.seq) { myvt = &vts[0]; vts[0].state = S_RUN; vt_steps(&vts[0], false); vt_steps(&vts[0], true); }
  else {
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024);
    if (sc.seq) {
      multi = false; int total = nvt;
      for (u32 lap = 0; lap < sc.laps; lap++) for (int i = 0; i < total; i++) { nvt = i + 1; main_go = 0; if (lap) { if (vts[i].state != S_DONE) continue; vts[i].go = 0; vts[i].state = S_READY; vts[i].last_mx = MX_DEFAULT; vts[i].mid = false; vts[i].top = nullptr; } for (int j = 0; j < i; j++) if (vts[j].state == S_READY) vts[j].state = S_DONE; multi = false;
        // events of a sequential thread may still suspend it for ever: treat it as having somewhere to go
        multi = true; if (pthread_create(&vts[i].th, &at, vt_main, &vts[i])) _exit(2); handto(&vts[i]); while (!main_go) fwait(&main_go, 0); if (vts[i].state == S_DONE) pthread_join(vts[i].th, nullptr); if (CHK == C13) hold(); }
      if (CHK == C13) { in_run = false; char w[100]; world(w, sizeof w); if (w[0]) violate("left-behind", "the calls changed the process: %s", w); grew("threads"); in_run = true; }
    } else {
      for (int i = 0; i < nvt; i++) if (pthread_create(&vts[i].th, &at, vt_main, &vts[i])) _exit(2);
      main_go = 0; handto(&vts[0]); while (!main_go) fwait(&main_go, 0);
    }
  }
  in_run = false; for (auto& th : sc.th) for (auto& st : th) shm->planned += st.ev.size();
}
static u64 nforks = 0, nretry = 0;
static int forked(void (*fn)(void*), void* arg) {   // returns wait status
  nforks++; pid_t p; while ((p = fork()) < 0) { usleep(1000); if (++nretry > 20000) { fprintf(stderr, "fork failed\n"); exit(2); } }
  if (!p) { fn(arg); raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} return st;
}
struct RunArg { Scen* s; u32 ms; };
struct Verdict { bool bad; std::string kind, detail; u64 log; };
static u32 RUN_MS = 12000;
static Verdict run_once(Scen& s) {
  memset((void*)shm, 0, offsetof(Shm, hot)); RunArg a = {&s, RUN_MS}; int st = forked([](void* p) { auto* a = (RunArg*)p; run_child(*a->s, a->ms); }, &a);
  Verdict v = {shm->violated != 0, shm->kind, shm->detail, shm->loghash};
  if (!v.bad && (!WIFEXITED(st) || WEXITSTATUS(st) != 0)) { if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "run killed\n"); exit(2); } v.bad = true; v.kind = "crash"; char b[100]; snprintf(b, 100, "process ended with wait status %x", st); v.detail = b; }
  return v;
}
// ---------------------------------------------------------------- reference: the call alone in a fresh process
static std::map<u32, int> hung;   // calls that never finished, by function
static void ref_child(void* p) {
  Scen sc; sc.calls.push_back(*(Call*)p); S = &sc; install(); sigs(NVT); vtimer(hung[sc.calls[0].fn] > 1 ? 1500 : 8000); nvt = 1; multi = false; vts[0].id = 0; vts[0].last_mx = MX_DEFAULT; vts[0].state = S_RUN; vts[0].mid = false; myvt = &vts[0]; alloc_fmem(0, 1); in_run = ref_mode = true; simclock = 12345; simrand = 54321; prctl(PR_SET_TSC, PR_TSC_SIGSEGV, 0, 0, 0);
  shm->rstatus = 3; int save = CHK; CHK = 0; Step st; st.poison = 1000001; rw_take();
  run_step(&vts[0], st, 0, 0, 0, false); if (ENG != 'I' && rw_changed(false)) shm->touches = 1;
  bool outs = false; for (u32 i = 0; i < T[sc.calls[0].fn].nslots; i++) outs |= T[sc.calls[0].fn].slots[i].dir == D_OUT;
  if (outs) {   // once more over other leftovers, only to learn which output bytes it writes
    static u8 m1[4096], v1[4096]; memcpy(m1, shm->mask, 4096); memcpy(v1, shm->val, 4096); u64 p1 = shm->rpoints; u32 nh = shm->nhot; int s1 = shm->rstatus, tc = shm->touches; u32 tl = shm->rtext; char e = ENG; if (ENG == 'T') ENG = 'P';
    st.poison = 1000002; run_step(&vts[0], st, 0, 0, 0, false); ENG = e;
    for (u32 i = 0; i < shm->rlen; i++) shm->mask[i] |= m1[i];
    memcpy(shm->val, v1, 4096); shm->rpoints = p1; shm->nhot = nh; shm->rstatus = s1; shm->touches = tc; shm->rtext = tl;
  }
  CHK = save;
}
static u64 nrefs = 0;
// An output the call left (partly) unwritten, although it is documented to receive the result: what the caller sees there would
// depend on what was there before. Excused: outputs not passed (None), an empty stream, a decomposition reported as failed.
static int undefined_output(const Call& c) {
  const FnDesc& fd = T[c.fn]; size_t o = 0; bool failed = false; int un = -1;
  for (u32 i = 0; i < fd.nslots; i++) if (fd.slots[i].dir >= D_OUT) {
    if (fd.slots[i].dir == D_RET && fd.slots[i].size == 1 && !shm->val[o]) failed = true;
    bool passed = !(i && fd.slots[i - 1].dir == D_VAL && fd.slots[i - 1].kind == K_BOOL && !(c.in[i - 1][0] & 1));
    if (fd.slots[i].dir == D_OUT && passed && un < 0) for (u32 k = 0; k < fd.slots[i].cmp; k++) if (!shm->mask[o + k]) { un = (int)i; break; }
    o += fd.slots[i].cmp;
  }
  if (un >= 0 && (fd.flags & FL_STREAM) && *(const u32*)c.in[1].data() == 0) un = -1;
  if (un >= 0 && failed && !strcmp(fd.name, "XMMatrixDecompose")) un = -1;
  if (un >= 0 && getenv("DXSIM_UNDEF")) fprintf(stderr, "UNDEF %s slot %d\n", fd.name, un);
  return un;
}
static void compute_ref(Call& c, Ref& r) {
  nrefs++; memset((void*)shm, 0, offsetof(Shm, hot)); memset(shm->mask, 0, sizeof shm->mask); shm->rstatus = 3;
  int st = forked(ref_child, &c);
  if (shm->violated || !WIFEXITED(st) || WEXITSTATUS(st)) { r.status = !strcmp(shm->kind, "hang") || !strcmp(shm->kind, "no-progress") ? (ENG == 'T' ? 4 : 3) : 2; if (r.status > 2) hung[c.fn]++; shm->violated = 0; return; }
  r.undef = shm->rstatus == 0 ? undefined_output(c) : -1;
  r.status = shm->rstatus; r.val.assign(shm->val, shm->val + shm->rlen); r.mask.assign(shm->mask, shm->mask + shm->rlen); r.text.assign(shm->text, shm->rtext); r.points = shm->rpoints; r.hot.assign(shm->hot, shm->hot + shm->nhot);
  r.nclone = shm->nclone; r.nnext = shm->nnext; r.nwrite = shm->nwrite; r.ncmp = shm->ncmp; r.touches = shm->touches;
}
#include "scen.h"
