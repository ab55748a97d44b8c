// Deterministic simulator for the directx_math library: shared declarations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

// ---------------------------------------------------------------- PRNG (the only source of choice)
static inline u64 mix64(u64 z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static inline u64 mix2(u64 a, u64 b) { return mix64(a ^ mix64(b)); }
struct Rng {
  u64 s; explicit Rng(u64 seed) : s(mix64(seed)) {}
  u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u32 n(u32 k) { return k ? (u32)((next() >> 32) * (u64)k >> 32) : 0; }
  bool p(u32 pct) { return n(100) < pct; }
  float unit() { return (float)((next() >> 40) * (1.0 / 16777216.0)); }
};

// ---------------------------------------------------------------- the library's face (mirrors api/src/support.rs)
struct Slot { u8 dir, kind, comp, pad; u16 size, align, cmp, arg; };
enum { D_VAL, D_REF, D_OUT, D_INOUT, D_RET };
struct FnDesc { const char* name; u32 (*thunk)(void* const*); const Slot* slots; u32 nslots, flags; };
enum { FL_STREAM = 1, FL_DEBUG = 2, FL_STORE = 4, FL_CMPCB = 8 };
enum { K_F32, K_FVEC, K_QUAT, K_UNIT3, K_PLANE, K_ANGLE, K_MAT, K_IVEC, K_U32, K_IDX, K_BOOL, K_SPHERE, K_BOX, K_OBB, K_FRUST, K_POINTS, K_HALF, K_RAW, K_PROJ, K_SMALLF, K_I32, K_TEXT, K_FLAGS, K_ROTMAT };
static const int MAXSLOT = 24, MAXPTS = 24, MAXVT = 8;

// ---------------------------------------------------------------- scenario
struct Call { int fn = -1; std::vector<std::vector<u8>> in; };   // input bytes per slot (empty for out/ret)
enum Act { A_PREEMPT, A_NEST, A_SUSPEND, A_NEIGHBOUR, A_NACT };
static const char* const ACTN[] = {"preempt", "nest", "suspend", "neighbour"};
struct Event { u32 point; u32 act; u32 arg; };
// fault plans of the caller-supplied parts of a call
struct Plan {
  // stream: deliver `len` points (-1: all), then after the first end deliver `tail` more; panic at next #pnext / clone #pclone; hint mode
  int len = -1, tail = 0, pnext = -1, pclone = -1, hint = 0;
  // sink: fail (or panic) at write #wfail, or once more than wbytes bytes arrive
  int wfail = -1, wbytes = -1, wpanic = 0;
  // allocator: allocations from #afrom on fail (acount of them; -1: all later ones)
  int afrom = -1, acount = -1;
  // comparison: panic at comparison #pcmp
  int pcmp = -1;
};
struct Step {
  u32 call = 0;            // index into Scen::calls
  u32 place = 0;           // 0: plain buffer; else seed of a guarded placement
  u32 poison = 0;          // seed of leftover stack/register/output contents (0: zeros)
  u32 mx = 0;              // FP mode: 0 default; 1..16 explicit; 255 inherit what the last call left
  u32 share = 0;           // 1: read-only arguments are the shared copy of that call; 2: equal read-only arguments alias
  u32 late = 0;            // 1: called while the thread ends, after the destructors of thread-local objects; 2: called by a destructor while a panic unwinds
  u32 rep = 1;             // repeat with the following calls of Scen::cycle
  Plan plan;
  std::vector<Event> ev;
};
struct Scen {
  std::vector<Call> calls;
  std::vector<std::vector<Step>> th;   // per thread
  std::vector<Step> nested;            // steps run by A_NEST
  std::vector<u32> cycle;              // calls used by repeated steps
  u32 seq = 0;                         // 1: threads run one after the other, each created when the previous one ended
  u32 laps = 1;                        // the sequence of threads is gone through so many times
  u32 clock = 0;                       // seed of the simulated clock and random source
};

struct Ref {          // what the call does alone in a fresh process
  int status = -1;    // 0 ok, 1 panic, 2 crash, 3 hang
  std::vector<u8> val, mask; std::string text; u32 wret = 0;
  u64 points = 0; std::vector<u32> hot; u32 nclone = 0, nnext = 0, nwrite = 0, ncmp = 0; bool touches = false; int undef = -1;   // undef: an output slot the call leaves (partly) unwritten
};
