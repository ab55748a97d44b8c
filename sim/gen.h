// Seeded generation of argument values.
#pragma once
#include "host.h"
#include <cmath>

static inline u32 fbits(float f) { u32 u; memcpy(&u, &f, 4); return u; }
static inline float bitsf(u32 u) { float f; memcpy(&f, &u, 4); return f; }
static const u32 SPECIAL[] = {0, 0x80000000u, 0x3f800000u, 0xbf800000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0xffc00001u, 1u, 0x80000001u, 0x007fffffu,
  0x00800000u, 0x7f7fffffu, 0xff7fffffu, 0x34000000u, 0x3f000000u, 0x40000000u, 0x4b000000u, 0x4f000000u, 0xcf000000u, 0x3f7fffffu, 0x3f800001u, 0x7f800001u, 0x5f000000u};
// Hints: literals of the library's source (gen/dict.py), per function and for the whole library. They steer, they decide nothing.
static std::vector<u32> DICT_ALL, DICT_LEN; static std::vector<std::vector<u32>> DICT_FN; static const std::vector<u32>* DICT_NOW = nullptr;
static void dict_load(const char* path, const FnDesc* T, u32 n) {
  FILE* f = fopen(path, "r"); if (!f) return; char name[256]; u32 v; std::map<std::string, std::vector<u32>> by;
  while (fscanf(f, "%255s %x", name, &v) == 2) { if (name[0] == '*') DICT_ALL.push_back(v); else if (name[0] == '#') DICT_LEN.push_back(v); else by[name].push_back(v); }
  fclose(f); DICT_FN.resize(n);
  for (u32 i = 0; i < n; i++) {
    std::set<u32> s; std::string w;
    for (const char* c = T[i].name;; c++) {
      if (*c && (isalnum((u8)*c) || *c == '_')) { w += *c; continue; }
      for (size_t l = w.size(); l >= 6 || (l && l == w.size()); l--) { auto it = by.find(w.substr(0, l)); if (it != by.end()) { s.insert(it->second.begin(), it->second.end()); break; } }
      w.clear(); if (!*c) break;
    }
    for (u32 v : s) { float x = bitsf(v); if (x != 0 && x != 1 && x != 2 && x != 3 && x != 4) DICT_FN[i].push_back(v); }
  }
}
struct ValGen {
  Rng& r; int cls, flat = -1; float level = 0; bool nested = false, keen = false;
  // classes: 0 everyday values, 1 within [-1, 1], 2 many magnitudes, 3 special values, 4 a small lattice (coplanar, parallel, equal, degenerate)
  ValGen(Rng& r_) : r(r_) { u32 k = r.n(100); cls = k < 54 ? 0 : k < 68 ? 1 : k < 78 ? 2 : k < 87 ? 3 : 4; if (cls == 4 && r.p(50)) { flat = r.n(3); level = (float)((int)r.n(3) - 1); if (r.p(60)) cls = r.n(2); } nested = r.p(15); keen = !DICT_ALL.empty() && r.p(10); }
  bool hint() { return !DICT_ALL.empty() && r.n(1000) < (keen ? 500 : 10); }
  u32 hinted() { return DICT_NOW && !DICT_NOW->empty() && r.p(75) ? (*DICT_NOW)[r.n(DICT_NOW->size())] : DICT_ALL[r.n(DICT_ALL.size())]; }
  float hintf() {
    u32 w = hinted(); float v = bitsf(w); switch (r.n(8)) { case 0: v = bitsf(w + 1); break; case 1: v = w ? bitsf(w - 1) : v; break; case 2: v *= 1 + r.unit(); break; case 3: v *= r.unit(); break; }
    return r.p(30) ? -v : v;
  }
  float contrast() { static const float C[] = {0.02f, 0.2f, 1, 6, 60}; return nested ? C[r.n(5)] : 1; }
  float ext() { return cls == 4 ? (float)r.n(3) : r.p(4) ? f() : pos(0.0f, 3); }
  float f() {
    int c = cls; if (hint()) return hintf();
    if (c == 4) return r.p(35) ? 0.0f : r.p(90) ? (float)((int)r.n(5) - 2) : (float)((int)r.n(5) - 2) * 0.5f;
    if (c == 3) c = r.p(35) ? 3 : 0;
    else if (r.p(3)) c = 3;
    switch (c) {
      case 0: { u32 k = r.n(10); if (k < 3) return (float)((int)r.n(11) - 5); if (k < 5) return (float)((int)r.n(33) - 16) * 0.25f; return (r.unit() * 2 - 1) * 6.0f; }
      case 1: return r.unit() * 2 - 1;
      case 2: { float m = 1 + r.unit(); int e = (int)r.n(61) - 30; return (r.p(50) ? -1.f : 1.f) * std::ldexp(m, e); }
      default: return bitsf(SPECIAL[r.n(sizeof SPECIAL / 4)]);
    }
  }
  float pos(float lo, float hi) { return lo + (hi - lo) * r.unit(); }
  float angle() {
    if (hint()) return hintf();
    u32 k = r.n(10); const float PI = 3.14159265f;
    if (k < 3) return ((int)r.n(17) - 8) * (PI / 4); if (k < 8) return (r.unit() * 2 - 1) * 3.3f; if (k < 9) return (r.unit() * 2 - 1) * 400.0f; return f();
  }
  void unit(float* o, int n) {
    if (r.p(cls == 4 ? 80 : 15)) { for (int i = 0; i < n; i++) o[i] = 0; o[r.n(n)] = r.p(50) ? 1.f : -1.f; return; }
    double s = 0; for (int i = 0; i < n; i++) { o[i] = r.unit() * 2 - 1; s += (double)o[i] * o[i]; }
    s = s > 1e-9 ? 1 / std::sqrt(s) : 1; for (int i = 0; i < n; i++) o[i] = (float)(o[i] * s);
  }
  void rot3(float q[4], double R[3][3]) {
    double x = q[0], y = q[1], z = q[2], w = q[3];
    double t[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y + z * w), 2 * (x * z - y * w)}, {2 * (x * y - z * w), 1 - 2 * (x * x + z * z), 2 * (y * z + x * w)}, {2 * (x * z + y * w), 2 * (y * z - x * w), 1 - 2 * (x * x + y * y)}};
    memcpy(R, t, sizeof t);
  }
  void matrix(float* o) {
    u32 k = r.n(10);
    for (int i = 0; i < 16; i++) o[i] = (i % 5) ? 0.f : 1.f;
    if (k == 0) return;
    if (k < 7) {
      float q[4]; unit(q, 4); double R[3][3]; rot3(q, R); float sc[3];
      for (int i = 0; i < 3; i++) sc[i] = k < 3 ? 1.0f : pos(0.2f, 4.0f);
      if (k == 6) { sc[1] = sc[2] = sc[0]; } if (r.p(8)) sc[r.n(3)] *= -1; if (r.p(4)) sc[r.n(3)] = 0; if (cls == 4) for (int i = 0; i < 3; i++) sc[i] = r.p(50) ? 0 : (float)((int)r.n(4) - 1);
      for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o[i * 4 + j] = (float)(R[i][j] * sc[i]);
      for (int j = 0; j < 3; j++) o[12 + j] = (r.unit() * 2 - 1) * 5;
      return;
    }
    for (int i = 0; i < 16; i++) o[i] = f();
    if (k == 8) memcpy(o + 4, o, 16);   // singular
  }
  void proj(float* o, int) {
    for (int i = 0; i < 16; i++) o[i] = 0;
    float n = pos(0.1f, 2.0f), fz = n + pos(1, 100), w = pos(0.5f, 3), h = pos(0.5f, 3);
    o[0] = 2 * n / w; o[5] = 2 * n / h; o[10] = fz / (fz - n); o[11] = 1; o[14] = -o[10] * n;
    if (r.p(30)) { o[10] = -o[10]; o[11] = -1; }
    if (r.p(10)) matrix(o);
  }
  void c3(float* o) { if (nested) { for (int i = 0; i < 3; i++) o[i] = r.p(50) ? 0 : (r.unit() * 2 - 1) * 0.5f; return; } for (int i = 0; i < 3; i++) o[i] = cls == 0 || cls == 1 ? (r.unit() * 2 - 1) * 3 : f(); }
  void slot(const Slot& s, std::vector<u8>& out) {
    out.assign(s.size, 0); int nw = s.size / 4; float tmp[80]; u32* w = (u32*)out.data();
    auto put = [&](int n) { memcpy(out.data(), tmp, n * 4); };
    switch (s.kind) {
      case K_F32: case K_FVEC: case K_RAW: {
        u32 mode = r.n(8); for (int i = 0; i < nw; i++) tmp[i] = f();
        if (mode == 0) for (int i = 1; i < nw; i++) tmp[i] = tmp[0];
        if (flat >= 0 && s.kind == K_FVEC && nw >= 3) tmp[flat] = level;
        put(nw); break; }
      case K_SMALLF: tmp[0] = r.p(8) ? f() : pos(0.1f, 50.f); put(1); break;
      case K_ANGLE: for (int i = 0; i < nw; i++) tmp[i] = angle(); put(nw); break;
      case K_QUAT: if (r.p(12)) for (int i = 0; i < nw; i++) tmp[i] = f(); else unit(tmp, nw); put(nw); break;
      case K_UNIT3: if (r.p(15)) for (int i = 0; i < nw; i++) tmp[i] = f(); else { unit(tmp, 3); tmp[3] = r.p(60) ? 0 : f(); } put(nw); break;
      case K_PLANE: if (r.p(15)) for (int i = 0; i < nw; i++) tmp[i] = f(); else { unit(tmp, 3); tmp[3] = (r.unit() * 2 - 1) * 3; } put(nw); break;
      case K_MAT: case K_ROTMAT: matrix(tmp); put(16); break;
      case K_PROJ: proj(tmp, 16); put(16); break;
      case K_IVEC: for (int i = 0; i < nw; i++) { u32 k = r.n(8); w[i] = s.arg == 1 ? (r.p(50) ? 0xffffffffu : 0) : k < 2 ? r.n(10) : k < 3 ? 0u - r.n(10) : k < 5 ? (r.p(50) ? 0xffffffffu : 0u) : k < 6 ? SPECIAL[r.n(24)] : (u32)r.next(); if (s.arg != 1 && hint()) { w[i] = hinted(); if (r.p(50)) w[i] = (u32)(i64)std::min(std::max(bitsf(w[i]), -2e9f), 2e9f); } } break;
      case K_U32: { u32 k = r.n(6); w[0] = k == 0 ? 0 : k == 1 ? 0x80u : k == 2 ? 0x20u : k == 3 ? r.n(256) : k == 4 ? 0xffffffffu : (u32)r.next(); if (hint()) w[0] = hinted(); break; }
      case K_I32: w[0] = (u32)((int)r.n(2 * s.arg) - (int)s.arg); break;
      case K_IDX: case K_FLAGS: w[0] = r.n(s.arg); break;
      case K_BOOL: out[0] = r.n(2); break;
      case K_HALF: { u16 h = r.p(30) ? (u16[]){0, 0x8000, 0x7c00, 0xfc00, 0x7e00, 1, 0x3ff, 0x400, 0x7bff, 0x3c00}[r.n(10)] : (u16)r.next(); memcpy(out.data(), &h, 2); break; }
      case K_SPHERE: c3(tmp); tmp[3] = (cls == 4 ? (float)r.n(3) : r.p(5) ? f() : pos(0.05f, 3)) * contrast(); put(4); break;
      case K_BOX: { float q = contrast(); c3(tmp); for (int i = 0; i < 3; i++) tmp[3 + i] = ext() * q; put(6); break; }
      case K_OBB: { float q = contrast(); c3(tmp); for (int i = 0; i < 3; i++) tmp[3 + i] = ext() * q; unit(tmp + 6, 4); put(10); break; }
      case K_FRUST: c3(tmp); unit(tmp + 3, 4); tmp[7] = pos(0.1f, 2); tmp[8] = -pos(0.1f, 2); tmp[9] = pos(0.1f, 2); tmp[10] = -pos(0.1f, 2); tmp[11] = pos(0.1f, 2); tmp[12] = tmp[11] + pos(0.5f, 10); put(13); break;
      case K_POINTS: points(out); break;
    }
    if (s.kind != K_POINTS && (s.kind >= K_SPHERE && s.kind <= K_FRUST || s.kind == K_MAT || s.kind == K_ROTMAT || s.kind == K_PROJ || s.kind == K_QUAT || s.kind == K_UNIT3 || s.kind == K_PLANE || s.kind == K_SMALLF) && nw && hint()) { u32 k = r.n(nw); float v = std::fabs(hintf()); w[k] = fbits(w[k] >> 31 ? -v : v); }
  }
  u32 longlen() {
    if (!DICT_LEN.empty() && r.p(12)) { u32 v = DICT_LEN[r.n(DICT_LEN.size())]; v = v - 1 + r.n(3); if (v <= 1100 || r.p(20)) return std::min(v, 131073u); }
    static const u32 L[] = {17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025}; static const u32 X[] = {4095, 4097, 16384, 65535, 65536, 65537}; static const u32 Y[] = {70000, 100000, 131073}; u32 k = r.n(200); return k < 120 ? 17 + r.n(100) : k < 190 ? L[r.n(20)] : k < 199 ? X[r.n(6)] : Y[r.n(3)]; }
  void points(std::vector<u8>& out) {
    u32* w = (u32*)out.data(); u32 n = r.p(4) ? 0 : r.p(12) ? 1 : 1 + r.n(16); if (r.p(12)) n = longlen(); w[0] = n; float* p = (float*)(w + 1);
    u32 shape = r.n(9); if (cls == 4) shape = r.p(60) ? 8 : 1 + r.n(3); bool tiny = r.p(6), axial = r.p(12); float c[3]; c3(c); if (tiny && r.p(70)) c[0] = c[1] = c[2] = 0; if (cls > 1 && !r.p(20)) for (int i = 0; i < 3; i++) c[i] = (r.unit() * 2 - 1) * 100;
    float q[4]; unit(q, 4); if (axial) { q[0] = q[1] = q[2] = 0; q[3] = 1; } double R[3][3]; rot3(q, R); float sc[3] = {pos(0.01f, 4), pos(0.01f, 4), pos(0.01f, 4)};
    if (shape == 1) sc[1] = sc[2] = 0; if (shape == 2) sc[2] = 0; if (shape == 3) sc[0] = sc[1] = sc[2]; if (shape == 4) for (int i = 0; i < 3; i++) sc[i] *= 1000; if (shape == 5) for (int i = 0; i < 3; i++) sc[i] *= 0.01f; if (tiny) { float m = std::ldexp(1.0f, -(int)(8 + r.n(40))); for (int i = 0; i < 3; i++) sc[i] *= m; }
    bool near = hint() || hint(); float hv = near ? hintf() : 0; u32 hk = near ? r.n(3) : 0, hp = near ? r.n(MAXPTS) : 0; if (!(std::fabs(hv) < 1e6f)) near = false;
    for (int i = 0; i < MAXPTS; i++) {
      double l[3]; for (int k = 0; k < 3; k++) l[k] = (r.unit() * 2 - 1) * sc[k];
      if (shape == 6) for (int k = 0; k < 3; k++) l[k] = ((i >> k) & 1 ? 1 : -1) * sc[k];
      for (int k = 0; k < 3; k++) p[i * 3 + k] = (float)(c[k] + l[0] * R[0][k] + l[1] * R[1][k] + l[2] * R[2][k]);
      if (shape == 7 && i && r.p(50)) memcpy(p + i * 3, p + (i - 1) * 3, 12);
      if (shape == 8) for (int k = 0; k < 3; k++) p[i * 3 + k] = (float)((int)r.n(7) - 3) * (tiny ? sc[0] : 1);
      if (near && (i == (int)hp || r.p(15))) p[i * 3 + hk] = hv;
    }
  }
};

static void gen_base(const FnDesc& fd, int fn, Rng& r, Call& c) {
  c.fn = fn; c.in.assign(fd.nslots, {}); DICT_NOW = DICT_FN.empty() ? nullptr : &DICT_FN[fn]; ValGen g(r);
  for (u32 i = 0; i < fd.nslots; i++) if (fd.slots[i].dir == D_VAL || fd.slots[i].dir == D_REF || fd.slots[i].dir == D_INOUT) g.slot(fd.slots[i], c.in[i]);
  if (r.p(10))  // equal arguments
    for (u32 i = 1; i < fd.nslots; i++) for (u32 j = 0; j < i; j++)
      if (!c.in[i].empty() && fd.slots[i].kind == fd.slots[j].kind && c.in[i].size() == c.in[j].size() && r.p(60)) { c.in[i] = c.in[j]; break; }
}
// A sibling differs from its base in one place, so that partial keys, tolerances and lane mix-ups show.
static void mutate(const FnDesc& fd, Rng& r, Call& c) {
  std::vector<u32> cand; for (u32 i = 0; i < fd.nslots; i++) if (!c.in[i].empty()) cand.push_back(i);
  if (cand.empty()) return;
  u32 i = cand[r.n(cand.size())]; const Slot& s = fd.slots[i]; auto& b = c.in[i]; DICT_NOW = DICT_FN.empty() ? nullptr : &DICT_FN[c.fn]; ValGen g(r);
  if (r.p(14) && cand.size() > 1) {   // exchange two arguments, or one word between them: keys that fold arguments together collide
    u32 j = cand[r.n(cand.size())]; auto& d = c.in[j];
    if (j != i && s.kind != K_POINTS && fd.slots[j].kind != K_POINTS && d.size() >= 4 && b.size() >= 4 && s.kind != K_IDX && s.kind != K_FLAGS && s.kind != K_I32 && fd.slots[j].kind != K_IDX && fd.slots[j].kind != K_FLAGS && fd.slots[j].kind != K_I32) {
      if (d.size() == b.size() && r.p(50)) std::swap(b, d); else { u32 x = r.n(b.size() / 4), y = r.p(60) ? std::min(x, (u32)d.size() / 4 - 1) : r.n(d.size() / 4); u32* p = (u32*)b.data() + x; u32* q = (u32*)d.data() + y; std::swap(*p, *q); }
      return; }
  }
  if (s.kind == K_BOOL) { b[0] ^= 1; return; }
  if (s.kind == K_HALF) { b[r.n(2)] ^= 1u << r.n(8); return; }
  if (s.kind == K_IDX || s.kind == K_FLAGS || s.kind == K_I32 || s.kind == K_U32) { g.slot(s, b); return; }
  if (r.p(12)) { g.slot(s, b); return; }
  u32* w = (u32*)b.data(); u32 nw = b.size() / 4, k = r.n(nw);
  if (s.kind == K_POINTS) { u32 n = w[0]; if (r.p(25) || !n) { w[0] = r.p(15) ? g.longlen() : 1 + r.n(16); return; } k = 1 + r.n(3 * std::min(n, (u32)MAXPTS)); }
  float f = bitsf(w[k]);
  switch (r.n(10)) {
    case 0: w[k] += 1; break;
    case 1: w[k] ^= 0x80000000u; break;
    case 2: f = f * (1 + 1.0f / 1024); w[k] = fbits(f); break;
    case 3: f += 1.0f; w[k] = fbits(f); break;
    case 4: w[k] = (w[k] & 0x7fffffffu) ? 0 : 0x80000000u; break;
    case 5: if (s.kind != K_POINTS) { w[k] = SPECIAL[r.n(24)]; break; } // fallthrough
    case 6: f = f * 0.5f + 0.125f; w[k] = fbits(f); break;
    case 7: if (nw >= 2 && s.kind != K_POINTS) { u32 j = r.n(nw); std::swap(w[k], w[j]); break; } // fallthrough
    default: f = g.f(); if (s.kind == K_POINTS && !(std::fabs(f) < 1e6f)) f = 1; w[k] = fbits(f); break;
  }
}
// Preconditions that random values would almost never meet: ordered clamp limits, replicated scalars.
static void contract(const FnDesc& fd, Rng& r, Call& c) {
  if (r.p(8)) return; const char* n = fd.name; auto F = [&](u32 i) { return (float*)c.in[i].data(); };
  auto order = [&](float* a, float* b) { if (!(*a == *a)) *a = 0; if (!(*b == *b)) *b = 1; if (*a > *b) std::swap(*a, *b); };
  if (!strcmp(n, "XMVectorClamp")) for (int k = 0; k < 4; k++) order(F(1) + k, F(2) + k);
  else if (strstr(n, "ClampLength")) { float a = std::fabs(*F(1)), b = std::fabs(*F(2)); order(&a, &b); for (size_t k = 0; k < c.in[1].size() / 4; k++) { F(1)[k] = a; F(2)[k] = b; } }
  else if (!strcmp(n, "XMQuaternionSlerpV") || !strcmp(n, "XMQuaternionSquadV") || !strcmp(n, "XMQuaternionBaryCentricV") || !strcmp(n, "XMVectorBaryCentricV")) for (u32 i = strstr(n, "Slerp") ? 2 : strstr(n, "Squad") ? 4 : 3; i + 1 < fd.nslots; i++) for (int k = 1; k < 4; k++) F(i)[k] = F(i)[0];
}
static const int FAMILY = 8;
static Call gen_call(const FnDesc* T, int fn, u64 seed, u32 k) {
  Rng r(mix2(mix2(seed, 0x1000 + fn), k / FAMILY)); Call c; gen_base(T[fn], fn, r, c); contract(T[fn], r, c);
  if (k % FAMILY) { Rng m(mix2(mix2(seed, 0x9000 + fn), 77 + k)); mutate(T[fn], m, c); if (m.p(15)) mutate(T[fn], m, c); contract(T[fn], m, c); }
  return c;
}
