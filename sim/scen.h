// Scenario generation, minimisation, replay files, main.
#pragma once

struct Ent { Call c; Ref r; bool done = false; };
static std::unordered_map<u64, Ent*> pool; static u64 POOLSEED; static std::vector<int> hot; static std::vector<u8> ishot; static bool NEEDREF = true;
// Calls that crash or never finish already alone, where the property under check promises otherwise.
static std::vector<std::pair<int, u32>> alone; static std::set<int> alone_fn_seen;
static bool alone_bad(int fn, int status) {
  bool crash = status == 2, hang = status == 3; if (!crash && !hang) return false;
  switch (CHK) { case C04: return crash; case C06: return hang; case C07: return T[fn].flags & FL_STREAM; case C08: return T[fn].flags & FL_DEBUG; case C10: return T[fn].flags & FL_STORE; } return false;
}
static const u32 BIG = 1u << 29;     // a stream of more than a million points
static const u32 DERIV = 1u << 30;   // a call whose arguments are results of another call: state that remembers results shows only then
static Ent* get(int fn, u32 k); static void derive(Call& c, int fn, u32 k);
static Call make_call(int fn, u32 k) { Call c = gen_call(T, fn, POOLSEED, k & ~(DERIV | BIG)); if ((k & BIG) && (T[fn].flags & FL_STREAM)) *(u32*)c.in[1].data() = 1048571 + 6 * (k % 3); if (ENG == 'T' && (T[fn].flags & FL_STREAM)) { u32& n = *(u32*)c.in[1].data(); if (n > 1025) n = 1026 + n % 300; }   // single-stepped: a long stream would take a minute
  if (k & DERIV) derive(c, fn, k & ~DERIV); return c; }
static Ent* get(int fn, u32 k) {
  u64 key = (u64)fn << 32 | k; Ent* e = pool[key]; if (!e) { e = new Ent; e->c = make_call(fn, k); pool[key] = e; }
  if (NEEDREF && !e->done) { compute_ref(e->c, e->r); e->done = true; if (alone_bad(fn, e->r.status)) { if (!alone_fn_seen.insert(fn).second) {} else alone.push_back({fn, k}); } if (e->r.touches && e->r.status == 0 && !ishot[fn]) { ishot[fn] = 1; hot.push_back(fn); } }
  return e;
}
static void derive(Call& c, int fn, u32 k) {
  Rng r(mix2(mix2(POOLSEED, 0xd000 + fn), k)); int src = hot.size() && r.p(35) ? hot[r.n(hot.size())] : fn; Ent* e = get(src, src == fn ? k : r.n(3) * 8 + r.n(2)); if (e->r.status != 0) return; bool all = r.p(50);
  size_t o = 0; for (u32 i = 0; i < T[src].nslots; i++) { const Slot& s = T[src].slots[i]; if (s.dir < D_OUT) continue; const u8* v = &e->r.val[o]; o += s.cmp; if (s.cmp < 4) continue;
    for (u32 j = 0; j < T[fn].nslots; j++) { const Slot& q = T[fn].slots[j]; if (c.in[j].empty() || q.kind == K_POINTS || q.kind == K_IDX || q.kind == K_FLAGS || q.kind == K_I32 || q.kind == K_BOOL || (c.in[j].size() != s.cmp && !(c.in[j].size() > s.cmp && s.cmp >= 12 && r.p(40)))) continue; memcpy(c.in[j].data(), v, s.cmp); if (!all) return; } }
}
static std::map<std::pair<int, u32>, u32> callix;
static u32 addcall(Scen& s, int fn, u32 k) {
  auto it = callix.find({fn, k}); if (it != callix.end()) return it->second;
  if (!NEEDREF) { s.calls.push_back(make_call(fn, k)); refs.push_back(nullptr); return callix[{fn, k}] = (u32)s.calls.size() - 1; }
  Ent* e = get(fn, k); s.calls.push_back(e->c); refs.push_back(NEEDREF ? &e->r : nullptr); return callix[{fn, k}] = (u32)s.calls.size() - 1;
}
static const Ref& R(const Scen&, u32 call) { static Ref none; return refs[call] ? *refs[call] : none; }
static u32 pick_point(Rng& r, const Ref& rf) {
  if (!rf.hot.empty() && r.p(rf.touches ? 75 : 50)) return rf.hot[r.n(rf.hot.size())] + r.n(2);
  return r.n((u32)std::min<u64>(rf.points ? rf.points : 1, 1u << 20));
}
static std::vector<int> fns_with(u32 flag) { std::vector<int> v; for (size_t i = 0; i < NF; i++) if (T[i].flags & flag) v.push_back((int)i); return v; }
static int focus(Rng& r, u64 run) { if (!hot.empty() && r.p(75)) return hot[r.n(hot.size())]; u64 round = run / NF; return (int)((run * 397 + round * 131) % NF); }
static std::vector<std::vector<u32>> hotk;   // calls of a function that the scouting pass found suspicious
static u32 famk0(Rng& r, int fn, u32 fam) { if (!hotk[fn].empty() && r.p(40)) for (int t = 0; t < 4; t++) { u32 k = hotk[fn][r.n(hotk[fn].size())]; if (k / FAMILY == fam) return k; } return fam * FAMILY + (r.p(30) ? 0 : r.n(FAMILY)); }
static u32 famk(Rng& r, int fn, u32 fam) { u32 k = famk0(r, fn, fam); return NEEDREF && ishot[fn] && r.p(15) ? k | DERIV : k; }
static u32 nfam(int fn) { return ishot[fn] ? 40 : 3; }
static u32 pickfam(Rng& r, int fn) { if (!hotk[fn].empty() && r.p(65)) return hotk[fn][r.n(hotk[fn].size())] / FAMILY; return r.n(nfam(fn)); }
static void usable(Scen&, Step& st, Rng& r, int fn, u32 fam) {   // choose a call that does not crash alone
  for (int t = 0; t < 6; t++) { st.call = addcall(*(Scen*)S, fn, famk(r, fn, fam)); if (refs[st.call] == nullptr || refs[st.call]->status < 2) return; }
}
struct Mix { int f; u32 fam; int g; };
static Step mkstep(Scen& s, Rng& r, const Mix& m) {
  Step st; u32 q = r.n(100); int fn = q < 72 ? m.f : q < 86 ? m.g : (hot.size() && r.p(60)) ? hot[r.n(hot.size())] : (int)r.n(NF); u32 fam = fn == m.f ? (r.p(85) ? m.fam : pickfam(r, fn)) : fn == m.g && hotk[fn].empty() ? m.fam % nfam(fn) : pickfam(r, fn);
  for (int t = 0; t < 8; t++) { st.call = addcall(s, fn, famk(r, fn, fam)); if (!refs[st.call] || refs[st.call]->status < 2) break; if (t > 4) fam = pickfam(r, fn); if (t == 6) fn = (int)r.n(NF); }
  if (r.p(60)) st.poison = 4 + (u32)r.n(1 << 20); st.share = r.p(35) ? 1 : r.p(20) ? 2 : 0; return st;
}
static void sortev(Step& st) { std::stable_sort(st.ev.begin(), st.ev.end(), [](const Event& a, const Event& b) { return a.point < b.point; }); }
static void caller_faults(Step& st, const Ref& rf, u32 fl, Rng& r, int pct) {   // panicking or failing caller parts
  if (!r.p(pct)) return;
  if (fl & FL_STREAM) { if (r.p(75)) st.plan.pnext = r.n(rf.nnext ? rf.nnext : 20); else st.plan.pclone = r.n(3); }
  if (fl & FL_DEBUG) { if (r.p(70)) st.plan.wfail = r.n(rf.nwrite ? rf.nwrite : 12); else st.plan.wbytes = r.n(rf.text.size() ? (u32)rf.text.size() : 60); st.plan.wpanic = r.p(35); }
  if (fl & FL_CMPCB) st.plan.pcmp = 0;
}

static u32 crowdsize(Rng& r) { static const u32 C[] = {6, 9, 12, 17, 18, 33, 34, 65, 70}, B[] = {129, 130, 257, 260}; return r.p(10) ? B[r.n(4)] : C[r.n(9)]; }
// No more repetitions than cost something bearable, as far as the calls alone tell: in engine I every memory access counts, otherwise the elements streamed and the pieces written.
static u32 bearable(Scen& s, u32 reps, u64 budget) {
  u64 c = 0; for (u32 x : s.cycle) { u64 k = 40; if (refs[x]) { k += ENG == 'I' ? refs[x]->points : 0; k += 30 * (u64)(refs[x]->nnext + refs[x]->nwrite); } else if (T[s.calls[x].fn].flags & FL_STREAM) k += 30 * 50; c += k; }
  return s.cycle.empty() ? reps : (u32)std::max<u64>(20, std::min<u64>(reps, budget * s.cycle.size() / c));
}
// A state that builds up: many calls of a function that keeps something between calls, before what the run is about.
static void prehistory(Scen& s, Rng& r, const Mix& m) {
  int fn = ishot[m.f] ? m.f : hot[r.n(hot.size())]; static const u32 REPS[] = {20, 70, 140, 300, 600, 1100, 2100, 4200}; u32 reps = REPS[r.n((ENG == 'I' ? 6 : 8) - (CHK == C07 || (T[fn].flags & FL_STREAM) ? 3 : 0))], distinct = r.p(50) ? 4 : r.p(60) ? 24 : ENG == 'I' ? 64 : 280;
  for (u32 i = 0; i < distinct; i++) { u32 k = i < 8 || distinct < 10 ? famk(r, fn, m.f == fn ? m.fam : 0) : i; if ((T[fn].flags & FL_STREAM) && *(u32*)make_call(fn, k).in[1].data() > 300) continue; u32 c = addcall(s, fn, k); if (!refs[c] || refs[c]->status < (CHK == C09 ? 1 : 2)) s.cycle.push_back(c); }
  if (s.cycle.empty()) return; Step st; st.call = s.cycle[0]; st.rep = bearable(s, reps, 4000000); st.poison = 4 + r.n(1 << 20); if (CHK == C09 && r.p(50)) { st.plan.afrom = 0; st.plan.acount = -1; } if (CHK == C05) st.mx = 1 + r.n(16); if (CHK == C13 || CHK == C08 || CHK == C07) caller_faults(st, R(s, st.call), T[fn].flags, r, 50);
  u32 t = r.p(70) ? 0 : r.n(s.th.size()); s.th[t].insert(s.th[t].begin(), st); if (CHK == C13 && s.seq) for (auto& th : s.th) th = s.th[t];
}
static u32 hot_reps() { static u32 n = 0; n++; return n == 3 ? 17500000 : n < 8 ? 2200000 : 300000; }   // past every 16-bit and one 24-bit counter
static Scen gen_scen(u64 seed, u64 run, bool marathon) {
  Rng r(seed); Scen s; refs.clear(); callix.clear(); S = &s; s.clock = (u32)r.next(); bool tf = ENG == 'T';
  static const std::vector<int> streams = fns_with(FL_STREAM), dbgs = fns_with(FL_DEBUG), stores = fns_with(FL_STORE), cmps = fns_with(FL_CMPCB);
  Mix m; m.f = focus(r, run); m.g = hot.size() && r.p(70) ? hot[r.n(hot.size())] : (int)r.n(NF); m.fam = pickfam(r, m.f);
  switch (CHK) {
    case C01: {
      u32 q = r.n(10), n = q < 5 ? 2 : q < 8 ? 3 : 4; if (!tf && r.p(hot.size() ? 12 : 3)) n = crowdsize(r); s.th.resize(n);   // sometimes a crowd: slots per thread run out or collide
      for (auto& t : s.th) { u32 k = 1 + r.n(tf ? 2 : n > 4 ? 2 : ishot[m.f] ? 5 : 3); for (u32 i = 0; i < k; i++) t.push_back(mkstep(s, r, m)); }
      u32 ne = 1 + r.n(tf ? 3 : 5);
      for (u32 i = 0; i < ne; i++) { u32 t = i == 0 ? 0 : r.n(n); auto& st = s.th[t][r.n(s.th[t].size())]; u32 to = r.n(n - 1); if (to >= t) to++; st.ev.push_back({pick_point(r, R(s, st.call)), A_PREEMPT, to}); }
      break; }
    case C02: {
      u32 n = !tf && r.p(20) ? 2 : 1; s.th.resize(n); if (r.p(18)) { auto& v = r.p(70) ? streams : r.p(80) ? dbgs : cmps; m.f = v[r.n(v.size())]; m.fam = r.n(3); }
      for (auto& t : s.th) { u32 k = 1 + r.n(ishot[m.f] ? 4 : 2); for (u32 i = 0; i < k; i++) t.push_back(mkstep(s, r, m)); }
      u32 ne = 1 + r.n(3);
      for (u32 i = 0; i < ne; i++) {
        auto& th = s.th[r.n(n)]; u32 si = r.n(th.size()); u32 nn = 1 + r.n(2);
        u32 pt = pick_point(r, R(s, th[si].call));
        for (u32 j = 0; j < nn; j++) { Step ns = mkstep(s, r, m); ns.share = ns.share == 1 ? 0 : ns.share; if (!tf && r.p(25)) { Step n2 = mkstep(s, r, m); n2.share = 0; s.nested.push_back(n2); ns.ev.push_back({pick_point(r, R(s, ns.call)), A_NEST, (u32)s.nested.size() - 1}); }
          s.nested.push_back(ns); th[si].ev.push_back({pt, A_NEST, (u32)s.nested.size() - 1}); }
      }
      if (n == 1 && !tf && r.p(ishot[m.f] ? 12 : 5)) {   // calls inside calls inside calls ...
        static const u32 D[] = {4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33}; u32 d = D[r.n(11)]; Step st; for (u32 i = 0; i < d; i++) { Step ns = mkstep(s, r, m); if (ns.share == 1) ns.share = 0; if (i) ns.ev.push_back({pick_point(r, R(s, ns.call)), A_NEST, (u32)s.nested.size() - 1}); s.nested.push_back(ns); }
        auto& t0 = s.th[0][0]; t0.ev.push_back({pick_point(r, R(s, t0.call)), A_NEST, (u32)s.nested.size() - 1}); }
      if (n == 2) { auto& st = s.th[0][r.n(s.th[0].size())]; st.ev.push_back({pick_point(r, R(s, st.call)), A_PREEMPT, 1}); }
      break; }
    case C03: {
      if (marathon && ishot[m.f] && r.p(30)) {   // ever new threads
        static u32 big = 0; s.seq = 1; s.th.resize(1 + r.n(3)); for (auto& t : s.th) { u32 k = 1 + r.n(2); for (u32 j = 0; j < k; j++) { Step st = mkstep(s, r, m); if (T[s.calls[st.call].fn].flags & FL_STREAM) { st.call = addcall(s, m.f, 0); } st.poison = 0; t.push_back(st); } }
        s.laps = (ENG == 'P' && big++ % 4 == 0 && big < 22 ? 70000 : 1100) / s.th.size(); break; }
      if (marathon) {
        s.th.resize(1); u32 fam = hotk[m.f].empty() ? 0 : m.fam; for (int i = 0; i < 6; i++) { u32 c = addcall(s, m.f, i ? fam * FAMILY + i : famk(r, m.f, fam)); if (refs[c]->status < 2) s.cycle.push_back(c); }
        if (m.g != m.f) for (int i = 0; i < 2; i++) { u32 c = addcall(s, m.g, i); if (refs[c]->status < 2) s.cycle.push_back(c); }
        if (s.cycle.empty()) { s.cycle.push_back(addcall(s, 0, 0)); }
        Step st; st.call = s.cycle[0]; st.rep = ENG == 'I' ? (ishot[m.f] ? 70000 : 1200) : (T[m.f].flags & (FL_STREAM | FL_DEBUG)) ? 4000 : ishot[m.f] ? hot_reps() : 110000; st.rep = bearable(s, st.rep, ENG == 'I' ? 40000000 : 1000000000); st.poison = 4 + r.n(1 << 20); s.th[0].push_back(st); break; }
      u32 q = r.n(100);
      if (q < 60) {
        s.th.resize(1); u32 k = 6 + r.n(30);
        for (u32 i = 0; i < k; i++) { Step st = mkstep(s, r, m); if (!r.p(60)) { st = mkstep(s, r, Mix{(int)r.n(NF), 0, m.f}); } st.poison = 4 + r.n(1 << 20); st.mx = 255; if (st.share == 1) st.share = 0; caller_faults(st, R(s, st.call), T[s.calls[st.call].fn].flags, r, 40); if (r.p(7)) st.late = 2; s.th[0].push_back(st); }
        if (r.p(25)) { auto& v = r.p(60) ? streams : dbgs; Step st; st.call = addcall(s, v[r.n(v.size())], r.n(24)); st.mx = 255; caller_faults(st, R(s, st.call), T[s.calls[st.call].fn].flags, r, 100); s.th[0].insert(s.th[0].begin() + r.n(s.th[0].size()), st); }
      } else {
        u32 n = q < 90 ? 2 + r.n(4) : r.p(hot.size() ? 20 : 5) ? 127 + r.n(170) : 10 + r.n(60); s.th.resize(n); s.seq = 1;
        for (u32 i = 0; i < n; i++) { u32 k = 1 + r.n(3); for (u32 j = 0; j < k; j++) { Step st = mkstep(s, r, m); st.poison = 4 + r.n(1 << 20); st.mx = 255; if (j && j + 1 == k && r.p(40)) st.late = 1; else if (r.p(5)) st.late = 2; s.th[i].push_back(st); }
          if (i + 1 < n && r.p(25)) { auto& st = s.th[i][r.n(s.th[i].size())]; st.ev.push_back({pick_point(r, R(s, st.call)), A_SUSPEND, 0}); } }
      }
      break; }
    case C04: {
      s.th.resize(1); u32 k = 6 + r.n(10); if (r.p(20)) m.f = stores[r.n(stores.size())];
      for (u32 i = 0; i < k; i++) { Step st = mkstep(s, r, m); st.place = 1 + (u32)r.n(1 << 24); if (st.share == 1) st.share = 0; if (r.p(40)) { u32 ne = 1 + r.n(2); for (u32 j = 0; j < ne; j++) st.ev.push_back({pick_point(r, R(s, st.call)), A_NEIGHBOUR, r.n(8)}); } s.th[0].push_back(st); }
      if (r.p(12)) { u32 n = 0; for (auto& st : s.th[0]) { st.call = addcall(s, m.f, famk(r, m.f, m.fam)); st.ev.clear(); } for (auto& st : s.th[0]) st.place = ARRAY | (u32)(s.th[0].size() - 1 - n++) << 1 | r.p(30); }   // the elements of an array, one after the other
      break; }
    case C05: {
      s.th.resize(1); u32 k = 150;
      for (u32 i = 0; i < k; i++) { int fn = r.p(6) ? streams[r.n(streams.size())] : r.p(4) ? dbgs[r.n(dbgs.size())] : hot.size() && r.p(12) ? hot[r.n(hot.size())] : (int)((run * k + i) % NF); Step st; st.call = addcall(s, fn, !hotk[fn].empty() && r.p(50) ? hotk[fn][r.n(hotk[fn].size())] : r.n(1 << 20)); st.mx = r.p(10) ? 0 : 1 + r.n(16); st.poison = 4 + r.n(1 << 20); st.share = r.p(30) ? 3 : 0; caller_faults(st, Ref(), T[fn].flags, r, 55); if (st.plan.pnext > 0) st.plan.pnext = r.n(40); s.th[0].push_back(st); }
      break; }
    case C06: {
      if (ENG == 'P') { s.th.resize(1); for (u32 i = 0; i < 250; i++) { Step st; st.call = addcall(s, (int)((run * 250 + i) % NF), r.n(1 << 20)); s.th[0].push_back(st); } break; }
      u32 n = 2 + r.n(3); if (!tf && r.p(hot.size() ? 12 : 3)) n = crowdsize(r); s.th.resize(n); bool crowd = n > 4;   // a crowd: a pool of slots is exhausted by threads that never give them back
      for (u32 t = 0; t < n; t++) { u32 k = 1 + (crowd ? 0 : r.n(tf ? 1 : 3)); for (u32 i = 0; i < k; i++) s.th[t].push_back(mkstep(s, r, m)); if (t + 1 < n) { auto& st = s.th[t][r.n(k)]; st.ev.push_back({pick_point(r, R(s, st.call)), A_SUSPEND, 0}); } }
      break; }
    case C07: {
      s.th.resize(1); u32 k = 4; 
      for (u32 i = 0; i < k; i++) {
        Step st; int fn = streams[(run + i) % streams.size()]; u32 kk = r.n(4000); if (ENG == 'P' && run % 250 == 17 && i == 0) kk |= BIG; st.call = addcall(s, fn, kk); const Ref& rf = R(s, st.call); if (rf.status > 1) continue; st.poison = 4 + r.n(1 << 20);
        u32 q = r.n(10); if (q >= 2) { st.plan.hint = r.n(6); st.plan.tail = r.p(60) ? r.n(8) : 0; }
        if (q >= 6) { if (r.p(80)) st.plan.pnext = r.n(rf.nnext ? rf.nnext : 1); else st.plan.pclone = r.n(rf.nclone + 1); }
        if (r.p(25)) { Step ns; ns.call = addcall(s, r.p(60) ? streams[r.n(streams.size())] : (int)r.n(NF), r.n(24)); if (R(s, ns.call).status < 2) { s.nested.push_back(ns); const Ref& r2 = R(s, st.call); st.ev.push_back({r2.hot.empty() ? r.n(100) : r2.hot[r.n(r2.hot.size())], A_NEST, (u32)s.nested.size() - 1}); } }
        s.th[0].push_back(st);
      }
      if (s.th[0].empty()) { Step st; st.call = addcall(s, 0, 0); s.th[0].push_back(st); }
      break; }
    case C08: {
      s.th.resize(1);
      for (u32 i = 0; i < 4; i++) { Step st; int fn = dbgs[(run * 4 + i) % dbgs.size()]; u32 kk = r.n(ishot[fn] ? 64 : 400); st.call = addcall(s, fn, kk); if (R(s, st.call).status > 1) continue; caller_faults(st, R(s, st.call), FL_DEBUG, r, 85); s.th[0].push_back(st); Step b; b.call = st.call; if (r.p(50)) s.th[0].push_back(b); }
      if (s.th[0].empty()) { Step st; st.call = addcall(s, 0, 0); s.th[0].push_back(st); }
      break; }
    case C09: {
      s.th.resize(1);
      for (u32 i = 0; i < 10; i++) { Step st; int fn = r.p(6) ? streams[r.n(streams.size())] : r.p(6) ? dbgs[r.n(dbgs.size())] : hot.size() && r.p(30) ? hot[r.n(hot.size())] : (int)((run * 10 + i) % NF); st.call = addcall(s, fn, hotk[fn].size() ? famk(r, fn, pickfam(r, fn)) : r.n(24)); if (R(s, st.call).status != 0) continue; st.poison = r.p(50) ? 4 + r.n(1 << 20) : 0;
        u32 q = r.n(4); st.plan.afrom = q < 2 ? 0 : r.n(4); st.plan.acount = q == 0 || q == 2 ? -1 : 1; if (r.p(25)) st.plan.hint = r.n(5); s.th[0].push_back(st); }
      if (s.th[0].empty()) { Step st; st.call = addcall(s, 0, 0); s.th[0].push_back(st); }
      break; }
    case C13: case C14: {
      bool many = CHK == C13 && r.p(25); u32 k = many ? 12 : CHK == C13 ? 40 : 150; s.th.resize(1); u32 big = 0;
      for (u32 i = 0; i < k; i++) { int fn = r.p(8) ? streams[r.n(streams.size())] : r.p(4) ? dbgs[r.n(dbgs.size())] : r.p(3) ? cmps[r.n(cmps.size())] : hot.size() && r.p(25) ? hot[r.n(hot.size())] : (int)((run * k + i) % NF); u32 kk = !hotk[fn].empty() && r.p(60) ? hotk[fn][r.n(hotk[fn].size())] : r.n(1 << 20); if (CHK == C14 && ENG == 'P' && run % 400 == 19 && (T[fn].flags & FL_STREAM) && !big++) kk |= BIG; Step st; st.call = addcall(s, fn, kk);
        if (CHK == C13 && (T[fn].flags & FL_STREAM) && *(u32*)s.calls[st.call].in[1].data() > 2000) continue;
        st.poison = 4 + r.n(1 << 20); caller_faults(st, Ref(), T[fn].flags, r, CHK == C13 ? 60 : 25); if (st.plan.pnext > 0) st.plan.pnext = r.n(40); if (r.p(20)) { st.plan.hint = r.n(6); st.plan.tail = r.n(8); } s.th[0].push_back(st); }
      if (s.th[0].empty()) { Step st; st.call = addcall(s, 0, 0); s.th[0].push_back(st); }
      if (many) { s.seq = 1; s.th.resize(6, s.th[0]); }
      break; }
    case C10: {
      s.th.resize(1);
      for (u32 i = 0; i < (tf ? 2 : 6); i++) { Step st; int fn = stores[(run * 2 + i) % stores.size()]; st.call = addcall(s, fn, r.n(tf ? 64 : 400)); if (R(s, st.call).status != 0) continue; st.poison = 4 + r.n(1 << 20); if (r.p(70)) st.place = 1 + r.n(1 << 24); s.th[0].push_back(st); }
      if (s.th[0].empty()) { Step st; st.call = addcall(s, 0, 0); s.th[0].push_back(st); }
      break; }
  }
  if (!marathon && hot.size() && s.cycle.empty() && r.p(7)) prehistory(s, r, m);
  for (auto& t : s.th) for (auto& st : t) sortev(st);
  for (auto& st : s.nested) sortev(st);
  return s;
}

// ---------------------------------------------------------------- scouting: many cheap calls, one after the other in one process, to
// find the calls worth simulating (they touch memory that outlives the call, depend on leftovers, allocate, reach outside their
// arguments, crash or hang). It decides nothing: what it finds becomes the subject of the simulated runs.
struct Scout { volatile int fn; volatile u32 k; u32 n; u64 calls; struct { int fn; u32 k, what; } hit[2048]; };
static Scout* sct; enum { H_TOUCH, H_DIFF, H_ALLOC, H_ACCESS, H_CRASH, H_HANG };
struct ScoutArg { u32 per; u64 t0; double maxs; };
static void scout_child(void* p_) {
  ScoutArg* p = (ScoutArg*)p_; Scen sc; sc.calls.resize(1); S = &sc; install(); sigs(NVT); nvt = 1; multi = false; vts[0].id = 0; vts[0].last_mx = MX_DEFAULT; vts[0].state = S_RUN; vts[0].mid = false; myvt = &vts[0]; alloc_fmem(0, 1); in_run = ref_mode = scouting = true; simclock = 12345; simrand = 54321; prctl(PR_SET_TSC, PR_TSC_SIGSEGV, 0, 0, 0);
  int chk = CHK; char eng = ENG; if (ENG == 'T') ENG = 'P'; refs.clear(); u32 base = 320;
  for (; (size_t)sct->fn < NF; sct->fn = sct->fn + 1, sct->k = 0) {
    int fn = sct->fn; const FnDesc& fd = T[fn]; vtimer(6000); u32 hits = 0; for (u32 i = 0; i < sct->n; i++) hits += sct->hit[i].fn == fn;
    u32 per = fd.flags & (FL_STREAM | FL_DEBUG) ? p->per / 2 : p->per; bool outs = false; for (u32 i = 0; i < fd.nslots; i++) outs |= fd.slots[i].dir >= D_OUT;
    for (; sct->k < per && hits < 6; sct->k = sct->k + 1) {
      u32 k = base + sct->k; sc.calls[0] = gen_call(T, fn, POOLSEED, k); if ((fd.flags & FL_STREAM) && *(u32*)sc.calls[0].in[1].data() > 1100) continue;
      u64 al = shm->alloc_calls; shm->touches = 0; shm->nhot = 0; if (ENG != 'I') rw_take();
      auto hit = [&](u32 what) { if (sct->n < 2048) { sct->hit[sct->n].fn = fn; sct->hit[sct->n].k = k; sct->hit[sct->n].what = what; sct->n++; hits++; } };
      Step st; st.poison = 1000001; CHK = chk == C04 ? C04 : 0; run_step(&vts[0], st, 0, 0, 0, false); sct->calls++; CHK = chk;
      if (shm->alloc_calls != al && shm->rstatus == 0) { if (chk == C09 || chk == C13) hit(H_ALLOC); }
      if (ENG != 'I' && rw_changed(false)) shm->touches = 1;
      if (shm->touches && shm->rstatus == 0) hit(H_TOUCH);
      if (chk == C03 && shm->rstatus == 0 && outs) {
        static u8 v1[4096], m1[4096]; u32 n = shm->rlen; int s1 = shm->rstatus; memcpy(v1, shm->val, n); memcpy(m1, shm->mask, n); st.poison = 1000002; CHK = 0; run_step(&vts[0], st, 0, 0, 0, false); CHK = chk; sct->calls++;
        bool d = s1 != shm->rstatus; for (u32 i = 0; i < n && !d; i++) d = m1[i] && shm->mask[i] ? v1[i] != shm->val[i] : false;
        for (u32 i = 0; i < n; i++) shm->mask[i] |= m1[i]; if (!d && undefined_output(sc.calls[0]) >= 0) d = true;
        if (d) hit(H_DIFF);
      }
    }
  }
  ENG = eng;
}
static u64 scout(u32 per) {
  if (!sct) sct = (Scout*)mmap(nullptr, sizeof(Scout), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sct->fn = 0; sct->k = 0; sct->n = 0; sct->calls = 0; ScoutArg a = {per, 0, 0}; int died = 0;
  while ((size_t)sct->fn < NF && died < 200) {
    memset((void*)shm, 0, offsetof(Shm, hot)); memset(shm->mask, 0, sizeof shm->mask); int st = forked(scout_child, &a);
    if ((size_t)sct->fn >= NF) break;
    bool hang = !strcmp(shm->kind, "hang") || !strcmp(shm->kind, "no-progress") || !strcmp(shm->kind, "never-finishes"), acc = !strcmp(shm->kind, "touched-outside"); (void)st;
    if (sct->n < 2048) { sct->hit[sct->n].fn = sct->fn; sct->hit[sct->n].k = 320 + sct->k; sct->hit[sct->n].what = acc ? H_ACCESS : hang ? H_HANG : H_CRASH; sct->n++; }
    died++; sct->k = hang ? 1u << 30 : sct->k + 1; shm->violated = 0; shm->kind[0] = 0; if (hang && CHK == C06) break;   // one is enough to decide
  }
  for (u32 i = 0; i < sct->n; i++) {
    int fn = sct->hit[i].fn; u32 k = sct->hit[i].k, w = sct->hit[i].what;
    if (w == H_ACCESS) { if (alone_fn_seen.insert(fn).second) alone.push_back({fn, k}); continue; }
    if (w == H_CRASH || w == H_HANG) { if (NEEDREF) get(fn, k); else if (CHK == C06 && w == H_HANG && alone_fn_seen.insert(fn).second) alone.push_back({fn, k}); continue; }
    if (!ishot[fn]) { ishot[fn] = 1; hot.push_back(fn); } hotk[fn].push_back(k);
  }
  return sct->calls;
}

// ---------------------------------------------------------------- C03: very many different calls of a function that keeps state, in two
// orders; a call whose results differ between them gives a history to simulate (again this decides nothing itself).
struct WideArg { int fn; u32 n, mul; u64* out; };
static const u32 WBASE = 1u << 24;
static void wide_child(void* p_) {
  WideArg* p = (WideArg*)p_; Scen sc; sc.calls.resize(1); S = &sc; install(); sigs(NVT); nvt = 1; multi = false; vts[0].id = 0; vts[0].last_mx = MX_DEFAULT; vts[0].state = S_RUN; vts[0].mid = false; myvt = &vts[0]; alloc_fmem(0, 1); in_run = ref_mode = scouting = true; simclock = 12345; simrand = 54321; prctl(PR_SET_TSC, PR_TSC_SIGSEGV, 0, 0, 0); vtimer(20000); CHK = 0; refs.clear();
  for (u32 i = 0; i < p->n; i++) { u32 j = (u32)((u64)i * p->mul % p->n); sc.calls[0] = gen_call(T, p->fn, POOLSEED, WBASE + j); Step st; st.poison = 1000001; run_step(&vts[0], st, 0, 0, 0, true); u64 h = 1 + shm->rstatus; for (u32 q = 0; q < shm->rlen; q++) h = h * 1099511628211ull + shm->val[q]; p->out[j] = h; }
}
static std::deque<Scen> pre; static std::deque<std::vector<const Ref*>> prerefs; static std::deque<Ref> keeprefs;
static void wide() {
  u64* a = (u64*)mmap(nullptr, 1 << 21, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); u64* b = a + (1 << 17); char eng = ENG; if (ENG == 'T') ENG = 'P';
  for (size_t h = 0; h < hot.size() && h < 10; h++) {
    int fn = hot[h]; u32 n = T[fn].flags & (FL_STREAM | FL_DEBUG) ? 1999 : ENG == 'I' ? 9973 : 99991; memset(a, 0, 1 << 21); WideArg x = {fn, n, 1, a}, y = {fn, n, n == 1999 ? 761u : n == 9973 ? 3853u : 38197u, b};
    memset((void*)shm, 0, offsetof(Shm, hot)); forked(wide_child, &x); forked(wide_child, &y); shm->violated = 0; shm->kind[0] = 0; u32 made = 0;
    for (u32 i = 0; i < n && made < 3; i++) if (a[i] && b[i] && a[i] != b[i]) {
      made++; for (int o = 0; o < 2; o++) {
        u64 mul = o ? y.mul : 1, pos = 0; if (o) { for (u64 q = 0; q < n; q++) if (q * mul % n == i) { pos = q; break; } } else pos = i; u64 from = pos > 20000 ? pos - 20000 : 0;
        Scen s; s.th.resize(1); std::vector<const Ref*> rf; for (u64 q = from; q <= pos; q++) { Step st; st.call = (u32)s.calls.size(); s.calls.push_back(gen_call(T, fn, POOLSEED, WBASE + (u32)(q * mul % n))); s.th[0].push_back(st); rf.push_back(nullptr); }
        keeprefs.emplace_back(); compute_ref(s.calls.back(), keeprefs.back()); rf.back() = &keeprefs.back(); pre.push_back(std::move(s)); prerefs.push_back(rf); }
    }
  }
  ENG = eng; munmap(a, 1 << 21);
}

// ---------------------------------------------------------------- replay files
static std::string hex(const std::vector<u8>& v) { static const char* H = "0123456789abcdef"; std::string s; for (u8 b : v) { s += H[b >> 4]; s += H[b & 15]; } return s; }
static void wstep(FILE* o, const Step& st) {
  fprintf(o, "step late=%u call=%u place=%u poison=%u mx=%u share=%u rep=%u stream=%d,%d,%d,%d,%d sink=%d,%d,%d alloc=%d,%d cmp=%d\n", st.late, st.call, st.place, st.poison, st.mx, st.share, st.rep, st.plan.len, st.plan.tail, st.plan.pnext, st.plan.pclone, st.plan.hint, st.plan.wfail, st.plan.wbytes, st.plan.wpanic, st.plan.afrom, st.plan.acount, st.plan.pcmp);
  for (auto& e : st.ev) fprintf(o, "event point=%u act=%s arg=%u\n", e.point, ACTN[e.act], e.arg);
}
static void write_replay(const char* path, const Scen& s, const char* cfg, const Verdict& v, u64 seed) {
  FILE* o = fopen(path, "w"); if (!o) { perror(path); exit(2); }
  fprintf(o, "dxsim-replay 1\ncheck C%02d\nconfig %s\nengine %c\nseed %llu\nkind %s\ndetail %s\nlog %016llx\nseq %u\nlaps %u\nclock %u\n", CHK, cfg, ENG, (unsigned long long)seed, v.kind.c_str(), v.detail.c_str(), (unsigned long long)v.log, s.seq, s.laps, s.clock);
  for (auto& c : s.calls) { fprintf(o, "call %s\n", T[c.fn].name); for (size_t i = 0; i < c.in.size(); i++) if (!c.in[i].empty()) fprintf(o, "in %zu %s\n", i, hex(c.in[i]).c_str()); }
  if (!s.cycle.empty()) { fprintf(o, "cycle"); for (u32 c : s.cycle) fprintf(o, " %u", c); fprintf(o, "\n"); }
  for (auto& n : s.nested) { fprintf(o, "nested\n"); wstep(o, n); }
  for (auto& t : s.th) { fprintf(o, "thread\n"); for (auto& st : t) wstep(o, st); }
  fclose(o);
}
static Scen read_replay(const char* path, std::string& kind, u64& log, std::string& chk, char& eng, std::string& cfg) {
  Scen s; FILE* f = fopen(path, "r"); if (!f) { perror(path); exit(2); } static char b[65536]; bool nested = false; std::vector<std::string> names;
  while (fgets(b, sizeof b, f)) {
    size_t n = strlen(b); while (n && (b[n - 1] == '\n')) b[--n] = 0; char* v = strchr(b, ' '); std::string k = v ? std::string(b, v - b) : b; if (v) v++; else v = b + n;
    if (k == "check") chk = v; else if (k == "config") cfg = v; else if (k == "engine") eng = *v; else if (k == "kind") kind = v; else if (k == "log") log = strtoull(v, 0, 16); else if (k == "seq") s.seq = atoi(v); else if (k == "laps") s.laps = atoi(v); else if (k == "clock") s.clock = (u32)strtoul(v, 0, 10);
    else if (k == "call") { Call c; c.fn = -1; if (T) { for (size_t i = 0; i < NF; i++) if (!strcmp(T[i].name, v)) c.fn = (int)i; if (c.fn < 0) { fprintf(stderr, "unknown function %s\n", v); exit(2); } c.in.resize(T[c.fn].nslots); } s.calls.push_back(c); }
    else if (k == "in") { if (T) { char* h; u32 i = strtoul(v, &h, 10); h++; std::vector<u8> x; for (; h[0] && h[1]; h += 2) { u32 q; sscanf(h, "%2x", &q); x.push_back((u8)q); } s.calls.back().in[i] = x; } }
    else if (k == "cycle") { char* p = v; while (*p) { s.cycle.push_back(strtoul(p, &p, 10)); while (*p == ' ') p++; } }
    else if (k == "nested") nested = true; else if (k == "thread") { nested = false; s.th.emplace_back(); }
    else if (k == "step") { Step st; auto& p = st.plan; sscanf(v, "late=%u call=%u place=%u poison=%u mx=%u share=%u rep=%u stream=%d,%d,%d,%d,%d sink=%d,%d,%d alloc=%d,%d cmp=%d", &st.late, &st.call, &st.place, &st.poison, &st.mx, &st.share, &st.rep, &p.len, &p.tail, &p.pnext, &p.pclone, &p.hint, &p.wfail, &p.wbytes, &p.wpanic, &p.afrom, &p.acount, &p.pcmp); if (nested) s.nested.push_back(st); else s.th.back().push_back(st); }
    else if (k == "event") { Event e; char a[32]; sscanf(v, "point=%u act=%31s arg=%u", &e.point, a, &e.arg); e.act = 0; for (int i = 0; i < A_NACT; i++) if (!strcmp(a, ACTN[i])) e.act = i; (nested ? s.nested.back() : s.th.back().back()).ev.push_back(e); }
  }
  fclose(f); return s;
}

// ---------------------------------------------------------------- minimisation: drop whatever the violation does not need
static u64 nmin = 0;
static bool still(Scen& c, const std::string& kind, Verdict& v) { static u64 since = real_ns(); if (++nmin > 600 || real_ns() - since > (kind == "hang" || kind == "never-finishes" ? 25000000000ull : 100000000000ull)) return false; Verdict w = run_once(c); if (w.bad && w.kind == kind) { v = w; return true; } return false; }
static void minimise(Scen& s, Verdict& v) {
  std::string kind = v.kind; bool again = true; int rounds = 0;
  if (s.laps > 1) { u32 lo = 0, hi = s.laps; for (int t = 0; t < 14 && lo + 1 < hi; t++) { u32 mid = (lo + hi) / 2; Scen c = s; c.laps = mid; if (still(c, kind, v)) { s = c; hi = mid; } else lo = mid; } }
  while (again && rounds++ < 4) {
    again = false;
    for (size_t t = s.th.size(); t-- > 0 && s.th.size() > 1;) { Scen c = s; c.th.erase(c.th.begin() + t); for (auto& th : c.th) for (auto& st : th) for (auto& e : st.ev) if (e.act == A_PREEMPT && e.arg > t) e.arg--; if (still(c, kind, v)) { s = c; again = true; } }
    for (size_t t = 0; t < s.th.size(); t++) {
      // halves first, then single steps
      for (size_t n = s.th[t].size() / 2; n >= 1; n /= 2) for (size_t i = 0; i + n <= s.th[t].size();) { if (s.th[t].size() == n && s.th.size() == 1) break; Scen c = s; c.th[t].erase(c.th[t].begin() + i, c.th[t].begin() + i + n); if (still(c, kind, v)) { s = c; again = true; } else i += n; }
      for (size_t i = 0; i < s.th[t].size(); i++) {
        for (size_t e = s.th[t][i].ev.size(); e-- > 0;) { Scen c = s; c.th[t][i].ev.erase(c.th[t][i].ev.begin() + e); if (still(c, kind, v)) { s = c; again = true; } }
        auto tryset = [&](auto f) { Scen c = s; Step before = c.th[t][i]; f(c.th[t][i]); if (memcmp(&before.call, &c.th[t][i].call, offsetof(Step, ev) - offsetof(Step, call)) && still(c, kind, v)) { s = c; again = true; } };
        tryset([](Step& x) { x.share = 0; }); tryset([](Step& x) { x.poison = 0; }); tryset([](Step& x) { x.place = 0; }); tryset([](Step& x) { x.mx = x.mx == 255 ? 255 : 0; }); tryset([](Step& x) { x.plan = Plan(); }); tryset([](Step& x) { x.plan.hint = 0; }); tryset([](Step& x) { x.plan.tail = 0; });
        while (s.th[t][i].rep > 1) { Scen c = s; c.th[t][i].rep = c.th[t][i].rep / 2; if (still(c, kind, v)) { s = c; again = true; } else break; }
        if (s.th[t][i].rep > 1) { u32 lo = s.th[t][i].rep / 2, hi = s.th[t][i].rep; while (lo + 1 < hi) { u32 mid = (lo + hi) / 2; Scen c = s; c.th[t][i].rep = mid; if (still(c, kind, v)) { s = c; hi = mid; } else lo = mid; } }
      }
    }
    for (size_t n = 0; n < s.nested.size(); n++) for (size_t e = s.nested[n].ev.size(); e-- > 0;) { Scen c = s; c.nested[n].ev.erase(c.nested[n].ev.begin() + e); if (still(c, kind, v)) { s = c; again = true; } }
  }
  // drop calls and nested steps nothing refers to
  std::vector<int> used(s.calls.size(), 0), un(s.nested.size(), 0);
  for (int k = 0; k < 4; k++) { for (auto& t : s.th) for (auto& st : t) { used[st.call] = 1; if (st.rep > 1) for (u32 c : s.cycle) used[c] = 1; for (auto& e : st.ev) if (e.act == A_NEST) un[e.arg] = 1; } for (size_t i = s.nested.size(); i-- > 0;) if (un[i]) { used[s.nested[i].call] = 1; for (auto& e : s.nested[i].ev) if (e.act == A_NEST) un[e.arg] = 1; } }
  Scen c; std::vector<const Ref*> nr; std::vector<u32> mc(s.calls.size()), mn(s.nested.size()); c.seq = s.seq; c.laps = s.laps; c.clock = s.clock;
  for (size_t i = 0; i < s.calls.size(); i++) if (used[i]) { mc[i] = c.calls.size(); c.calls.push_back(s.calls[i]); nr.push_back(refs[i]); }
  for (size_t i = 0; i < s.nested.size(); i++) if (un[i]) { mn[i] = c.nested.size(); c.nested.push_back(s.nested[i]); }
  bool anyrep = false; c.th = s.th; auto fix = [&](Step& st) { st.call = mc[st.call]; if (st.rep > 1) anyrep = true; for (auto& e : st.ev) if (e.act == A_NEST) e.arg = mn[e.arg]; };
  for (auto& t : c.th) for (auto& st : t) fix(st); for (auto& st : c.nested) fix(st); if (anyrep) for (u32 q : s.cycle) c.cycle.push_back(mc[q]);
  auto keep = refs; refs = nr; Verdict w = run_once(c); if (w.bad && w.kind == kind) { s = c; v = w; } else refs = keep;
}

// ---------------------------------------------------------------- main
static int phdr_cb(dl_phdr_info* i, size_t, void* arg) {
  if (!strstr(i->dlpi_name, (char*)arg)) return 0; u64 rl = 0, rh = 0; so_lo = ~0ull; so_hi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) { auto& p = i->dlpi_phdr[k]; u64 a = i->dlpi_addr + p.p_vaddr; if (p.p_type == PT_GNU_RELRO) { rl = a & ~4095ull; rh = (a + p.p_memsz + 4095) & ~4095ull; } if (p.p_type == PT_TLS) { tls_mod = i->dlpi_tls_modid; tls_size = p.p_memsz; } }
  for (int k = 0; k < i->dlpi_phnum; k++) { auto& p = i->dlpi_phdr[k]; if (p.p_type != PT_LOAD) continue; u64 a = i->dlpi_addr + p.p_vaddr, e = a + p.p_memsz; so_lo = std::min(so_lo, a); so_hi = std::max(so_hi, e); if (p.p_flags & PF_X) { text_lo = a; text_hi = e; } if (p.p_flags & PF_W) { u64 x = a; if (rl <= x && rh > x) x = std::min(rh, e); if (x < e) rwsegs.push_back({(u8*)x, e - x}); } }
  return 1;
}
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

int main(int argc, char** argv) {
  std::map<std::string, std::string> o; for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  for (int g = 1; g < 32; g++) signal(g, SIG_DFL); { sigset_t m; sigemptyset(&m); sigprocmask(SIG_SETMASK, &m, nullptr); }   // whatever the check itself was started with
  int pers = personality(0xffffffff); if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("DXSIM_REEXEC")) { personality(pers | ADDR_NO_RANDOMIZE); setenv("DXSIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  std::string so = o["--so"], cfg = o["--config"]; ENG = o.count("--engine") ? o["--engine"][0] : 'I';
  void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_GLOBAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  auto tab = (const FnDesc* (*)(size_t*))dlsym(h, "api_table"); auto init = (void (*)())dlsym(h, "api_init"); if (!tab || !init) { fprintf(stderr, "no table\n"); return 2; }
  T = tab(&NF); init(); api_unwinding = dlsym(h, "api_unwinding"); ishot.assign(NF, 0); hotk.resize(NF); std::string base = so.substr(so.rfind('/') + 1); dl_iterate_phdr(phdr_cb, (void*)base.c_str());
  shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  u8* dst = (u8*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); (void)dst;
  { size_t tot = 10 * (WIN + GUARD) + GUARD; for (int v = 0; v < (o["--check"] == "C04" || o["--check"] == "C10" || o.count("--replay") ? 1 : 0); v++) { u8* b = (u8*)mmap(nullptr, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); win_lo = b; win_hi = b + tot; for (int w = 0; w < 10; w++) { windows[v][w] = b + GUARD + w * (WIN + GUARD); mprotect(windows[v][w], WIN, PROT_READ | PROT_WRITE); } } }
  for (int v = 0; v < NVT; v++) alloc_fmem(v, v < 8 ? 4 : 0);
  if (o.count("--list")) { for (size_t i = 0; i < NF; i++) printf("%s\n", T[i].name); return 0; }
  if (o.count("--replay")) {
    std::string kind, chk, rc; u64 log = 0; char eng = 'I'; Scen s = read_replay(o["--replay"].c_str(), kind, log, chk, eng, rc); ENG = eng; CHK = atoi(chk.c_str() + 1); NEEDREF = CHK != C05 && CHK < C13 && !(CHK == C06 && ENG == 'P');
    std::vector<Ref> rs(s.calls.size()); refs.clear(); for (size_t i = 0; i < s.calls.size(); i++) { if (NEEDREF) compute_ref(s.calls[i], rs[i]); refs.push_back(NEEDREF ? &rs[i] : nullptr); }
    Verdict v = run_once(s); printf("{\"replay\":true,\"violated\":%s,\"kind\":\"%s\",\"detail\":\"%s\",\"same_kind\":%s,\"same_log\":%s}\n", v.bad ? "true" : "false", jesc(v.kind).c_str(), jesc(v.detail).c_str(), v.kind == kind ? "true" : "false", v.log == log ? "true" : "false"); return v.bad ? 1 : 0;
  }
  CHK = atoi(o["--check"].c_str() + 1); u64 seed = strtoull(o["--seed"].c_str(), 0, 10), runs = strtoull(o["--runs"].c_str(), 0, 10), mar = o.count("--marathon") ? strtoull(o["--marathon"].c_str(), 0, 10) : 0; u64 moff = o.count("--moff") ? strtoull(o["--moff"].c_str(), 0, 10) : 0; double maxs = o.count("--maxsec") ? atof(o["--maxsec"].c_str()) : 1e9;
  u64 hseed = seed; for (char c : cfg) hseed = mix2(hseed, c); hseed = mix2(hseed, ENG * 100 + CHK); POOLSEED = mix2(hseed, 1); NEEDREF = CHK != C05 && CHK < C13 && !(CHK == C06 && ENG == 'P'); if (CHK == C03) RUN_MS = 20000;
  if (o.count("--dict")) dict_load(o["--dict"].c_str(), T, (u32)NF);
  u64 t0 = real_ns(); bool dump = o.count("--log");
  if (NEEDREF && CHK != C07 && CHK != C08 && CHK != C10) for (size_t f = 0; f < NF && alone.empty(); f++) { u32 n = ENG == 'T' ? 1 : 4; for (u32 k = 0; k < n && alone.empty(); k++) get((int)f, k * (k < 2 ? 1 : 7)); }   // find functions that touch shared state
  u64 scouted = 0; if (o.count("--scout") && alone.empty()) scouted = scout(atoi(o["--scout"].c_str()));
  if (CHK == C03 && hot.size()) wide();
  u64 tref = real_ns() - t0;
  if (o.count("--refstat")) { u32 kk = atoi(o["--refstat"].c_str()); NEEDREF = true; for (size_t f = 0; f < NF; f++) { u32 c[4] = {0}; u64 mx = 0; u32 first = 0; for (u32 k = 0; k < kk; k++) { Ent* e = get((int)f, k); if (e->r.status >= 0 && e->r.status < 4) { if (e->r.status > 1 && !c[2] && !c[3]) first = k; c[e->r.status]++; } mx = std::max(mx, e->r.points); } if (c[1] | c[2] | c[3] || mx > 100000) printf("%s ok %u panic %u crash %u hang %u maxpoints %llu first %u\n", T[f].name, c[0], c[1], c[2], c[3], (unsigned long long)mx, first); } return 0; }
  Shm acc; memset((void*)&acc, 0, sizeof acc); std::unordered_set<u64> il; u64 done = 0, nontriv = 0, same = 0, twice = 0; u64 roll = 0; std::vector<std::string> samples; std::set<int> fnset; std::vector<u32> fncount(NF, 0); u64 fam_threads[NVT + 1] = {0};
  bool bad = false; std::string vjson, rpath; bool capped = false;
  for (u64 i = 0; i < runs + mar; i++) {
    if ((real_ns() - t0) * 1e-9 > maxs) { capped = true; break; }
    bool m = i >= runs; u64 rs = mix2(hseed, 1000 + i); Scen s; if (alone.empty()) s = gen_scen(rs, m ? i - runs + moff : i, m); S = &s; if (!alone.empty()) { s = Scen(); refs.clear(); callix.clear(); S = &s; Step st; st.call = addcall(s, alone.back().first, alone.back().second); s.th.resize(1); s.th[0].push_back(st); alone.pop_back(); } else if (!pre.empty()) { s = pre.front(); refs = prerefs.front(); pre.pop_front(); prerefs.pop_front(); S = &s; } u64 tr0 = real_ns(); Verdict v = run_once(s); done++; if (getenv("DXSIM_TIMES")) fprintf(stderr, "T %d %.3f th%zu laps%u rep%u cyc%zu cut%d %s\n", (int)m, (real_ns() - tr0) * 1e-9, s.th.size(), s.laps, s.th[0].empty() ? 0 : s.th[0][0].rep, s.cycle.size(), (int)shm->cut, s.th[0].empty() ? "" : T[s.calls[s.th[0][0].call].fn].name);
    roll = mix2(roll, v.log); if (dump) fprintf(stderr, "%llu %016llx\n", (unsigned long long)i, (unsigned long long)v.log);
#define ADD(x) acc.x += shm->x
    ADD(points); ADD(switches); ADD(forced); ADD(ncalls); ADD(nested); ADD(blocked); ADD(callbacks); ADD(alloc_calls); ADD(alloc_failed); ADD(sink_failed); ADD(stream_faults); ADD(panics); ADD(kills); ADD(snaps); ADD(neigh); ADD(clockreads); ADD(objects); acc.stackmax = std::max(acc.stackmax, shm->stackmax); ADD(planned); ADD(simtime); for (int a = 0; a < A_NACT; a++) ADD(fired[a]);
    u64 ih = shm->ilhash; for (auto& t : s.th) for (auto& st : t) { ih = mix2(ih, s.calls[st.call].fn); ih = mix2(ih, (u64)(st.plan.pnext + 1) * 7 + (st.plan.pclone + 1) * 1000003ull + (st.plan.wfail + 1) * 31ull + (st.plan.wbytes + 1) * 65537ull + (st.plan.afrom + 1) * 131071ull + st.plan.hint * 17 + st.plan.tail * 97 + st.mx * 524287ull + (st.rep > 1 ? 5 : 0) + (st.place ? st.place * 8191ull : 0)); fnset.insert(s.calls[st.call].fn); fncount[s.calls[st.call].fn]++; }
    if (CHK == C03) ih = mix2(ih, s.clock); // histories: distinct by the calls, their inputs and leftovers
    bool nt = shm->fired[0] + shm->fired[1] + shm->fired[2] + shm->fired[3] + shm->stream_faults + shm->sink_failed + shm->alloc_failed + shm->snaps > 0 || (CHK == C03 && shm->ncalls > 1) || CHK == C05 || CHK >= C13 || CHK == C04 || CHK == C09; if (nt && il.insert(ih).second) nontriv++;
    fam_threads[s.th.size() < NVT ? s.th.size() : NVT]++;
    if (samples.size() < 3 && nt && i % 37 == 5) { std::string d; for (size_t t = 0; t < s.th.size() && t < 4; t++) { d += "T" + std::to_string(t) + ":"; for (size_t q = 0; q < s.th[t].size() && q < 6; q++) { auto& st = s.th[t][q]; d += std::string(" ") + T[s.calls[st.call].fn].name; for (auto& e : st.ev) d += std::string("[") + ACTN[e.act] + "@" + std::to_string(e.point) + (e.act == A_PREEMPT ? "->T" + std::to_string(e.arg) : "") + "]"; if (st.plan.pnext >= 0) d += "[stream panic@" + std::to_string(st.plan.pnext) + "]"; if (st.plan.wfail >= 0) d += "[sink fails@write " + std::to_string(st.plan.wfail) + "]"; if (st.plan.wbytes >= 0) d += "[sink full@" + std::to_string(st.plan.wbytes) + "]"; if (st.plan.afrom >= 0) d += "[alloc fails from " + std::to_string(st.plan.afrom) + "]"; if (st.place) d += "[placed]"; if (st.mx && st.mx < 255) d += "[fpmode " + std::to_string(st.mx) + "]"; if (st.rep > 1) d += "[x" + std::to_string(st.rep) + "]"; } d += "; "; } char b[64]; snprintf(b, 64, "seed %016llx ", (unsigned long long)rs); samples.push_back(b + d); }
    if (v.bad) {
      Verdict v2 = run_once(s);
      for (int t = 0; t < 20 && !v2.bad; t++) v2 = run_once(s);
      if (!v2.bad) { if (v.kind.compare(0, 9, "different") && v.kind != "panic" && v.kind != "missing-panic") { fprintf(stderr, "unrepeatable: %s %s\n", v.kind.c_str(), v.detail.c_str()); return 2; } v2 = v; v2.detail += " (seen once, not in 21 further executions of the same schedule: the library itself is nondeterministic)"; }
      v = v2; Scen full = s; auto keep = refs; minimise(s, v); if (NEEDREF && s.calls.size() <= 64) for (size_t q = 0; q < refs.size(); q++) if (!refs[q]) { keeprefs.emplace_back(); compute_ref(s.calls[q], keeprefs.back()); refs[q] = &keeprefs.back(); } Verdict f = run_once(s); if (!f.bad) { s = full; refs = keep; f = v2; }
      rpath = o["--replaydir"] + "/" + CNAME() + "-" + cfg + "-" + ENG + "-" + std::to_string(seed) + "-" + std::to_string(i) + ".replay"; write_replay(rpath.c_str(), s, cfg.c_str(), f, rs); bad = true; size_t ns = 0, nev = 0; for (auto& t : s.th) { ns += t.size(); for (auto& st : t) nev += st.ev.size(); }
      char b[400]; snprintf(b, 400, ",\"run\":%llu,\"threads\":%zu,\"steps\":%zu,\"events\":%zu,\"min_runs\":%llu", (unsigned long long)i, s.th.size(), ns, nev, (unsigned long long)nmin); vjson = "{\"kind\":\"" + jesc(f.kind) + "\",\"detail\":\"" + jesc(f.detail) + "\",\"replay\":\"" + jesc(rpath) + "\"" + b + "}"; break;
    }
    if (i % 16 == 3) { twice++; u64 l = v.log; Verdict v2 = run_once(s); if (!v2.bad && v2.log == l) same++; }
  }
  u64 t1 = real_ns(); u32 fmin = ~0u; for (u32 c : fncount) fmin = std::min(fmin, c);
  printf("{\"config\":\"%s\",\"engine\":\"%c\",\"check\":\"%s\",\"objects\":%llu,\"stackmax\":%llu,\"runs\":%llu,\"planned_runs\":%llu,\"capped\":%s,\"nontrivial\":%llu,\"refs\":%llu,\"forks\":%llu,\"wall\":%.3f,\"refwall\":%.3f,\"points\":%llu,\"switches\":%llu,\"forced\":%llu,\"calls\":%llu,\"nested\":%llu,\"blocked\":%llu,\"callbacks\":%llu,\"alloc_calls\":%llu,\"alloc_failed\":%llu,\"sink_failed\":%llu,\"stream_faults\":%llu,\"panics\":%llu,\"kills\":%llu,\"crash_points\":%llu,\"neighbour\":%llu,\"clockreads\":%llu,\"events_planned\":%llu,\"preempt\":%llu,\"nest\":%llu,\"suspend\":%llu,\"neigh\":%llu,\"hot\":[",
    cfg.c_str(), ENG, CNAME(), (unsigned long long)acc.objects, (unsigned long long)acc.stackmax, (unsigned long long)done, (unsigned long long)(runs + mar), capped ? "true" : "false", (unsigned long long)nontriv, (unsigned long long)nrefs, (unsigned long long)nforks, (t1 - t0) * 1e-9, tref * 1e-9, (unsigned long long)acc.points, (unsigned long long)acc.switches, (unsigned long long)acc.forced, (unsigned long long)acc.ncalls, (unsigned long long)acc.nested, (unsigned long long)acc.blocked, (unsigned long long)acc.callbacks, (unsigned long long)acc.alloc_calls, (unsigned long long)acc.alloc_failed, (unsigned long long)acc.sink_failed, (unsigned long long)acc.stream_faults, (unsigned long long)acc.panics, (unsigned long long)acc.kills, (unsigned long long)acc.snaps, (unsigned long long)acc.neigh, (unsigned long long)acc.clockreads, (unsigned long long)acc.planned, (unsigned long long)acc.fired[0], (unsigned long long)acc.fired[1], (unsigned long long)acc.fired[2], (unsigned long long)acc.fired[3]);
  for (size_t i = 0; i < hot.size() && i < 40; i++) printf("%s\"%s\"", i ? "," : "", jesc(T[hot[i]].name).c_str());
  printf("],\"functions\":%zu,\"functions_total\":%zu,\"scouted\":%llu,\"repeated\":%llu,\"repeated_identical\":%llu,\"loghash\":\"%016llx\",\"samples\":[", fnset.size(), NF, (unsigned long long)scouted, (unsigned long long)twice, (unsigned long long)same, (unsigned long long)roll);
  for (size_t i = 0; i < samples.size(); i++) printf("%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
  printf("],\"violation\":%s}\n", bad ? vjson.c_str() : "null");
  return bad ? 1 : 0;
}
