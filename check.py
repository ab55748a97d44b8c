#!/usr/bin/env python3
"""Entry point of every check: builds what it needs from /repo's working tree, runs the simulations, writes the evidence.

  check.py run C01            quick tier (or VERIF_TIER=thorough)
  check.py run C01 thorough
  check.py replay FILE        re-executes a replay file against /repo's current tree; exit 1 if it still fails
  check.py setup              builds everything once
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('DXSIM_REPO', '/repo')
BUILD = os.path.join(HERE, 'build'); REPLAYS = os.path.join(HERE, 'replays'); EVID = os.path.join(HERE, 'evidence'); KNOWN = os.path.join(HERE, 'known_findings.txt')
sys.path.insert(0, os.path.join(HERE, 'tools'))
JOBS = min(8, os.cpu_count() or 8)

SSE = ['+sse3', '+sse4.1', '+avx', '+f16c', '+fma', '+avx2']
# engine I: instrumented (every memory access of the library is a switch point); P: the optimised library as shipped (also
# single-stepped: T)
ICFG = {'default': ('', ''), 'no_intrinsics': ('', 'no_intrinsics'), 'sse3': (','.join(SSE[:1]), ''), 'sse4.1': (','.join(SSE[:2]), ''), 'avx': (','.join(SSE[:3]), ''),
        'f16c': (','.join(SSE[:4]), ''), 'fma': (','.join(SSE[:5]), ''), 'avx2': (','.join(SSE), ''), 'favor_intel': ('', 'favor_intel'), 'specialization': ('', 'no_intrinsics,specialization')}
PCFG = {k: ICFG[k] for k in ('default', 'no_intrinsics', 'avx2')}

class Harness(Exception): pass

# ------------------------------------------------------------------ building from the current tree
def tree_hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for root in paths:
        if os.path.isfile(root): h.update(root.encode()); h.update(open(root, 'rb').read()); continue
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', '__pycache__', 'etc', '.github'))
            for f in sorted(fs):
                if f == 'Cargo.lock' and root == REPO: continue
                p = os.path.join(d, f)
                if os.path.isfile(p): h.update(os.path.relpath(p, root).encode() + b'\0'); h.update(open(p, 'rb').read()); h.update(b'\0')
    return h.hexdigest()
def lib_hash(): return tree_hash([REPO + '/src', REPO + '/Cargo.toml', HERE + '/api'] + ([REPO + '/build.rs'] if os.path.exists(REPO + '/build.rs') else []))
def stamp_ok(d, h):
    try: return open(os.path.join(d, 'stamp')).read() == h
    except OSError: return False
def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode: raise Harness('command failed: %s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-4000:]))
    return p.stdout.decode(errors='replace')
def clean_env(): return {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_', 'RUSTFLAGS', 'RUSTC', 'LD_PRELOAD')) or k in ('CARGO_HOME',)}
def build_lib(kind, cfg, h):
    d = os.path.join(BUILD, '%s_%s' % (kind, cfg)); out = os.path.join(d, 'libsimapi.so')
    if stamp_ok(d, h) and os.path.exists(out): return out
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d); tf, feat = (ICFG if kind == 'I' else PCFG)[cfg]; env = clean_env()
    fl = '-C target-cpu=x86-64' + (' -C target-feature=' + tf if tf else ''); cmd = ['cargo']
    if kind == 'I': fl += ' -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer'; cmd += ['+nightly', 'build', '--target', 'x86_64-unknown-linux-gnu']; src = 't/x86_64-unknown-linux-gnu/debug/libsimapi.so'
    else: cmd += ['build', '--release']; src = 't/release/libsimapi.so'
    cmd += ['--offline', '-q', '--jobs', '2'] + (['--features', feat] if feat else [])
    env.update(RUSTFLAGS=fl, CARGO_TARGET_DIR=os.path.join(d, 't'), CARGO_INCREMENTAL='0')
    run(cmd, cwd=os.path.join(HERE, 'api'), env=env); os.rename(os.path.join(d, src), out); shutil.rmtree(os.path.join(d, 't')); open(os.path.join(d, 'stamp'), 'w').write(h)
    return out
def build_host():
    h = tree_hash([HERE + '/sim']); d = os.path.join(BUILD, 'host'); out = os.path.join(d, 'host')
    if stamp_ok(d, h) and os.path.exists(out): return out
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    run(['g++', '-O1', '-g', '-std=c++17', '-rdynamic', '-w', '-o', out, os.path.join(HERE, 'sim', 'host.cpp'), '-ldl', '-lpthread']); open(os.path.join(d, 'stamp'), 'w').write(h); return out
def build_tools():
    h = tree_hash([REPO + '/tools', HERE + '/tools']); d = os.path.join(BUILD, 'tools')
    b = {'docs': d + '/docs.bin', 'neon': d + '/neon.bin', 'shim': d + '/shim.so', 'curl': d + '/curl'}
    if stamp_ok(d, h) and all(os.path.exists(x) for x in b.values()): return b
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for t in ('docs', 'neon_intrinsics'): os.symlink(os.path.join(REPO, 'tools', t), os.path.join(d, t))
    open(d + '/Cargo.toml', 'w').write('[workspace]\nmembers = ["docs", "neon_intrinsics"]\n')
    env = clean_env(); env.update(CARGO_TARGET_DIR=d + '/t', CARGO_INCREMENTAL='0')
    run(['cargo', 'build', '--offline', '-q', '--release'], cwd=d, env=env)
    os.rename(d + '/t/release/docs', b['docs']); os.rename(d + '/t/release/neon_intrinsics', b['neon']); shutil.rmtree(d + '/t')
    run(['gcc', '-O1', '-w', '-fno-delete-null-pointer-checks', '-shared', '-fPIC', '-o', b['shim'], HERE + '/tools/shim.c']); run(['gcc', '-O1', '-w', '-o', b['curl'], HERE + '/tools/curl_stub.c'])
    open(d + '/stamp', 'w').write(h); return b
class Lock:
    def __enter__(self): os.makedirs(BUILD, exist_ok=True); self.f = open(os.path.join(BUILD, 'lock'), 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()
DICT = os.path.join(BUILD, 'dict.txt')
def build_dict():   # literals of the current source, hints for the argument generators
    p = subprocess.run([sys.executable, os.path.join(HERE, 'gen', 'dict.py'), os.path.join(REPO, 'src')], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    tmp = DICT + '.tmp'; open(tmp, 'wb').write(p.stdout if p.returncode == 0 else b''); os.replace(tmp, DICT)
def build_libs(need):
    with Lock(), cf.ThreadPoolExecutor(JOBS) as ex:
        build_dict()
        h = lib_hash(); fh = ex.submit(build_host); fs = {k: ex.submit(build_lib, k[0], k[1], h) for k in need}
        return fh.result(), {k: f.result() for k, f in fs.items()}

# ------------------------------------------------------------------ what each check runs: engine -> (configurations, shards, runs per shard, marathons per shard)
ALLI = list(ICFG); ALLP = list(PCFG); MAIN = ['default', 'no_intrinsics', 'avx2']
PLAN = {
  'C01': [('I', ALLI, 2, 3000, 0), ('T', ALLP, 2, 500, 0)],
  'C02': [('I', ALLI, 2, 3000, 0), ('T', ALLP, 2, 450, 0)],
  'C03': [('I', ALLI, 2, 1500, 24), ('P', ALLP, 4, 500, 168)],
  'C04': [('I', ALLI, 2, 3000, 0), ('P', ALLP, 2, 3000, 0), ('T', ALLP, 1, 400, 0)],
  'C05': [('I', ALLI, 2, 2500, 0), ('P', ALLP, 4, 2500, 0)],
  'C06': [('I', ALLI, 2, 2500, 0), ('T', ALLP, 2, 450, 0), ('P', ALLP, 2, 2500, 0)],
  'C07': [('I', ALLI, 2, 2000, 0), ('P', ALLP, 3, 3500, 0)],
  'C08': [('I', ALLI, 2, 4000, 0), ('P', ALLP, 3, 5000, 0)],
  'C09': [('I', ALLI, 2, 2500, 0), ('P', ALLP, 2, 2500, 0)],
  'C10': [('I', ALLI, 2, 6000, 0), ('T', ALLP, 2, 5000, 0)],
  'C13': [('I', ALLI, 2, 1500, 0), ('P', ALLP, 3, 5000, 0)],
  'C14': [('I', ALLI, 2, 500, 0), ('P', ALLP, 3, 3500, 0)],
}
SCOUT = {'C01': 800, 'C02': 800, 'C03': 800, 'C04': 1500, 'C05': 400, 'C06': 800, 'C09': 1500, 'C13': 1500, 'C14': 400}   # scouting calls per function and shard
THOROUGH = 12          # times as many shards
TOOL = {'C11': ('neon', 14400), 'C12': ('docs', 36000)}
SHARD_CAP = {'quick': 170, 'thorough': 600}   # seconds; a safety net, not a budget

def known():
    out = []
    try:
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: '): out.append(dict(x.split('=', 1) for x in l[9:].split(' | ')))
    except OSError: pass
    return out
def host_task(host, so, chk, eng, cfg, seed, shard, runs, mar, tier):
    cmd = [host, '--so', so, '--config', cfg, '--engine', eng, '--check', chk, '--seed', str(seed * 1000 + shard), '--runs', str(runs), '--marathon', str(mar), '--moff', str(shard * mar), '--maxsec', str(SHARD_CAP[tier]), '--replaydir', REPLAYS, '--dict', DICT] + (['--scout', str(SCOUT[chk])] if chk in SCOUT and not (chk == 'C06' and eng == 'P') else [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode not in (0, 1) or not p.stdout: raise Harness('simulator failed (%s): %s' % (' '.join(cmd), p.stderr.decode(errors='replace')[-1500:]))
    r = json.loads(p.stdout); r['shard'] = shard; return r
SUMS = ('runs', 'scouted', 'nontrivial', 'refs', 'points', 'switches', 'forced', 'calls', 'nested', 'blocked', 'callbacks', 'alloc_calls', 'alloc_failed', 'sink_failed', 'stream_faults', 'panics', 'kills', 'crash_points', 'neighbour', 'clockreads', 'events_planned', 'preempt', 'nest', 'suspend', 'objects', 'repeated', 'repeated_identical')

def check_lib(chk, tier, seed):
    t0 = time.time(); plan = PLAN[chk]; need = sorted({('I' if e == 'I' else 'P', c) for e, cs, *_ in plan for c in cs}); host, libs = build_libs(need); tb = time.time() - t0
    tasks = []
    for e, cs, sh, runs, mar in plan:
        for s in range(sh * (THOROUGH if tier == 'thorough' else 1)):
            for c in cs: tasks.append((e, c, s, runs, mar))
    tasks.sort(key=lambda t: (t[2], t[0] == 'I'))    # long ones first
    res, viol = [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        def go(t):
            if viol: return None
            r = host_task(host, libs[('I' if t[0] == 'I' else 'P', t[1])], chk, t[0], t[1], seed, t[2], t[3], t[4], tier)
            if r['violation']: viol.append(r)
            return r
        for f in [ex.submit(go, t) for t in tasks]:
            r = f.result()
            if r: res.append(r)
    wall = time.time() - t0; tot = {k: sum(r[k] for r in res) for k in SUMS}; sim_s = sum(r['wall'] for r in res)
    kf = [k for k in known() if k.get('property') == chk]; real, found = [], set()
    for r in viol:
        v = r['violation']; m = [k for k in kf if all(k.get(x) is None or k[x] in v['detail' if x == 'where' else x] for x in ('kind', 'where'))]
        if m: found.update(x['what'] for x in m)
        else: real.append(r)
    for w in sorted(found): print('KNOWN-FINDING: property=%s %s' % (chk, w))
    fault = {'preempted at a chosen point': tot['preempt'], 're-entered at a chosen point': tot['nest'], 'thread suspended for ever at a chosen point': tot['suspend'], 'neighbour bytes updated at a chosen point': tot['neighbour'], 'stream panics and late deliveries': tot['stream_faults'], 'sink failures': tot['sink_failed'], 'allocations refused': tot['alloc_failed'], 'crash points inspected': tot['crash_points'], 'panics unwound': tot['panics'], 'clock, random or environment reads answered': tot['clockreads'], 'blocking calls simulated': tot['blocked'], 'forced switches after a long stretch': tot['forced'], 'caller objects followed to their end': tot['objects'] if chk == 'C13' else 0, 'calls on a stack of their own': tot['calls'] if chk == 'C14' else 0}
    ev = {'property': chk, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': len(real),
      'coverage': {'evaluations': tot['runs'], 'distinct_nontrivial': tot['nontrivial'], 'rule': RULE[chk],
        'samples': [s for r in res for s in r['samples'][:1]][:12] or ['(stopped at the first run)'], 'simulated_runs_per_hour': int(tot['runs'] * 3600 / max(wall - tb, .001)), 'seeds': sorted({seed * 1000 + r['shard'] for r in res}), 'seeds_per_hour': int(tot['runs'] * 3600 / max(wall - tb, .001)),
        'simulated_steps': tot['points'], 'library_calls': tot['calls'], 'scouting_calls': tot['scouted'], 'reference_calls_in_fresh_processes': tot['refs'], 'context_switches': tot['switches'], 'caller_callbacks': tot['callbacks'],
        'faults_injected': {k: v for k, v in fault.items() if v}, 'configurations': sorted({'%s/%s' % (r['engine'], r['config']) for r in res}), 'functions_called': max([r['functions'] for r in res] or [0]), 'functions_in_table': max([r['functions_total'] for r in res] or [0]),
        'functions_found_touching_shared_state': sorted({h for r in res for h in r['hot']})[:40], 'runs_repeated_for_determinism': tot['repeated'], 'of_those_identical': tot['repeated_identical'], 'run_logs_digest': hashlib.sha256(''.join(sorted(r['config'] + r['engine'] + str(r['shard']) + r['loghash'] for r in res)).encode()).hexdigest()[:16], 'shards_cut_short': sum(r['capped'] for r in res), 'simulator_cpu_s': round(sim_s, 1), 'build_s': round(tb, 1),
        'real_code': 'the library in /repo (all source files), compiled per configuration; core/std formatting, unwinding and iterator adaptors', 'stubs': 'thread scheduler, futex/yield/sleep, clock, random source, process id, processor set and features, environment variables, heap, caller-supplied iterator/sink/comparison'},
      'assumptions': ASSUME}
    if chk == 'C14': ev['coverage']['deepest_stack_bytes'] = {e: max([r['stackmax'] for r in res if r['engine'] == e] or [0]) for e in sorted({r['engine'] for r in res})}
    return ev, [(r['violation']['replay'], '%s/%s: %s: %s' % (r['engine'], r['config'], r['violation']['kind'], r['violation']['detail']), r) for r in real], host, libs

def check_tool(chk, tier, seed):
    import toolsim
    t0 = time.time()
    with Lock(): b = build_tools()
    tb = time.time() - t0; tool, n = TOOL[chk]; n *= 8 if tier == 'thorough' else 1; sz = 150; scratch = os.path.join(BUILD, 'scratch'); res = []
    try:
        with cf.ProcessPoolExecutor(JOBS) as ex:
            fs = [ex.submit(toolsim.shard, tool, seed, lo, lo + sz, b, scratch) for lo in range(0, n, sz)]
            for f in fs:
                r = f.result(); res.append(r)
                if r.get('violation'):
                    for g in fs: g.cancel()
                    break
    finally: shutil.rmtree(scratch, ignore_errors=True)
    fl = [r['flaky'] for r in res if r.get('flaky')]
    viols = [r['violation'] for r in res if r.get('violation')]
    if fl and not viols: raise Harness('unrepeatable outcome: %r' % fl[0])
    wall = time.time() - t0; faults, curl = {}, {}
    for r in res:
        for k, v in r['faults'].items(): faults[k] = faults.get(k, 0) + v
        for k, v in r['curl'].items(): curl[k] = curl.get(k, 0) + v
    names = {'r': 'read', 'w': 'write', 'o': 'open', 's': 'stat', 'u': 'remove'}; runs = sum(r['runs'] for r in res)
    ev = {'property': chk, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': len(viols),
      'coverage': {'evaluations': runs, 'distinct_nontrivial': len({x for r in res for x in r['distinct']}), 'rule': RULE[chk], 'samples': [s for r in res for s in r['samples'][:1]][:8] or ['(none)'],
        'simulated_runs_per_hour': int(runs * 3600 / max(wall - tb, .001)), 'seeds': [seed], 'faults_injected': {names[k[0]] + ' ' + k[2:]: v for k, v in sorted(faults.items())}, 'downloader_or_input_modes': curl, 'input_bytes': sum(r['bytes'] for r in res), 'earlier_runs_in_the_same_directory': sum(r['prior'] for r in res),
        'runs_repeated_for_determinism': sum(r['twice'] for r in res), 'of_those_identical': sum(r['same'] for r in res), 'build_s': round(tb, 1), 'real_code': 'the tool binary built from /repo/tools, std, regex', 'stubs': 'open/read/write/stat of the tracked files and standard output (LD_PRELOAD), curl'},
      'assumptions': ['the model of the tool in tools/toolsim.py states what the complete report is', 'termination is judged by %d s of processor time for inputs a normal run handles in milliseconds' % toolsim.CPU_LIMIT]}
    out = []; os.makedirs(REPLAYS, exist_ok=True)
    for v in viols:
        p = os.path.join(REPLAYS, '%s-%d-%d.replay' % (chk, seed, v['run'])); json.dump({'format': 'dxsim-tool-replay 1', 'check': chk, 'seed': seed, 'run': v['run'], 'kind': v['kind'], 'detail': v['detail'], 'log': v['log'], 'scenario': v['scenario']}, open(p, 'w'), indent=1); out.append((p, v['kind'] + ': ' + v['detail'], v))
    return ev, out

ASSUME = ['a run is one process: threads are real but exactly one runs at a time, so memory effects are sequentially consistent (no weak-memory reordering)',
          'switch points: memory accesses of the unoptimised instrumented build (I), instructions of the optimised build (T), callbacks (P)',
          'x86-64 only: the aarch64 (NEON) paths cannot run here',
          'the reference of a call is the same compiled call made alone in a fresh process, so the check decides independence, not numerical correctness (C07 has a model of its own)',
          'a scouting pass of many plain calls only chooses what the simulated runs concentrate on; it decides nothing']
RULE = {
  'C01': 'A run is 2-4 threads (6-260 in 3 %, or 12 % for hot functions) of 1-5 calls (function by rotation over the whole table, arguments from families of near-identical siblings) with 1-5 preemptions at seeded points; non-trivial: at least one planned preemption fired inside a call; distinct by functions, preemption points and targets.',
  'C02': 'A run is 1-2 threads whose calls are interrupted at seeded points by 1-3 nested call sequences (depth up to 3, now and then up to 34); non-trivial: at least one nested call ran inside another; distinct by functions and interruption points.',
  'C03': 'A run is a history of up to 36 calls on one thread, or of calls on up to 297 short-lived threads (70000 for functions found to keep state) (some made while the thread is being torn down), some abandoned or panicking half-way, or a marathon of 10^3 to 1.75*10^7 calls, all over seeded leftovers and under a seeded clock, random source, process id, processor set, processor features and environment variables; every call is compared with itself alone in a fresh process; non-trivial: more than one call; distinct by functions, plans and leftovers.',
  'C04': 'A run is 6-16 calls whose every by-reference argument lies in its own window between inaccessible pages (at either edge, across a page boundary, or misaligned as far as its type allows; inputs read-only in half of them), with neighbour bytes rewritten at seeded points; in the instrumented engine every access must also lie inside one argument; distinct by functions and placements.',
  'C05': 'A run is 150 calls by rotation over the whole table, each under a seeded rounding/FTZ/DAZ/x87 mode (and, for 30%, once more with the exceptions it does not raise unmasked), with panicking or failing callbacks; control state read back at return, unwind and in callbacks; distinct by functions, modes and plans.',
  'C06': 'A run is 2-4 threads (or a crowd of up to 260) of which all but the last are suspended for ever at a seeded point inside a call, or (engine P) a sweep of 250 calls on one thread; a call that waits on a futex, sleeps, joins, or does I/O is a violation, as is one that exceeds 50 times its steps alone; non-trivial: at least one suspension fired; distinct by functions and suspension points.',
  'C07': 'A run is 4 volume constructions from simulated streams (0 to 1048583 points; false hints, deliveries after the end, panics at any item or clone, re-entry), compared with the same construction from a plain stream and with a model (every delivered point enclosed up to rounding, and no larger than the delivered points allow); non-trivial: a stream fault or re-entry fired; distinct by functions, plans and events.',
  'C08': 'A run formats 4 values with seeded flags to sinks that fail (or panic) at a seeded write or byte, then again to a working sink; non-trivial: a sink failure fired; distinct by types and failure positions.',
  'C09': 'A run is 10 calls under an allocator that refuses all, or chosen, allocations (and a system that refuses new threads); non-trivial by construction (the refusing allocator is in force even if the library never asks); distinct by functions and plans.',
  'C10': 'A run is 2-6 stores, the destination inspected at every switch point as if the thread died there; non-trivial: at least one crash point inspected; distinct by functions and placements.',
  'C13': 'A run is 40 calls (12 on each of six threads for a quarter of the runs) by rotation over the whole table, made six times over, with streams, sinks and comparisons that fail or panic at seeded places; every caller object (stream, clone, compared value) is followed to its drop, the heap is counted after each round, and the process (files, threads, signal handlers and mask, timers, environment, limits) is compared before and after; distinct by functions and plans.',
  'C14': 'A run is 150 calls by rotation over the whole table, each on a stack of its own of 64 KiB (256 KiB in the unoptimised build) with an inaccessible page below, streams of up to 1048583 points, some panicking; distinct by functions and plans.',
  'C11': 'A run is one execution of the real tool on generated headers and index (up to a few MB), with a seeded plan of I/O faults (by call or by byte position) and a seeded downloader outcome, some after earlier runs in the same directory that failed or were killed; non-trivial: a fault fired or the download went wrong; distinct by the whole scenario.',
  'C12': 'A run is one execution of the real tool on a generated file (up to 1.4 MB; 45% cut off at a random byte, some undecodable) with a seeded plan of I/O faults (by call or by byte position), some after earlier runs in the same directory that failed or were killed; distinct by the whole scenario.'}

def replay(path):
    txt = open(path).read()
    if txt.startswith('{'):
        import toolsim
        j = json.loads(txt)
        with Lock(): b = build_tools()
        sc = os.path.join(BUILD, 'scratch-replay'); os.makedirs(sc, exist_ok=True); k, d, fired, h = toolsim.execute(j['scenario'], b, sc); shutil.rmtree(sc, ignore_errors=True)
        print(json.dumps({'violated': bool(k), 'kind': k, 'detail': d, 'same_kind': k == j['kind'], 'same_log': h == j['log'], 'fired': fired[:20]})); return 1 if k else 0
    meta = dict(l.split(' ', 1) for l in txt.splitlines() if l.split(' ', 1)[0] in ('config', 'engine')); k = ('I' if meta['engine'] == 'I' else 'P', meta['config']); host, libs = build_libs([k])
    return subprocess.run([host, '--so', libs[k], '--config', meta['config'], '--engine', meta['engine'], '--replay', path]).returncode

def main():
    a = sys.argv[1:]
    if a[:1] == ['setup']:
        build_libs([('I', c) for c in ICFG] + [('P', c) for c in PCFG])
        with Lock(): build_tools()
        print('built'); return 0
    if a[:1] == ['replay']: return replay(a[1])
    if a[:1] != ['run']: print(__doc__); return 2
    chk = a[1]; tier = a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick'); tier = 'thorough' if tier == 'thorough' else 'quick'; seed = int(os.environ.get('VERIF_SEED', '1')); os.makedirs(REPLAYS, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    try:
        if chk in TOOL: ev, viol = check_tool(chk, tier, seed)
        else:
            ev, viol, host, libs = check_lib(chk, tier, seed)
            for path, what, r in viol[:1]:
                q = subprocess.run([host, '--so', libs[('I' if r['engine'] == 'I' else 'P', r['config'])], '--config', r['config'], '--engine', r['engine'], '--replay', path], stdout=subprocess.PIPE); ev['coverage']['replay_reproduced'] = q.returncode == 1
    except Harness as e: print('ERROR: %s' % e, file=sys.stderr); return 2
    json.dump(ev, open(os.path.join(EVID, chk + '.json'), 'w'), indent=1)
    for path, what, _ in viol[:3]: print('  ' + what[:600]); print('VIOLATION property=%s replay=%s' % (chk, path))
    c = ev['coverage']; print('%s %s: %d runs, %d distinct non-trivial, %.0f s, %s' % (chk, tier, c['evaluations'], c['distinct_nontrivial'], ev['wall_s'], 'VIOLATED' if viol else 'held'))
    return 1 if viol else 0
if __name__ == '__main__': sys.exit(main())
