"""Deterministic simulation of the repository's two tools (C11, C12): the real binaries run in a scratch directory with every
open, read, write and stat they make, and the downloader they start, decided by a seeded plan. Oracle: a model of each tool."""
import time, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile

FATAL = {'EIO', 'ENOSPC', 'EPIPE', 'EACCES', 'ENOENT', 'EMFILE', 'EISDIR', 'EFBIG', 'ESTALE'}
CPU_LIMIT = 4       # seconds of processor time a run may take (a run takes a few milliseconds)
WALL_LIMIT = 60

# ------------------------------------------------------------------ models
WS = '\t\n\x0b\x0c\r \x85\xa0\u1680' + ''.join(chr(c) for c in range(0x2000, 0x200b)) + '\u2028\u2029\u202f\u205f\u3000'
ASCII_WS = re.compile('[ \t\n\x0c\r]+')
UNI_WS = re.compile('[' + WS + ']+')
STYLE = [(" x ", " `x` "), (" y ", " `y` "), (" z ", " `z` "), (" w ", " `w` "), (" X ", " `X` "), (" Y ", " `Y` "), (" Z ", " `Z` "), (" W ", " `W` "),
  ("x, ", "`x`, "), ("y, ", "`y`, "), ("z, ", "`z`, "), ("w, ", "`w`, "), ("X,", "`X`,"), ("Y,", "`Y`,"), ("Z,", "`Z`,"), ("W,", "`W`,"),
  ("A,", "`A`,"), ("B,", "`B`,"), ("C,", "`C`,"), (", D)", ", `D`)"), ("Ax+By+Cz+D=0", " `Ax+By+Cz+D=0`"), (" V.", " `V`."), (" V ", " `V` "),
  (" V1 ", " `V1` "), (" V2 ", " `V2` "), (" M ", " `M` "), (" M1", " `M1`"), (" M2", " `M2`"), (" Q.", " `Q`."), (" Q ", " `Q` "), (" Q0 ", " `Q0` "),
  (" Q1 ", " `Q1` "), (" Q2 ", " `Q2` "), ("Est f", "`Est` f"), ("true", "`true`"), ("false", "`false`"), (" S2", " `S2`"), (" S1", " `S1`"),
  ("P2", " `P2`"), ("P1", " `P1`"), (" P ", " `P` "), ("x-axis", "`x-axis`"), ("y-axis", "`y-axis`"), ("z-axis", "`z-axis`"), ("w-axis", "`w-axis`"),
  ("x-axes", "`x-axes`"), ("y-axes", "`y-axes`"), ("z-axes", "`z-axes`"), ("w-axes", "`w-axes`"), (" NaN", " `NaN`"), (" QNaN", " `QNaN`"),
  (" XM_PI", " `XM_PI`"), (" -XM_PI", " `-XM_PI`"), (" 0.0f", " `0.0`"), (" 1.0f", " `1.0`"), (" x-component", " `x-component`"),
  (" y-component", " `y-component`"), (" z-component", " `z-component`"), (" w-component", " `w-component`"), (" 0 ", " `0` "), (" 1 ", " `1` "),
  (" 2 ", " `2` "), (" 3 ", " `3` ")]

def ascii_lower(s): return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in s)
def rust_lines(t):
    out = t.split('\n')
    if out[-1] == '': out.pop()
    return [l[:-1] if l.endswith('\r') and i < len(out) - (0 if t.endswith('\n') else 1) else l for i, l in enumerate(out)]
def stylize(l):
    for a, b in STYLE: l = l.replace(a, b)
    return l.strip(WS)
def wrap(s):
    out, line = [], ''
    for w in [x for x in ASCII_WS.split(s) if x]:
        line += w + ' '
        if len(line.encode()) >= 100: out.append(line.strip(WS)); line = ''
    if line: out.append(line.strip(WS))
    return out
def docs_model(text):
    st, params, name, desc, ret, rem = 'S', [], None, [], [], []
    for l in rust_lines(text):
        t = l.strip(WS)
        if st == 'S':
            if ascii_lower(t) == 'parameters': st = 'P'
        elif st == 'P':
            if t and len([x for x in UNI_WS.split(t) if x]) == 1:
                if name is not None: params.append((name, desc)); desc = []
                name = t
            elif ascii_lower(t) == 'return value':
                if name is not None: params.append((name, desc)); desc = []; name = None
                st = 'R'
            else: desc.append(l)
        elif st == 'R':
            if ascii_lower(t) == 'remarks': st = 'M'
            else: ret.append(l)
        else: rem.append(l)
    if st == 'P' and name is not None: params.append((name, desc))
    o = ['///', '/// ## Parameters', '///']
    out = '\n'.join(o) + '\n'
    for n, d in params:
        out += '/// `%s` ' % n
        for i, l in enumerate(wrap(''.join(stylize(x) for x in d).strip(WS))): out += ('/// ' if i else '') + l + '\n'
        out += '///\n'
    out += '/// ## Return value\n///\n'
    for l in ret:
        for x in wrap(l): out += '/// ' + stylize(x) + '\n'
    out += '///\n'
    if rem:
        out += '/// ## Remarks\n///\n'
        for l in rem:
            for x in wrap(l): out += '/// ' + stylize(x) + '\n'
            if l == '': out += '///\n'
        out += '///\n'
    return out + '/// ## Reference\n///\n'
NEON = re.compile(r'(v[^\s|^\(]+_[f|u|i|s]\d+)\(')
def neon_model(headers, index):
    c = {}
    for h in headers:
        for m in NEON.finditer(h): c[m.group(1)] = c.get(m.group(1), 0) + 1
    names = sorted(c, key=lambda s: s.encode()); have = {n: n in index for n in names}
    out = '### Neon Intrinsics (%d/%d)\n' % (sum(have.values()), len(names))
    return out + ''.join('- [%s] `%s` (%d)\n' % ('x' if have[n] else ' ', n, c[n]) for n in names)

# ------------------------------------------------------------------ scenarios: a pure function of the seed
WORDS = ("the of and vector component result x y z w X Y A, B, C, D) V V1 V2 M M1 M2 Q Q0 true false x-axis y-axes NaN QNaN XM_PI 0.0f 1.0f 0 1 2 3 P1 P2 S1 S2 "
         "Est f x-component computes angle radians plane returns Ax+By+Cz+D=0 quaternion matrix each \u03c0 na\u00efve \u4f60\u597d V. Q. remarks value x, y, z, w, Parameters").split(' ') + ['\x0b', 'a\u2003b', '\u2003', '\x1f', '\x85', '|', 'w' * 130, 'w' * 130 + '-' + 'z' * 20, 'k' * 1500, '\r', 'Q.', '\ufeff', '\u4f60' * 40]
assert '' not in WORDS
def sentence(r, n): return ' '.join(r.choice(WORDS) for _ in range(n))
def docs_text(r):
    nl = '\r\n' if r.random() < .2 else '\n'; L = []
    big = r.random() < .03; huge = 0 if big or r.random() > .012 else 3
    for _ in range(r.randrange(3)): L.append(sentence(r, r.randrange(1, 8)))
    def head(s): return r.choice([s, s, s, s.upper(), '  ' + s + ' ', s.lower(), '\u00a0' + s])
    def para():
        nonlocal huge; m = 1
        if huge and r.random() < .5: huge -= 1; m = r.choice([40, 400, 1500])
        return r.choice(['', '    ', '']) + sentence(r, r.choice([2, 4, 7, 15, 30, 60]) * m)
    if r.random() < .93:
        L.append(head('Parameters')); L += [''] * r.randrange(2)
        for _ in range(r.choice([0, 1, 2, 3, 4, 4, r.choice([30, 300, 1500]) if big else 7])):
            L.append(r.choice(['V', 'V1', 'M', 'Q', 'pOut', 'Angle', ' M2', 'x' * 120, 'p%d' % r.randrange(100000), 'p%d' % r.randrange(100000)])); L += [''] * r.randrange(2)
            for _ in range(r.choice([0, 1, 1, 1, 2, 3])): L.append(para())
            L += [''] * r.randrange(2)
        if r.random() < .92:
            L.append(head('Return value')); L += [''] * r.randrange(2)
            for _ in range(r.randrange(4)): L.append(para())
            if r.random() < .85:
                L.append(head('Remarks'))
                for _ in range(r.choice([300, 1100, 4300]) if big and r.random() < .2 else r.randrange(6)): L.append(r.choice(['', para(), para()]))
    t = nl.join(L) + (nl if r.random() < .7 else '')
    if r.random() < .04: t = ''
    return t
NAMES = ['v%s%s_%s%d' % (a, q, t, n) for a in ('add', 'sub', 'mul', 'ld1', 'st1', 'dup', 'get', 'mla', 'ext', 'rev64', 'cvt', 'abs', 'max', 'min') for q in ('', 'q') for t, n in (('f', 32), ('u', 32), ('s', 32), ('u', 8), ('f', 64))]
def header(r):
    out = []
    for _ in range(r.choice([0, 3, 20, 60, 60, r.choice([400, 3000, 12000]) if r.random() < .1 else 30])):
        k = r.random()
        if k < .6: out.append('    %s = %s( %s, %s( V ) );' % (r.choice('RVxy'), r.choice(NAMES), r.choice('AB'), r.choice(NAMES)))
        elif k < .7: out.append('// v_nothing here_f32 (v%s )' % r.choice(NAMES))
        elif k < .8: out.append('vst1q_lane_f32(p, %s(a), 2);vgetq_lane_u32(x,%s(y))' % (r.choice(NAMES), r.choice(NAMES)))
        else: out.append(sentence(r, 6))
        if r.random() < .02: out[-1] = out[-1].replace('\n', ' ') + ' ' * r.choice([0, 9000]) + '%s(x)' % r.choice(NAMES)
    k = r.random()
    if k < .006: n = r.choice([300, 1100, 4200, 9000]); out += ['%s = vop%d_%s%d(a);' % ('x' * r.randrange(3), j, r.choice('fus'), r.choice([8, 32, 64])) for j in range(n)]     # a storm of different names
    elif k < .012: n = r.choice([257, 300, 33000, 66000]); out.append(r.choice(NAMES)); out.append((out[-1] + '(a) ') * n)                       # one name very often
    elif k < .018: out.append('v%s_f32(a) v%sq_u32(b)' % ('a' * r.choice([70, 130, 300, 5000]), 'b' * r.choice([64, 256, 1100])))                # long names
    return '\n'.join(out) + '\n'
def io_plan(r, fatal, counts):
    """counts: how many calls of each class the fault-free run makes, and how many bytes it reads and writes (R, W)"""
    p = []
    def at(c): n = max(1, counts.get(c, 1)); return r.choice([r.randrange(n), r.randrange(n), 0, n - 1, r.randrange(min(n, 8))])
    def off(c): n = counts[c.upper()] + 1; return '%s#%d' % (c, r.choice([r.randrange(n), r.randrange(n), n - 1, max(0, n - 1 - r.randrange(40)), r.randrange(min(n, 64)), r.choice([4096, 8192, 65536]) % n]))
    small = counts['R'] < 30000; k = r.randrange(6)
    if k == 0: p.append('r*=short%d' % r.choice([1, 2, 3, 7, 64, 4096] if small else [4096, 65536]))
    if k == 1: p.append('w*=short%d' % r.choice([1, 2, 5, 16] if small else [1000, 4096]))
    for _ in range(r.randrange(6)):
        p.append(r.choice([lambda: 'r@%d=EINTR' % at('r'), lambda: 'w@%d=EINTR' % at('w'), lambda: 'o@%d=EINTR' % at('o'), lambda: 'r@%d=short%d' % (at('r'), r.choice([1, 3, 10, 100])), lambda: 'w@%d=short%d' % (at('w'), r.choice([1, 2, 8])), lambda: 's@%d=size%d' % (at('s'), r.choice([0, 1, 10, 100000])), lambda: off('r') + '=EINTR', lambda: off('w') + '=EINTR'])())
    if fatal:
        p.append(r.choice([lambda: 'r@%d=%s' % (at('r') * (r.choice([1, 1, 3]) if k == 0 else 1), r.choice(['EIO', 'ESTALE', 'EISDIR'])), lambda: off('r') + '=' + r.choice(['EIO', 'ESTALE']), lambda: 'o@%d=%s' % (at('o'), r.choice(['EACCES', 'ENOENT', 'EMFILE', 'EIO'])), lambda: 'w@%d=%s' % (at('w'), r.choice(['ENOSPC', 'EPIPE', 'EIO', 'EFBIG'])), lambda: off('w') + '=' + r.choice(['ENOSPC', 'EPIPE', 'EIO', 'EFBIG'])])())
        if r.random() < .3: f = p[-1].split('=')[1]; c = p[-1][0]; p[-1] = '%s*=%s' % (c, f) if r.random() < .5 else p[-1]
    return p
def outlen(f, *a):
    try: o = f(*a).encode()
    except UnicodeDecodeError: return 1, 1
    return max(1, o.count(b'\n')), len(o)
def gen(tool, seed, i):
    """a run, some with earlier runs in the same directory: killed half-way, failed, or of other inputs that look alike from outside"""
    r = random.Random('%s-%d-%d' % (tool, seed, i)); s = gen1(tool, r); s['prior'] = []
    if r.random() < .15: s['env'] = 1
    if r.random() < .15:
        for _ in range(r.choice([1, 1, 2, 3])):
            q = gen1(tool, r); k = r.random()
            if k < .4: c = r.choice('rrwwosu' if tool == 'neon' else 'rwos'); q['plan'].append('%s@%d=KILL' % (c, r.randrange({'r': 14, 'w': 40, 'o': 6, 's': 6, 'u': 1}[c] if tool == 'neon' else {'r': 3, 'w': 20, 'o': 1, 's': 1}[c])))
            if tool == 'docs' and k > .7:                       # the same size and date, another text
                a = bytearray(bytes.fromhex(s['data'])); w = [j for j, c in enumerate(a) if 97 <= c <= 122]
                for j in (r.sample(w, min(len(w), 5))): a[j] = 97 + (a[j] - 96) % 26
                q['data'] = bytes(a).hex(); q['file'] = s['file']
            if tool == 'neon' and k > .5: q['headers'] = s['headers'] if r.random() < .5 else q['headers']; q['index'] = s['index'] if q['headers'] is not s['headers'] else q['index']
            if tool == 'neon' and k > .8: q['headers'] = [bytes.fromhex(h).replace(b'add', b'sub').replace(b'_f32', b'_u32').replace(b'max', b'min').hex() for h in s['headers']]; q['index'] = bytes.fromhex(s['index']).replace(b'mul', b'dup').hex()
            if tool == 'neon' and k > .5: q['hmode'] = []; q['imode'] = 'ok'
            s['prior'].append(q)
    return s
def gen1(tool, r):
    if tool == 'docs':
        data = docs_text(r).encode(); k = r.random(); s = {'tool': 'docs', 'plan': [], 'file': 'ok'}
        if k < .45: data = data[:r.randrange(len(data) + 1)]          # cut off anywhere
        elif k < .53 and data: j = r.randrange(len(data)); data = data[:j] + bytes([r.choice([0x80, 0xff, 0xc3, 0xe4])]) + data[j:]
        elif k < .56: s['file'] = r.choice(['missing', 'dir', 'noarg'])
        if r.random() < .6: w, W = outlen(lambda: docs_model(data.decode())); s['plan'] = io_plan(r, r.random() < .5, {'r': 3, 'w': w, 'o': 1, 's': 1, 'R': len(data), 'W': W})
        s['data'] = data.hex(); return s
    hs = [header(r) for _ in range(5)]; idx = '\n'.join('<a href="fn.%s.html">%s</a>' % (n, n) for n in NAMES if r.random() < .6) if r.random() < .95 else 'empty'; idx += (' ' * 997 + '\n') * r.choice([80, 700, 3000]) + 'vtail_f32' if r.random() < .02 else ''
    s = {'tool': 'neon', 'plan': [], 'curl': 'ok', 'stale': r.random() < .5, 'hmode': [], 'imode': 'ok'}
    k = r.random(); raw = [h.encode() for h in hs]; ib = idx.encode()
    cut = r.choice([-1, 0, len(ib), len(ib), r.randrange(len(ib) + 1)])
    if k < .16: s['curl'] = r.choice(['exit%d=%d' % (r.choice([r.randrange(1, 100), r.choice([1, 2, 3, 5, 6, 7, 16, 18, 22, 23, 26, 27, 28, 33, 35, 42, 47, 52, 55, 56, 60, 61, 63, 77, 78, 92, 96, 126, 127, 130, 143, 255])]), cut), 'sig%d=%d' % (r.choice([1, 2, 6, 9, 13, 14, 15]), cut)])
    elif k < .34: s['curl'] = r.choice(['dns', 'nothing', 'kill', 'http', 'partial=%d' % r.randrange(len(ib)), 'partial=0', 'killpart=%d' % r.randrange(len(ib)), 'missing', 'noexec'])
    elif k < .40: s['curl'] = 'chatty'
    elif k < .48: s['hmode'] = [r.randrange(5), r.choice(['missing', 'dir', 'badutf8', 'badutf8'])]
    elif k < .51: s['imode'] = 'badutf8'
    elif k < .53: s['imode'] = 'notarget'
    if s['hmode'] and s['hmode'][1] == 'badutf8': j = s['hmode'][0]; c = r.randrange(len(raw[j]) + 1); raw[j] = raw[j][:c] + b'\xff' + raw[j][c:]
    if s['imode'] == 'badutf8': c = r.randrange(len(ib) + 1); ib = ib[:c] + b'\xc3\x28' + ib[c:]
    if r.random() < .6: 
        w, W = outlen(lambda: neon_model([h.decode() for h in raw], ib.decode())); s['plan'] = io_plan(r, r.random() < .5, {'r': 14, 'w': w, 'o': 6, 's': 6, 'R': sum(map(len, raw)) + len(ib), 'W': W})
    if s['stale'] and r.random() < .15: s['plan'].append('u@0=%s' % r.choice(['EACCES', 'EIO', 'EBUSY']))
    s['headers'] = [h.hex() for h in raw]; s['index'] = ib.hex(); s['staleidx'] = '\n'.join(n for n in NAMES if r.random() < .5).encode().hex(); return s

# ------------------------------------------------------------------ one execution
HN = ['DirectXMath.h', 'DirectXMathVector.inl', 'DirectXMathMatrix.inl', 'DirectXMathMisc.inl', 'DirectXMathConvert.inl']
def limits():
    for g in (1, 2, 3, 6, 13, 14, 15): signal.signal(g, signal.SIG_DFL)      # whatever the check itself was started with
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30)); resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
def clear(p):
    if os.path.isdir(p) and not os.path.islink(p): shutil.rmtree(p)
    elif os.path.lexists(p): os.unlink(p)
def put(p, data): clear(p); open(p, 'wb').write(data); os.utime(p, (1e9, 1e9))     # two runs' files may look alike from outside
def execute(s, b, scratch):
    """runs scenario s (and the runs before it in the same directory) with the binaries in b; returns (violation kind or None, detail, fired faults, trace hash)"""
    d = tempfile.mkdtemp(dir=scratch); fired, trace = [], ''
    try:
        for n, q in enumerate(s.get('prior', []) + [s]):
            k, det, f, h = once(q, b, d, n); fired += f; trace += h
            if k: return k, det + (' (run %d of %d in the same directory)' % (n + 1, len(s['prior']) + 1) if s.get('prior') else ''), fired, hashlib.sha256(trace.encode()).hexdigest()[:16]
        return None, '', fired, hashlib.sha256(trace.encode()).hexdigest()[:16]
    finally: shutil.rmtree(d, ignore_errors=True)
def once(s, b, d, nth):
    log = os.path.join(d, 'log'); clear(log); tmp = os.path.join(d, 'tmp'); os.makedirs(tmp, exist_ok=True)
    env = {'PATH': os.path.join(d, 'bin'), 'LD_PRELOAD': b['shim'], 'SIMPLAN': ';'.join(s['plan']), 'SIMLOG': log, 'RUST_BACKTRACE': '0', 'TMPDIR': tmp, 'HOME': tmp}
    if s.get('env'): env['SIMENV'] = '1'
    must_fail = None
    if s['tool'] == 'docs':
        data = bytes.fromhex(s['data']); f = os.path.join(d, 'input.txt'); args = [b['docs'], f]; env['SIMTRACK'] = 'input.txt'; cwd = d; clear(f)
        if s['file'] == 'ok': put(f, data)
        elif s['file'] == 'dir': os.mkdir(f)
        elif s['file'] == 'noarg': args = [b['docs']]
        if s['file'] != 'ok': must_fail = 'the input file is ' + s['file']
        try: want = docs_model(data.decode())
        except UnicodeDecodeError: want = None; must_fail = must_fail or 'the input is not valid UTF-8'
    else:
        cwd = os.path.join(d, 'run'); inc = os.path.join(d, 'DirectXMath', 'Inc')
        for x in (inc, cwd, env['PATH']): os.makedirs(x, exist_ok=True)
        if s['imode'] == 'notarget': clear(os.path.join(cwd, 'target'))
        else: os.makedirs(os.path.join(cwd, 'target'), exist_ok=True)
        hs = [bytes.fromhex(h) for h in s['headers']]; ib = bytes.fromhex(s['index'])
        for i, h in enumerate(hs):
            p = os.path.join(inc, HN[i]); m = s['hmode'][1] if s['hmode'] and s['hmode'][0] == i else ''; clear(p)
            if m == 'dir': os.mkdir(p)
            elif m != 'missing': put(p, h)
            if m: must_fail = 'header %s is %s' % (HN[i], m)
        put(os.path.join(d, 'net'), ib); env['SIMINDEX'] = os.path.join(d, 'net'); env['SIMCURL'] = s['curl']; env['SIMTRACK'] = 'DirectXMath/Inc:index.html'
        if s['stale'] and s['imode'] != 'notarget' and nth == 0: open(os.path.join(cwd, 'target', 'index.html'), 'wb').write(bytes.fromhex(s['staleidx']))
        curl = os.path.join(env['PATH'], 'curl'); clear(curl)
        if s['curl'] == 'noexec': open(curl, 'w').write('x'); os.chmod(curl, 0o644)
        elif s['curl'] != 'missing': os.symlink(b['curl'], curl)
        if s['curl'] not in ('ok', 'chatty'): must_fail = must_fail or 'the download went wrong (%s)' % s['curl']
        if s['imode'] != 'ok': must_fail = must_fail or 'the index is unusable (%s)' % s['imode']
        args = [b['neon']]
        try: want = neon_model([h.decode() for h in hs], ib.decode())
        except UnicodeDecodeError: want = None; must_fail = must_fail or 'a header or the index is not valid UTF-8'
    p = subprocess.Popen(args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=limits, start_new_session=True)
    try: out, _ = p.communicate(timeout=WALL_LIMIT); rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate(); out, rc = b'', 'timeout'
    fired = open(log).read().split() if os.path.exists(log) else []
    fatal = [x for x in fired if x.split(':')[1] in FATAL and x[0] != 'u']; unsure = [x for x in fired if x[0] == 'u']; h = hashlib.sha256(repr((rc if rc != -signal.SIGXCPU else 'timeout', out if rc == 0 else b'', fired)).encode()).hexdigest()[:16]
    if fired and fired[-1].endswith(':KILL'): return None, '', fired, h
    if rc in ('timeout', -signal.SIGXCPU, -signal.SIGKILL): return 'no-termination', 'the tool did not terminate within %d s of processor time' % CPU_LIMIT, fired, h
    why = must_fail or (fatal and 'an operation failed for good: ' + ', '.join(fatal[:3])) or None
    if why:
        if rc == 0: return 'failure-hidden', 'exit status 0 although ' + why, fired, h
        return None, '', fired, h
    if rc != 0 and unsure: return None, '', fired, h      # an old index that cannot be removed may stop the tool
    if rc != 0: return 'spurious-failure', 'exit status %s although nothing failed for good' % rc, fired, h
    if out != want.encode():
        k = next((i for i, (x, y) in enumerate(zip(out, want.encode())) if x != y), min(len(out), len(want.encode())))
        return 'wrong-output', 'output differs from the model at byte %d: %r, expected %r' % (k, out[max(0, k - 20):k + 40], want.encode()[max(0, k - 20):k + 40]), fired, h
    return None, '', fired, h

def minimise(s, kind, b, scratch, budget=120):
    end = time.time() + (30 if kind == 'no-termination' else 90)
    def still(c):
        nonlocal budget
        if budget <= 0 or time.time() > end: return False
        budget -= 1; return execute(c, b, scratch)[0] == kind
    cur = json.loads(json.dumps(s)); again = True
    while again and budget > 0:
        again = False
        for i in range(len(cur['prior']) - 1, -1, -1):
            c = dict(cur, prior=cur['prior'][:i] + cur['prior'][i + 1:])
            if still(c): cur = c; again = True
        for i in range(len(cur['plan']) - 1, -1, -1):
            c = dict(cur, plan=cur['plan'][:i] + cur['plan'][i + 1:])
            if still(c): cur = c; again = True
        keys = ['data'] if cur['tool'] == 'docs' else ['h%d' % i for i in range(5)] + ['index']
        for k in keys:
            def get(c): return bytes.fromhex(c['headers'][int(k[1])] if k[0] == 'h' else c[k])
            def put(v):
                c = json.loads(json.dumps(cur))
                if k[0] == 'h': c['headers'][int(k[1])] = v.hex()
                else: c[k] = v.hex()
                return c
            n = max(1, len(get(cur)) // 2)
            while n >= 1 and budget > 0:
                v = get(cur); j = 0; hit = False
                while j < len(v) and budget > 0:
                    c = put(v[:j] + v[j + n:])
                    if still(c): cur = c; v = get(cur); again = hit = True
                    else: j += n
                n //= 2
    return cur

def shard(tool, seed, lo, hi, b, scratch):
    """runs lo..hi; returns statistics and the first violation"""
    st = {'runs': 0, 'faults': {}, 'distinct': set(), 'curl': {}, 'prior': 0, 'bytes': 0, 'twice': 0, 'same': 0, 'samples': [], 'log': 0}
    os.makedirs(scratch, exist_ok=True)
    for i in range(lo, hi):
        s = gen(tool, seed, i); k, det, fired, h = execute(s, b, scratch); st['runs'] += 1; st['prior'] += len(s['prior'])
        for f in fired: n = f[0] + ':' + f.split(':')[1]; st['faults'][n] = st['faults'].get(n, 0) + 1
        if tool == 'neon': m = s['curl'].split('=')[0]; st['curl'][m] = st['curl'].get(m, 0) + 1
        if tool == 'docs' and s['file'] != 'ok': st['curl'][s['file']] = st['curl'].get(s['file'], 0) + 1
        if fired or s.get('curl', 'ok') != 'ok' or s.get('file', 'ok') != 'ok' or tool == 'docs': st['distinct'].add(hashlib.sha256(json.dumps(s, sort_keys=True).encode()).hexdigest()[:16])
        st['bytes'] += len(s.get('data', s.get('index', ''))) // 2
        if i % 10 == 1: st['twice'] += 1; st['same'] += execute(s, b, scratch)[3] == h
        if len(st['samples']) < 2 and fired: st['samples'].append('run %d: plan %s%s -> fired %s' % (i, ';'.join(s['plan']), ' curl=' + s['curl'] if tool == 'neon' else ' input of %d bytes' % (len(s['data']) // 2), ' '.join(fired[:8])))
        if k:
            if execute(s, b, scratch)[0] != k and execute(s, b, scratch)[0] != k: st['flaky'] = [i, k, det]; continue
            m = minimise(s, k, b, scratch); k2, det2, fired2, h2 = execute(m, b, scratch)
            if k2 != k: m, det2, h2 = s, det, h
            st['violation'] = {'run': i, 'kind': k, 'detail': det2, 'scenario': m, 'log': h2}; break
    st['distinct'] = sorted(st['distinct']); return st
