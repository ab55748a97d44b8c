#!/usr/bin/env python3
"""Numeric literals of the library's current source, as hints for the argument generators (they steer, they decide nothing).

Prints lines "name bits": one literal (32 bit pattern of the float, or the integer) that occurs in the function `name`, or in a
function it calls (two levels); name "*" for every literal of the library outside its tests, "#" for small integers.
"""
import os, re, struct, sys
def literals(text):
    fl, it = set(), set()
    for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?)(_?(?:f32|f64|u8|u16|u32|u64|i8|i16|i32|i64|usize|isize))?', text):
        s = m.group(1).replace('_', '')
        try:
            if s[:2].lower() == '0x': v = int(s, 16); it.add(v)
            elif re.fullmatch(r'\d+', s): v = int(s); it.add(v)
            else: v = float(s)
            fl.add(struct.unpack('<I', struct.pack('<f', float(v)))[0])
            if isinstance(v, int) and v >= 0x10000 and v <= 0xffffffff: fl.add(v)
        except (ValueError, OverflowError, struct.error): pass
    return fl, it
def strip(text):
    text = re.sub(r'//[^\n]*', '', text); text = re.sub(r'/\*.*?\*/', '', text, flags=re.S); text = re.sub(r'"(?:\\.|[^"\\])*"', '""', text)
    out, i = [], 0                                      # without #[test] functions and #[cfg(test)] modules
    for m in re.finditer(r'#\[(?:test|cfg\(test\))\]', text):
        if m.start() < i: continue
        j = text.find('{', m.end())
        if j < 0: break
        d = 1; k = j + 1
        while k < len(text) and d: d += (text[k] == '{') - (text[k] == '}'); k += 1
        out.append(text[i:m.start()]); i = k
    out.append(text[i:]); return ''.join(out)
def main(src):
    own, calls, glob, ints = {}, {}, set(), set()
    for d, ds, fs in os.walk(src):
        ds.sort()
        for f in sorted(fs):
            if not f.endswith('.rs'): continue
            t = strip(open(os.path.join(d, f), encoding='utf-8', errors='replace').read()); a, b = literals(t); glob |= a; ints |= b
            h = list(re.finditer(r'\bfn\s+(\w+)', t))
            for x, m in enumerate(h):
                body = t[m.start():h[x + 1].start() if x + 1 < len(h) else len(t)]; n = m.group(1); a, _ = literals(body)
                own.setdefault(n, set()).update(a); calls.setdefault(n, set()).update(re.findall(r'\b(\w+)\s*\(', body))
    for n in sorted(own):
        s, reach, seen = set(own[n]), {n}, {n}
        for _ in range(2):
            reach = {c for r in reach for c in calls.get(r, ()) if c in own} - seen; seen |= reach
            for c in reach: s |= own[c]
        for v in sorted(s): print(n, '%08x' % v)
    for v in sorted(glob): print('*', '%08x' % v)
    for v in sorted(i for i in ints if 4 <= i <= 1 << 20): print('#', '%08x' % v)
if __name__ == '__main__': main(sys.argv[1])
