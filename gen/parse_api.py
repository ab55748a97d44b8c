"""Lists the public functions of /repo's crate: (file, impl type or '', module path, unsafe, name, generics, args, ret, where, line)."""
import re, sys, os

REPO = os.environ.get("VERIF_REPO", "/repo")

def strip_comments(s):
    out = []; i = 0; n = len(s)
    while i < n:
        c = s[i]
        if s.startswith('//', i):
            j = s.find('\n', i); j = n if j < 0 else j
            i = j
        elif s.startswith('/*', i):
            j = s.find('*/', i + 2); j = n if j < 0 else j + 2
            out.append('\n' * s.count('\n', i, j)); i = j
        elif c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            out.append('""' + '\n' * s.count('\n', i, j)); i = j + 1
        elif c == "'" and re.match(r"'(\\.|[^\\'])'", s[i:i+4]):
            m = re.match(r"'(\\.|[^\\'])'", s[i:i+4]); out.append("' '"); i += m.end()
        else:
            out.append(c); i += 1
    return ''.join(out)

def match(s, i, o, c):
    d = 0
    while True:
        if s[i] == o: d += 1
        elif s[i] == c:
            d -= 1
            if d == 0: return i
        i += 1

def split_args(a):
    r = []; d = 0; cur = ''
    for ch in a:
        if ch in '([{<': d += 1
        if ch in ')]}>': d -= 1
        if ch == ',' and d == 0:
            if cur.strip(): r.append(' '.join(cur.split()))
            cur = ''
        else: cur += ch
    if cur.strip(): r.append(' '.join(cur.split()))
    return r

def functions(fname):
    s = strip_comments(open(f'{REPO}/src/{fname}.rs').read())
    # scope stack via brace scanning
    res = []; stack = []  # (kind, text)
    i = 0; last = 0
    for m in re.finditer(r'[{};]', s):
        ch = m.group()
        if ch == '{':
            head = ' '.join(s[last:m.start()].split())
            h = re.search(r'(?:^|\s|\])((?:pub(?:\([^)]*\))? )?(?:unsafe )?(?:impl|mod|trait|macro_rules!|fn|const fn|unsafe fn).*)$', head)
            stack.append((head, s.count('\n', 0, m.start()) + 1))
            fm = re.search(r'pub (const )?(unsafe )?fn (\w+)', head)
            if fm and not any(re.search(r'\bfn \w+', x[0]) for x in stack[:-1]):
                sig = head[fm.start():]
                p = sig.index('(', fm.end() - fm.start())
                gen = sig[fm.end() - fm.start():p]
                q = match(sig, p, '(', ')')
                args = split_args(sig[p+1:q])
                rest = sig[q+1:].strip(); where = ''
                if ' where ' in ' ' + rest: rest, where = (' ' + rest).split(' where ', 1)
                ret = rest.strip()
                if ret.startswith('->'): ret = ret[2:].strip()
                scopes = [x[0] for x in stack[:-1]]
                cfgs = re.findall(r'#\[cfg\((.*?)\)\]', head)
                res.append(dict(file=fname, scopes=scopes, unsafe=bool(fm.group(2)), name=fm.group(3), gen=gen, args=args, ret=ret, where=where.strip(), line=s.count('\n', 0, m.start()) + 1, cfg=cfgs))
        elif ch == '}':
            if stack: stack.pop()
        elif ch == ';':
            # a ';' inside parens (array types) does not end an item
            if s.count('(', last, m.start()) > s.count(')', last, m.start()): continue
        last = m.end()
    return res

FILES = ['lib', 'vector', 'convert', 'misc', 'matrix', 'packed_vector', 'collision']
if __name__ == '__main__':
    allf = [f for x in FILES for f in functions(x)]
    for f in allf:
        print(f['file'], f['line'], [x[-60:] for x in f['scopes']], f['cfg'], 'unsafe' if f['unsafe'] else '', f['name'], f['gen'], f['args'], '->', f['ret'], f['where'])
