"""Functions of farsightsec/fstrm that the harnesses may name.  `python3 names.py` rewrites names.txt from /repo."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))
def sources(repo):
    out = []
    for d in ('fstrm', 'src', 'libmy'):
        p = os.path.join(repo, d)
        if os.path.isdir(p): out += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(('.c', '.h'))]
    return out
def code(path):
    t = open(path, errors='replace').read()
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"', ' ', t, flags=re.S)
_c = {}
def words(repo):
    if repo not in _c: _c[repo] = set(re.findall(r'\w+', ' '.join(code(p) for p in sources(repo))))
    return _c[repo]
def known(): return set(open(os.path.join(HERE, 'names.txt')).read().split())
_h = {}
def harness(src):
    """identifiers in a harness and in the headers of ours that it includes"""
    if src in _h: return _h[src]
    seen, todo, w = set(), [src], set()
    while todo:
        p = todo.pop()
        if p in seen or not os.path.exists(p): continue
        seen.add(p); t = open(p).read()
        for i in re.findall(r'#\s*include\s*"([^"]+)"', t):
            todo += [os.path.join(os.path.dirname(p), i), os.path.join(HERE, 'inc', i), os.path.join(HERE, 'units', i)]
        w |= set(re.findall(r'\w+', code(p)))
    _h[src] = w
    return w
def gone(src, repo): return sorted((harness(src) & known()) - words(repo))
if __name__ == '__main__':
    n = set()
    for p in sources('/repo'):
        for m in re.finditer(r'^(?:[a-zA-Z_][\w \t\*]*[ \t\*])?(\w+)\s*\([^;{}#()]*(?:\([^()]*\)[^;{}#()]*)*\)\s*\{', code(p), re.M): n.add(m.group(1))
    n -= {'if', 'for', 'while', 'switch', 'main'}
    open(os.path.join(HERE, 'names.txt'), 'w').write('\n'.join(sorted(n)) + '\n')
    print(len(n))
