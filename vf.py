"""Runner for the deductive checks: see DESIGN.md."""
import names, json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
DEADLINE = None      # absolute time at which the whole check has to be done proving

class Loop:
    """A loop contract, attached to the loop with exactly this header, in this function."""
    def __init__(self, file, func, header, clauses, nth=0):
        self.file, self.func, self.header, self.clauses, self.nth = file, func, header, clauses, nth

class Unit:
    def __init__(self, name, src, entry='h', enforce=None, replace=(), loops=(), defs=(),
                 unwind=None, unwindset=(), solver='cadical', timeout=int(__import__("os").environ.get("VF_TO","240")), flags=(),
                 covers=1, functions=(), bounded=None, trusted=(), what='', weight=1, thorough_only=False,
                 level='proved', bound=None, redirect=()):
        self.__dict__.update(locals()); del self.__dict__['self']

class Attach(Exception):
    pass

# internal functions that some units compile but never reach
UNDEF_OK = {'fstrm__rdwr_read_control', 'fstrm__rdwr_read_control_frame', 'fstrm__rdwr_write_control', 'fstrm__rdwr_write_control_frame'}

def norm(s):
    return re.sub(r'\s+', ' ', s).strip()

def blank_comments(s):
    """Same length text with comments and string/char literals blanked."""
    out = list(s); i = 0; n = len(s)
    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n': out[k] = ' '
    while i < n:
        if s.startswith('/*', i):
            j = s.find('*/', i + 2); j = n if j < 0 else j + 2; blank(i, j); i = j
        elif s.startswith('//', i):
            j = s.find('\n', i); j = n if j < 0 else j; blank(i, j); i = j
        elif s[i] in '"\'':
            q = s[i]; j = i + 1
            while j < n and s[j] != q:
                j += 2 if s[j] == '\\' else 1
            blank(i + 1, j); i = j + 1
        else: i += 1
    return ''.join(out)

def match_paren(t, i, o='(', c=')'):
    d = 0
    for k in range(i, len(t)):
        if t[k] == o: d += 1
        elif t[k] == c:
            d -= 1
            if d == 0: return k
    raise Attach('unbalanced')

def find_func(t, name):
    for m in re.finditer(r'\b%s\s*\(' % re.escape(name), t):
        e = match_paren(t, m.end() - 1)
        k = e + 1
        while k < len(t) and (t[k].isspace() or t[k] == '\\'): k += 1
        if k < len(t) and t[k] == '{':
            return k, match_paren(t, k, '{', '}')
    raise Attach('function %s not found' % name)

def inject(text, loop):
    t = blank_comments(text)
    a, b = find_func(t, loop.func)
    hits = []
    if loop.header == 'do':
        hits = [a + m.end() - 1 for m in re.finditer(r'\bdo\b', t[a:b])]
    for m in re.finditer(r'\b(while|for)\s*\(', t[a:b]):
        s = a + m.start(); e = match_paren(t, a + m.end() - 1)
        if norm(re.sub(r'\\\n', ' ', text[s:e + 1])) == norm(loop.header): hits.append(e)
    if len(hits) <= loop.nth:
        raise Attach('loop "%s" not found in %s' % (loop.header, loop.func))
    e = hits[loop.nth]
    return text[:e + 1] + ' ' + norm(loop.clauses) + ' ' + text[e + 1:]

def run(cmd, timeout, mem_gb=None, cwd=None, env=None):
    t0 = time.time()
    pre = None
    if mem_gb:
        import resource
        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                             preexec_fn=pre, cwd=cwd, env=env, start_new_session=True)
        try:
            o, e = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.communicate()
            return None, '', 'timeout after %ss' % timeout, time.time() - t0
        return p.returncode, o, e, time.time() - t0
    except OSError as x:
        return None, '', str(x), time.time() - t0

CFLAGS = ['-include', os.path.join(VERIF, 'inc', 'config.h'), '-D__FSTRM_VERIFY__=1']

def config_flags():
    return CFLAGS

class Result:
    def __init__(self, unit, mode):
        self.unit, self.mode = unit, mode
        self.status = 'error'; self.why = ''; self.annot = False
        self.ok = []; self.fail = []; self.cover_hit = 0; self.cover_miss = []
        self.secs = 0.0; self.log = ''; self.trace = ''

def run_unit(u, work, mode='proof', trace=False):
    r = Result(u, mode); t0 = time.time()
    d = os.path.join(work, u.name + '-' + mode); os.makedirs(d, exist_ok=True)
    try:
        ov = os.path.join(d, 'ov'); os.makedirs(ov, exist_ok=True)
        defs = list(u.defs); unwind = u.unwind; unwindset = list(u.unwindset)
        own_loops = u.loops is True
        loops = u.loops if mode == 'proof' and not own_loops else ()
        use_loops = (bool(loops) or own_loops) and mode == 'proof'
        enforce, replace = u.enforce, u.replace
        uflags = list(u.flags)
        if mode == 'bounded':
            b = u.bounded or {}
            defs = defs + list(b.get('defs', [])) + ['VF_BOUNDED=1']
            unwind = b.get('unwind', unwind); unwindset = list(b.get('unwindset', []))
        texts = {}
        for l in loops:
            if l.file not in texts: texts[l.file] = open(os.path.join(REPO, l.file)).read()
            texts[l.file] = inject(texts[l.file], l)
        for f, t in texts.items():
            p = os.path.join(ov, f); os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(t)
        inc = ['-I', ov, '-I', os.path.join(ov, 'fstrm'), '-I', os.path.join(ov, 'src'),
               '-I', REPO, '-I', os.path.join(REPO, 'fstrm'), '-I', os.path.join(REPO, 'src'),
               '-I', os.path.join(VERIF, 'inc'), '-I', os.path.join(VERIF, 'units'), '-I', os.path.join(ov, 'libmy'), '-I', os.path.join(REPO, 'libmy')]
        # functions the harness names (stubs, contracts, calls) that the code no longer has: it does not fit this code
        g = names.gone(os.path.join(VERIF, u.src), REPO)
        if g: r.status = 'noattach'; r.why = 'no longer in the code: ' + ' '.join(g); return r
        a, b_ = os.path.join(d, 'a.gb'), os.path.join(d, 'b.gb')
        cmd = ['goto-cc'] + config_flags() + ['-D' + x for x in defs] + inc + \
              [os.path.join(VERIF, u.src), '--function', u.entry, '-o', a]
        rc, o, e, _ = run(cmd, 120, cwd=d)
        if rc != 0:
            r.status = 'noattach'; r.why = 'goto-cc: ' + (o + e)[-1500:]; return r
        if re.search(r"function '[^']+' is not declared", o + e):
            m = re.search(r"function '[^']+' is not declared", o + e)
            r.status = 'noattach'; r.why = 'goto-cc: ' + m.group(0); return r
        # an internal function that is declared or called but neither defined nor under contract here (renamed, merged,
        # new): the unit would speak about a function without a body, so nothing it says would be about the code
        rc, o, e, _ = run(['goto-instrument', '--list-undefined-functions', a], 60, cwd=d)
        if rc == 0:
            own = set(re.findall(r'\bstatic\b[^;{}()#]*?\b(\w+)\s*\([^;{}]*?\)\s*;', open(os.path.join(VERIF, u.src)).read()))
            und = [x for x in (o or '').split() if x not in UNDEF_OK and (x in u.functions or x in own or re.match(r'fstrm__|ubuf_|fs_|my_', x))]
            if und: r.status = 'noattach'; r.why = 'no body: ' + ' '.join(sorted(und)); return r
        if u.redirect:   # calls to f go to its constructive contract stub g (f itself is proved in another unit)
            a2 = os.path.join(d, 'a2.gb')
            cmd = ['goto-instrument']
            for x in u.redirect: cmd += ['--replace-calls', x]
            rc, o, e, _ = run(cmd + [a, a2], 120, cwd=d)
            if rc != 0: r.status = 'noattach'; r.why = 'goto-instrument: ' + (o + e)[-1500:]; return r
            a = a2
        if enforce or use_loops or replace:
            cmd = ['goto-instrument', '--dfcc', u.entry]
            if enforce: cmd += ['--enforce-contract', enforce]
            for x in replace: cmd += ['--replace-call-with-contract', x]
            if use_loops: cmd += ['--apply-loop-contracts', '--disable-loop-contracts-side-effect-check']
            rc, o, e, _ = run(cmd + [a, b_], 300, cwd=d)
            if rc != 0:
                r.status = 'noattach'; r.why = 'goto-instrument: ' + (o + e)[-1500:]; return r
        else:
            b_ = a
        cmd = ['cbmc', b_, '--no-malloc-may-fail', '--json-ui', '--slice-formula', '--drop-unused-functions'] + uflags
        if u.solver.startswith('--'): cmd += u.solver.split()
        else: cmd += ['--sat-solver', u.solver]
        if unwind: cmd += ['--unwind', str(unwind)]
        if unwindset: cmd += ['--unwindset', ','.join(unwindset)]
        if mode == 'bounded': cmd += ['--no-unwinding-assertions']
        if trace: cmd += ['--trace']
        r.cmd = ' '.join(cmd)
        left = DEADLINE - time.time() if DEADLINE else 1e9
        if left < 5: r.status = 'error'; r.why = 'timeout: no time left'; return r
        rc, o, e, s = run(cmd, min(u.timeout if mode == 'proof' else min(u.timeout, 240), left), mem_gb=14, cwd=d)
        if rc is None or rc not in (0, 10):
            r.status = 'error'; r.why = 'cbmc rc=%s %s %s' % (rc, e[-500:], o[-1500:]); return r
        try:
            msgs = json.loads(o)
        except ValueError:
            r.status = 'error'; r.why = 'unparsable cbmc output'; return r
        results = None
        for m in msgs:
            if isinstance(m, dict) and 'result' in m: results = m['result']
            if isinstance(m, dict) and m.get('messageType') == 'WARNING':
                r.log += m.get('messageText', '') + '\n'
        if results is None:
            r.status = 'error'; r.why = 'no results'; return r
        unknown = []
        for p in results:
            desc = p.get('description', '')
            loc = p.get('sourceLocation', {})
            ident = '%s [%s:%s %s] %s' % (p['property'], loc.get('file', '?').replace(ov + '/', ''), loc.get('line', '?'),
                                         loc.get('function', '?'), desc)
            if desc.startswith('VFCOVER'):
                if p['status'] == 'FAILURE': r.cover_hit += 1
                else: r.cover_miss.append(ident)
            elif p['status'] == 'SUCCESS': r.ok.append(ident)
            elif p['status'] == 'FAILURE':
                r.fail.append(ident)
                if trace and not r.trace and 'trace' in p: r.trace = fmt_trace(p['trace'])
            else:
                unknown.append('status %s for %s' % (p['status'], ident))   # follows a failed (fatal) check
        # the harness no longer fits this text: a loop the contracts do not know, or a loop whose frame has grown
        soft = [x for x in r.fail if 'unwinding assertion' in x or 'recursion unwinding' in x or ('is assignable' in x and not u.enforce and mode == 'proof')]
        if r.fail and len(soft) == len(r.fail): r.status = 'noattach'; r.why = 'loop or frame unknown to the contracts: ' + '; '.join(soft[:3]); return r
        if any('unwinding assertion' in x for x in soft): r.status = 'noattach'; r.why = 'loop unknown to the contracts: ' + soft[0]; return r
        # a call to a function without body and contract: nothing is known about it, nothing is decided (after such a
        # call dfcc ends the path, so there the other failures stand)
        nb = [x for x in r.fail if '.no-body.' in x or 'undefined function should be unreachable' in x]
        if nb and (len(nb) == len(r.fail) or any('.no-body.' in x for x in nb)): r.status = 'noattach'; r.why = 'calls a function without contract: ' + '; '.join(nb[:3]); return r
        # an injected loop contract that no longer fits a rewritten loop: run.py decides the unit again without it
        r.annot = mode == 'proof' and use_loops and any(re.search(r'\.loop_(invariant|assigns|decreases|step)', x) for x in r.fail)
        if r.fail: r.status = 'fail'
        elif unknown: r.status = 'error'; r.why = unknown[0]
        elif mode == 'proof' and (r.cover_hit < u.covers):
            r.status = 'vacuous'; r.why = 'covers hit %d of %d required; missed: %s' % (r.cover_hit, u.covers, r.cover_miss)
        elif not r.ok: r.status = 'vacuous'; r.why = 'no obligations'
        else: r.status = 'ok'
        return r
    except Attach as x:
        r.status = 'noattach'; r.why = str(x); return r
    finally:
        r.secs = time.time() - t0
        None if os.environ.get("VF_KEEP") else shutil.rmtree(d, ignore_errors=True)

def fmt_trace(tr):
    out = []
    for s in tr:
        if s.get('hidden') or s.get('internal'): continue
        if s.get('stepType') == 'assignment':
            v = s.get('value', {})
            loc = s.get('sourceLocation', {})
            lhs = s.get('lhs', '')
            if lhs.startswith('__CPROVER') or lhs.startswith('__'): continue
            out.append('%s:%s %s = %s' % (os.path.basename(loc.get('file', '')), loc.get('line', ''), lhs,
                                          v.get('data', v.get('name', '?'))))
    return '\n'.join(out[-400:])
