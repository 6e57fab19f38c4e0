#!/usr/bin/env python3
"""Decide one property: run.py <ID> [--tier quick|thorough].  See DESIGN.md."""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import vf
from units import U
from props import PROPS, NAT

ap = argparse.ArgumentParser()
ap.add_argument('id')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--keep', action='store_true')
A = ap.parse_args()
SEED = int(os.environ.get('VERIF_SEED', '1'))
T0 = time.time()
vf.DEADLINE = T0 + (640 if A.tier == 'quick' else 3000)
P = PROPS[A.id]
THOROUGH = A.tier == 'thorough'
work = tempfile.mkdtemp(prefix='vf-%s-' % A.id)
WRAP = ['-Wl,--wrap=' + x for x in ('malloc', 'calloc', 'realloc', 'strdup', 'free')]

def libsrc():
    r = vf.REPO
    return sorted(glob.glob(r + '/fstrm/*.c')) + [r + '/libmy/my_queue_mb.c', r + '/libmy/my_queue_mutex.c']

def build_nat(name):
    n = NAT[name]
    out = os.path.join(work, 'nat-' + name)
    inc = ['-I', vf.REPO, '-I', vf.REPO + '/fstrm', '-I', vf.REPO + '/src', '-I', os.path.join(vf.VERIF, 'nat'), '-I', os.path.join(vf.VERIF, 'inc')]
    cmd = [n.get('cc', 'gcc'), '-O1', '-g', '-w'] + n.get('san', ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']) + \
          ['-include', os.path.join(vf.VERIF, 'inc', 'config.h')] + inc + n.get('defs', []) + [os.path.join(vf.VERIF, n['src'])]
    lib = n.get('lib', 'all')
    if lib == 'all': cmd += libsrc()
    else: cmd += [os.path.join(vf.REPO, x) for x in lib]
    cmd += [vf.REPO + '/' + x[2:] if x.startswith('R:') else x for x in n.get('extra', [])]
    cmd += (WRAP if n.get('wrap', True) else []) + n.get('link', []) + ['-lpthread', '-o', out]
    rc, o, e, s = vf.run(cmd, 180)
    return (out if rc == 0 else None), (o + e)[-1500:]

def run_nat(name, mode, secs, exe):
    """-> dict(status ok|fail|error, out, cases)"""
    d = tempfile.mkdtemp(prefix='n-', dir=work)
    os.chmod(d, 0o777)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=78:detect_stack_use_after_return=0:allocator_may_return_null=1',
               UBSAN_OPTIONS='print_stacktrace=1:exitcode=79', TSAN_OPTIONS='exitcode=66:halt_on_error=1:report_thread_leaks=0', NAT_DIR=d, TZ='UTC')
    to = secs * 4 + 100
    rc, o, e, s = vf.run([exe, mode, str(SEED), str(secs)], to, cwd=d, env=env)
    m = re.search(r'^CASES (\d+)', o, re.M)
    r = dict(name=name, mode=mode, secs=s, out=o[-20000:], err=e[-8000:], cases=int(m.group(1)) if m else 0, rc=rc)
    if rc == 0 and m: r['status'] = 'ok'
    elif 'FAILING INPUT' in o or rc in (77, 78, 79, 66) or (rc is not None and rc < 0 and rc != -9): r['status'] = 'fail'
    else: r['status'] = 'error'; r['why'] = 'rc=%s %s' % (rc, e[-300:])
    shutil.rmtree(d, ignore_errors=True)
    return r

units = [U[n] for n in P['units'] if THOROUGH or not U[n].thorough_only]
nats = list(P.get('native', []))            # (driver, mode, seconds)
NSEC = P.get('nsec', 8)
unit_res, nat_res, notes = {}, [], []

def do_unit(u):
    r = vf.run_unit(u, work)
    if r.status == 'error' and 'timeout' not in r.why: # once more, then give up on this obligation set
        r2 = vf.run_unit(u, work)
        if r2.status != 'error': r = r2
    return r

ex = ThreadPoolExecutor(max_workers=8)
exes = {}
def do_nat_build(n):
    exes[n] = build_nat(n)
fb = [ex.submit(do_nat_build, n) for n in sorted({x[0] for x in nats})]
fu = {u.name: ex.submit(do_unit, u) for u in sorted(units, key=lambda u: -u.weight)}
for f in fb: f.result()
fn = []
for (n, mode, *rest) in nats:
    exe, log = exes[n]
    if exe is None:
        notes.append('search driver %s does not build against this tree: %s' % (n, log[-300:])); continue
    secs = (rest[0] if rest else NSEC) * (8 if THOROUGH else 1)
    fn.append(ex.submit(run_nat, n, mode, secs, exe))
for n, f in fu.items(): unit_res[n] = f.result()
for f in fn: nat_res.append(f.result())

failed = [r for r in unit_res.values() if r.status == 'fail']
# a loop invariant that fails may be about the loop's text and not about what it computes: the same harness without
# the injected contracts, loops unwound, decides (its property obligations are about behaviour alone)
annot = [r for r in failed if r.annot and r.unit.bounded is not None]
failed = [r for r in failed if r not in annot]
# vacuity that did not exist on the tree the harness was written for: treat like a harness that no longer fits
noatt = [r for r in unit_res.values() if r.status in ('noattach', 'vacuous', 'error')]
bounded = []
def do_bounded(u):
    return vf.run_unit(u, work, 'bounded')
for r in noatt: notes.append('unit %s: %s (%s): degraded to a bounded check' % (r.unit.name, r.status, r.why[-400:]))
fbounded = [ex.submit(do_bounded, r.unit) for r in noatt if r.unit.bounded is not None]
for f in fbounded:
    b = f.result(); bounded.append(b)
    if b.status not in ('ok', 'fail'): notes.append('unit %s bounded: %s (%s)' % (b.unit.name, b.status, b.why[-300:]))
for r, f in [(r, ex.submit(do_bounded, r.unit)) for r in annot]:
    b = f.result(); bounded.append(b)
    if b.status == 'fail': failed.append(r)
    else: notes.append('unit %s: loop contract does not fit (%s): degraded to a bounded check (%s)' % (r.unit.name, r.fail[0][-150:], b.status))
# bounded runs of a harness that lost its anchor never raise an alarm by themselves: they direct a longer search
suspicious = failed + annot + [b for b in bounded if b.status == 'fail']
natfail = [x for x in nat_res if x['status'] == 'fail']
if suspicious and not natfail:
    fs = []
    for (n, mode, *rest) in nats:
        if exes[n][0]: fs.append(ex.submit(run_nat, n, mode, (rest[0] if rest else NSEC) * 4, exes[n][0]))
    for f in fs:
        x = f.result(); nat_res.append(x)
        if x['status'] == 'fail': natfail.append(x)
for x in nat_res:
    if x['status'] == 'error': notes.append('search driver %s %s: no answer (%s)' % (x['name'], x['mode'], x['why']))

viol = []
rdir = os.path.join(vf.VERIF, 'replays'); os.makedirs(rdir, exist_ok=True)
for old in glob.glob(os.path.join(rdir, A.id + '-*')):
    try: os.unlink(old)
    except OSError: pass
def obligations_text():
    t = ''
    for r in failed + [x for x in annot if x not in failed]:
        t += 'unit %s (%s)\n  %s\n' % (r.unit.name, r.unit.what, r.cmd)
        for x in r.fail: t += '  FAILED OBLIGATION %s\n' % x
    for b in bounded:
        for x in b.fail: t += '  BOUNDED %s: %s\n' % (b.unit.name, x)
    return t

known = []
kf = os.path.join(vf.VERIF, 'known-findings.txt')
if os.path.exists(kf):
    for l in open(kf):
        m = re.match(r'^known: property=(\S+) match=(\S+) (.*)', l)
        if m and m.group(1) == A.id: known.append((m.group(2), m.group(3).strip()))
def is_known(text):
    for pat, what in known:
        if re.search(pat, text): return what
    return None

hit_known = set()
for x in natfail:
    k = is_known(x['out'])
    if k: hit_known.add(k); continue
    p = os.path.join(rdir, '%s-%s-%s.txt' % (A.id, x['name'], x['mode']))
    open(p, 'w').write('property %s: %s\nfailing input found by %s, mode %s, seed %d (real code of %s)\n\n%s\n%s\n\n%s' %
                       (A.id, P['title'], NAT[x['name']]['src'], x['mode'], SEED, vf.REPO, x['out'], x['err'], obligations_text()))
    viol.append((p, ''))
    break
if failed and not viol:
    # no concrete input: show the verifier's own trace
    r = failed[0]; t = ''
    try:
        tr = vf.run_unit(r.unit, work, trace=True); t = tr.trace
    except Exception as e: t = str(e)
    if not is_known(obligations_text()):
        p = os.path.join(rdir, '%s-obligation.txt' % A.id)
        open(p, 'w').write('property %s: %s\nobligations that no longer hold:\n%s\nverifier counterexample (state assignments):\n%s\n' %
                           (A.id, P['title'], obligations_text(), t))
        viol.append((p, ' no-failing-input-found'))

full = [r for r in unit_res.values() if r.unit.level == 'proved']       # bounded units are counted apart
ok = sum(len(r.ok) for r in full); tot = ok + sum(len(r.fail) for r in full)
proved = [r for r in unit_res.values() if r.status == 'ok']
cov = dict(
    obligations=tot, discharged=ok,
    checker_cmd='goto-cc; goto-instrument --dfcc h --enforce-contract f/c [--replace-call-with-contract ...] [--apply-loop-contracts]; cbmc --sat-solver cadical (6.11.0), per unit; driven by run.py',
    trusted_base=sorted(set(['CBMC 6.11.0 (goto-cc, goto-instrument dfcc, SAT back end CaDiCaL), gcc front-end semantics as modelled by CBMC, 64-bit little-endian Linux'] +
                            [t for r in unit_res.values() for t in r.unit.trusted])),
    units=[dict(unit=r.unit.name, functions=list(r.unit.functions), what=r.unit.what, status=r.status, level=r.unit.level,
                bound=r.unit.bound, obligations=len(r.ok) + len(r.fail), discharged=len(r.ok), nonvacuity_witnesses=r.cover_hit,
                backend='cbmc/' + r.unit.solver, seconds=round(r.secs, 2)) for r in unit_res.values()],
    bounded_obligations=sum(len(r.ok) + len(r.fail) for r in unit_res.values() if r.unit.level != 'proved'),
    bounded_discharged=sum(len(r.ok) for r in unit_res.values() if r.unit.level != 'proved'),
    functions_under_contract=sorted({f for r in proved if r.unit.level == 'proved' for f in r.unit.functions}),
    functions_bounded_only=sorted({f for r in unit_res.values() if r.unit.level != 'proved' for f in r.unit.functions} - {f for r in proved if r.unit.level == 'proved' for f in r.unit.functions}),
    solver_seconds=round(sum(r.secs for r in unit_res.values()), 1),
    bounded_companions=[dict(driver=x['name'], mode=x['mode'], cases=x['cases'], seconds=round(x['secs'], 1), status=x['status']) for x in nat_res],
    degraded=[n for n in notes],
)
if P['level'] in ('exploration', 'other'):
    cov['evaluations'] = sum(x['cases'] for x in nat_res)
    cov['explanation'] = P.get('note', '')
ev = dict(property=A.id, tier='thorough' if THOROUGH else 'quick', seed=SEED, level=P['level'], coverage=cov,
          assumptions=P.get('assumptions', []), wall_s=round(time.time() - T0, 2), violations=len(viol))
os.makedirs(os.path.join(vf.VERIF, 'evidence'), exist_ok=True)
json.dump(ev, open(os.path.join(vf.VERIF, 'evidence', A.id + '.json'), 'w'), indent=1)
if not A.keep: shutil.rmtree(work, ignore_errors=True)

print('%s: %d/%d obligations discharged in %d units (and %d bounded units), %d native cases, %.1fs' %
      (A.id, ok, tot, len(full), len(unit_res) - len(full), sum(x['cases'] for x in nat_res), time.time() - T0))
for n in notes: print('NOTE', n.replace('\n', ' ')[:600])
for k in sorted(hit_known | {w for _, w in known}): print('KNOWN-FINDING: property=%s %s' % (A.id, k))
if viol:
    for r in failed:
        for x in r.fail[:6]: print('failed obligation:', r.unit.name, x)
    for p, suf in viol: print('VIOLATION property=%s replay=%s%s' % (A.id, p, suf))
    sys.exit(1)
sys.exit(0)
