import sys, tempfile
import vf, units
w=tempfile.mkdtemp(prefix='vf')
names=[n for n in units.U if any(n.startswith(a) for a in sys.argv[1:] if not a.startswith('-'))]
mode='bounded' if '-b' in sys.argv else 'proof'
from concurrent.futures import ThreadPoolExecutor
def f(n):
    r=vf.run_unit(units.U[n],w,mode,trace='-t' in sys.argv)
    print('%-24s %-8s ok=%d cov=%d %.1fs %s'%(n,r.status,len(r.ok),r.cover_hit,r.secs,r.why[:3000] if r.status!='ok' else ''))
    for x in r.fail[:12]: print('   FAIL',x)
    if r.log and '-v' in sys.argv: print(r.log[:1500])
    if '-t' in sys.argv: print(r.trace[-6000:])
    sys.stdout.flush()
with ThreadPoolExecutor(8) as ex: list(ex.map(f,names))
import shutil; shutil.rmtree(w)
