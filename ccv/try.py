"""try.py module:attr [substring]: run proof tasks (development aid)"""
import sys, os, time, importlib, multiprocessing as mp, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('CCV_WORK', '/tmp/w/o%d' % os.getpid())
os.makedirs(os.environ['CCV_WORK'], exist_ok=True)
import front, task
mod, attr = sys.argv[1].split(':')
m = importlib.import_module('contracts.' + mod)
tus = {}


def get(t):
    k = (getattr(t, 'tu', None) or m.TU, getattr(t, 'std', None) or getattr(m, 'STD', 'c++98'), tuple(getattr(t, 'defs', None) or getattr(m, 'DEFS', ())))
    if k not in tus: tus[k] = front.compile_tu(os.path.join(front.VERIF, 'tu', k[0]), k[1], k[2], inc=['/usr/include/tirpc'])
    return tus[k]


def one(i):
    t = T[i]
    r = task.run_task(get(t), t)
    o = '%-40s %-10s obls=%d %.1fs %s %s' % (t.name, r.status, len(r.obls), r.wall, (r.error or '')[-600:], r.stats)
    if r.loops: o += '\n   loops %s' % r.loops
    if os.environ.get('V'): o += '\n  contracts %s\n  inlined %s' % (r.contracts, r.inlined)
    for b in getattr(r, 'bad', []):
        o += '\n   BAD %s %s %s %s' % (b.status, b.label, b.where, b.trace)
        if b.model is not None and os.environ.get('V'): o += '\n%s' % b.model
    return o


T = [t for t in getattr(m, attr) if len(sys.argv) < 3 or sys.argv[2] in t.name]
for t in T: get(t)
with mp.Pool(min(8, len(T) or 1), maxtasksperchild=1) as P:
    for o in P.imap(one, range(len(T)), 1): print(o, flush=True)
shutil.rmtree(os.environ['CCV_WORK'], ignore_errors=True)
