"""hrun.py <harness> [staged tree]: build and run one harness (development aid; check.py does the same)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('VERIF_TIER', 'quick'); os.environ.setdefault('VERIF_SEED', '1')
import check, shutil, time
w = os.path.join(check.VERIF, 'build', 'w%d' % os.getpid())
os.makedirs(w, exist_ok=True)
try:
    t = time.time()
    b = check.build_harness(sys.argv[1], w, sys.argv[2] if len(sys.argv) > 2 else '/repo', 'quick')
    t1 = time.time()
    if b['err']:
        print(b['err'] if len(sys.argv) > 3 else '\n'.join([l for l in b['err'].split('\n') if 'error' in l or 'required from here' in l][:12]) or b['err'][:1500])
    else:
        r = check.run_harness(b, w)
        seen = {}
        for k, d in r['fails']:
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 2: print('FAIL', k, d[:60000])
        print('at', r['at'], 'crash', (r['crash'] or '')[:1500], 'evals', r['evaluations'], 'distinct', r['distinct'], 'build %.1f run %.1f' % (t1 - t, time.time() - t1))
        for s in r['samples'][:3]: print('SAMPLE', s[:150])
finally: shutil.rmtree(w, ignore_errors=True)
