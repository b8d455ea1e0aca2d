#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property id>: prove the contracts of one property on /repo's current tree, run its bounded harnesses, write the evidence"""
import sys, os, time, json, re, subprocess, shutil, importlib, multiprocessing as mp, concurrent.futures as cf, signal, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'ccv'))
REPO = os.environ.get('CCV_SRC', '/repo')
JOBS = int(os.environ.get('CCV_JOBS', '8'))


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ['VERIF_TIER'], os.environ['VERIF_SEED'] = tier, str(seed)
    base = os.path.join(VERIF, 'build')
    os.makedirs(base, exist_ok=True)
    for d in os.listdir(base):      # leftovers of ended runs
        m = re.match(r'w(\d+)$', d)
        if m and not os.path.exists('/proc/' + m.group(1)): shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    work = os.path.join(base, 'w%d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    os.environ['CCV_WORK'] = work
    try:
        return run(pid, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, tier, seed, work, t0):
    import stage
    try: staged = stage.stage(REPO, work)
    except stage.StageError as e:
        print('ERROR: the tree does not build: %s' % e)
        return 2
    os.environ['CCV_REPO'] = staged
    import front, task, props
    front.REPO = staged
    P = props.PROPS[pid]
    # ------------------------------------------------------------ compile everything
    mods = []
    for mname, attrs in P['tasks']:
        m = importlib.import_module('contracts.' + mname)
        for a in attrs:
            for t in getattr(m, a): mods.append((m, t))
    tus = {}
    for m, t in mods:
        tus.setdefault((getattr(t, 'tu', None) or m.TU, getattr(t, 'std', None) or getattr(m, 'STD', 'c++98'), tuple(getattr(t, 'defs', None) or getattr(m, 'DEFS', ()))), None)
    with cf.ThreadPoolExecutor(JOBS) as pool:
        hs = [pool.submit(build_harness, h, work, staged, tier) for h in P.get('harness', [])]
        cs = {k: pool.submit(compile_tu, k, work, staged) for k in tus}
        hres = {}
        tuerr = {}
        for k, f in cs.items():
            try: tus[k] = f.result()
            except front.FrontError as e: tuerr[k] = str(e)
        built = [f.result() for f in hs]
    # ------------------------------------------------------------ bounded harnesses in the background
    hpool = cf.ThreadPoolExecutor(4)
    runs = [hpool.submit(run_harness, b, work) for b in built]
    # ------------------------------------------------------------ proofs
    jobs = []
    results = []
    for m, t in mods:
        k = (getattr(t, 'tu', None) or m.TU, getattr(t, 'std', None) or getattr(m, 'STD', 'c++98'), tuple(getattr(t, 'defs', None) or getattr(m, 'DEFS', ())))
        if k in tuerr: results.append(dict(name=t.name, status='undecided', error=tuerr[k][:1500], obls=[], bad=[], func=None, contracts={}, inlined=[], loops=[], wall=0))
        else: jobs.append((k, t))
    global TUS
    TUS = tus
    cross = tier == 'thorough'
    results += run_jobs(jobs, cross, 1, JOBS, until=t0 + (450 if not cross else 3000))
    byname = {t.name: (k, t) for k, t in jobs}
    retry = [byname[r['name']] for r in results if r['status'] != 'proved' and r['name'] in byname]
    hout = [f.result() for f in runs]
    concrete = any(h['crash'] or (h['err'] and h['kind'] != 'compile') or any((pid, k) not in known() for k, d in h['fails']) for h in hout)
    if retry and not concrete:       # once more, with longer solver limits and less competition, before a proof alone is reported
        again = {r['name']: r for r in run_jobs(retry[:12], cross, 6, 4, wall=150, until=time.time() + 300)}
        results = [again.get(r['name'], r) if r['status'] != 'proved' else r for r in results]
    return report(pid, P, tier, seed, results, hout, t0)


TUS = {}


def compile_tu(k, work, staged):
    import front
    src, std, defs = k
    p = os.path.join(VERIF, 'tu', src)
    return front.compile_tu(p, std, defs, inc=['/usr/include/tirpc'], work=work)


def worker(k, t, cross, mult, q):
    import task, gc
    gc.freeze()
    try:
        t.timeout = int(t.timeout * mult)
        R = task.run_task(TUS[k], t, budget=t.budget * mult, cross=cross)
        q.send(pack_result(R))
    except BaseException as e:
        q.send(dict(name=t.name, status='undecided', error='internal: %s' % traceback.format_exc()[-1200:], obls=[], bad=[], func=None, contracts={}, inlined=[], loops=[], wall=0))
    q.close()
    os._exit(0)


def pack_result(R):
    ob = [(o.label, o.kind, o.status, o.backend, round(o.time, 4), o.where) for o in R.obls]
    bad = []
    for b in getattr(R, 'bad', []) or []:
        md = ''
        if b.model is not None:
            try: md = str(b.model)[:4000]
            except Exception: md = '?'
        bad.append(dict(label=b.label, status=b.status, where=b.where, trace=[str(x) for x in b.trace][:40], model=md, formula=str(b.formula)[:2000]))
    return dict(name=R.task.name, status=R.status, error=R.error, obls=ob, bad=bad, func=R.func, contracts=R.contracts, inlined=sorted(R.inlined), loops=R.loops, wall=round(R.wall, 2), assumptions=list(R.task.assumptions))


def run_jobs(jobs, cross, mult, n, wall=None, until=None):
    """one forked process per proof task"""
    ctx = mp.get_context('fork')
    out, live, pend = [], [], sorted(jobs, key=lambda j: -j[1].budget)
    over = False
    while pend or live:
        if until and time.time() > until:
            over = True
            for k, t in pend: out.append(dict(name=t.name, status='undecided', error='time limit of the whole check', obls=[], bad=[], func=None, contracts={}, inlined=[], loops=[], wall=0))
            pend = []
        while pend and len(live) < n:
            k, t = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(k, t, cross, mult, b), daemon=True)
            p.start()
            b.close()
            live.append((p, a, t, time.time()))
        for x in list(live):
            p, a, t, ts = x
            if a.poll(0.005):
                try: out.append(a.recv())
                except EOFError: out.append(dict(name=t.name, status='undecided', error='proof process died', obls=[], bad=[], func=None, contracts={}, inlined=[], loops=[], wall=0))
                p.join(1)
                live.remove(x)
            elif over or time.time() - ts > (limit := wall or (t.budget + 10 if not cross else max(700, t.budget + 10))):
                p.kill()
                out.append(dict(name=t.name, status='undecided', error='time limit', obls=[], bad=[], func=None, contracts={}, inlined=[], loops=[], wall=round(time.time() - ts)))
                live.remove(x)
    order = {t.name: i for i, (k, t) in enumerate(jobs)}
    out.sort(key=lambda r: order.get(r['name'], 0))
    return out


# ---------------------------------------------------------------- harnesses
def build_harness(h, work, staged, tier):
    """h: file name in harness/, header comments: // CD: <out.cd> <in.h> <descriptors...>   // FLAGS: ...   // LIBS: ..."""
    src = os.path.join(VERIF, 'harness', h)
    txt = open(src).read() if src.endswith('.cc') else ''
    name = re.sub(r'\W', '_', h)
    d = os.path.join(work, 'h_' + name)
    os.makedirs(d, exist_ok=True)
    if h.endswith('.py') or h.endswith('.sh'):
        return dict(name=h, cmd=[src, d, staged], dir=d, err=None)
    for m in re.finditer(r'^// CD: (\S+) (\S+) (.*)$', txt, re.M):
        out, inp, desc = m.groups()
        with open(os.path.join(VERIF, 'harness', inp)) as f, open(os.path.join(d, out), 'w') as g:
            try: r = subprocess.run([os.path.join(staged, 'classdesc')] + desc.split(), stdin=f, stdout=g, stderr=subprocess.PIPE, text=True, timeout=60)
            except subprocess.TimeoutExpired: return dict(name=h, err='classdesc does not finish on %s' % inp, kind='cd')
        if r.returncode: return dict(name=h, err='classdesc failed on %s: %s' % (inp, r.stderr[:1000]), kind='cd')
    flags = ' '.join(re.findall(r'^// FLAGS: (.*)$', txt, re.M)) or '-std=c++98'
    libs = ' '.join(re.findall(r'^// LIBS: (.*)$', txt, re.M)).replace('@', staged + '/')
    san = '-fsanitize=address,undefined -fno-sanitize=nonnull-attribute,vptr,pointer-overflow -fno-sanitize-recover=all'
    m = re.search(r'^// SAN: (.*)$', txt, re.M)
    if m: san = m.group(1)
    exe = os.path.join(d, 'h')
    cmd = ['g++', '-g', '-O0', '-w', '-I' + d, '-I' + os.path.join(VERIF, 'harness'), '-I' + staged, '-I/usr/include/tirpc', '-DTR1', '-DHAVE_LONGLONG'] + flags.split() + san.split() + [src, '-o', exe] + libs.split()
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: return dict(name=h, err='harness does not compile: ' + r.stderr[:2500], kind='compile', cmd=cmd)
    return dict(name=h, cmd=[exe], dir=d, err=None, build=' '.join(cmd))


def run_harness(b, work):
    r = dict(name=b['name'], fails=[], evaluations=0, distinct=0, samples=[], err=b['err'], crash=None, kind=b.get('kind'), at='', build=b.get('build', ''))
    if b['err']: return r
    t = time.time()
    scratch = os.path.join(b['dir'], 'scratch')
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0', LC_ALL='C')
    lim = 250 if os.environ['VERIF_TIER'] == 'quick' else 700
    try:
        p = subprocess.Popen(b['cmd'], cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, start_new_session=True)
        try: out, err = p.communicate(timeout=lim)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            r['crash'] = 'does not finish within %ds' % lim
        rc = p.returncode
    except OSError as e:
        r['err'] = str(e); return r
    out, err = out.decode('latin1'), err.decode('latin1')
    for l in out.split('\n'):
        if l.startswith('FAIL '):
            k, _, d = l[5:].partition(' ')
            r['fails'].append((k, d))
        elif l.startswith('AT '): r['at'] = l[3:]
        elif l.startswith('SAMPLE '): r['samples'].append(l[7:])
        elif l.startswith('COUNT '):
            for a, v in re.findall(r'(\w+)=(\d+)', l): r[a] = r.get(a, 0) + int(v)
    if rc and not r['crash']:
        r['crash'] = 'ended with status %d: %s' % (rc, err[-3000:])
    r['wall'] = round(time.time() - t, 2)
    if 'COUNT ' not in out and not r['crash']: r['crash'] = 'ended early (status %d) %s' % (rc, err[-1500:])
    return r


# ---------------------------------------------------------------- report
def known():
    r = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m: r[(m.group(1), m.group(2))] = m.group(3).strip()
    return r


def report(pid, P, tier, seed, results, hout, t0):
    kn = known()
    concrete, proofs, errors, hits = [], [], [], {}
    for h in hout:
        if h['err']:
            if h['kind'] == 'compile': errors.append('%s: %s' % (h['name'], h['err']))
            else: concrete.append(('%s:build' % h['name'], h['err'], h))
        for k, d in h['fails']:
            if (pid, k) in kn: hits[k] = d
            else: concrete.append((k, d, h))
        if h['crash']: concrete.append(('%s:crash' % h['name'], 'while checking %r: %s' % (h['at'], h['crash']), h))
    for r in results:
        if r['status'] != 'proved': proofs.append(r)
    obls = sum(len(r['obls']) for r in results)
    disch = sum(1 for r in results for o in r['obls'] if o[2] == 'proved')
    backends = {}
    for r in results:
        for o in r['obls']:
            if o[2] == 'proved': backends[o[3]] = backends.get(o[3], 0) + 1
    for k, d in sorted(kn.items()):
        if k[0] == pid and k[1] in hits: print('KNOWN-FINDING: property=%s %s' % (pid, d))
    contracts = {}
    for r in results:
        for k, v in r['contracts'].items(): contracts[k] = contracts.get(k, 0) + v
    samples = []
    for h in hout: samples += ['%s: %s' % (h['name'], s) for s in h['samples'][:4]]
    for r in results[:4]:
        for o in r['obls'][:2]: samples.append('obligation %s (%s) at %s: %s by %s in %ss' % (o[0], o[1], o[5], o[2], o[3], o[4]))
    ev = dict(property=pid, tier=tier, seed=seed, level=P['level'], wall_s=round(time.time() - t0, 2), violations=0)
    cov = dict(
        obligations=obls, discharged=disch,
        checker_cmd='cd %s && VERIF_TIER=%s VERIF_SEED=%d ./check.py %s' % (VERIF, tier, seed, pid),
        trusted_base=P.get('trusted', []) + props_trusted() + ['assumed library contract: %s (used %d times)' % (k, v) for k, v in sorted(contracts.items())],
        tasks=len(results), tasks_proved=sum(r['status'] == 'proved' for r in results),
        functions_under_contract=sorted({'%s: %s' % (r['name'], r['func']) for r in results if r['func']}),
        functions_verified_inline=sorted({f for r in results for f in r['inlined'] if not f.startswith('std::') and not f.startswith('__gnu')})[:400],
        loops=[dict(task=r['name'], **l) for r in results for l in r['loops']],
        discharged_by_backend=backends,
        solver_seconds=round(sum(o[4] for r in results for o in r['obls']), 2),
        task_seconds=round(sum(r['wall'] for r in results), 2),
        undischarged=[dict(task=r['name'], status=r['status'], error=r['error'], obligations=[b['label'] for b in r['bad']]) for r in proofs],
        bounded=dict(note='bounded stand-ins and replay harnesses, run on the real code; never counted as proved', evaluations=sum(h['evaluations'] for h in hout), distinct=sum(h['distinct'] for h in hout),
                     harnesses=[dict(name=h['name'], evaluations=h['evaluations'], distinct=h['distinct'], seconds=h.get('wall'), covers=P.get('bounds', {}).get(h['name'], '')) for h in hout]),
        evaluations=sum(h['evaluations'] for h in hout), distinct_nontrivial=sum(h['distinct'] for h in hout),
        rule=P.get('rule', 'harness cases are counted distinct by a hash of their full description; every case checks the complete property statement on the real code'),
        samples=samples[:16] or ['none'],
        known_findings_hit=sorted(hits),
        explanation=P.get('explanation', ''),
    )
    ev['coverage'] = cov
    ev['assumptions'] = P.get('assume', []) + sorted({a for r in results for a in r.get('assumptions', [])})
    rc = 0
    if concrete or proofs:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s.txt' % pid)
        with open(path, 'w') as f:
            f.write('property %s (%s)\nrun: cd %s && VERIF_TIER=%s VERIF_SEED=%d ./check.py %s\n\n' % (pid, P.get('title', ''), VERIF, tier, seed, pid))
            for k, d, h in concrete: f.write('CONCRETE FAILURE  harness=/verif/harness/%s key=%s\n  %s\n  harness built with: %s\n\n' % (h['name'], k, d, h['build']))
            for r in proofs:
                f.write('UNDISCHARGED  task=%s status=%s function=%s\n' % (r['name'], r['status'], r['func']))
                if r['error']: f.write('  reason: %s\n' % r['error'])
                for b in r['bad']:
                    f.write('  failed obligation: %s (%s: %s) at %s\n  path: %s\n  formula: %s\n  model: %s\n' % (b['label'], b['status'], 'solver counterexample' if b['status'] == 'refuted' else 'solver gave no answer', b['where'], ' '.join(b['trace']), b['formula'], b['model']))
                f.write('\n')
        rc = 1
        ev['violations'] = len(concrete) + len(proofs)
        if concrete:
            print('failing input: %s %s' % (concrete[0][0], concrete[0][1][:300]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        else:
            for r in proofs[:5]: print('undischarged: %s [%s] %s %s' % (r['name'], r['status'], '; '.join(b['label'] for b in r['bad'][:3]), (r['error'] or '')[-200:].replace('\n', ' ')))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged in %d tasks (%d proved), %d bounded evaluations (%d distinct), %.1fs' % (pid, disch, obls, len(results), cov['tasks_proved'], cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
    if errors and rc == 0:
        for e in errors: print('ERROR:', e)
        return 2
    return rc


def props_trusted():
    import props
    return props.TRUSTED


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
