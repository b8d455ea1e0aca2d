#!/usr/bin/env python3
"""mkbug.py <file of bug definitions> [id...]: make seeded/<id> and confirm it (development aid).
A definition: B(id, prop, [(file, old, new)...], demo=C++ source or None, sh=extra demo.sh text, files={name: text}, std=, needs=, breaks=)"""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
D = []


def B(id, prop, edits, demo=None, sh=None, files=None, std='c++98', needs='', breaks='', pre='', libs='', flags=''):
    D.append(dict(id=id, prop=prop, edits=edits, demo=demo, sh=sh, files=files or {}, std=std, needs=needs, breaks=breaks, pre=pre, libs=libs, flags=flags))


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def stable(out):
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    try: o = set(json.load(open(out))['passed'])
    except Exception: o = set()
    return sorted(b - o)


exec(open(sys.argv[1]).read())
only = sys.argv[2:]
if sh('git -C /repo status --porcelain').stdout.strip(): sys.exit('/repo is not clean')
for d in D:
    if only and d['id'] not in only: continue
    o = os.path.join(V, 'seeded', d['id'])
    shutil.rmtree(o, ignore_errors=True)
    os.makedirs(o)
    try:
        bad = None
        for f, a, b in d['edits']:
            s = open(os.path.join(R, f)).read()
            if s.count(a) != 1: bad = '%s: %d matches of %r' % (f, s.count(a), a)
            else: open(os.path.join(R, f), 'w').write(s.replace(a, b))
        if bad:
            print(d['id'], 'EDIT FAILS', bad); continue
        open(os.path.join(o, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
        for n, t in d['files'].items(): open(os.path.join(o, n), 'w').write(t)
        if d['demo']: open(os.path.join(o, 'demo.cc'), 'w').write(d['demo'])
        body = '#!/bin/bash\n# exit 0: behaves as the property says\nhere=$(cd "$(dirname "$0")" && pwd)\nr=$PWD\nw=$(mktemp -d)\ntrap \'rm -rf "$w"\' EXIT\n'
        body += d['pre']
        if d['demo']: body += 'g++ -std=%s -w %s -DTR1 -DHAVE_LONGLONG -I"$w" -I"$here" -I"$r" -I/usr/include/tirpc "$here/demo.cc" -o "$w/demo" %s || exit 3\ncd "$w" && timeout 60 ./demo\n' % (d['std'], d['flags'], d['libs'])
        if d['sh']: body += d['sh']
        open(os.path.join(o, 'demo.sh'), 'w').write(body)
        os.chmod(os.path.join(o, 'demo.sh'), 0o755)
        json.dump(dict(property=d['prop'], needs=d['needs'], what_it_breaks=d['breaks']), open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/bugout.json')
        miss = stable('/tmp/bugout.json')
        r = sh('bash %s/demo.sh' % o, cwd=R, timeout=300)
        c = sh('cd %s && ./check.py %s' % (V, d['prop'])) if os.environ.get('NOCHECK') is None else None
    finally:
        sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
    r0 = sh('bash %s/demo.sh' % o, cwd=R, timeout=300)
    good = b.returncode == 0 and not miss and r.returncode != 0 and r0.returncode == 0
    print(d['id'], 'OK' if good else 'UNUSABLE', 'build', b.returncode, 'missing', miss[:4], 'demo with', r.returncode, 'without', r0.returncode, (r0.stderr[-500:] if r0.returncode else ''))
    if r.returncode == 3: print('   demo does not build with the patch:', r.stderr[-600:])
    if c: print('   check', d['prop'], c.returncode, [l for l in c.stdout.split('\n') if 'VIOL' in l or 'failing' in l or 'undisch' in l or 'ERROR' in l][:4])
    sys.stdout.flush()
sh('bash /opt/vp/build.sh')
