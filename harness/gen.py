"""common part of the generated-program harnesses: same protocol as h.h"""
import os, sys, random, subprocess, hashlib
DIR, STAGED = sys.argv[1], sys.argv[2]
SEED = int(os.environ.get('VERIF_SEED', '1'))
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
R = random.Random(SEED * 7919 + 17)
_ev, _seen, _fails, _ns = [0], set(), {}, [0]
HERE = os.path.dirname(os.path.abspath(__file__))


def scale(n): return n * 8 if THOROUGH else n
def esc(s): return ''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\x%02x' % (ord(c) & 255) for c in s[:400])
def section(s): print('AT', s, flush=True)


def fail(key, detail):
    _fails[key] = _fails.get(key, 0) + 1
    if _fails[key] <= 3: print('FAIL', key, esc(detail), flush=True)


def check(c, key, detail):
    if not c: fail(key, detail)
    return c


def evaluate(s):
    _ev[0] += 1
    _seen.add(hashlib.md5(s.encode('latin1', 'replace')).hexdigest())
    if _ev[0] in (1, 20, 60): print('SAMPLE', esc(s))


def finish(): print('COUNT evaluations=%d distinct=%d' % (_ev[0], len(_seen)), flush=True)


def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, encoding='latin1', **k)


def classdesc(text, args, out=None, where=None):
    """descriptor text for header text; None if classdesc fails (reported)"""
    f = os.path.join(where or DIR, 'classdesc.in')       # the input has to be seekable
    open(f, 'w', encoding='latin1').write(text)
    try: r = sh([STAGED + '/classdesc'] + args, stdin=open(f), timeout=60)
    except subprocess.TimeoutExpired:
        fail('classdesc-hangs', 'classdesc %s does not finish on: %s' % (' '.join(args), text)); return None
    if r.returncode:
        fail('classdesc-fails', 'classdesc %s status %d %s on: %s' % (' '.join(args), r.returncode, r.stderr[:200], text)); return None
    if out: open(os.path.join(where or DIR, out), 'w', encoding='latin1').write(r.stdout)
    return r.stdout


SAN = ['-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute,vptr,pointer-overflow', '-fno-sanitize-recover=all']


def gxx(src, exe, flags=(), libs=(), san=True, where=None):
    d = where or DIR
    cmd = ['g++', '-g', '-O0', '-w'] + [f for f in flags if f.startswith('-I')] + ['-I' + d, '-I' + HERE, '-I' + STAGED, '-I/usr/include/tirpc', '-DTR1', '-DHAVE_LONGLONG'] + list(flags) + (SAN if san else []) + [os.path.join(d, src), '-o', os.path.join(d, exe)] + list(libs)
    return sh(cmd)


def errs(e): return ' | '.join([l for l in e.split('\n') if 'error' in l or 'undefined' in l][:6]) or e[:600]


def passon(exe, where=None, timeout=200):
    """run a program that speaks the protocol and merge its report"""
    d = where or DIR
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1')
    at = ''
    os.makedirs(os.path.join(d, 'scratch'), exist_ok=True)
    try: r = subprocess.run([os.path.join(d, exe)], capture_output=True, timeout=timeout, cwd=os.path.join(d, 'scratch'), env=env)
    except subprocess.TimeoutExpired:
        fail(exe + ':hangs', 'does not finish'); return False
    done = False
    for l in r.stdout.decode('latin1').split('\n'):
        if l.startswith('FAIL '):
            k, _, t = l[5:].partition(' '); fail(k, t)
        elif l.startswith('AT '): at = l[3:]
        elif l.startswith('SAMPLE ') and _ns[0] < 5: print(l); _ns[0] += 1
        elif l.startswith('COUNT '):
            done = True
            a, b = [int(x.split('=')[1]) for x in l.split()[1:3]]
            _ev[0] += a
            for i in range(b): _seen.add((exe, i))
    if r.returncode or not done:
        fail(exe + ':crash', 'at %s: status %d %s' % (at, r.returncode, r.stderr.decode('latin1')[:1500])); return False
    return True
