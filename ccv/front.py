"""compile a TU of /verif/tu against /repo's current headers and parse the resulting IR"""
import os, subprocess, hashlib, re, shutil, tempfile, pickle
import ir

REPO = os.environ.get('CCV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = '/usr/lib/llvm-18/bin'


class FrontError(Exception):
    pass


def workdir():
    d = os.environ.get('CCV_WORK')
    if not d:
        d = os.path.join(VERIF, 'build', 'w%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def compile_tu(src, std='c++98', defs=(), inc=(), work=None, text=None):
    work = work or workdir()
    base = os.path.join(work, re.sub(r'\W', '_', os.path.basename(src)) + '_' + std.replace('+', 'p') + hashlib.md5((src + repr(defs) + repr(text)).encode()).hexdigest()[:6])
    extra = []
    hd = open(src).read(4000)
    gen = base + '.d'
    for m in re.finditer(r'^// CD: (\S+) (\S+) (.*)$', hd, re.M):       # descriptors generated by /repo's classdesc
        os.makedirs(gen, exist_ok=True)
        with open(os.path.join(os.path.dirname(src), m.group(2))) as i, open(os.path.join(gen, m.group(1)), 'w') as o:
            try: r = subprocess.run([os.path.join(REPO, 'classdesc')] + m.group(3).split(), stdin=i, stdout=o, stderr=subprocess.PIPE, text=True, timeout=60, cwd=REPO)
            except subprocess.TimeoutExpired: raise FrontError('classdesc does not finish on %s' % m.group(2))
        if r.returncode: raise FrontError('classdesc %s: status %d on %s: %s' % (m.group(3), r.returncode, m.group(2), r.stderr[:500]))
        extra = ['-I' + gen]
    m = re.search(r'^// CXXFLAGS: (.*)$', hd, re.M)
    if m: extra += m.group(1).split()
    cmd = ['clang++-18', '-std=' + std, '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g', '-fstandalone-debug', '-w', '-S', '-emit-llvm', '-I' + work, '-I' + REPO, '-I' + os.path.join(VERIF, 'tu'), '-DTR1', '-DHAVE_LONGLONG'] + ['-I' + i for i in inc] + ['-D' + d for d in defs] + extra + [src, '-o', base + '.ll']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise FrontError('clang failed on %s:\n%s' % (src, r.stderr[:3000]))
    r = subprocess.run([LLVM + '/opt', '-S', '-passes=mem2reg', base + '.ll', '-o', base + '.m.ll'], capture_output=True, text=True)
    if r.returncode: raise FrontError('opt failed: ' + r.stderr[:2000])
    txt = open(base + '.m.ll').read()
    M = ir.parse(txt)
    M.src = src
    M.cmd = ' '.join(cmd)
    M.members = members(M)
    return M


def members(M):
    """class name -> {member: offset in bytes} from debug info"""
    comp = {}
    res = {}
    tds = {}
    for k, s in M.meta.items():
        if 'DICompositeType(' in s:
            m = re.search(r'name: "((?:[^"\\]|\\.)*)"', s)
            i = re.search(r'identifier: "([^"]*)"', s)
            if m: comp[k] = m.group(1)
    for k, s in M.meta.items():
        if 'DIDerivedType(tag: DW_TAG_member' in s or 'DIDerivedType(tag: DW_TAG_inheritance' in s:
            if 'DIFlagStaticMember' in s: continue
            sc = re.search(r'scope: !(\d+)', s)
            nm = re.search(r'name: "([^"]*)"', s)
            off = re.search(r'offset: (\d+)', s)
            if not sc or int(sc.group(1)) not in comp: continue
            c = comp[int(sc.group(1))]
            if nm: res.setdefault(c, {})[nm.group(1)] = int(off.group(1)) // 8 if off else 0
    return res
