"""stage the current /repo tree (tracked + untracked source files) into the work directory and build what the headers need there:
classdesc, functiondb.h, the *-allCDs.h and *.cd files.  /repo itself is never written."""
import os, subprocess, shutil

SKIP = ('.git', '_build', 'test', 'examples', 'mpi-examples', 'doc', 'java', 'javaExamples', 'pythonExample', 'objc-examples', 'RESTProcessExample', 'json5_parser')
GEN = ('.o', '.cd', '.d', '.exe', '.so', '.a')


class StageError(Exception):
    pass


def stage(repo, work):
    dst = os.path.join(work, 'repo')
    if os.path.isdir(dst): shutil.rmtree(dst)
    os.makedirs(dst)
    gen = {'classdesc', 'insert-friend', 'unpack_base.h', 'json_unpack_base.h', 'include-paths'}
    for n in sorted(os.listdir(repo)):
        p = os.path.join(repo, n)
        if n in SKIP or n in gen or n.endswith(GEN) or n.endswith('-allCDs.h') or not os.path.isfile(p): continue
        shutil.copy2(p, os.path.join(dst, n))
    # functiondb*.h are committed and generated: the committed ones are used; if functiondb.sh makes others they go to regen/
    env = dict(os.environ, LC_ALL='C', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    env.pop('MAKEFLAGS', None)
    rg = os.path.join(dst, 'regen')
    os.makedirs(rg)
    if os.path.exists(os.path.join(dst, 'functiondb.sh')):
        r = subprocess.run(['bash', os.path.join(dst, 'functiondb.sh')], cwd=rg, env=env, capture_output=True)
        if r.returncode == 0: open(os.path.join(rg, 'functiondb.h'), 'wb').write(r.stdout)
        if os.path.exists(os.path.join(dst, 'functiondb.h')): os.utime(os.path.join(dst, 'functiondb.h'))
    same = True
    for n in os.listdir(rg):
        q = os.path.join(dst, n)
        if not os.path.exists(q): shutil.copy2(os.path.join(rg, n), q)
        elif open(q, 'rb').read() != open(os.path.join(rg, n), 'rb').read(): same = False
    if same: shutil.rmtree(rg)
    else:
        for n in os.listdir(dst):
            if n.endswith('.h') and not os.path.exists(os.path.join(rg, n)): shutil.copy2(os.path.join(dst, n), rg)
    all_ = [d + '-allCDs.h' for d in 'dump pack json_pack random_init RESTProcess xml_pack xsd_generate typeName'.split()]
    for cmd in (['make', 'functiondb.h', 'unpack_base.h', 'json_unpack_base.h'] + all_, ['make', '-j8', 'build', 'CPLUSPLUS=g++ -std=c++98']):
        r = subprocess.run(cmd, cwd=dst, env=env, capture_output=True, text=True)
        if r.returncode: raise StageError('%s failed:\n%s' % (' '.join(cmd), (r.stdout + r.stderr)[-3000:]))
    return dst
