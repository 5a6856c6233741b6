#!/usr/bin/python3
"""Builds /repo's library, the conformance driver and the Python module from
/repo's working tree into /verif/build.  Objects are cached by the content of
everything they are compiled from, so a change in /repo always rebuilds."""
import hashlib, os, subprocess, sys, shutil, glob, concurrent.futures as cf, fcntl

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, 'build')
CXX = '/usr/bin/g++'
FLAGS = ['-std=c++17', '-O1', '-fPIC', '-w', '-I%s/include' % REPO, '-I/usr/include/eigen3']
NEED_IFOPT = {'Optimization/ipopt_interface.cpp', 'Optimization/ipopt_solver.cpp',
              'Collocation/GaussLobattoLagrangeFunctionals.cpp'}
TLAJAR = '/opt/veriftools/tla/tla2tools.jar'


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def headers_hash(dirs):
    parts = []
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith('.cpp'):
                    p = os.path.join(root, f)
                    parts += [os.path.relpath(p, d), read(p)]
    return sha(*parts)


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-6000:])
    return r.stdout


def compile_one(src, flags, hh):
    key = sha(hh, read(src), ' '.join(flags), os.path.relpath(src, REPO))
    out = os.path.join(BUILD, 'obj', key + '.o')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        run([CXX] + flags + ['-c', src, '-o', tmp])
        os.replace(tmp, out)
    else:
        os.utime(out)
    return out


def link(objs, out, extra):
    stamp = out + '.key'
    key = sha(*(objs + extra))
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    run([CXX] + objs + ['-o', out + '.tmp'] + extra)
    os.replace(out + '.tmp', out)
    with open(stamp, 'w') as f:
        f.write(key)


def prune(limit=2 * 1024 ** 3):
    fs = sorted(glob.glob(os.path.join(BUILD, 'obj', '*.o')), key=os.path.getmtime)
    tot = sum(os.path.getsize(f) for f in fs)
    while fs and tot > limit:
        f = fs.pop(0)
        tot -= os.path.getsize(f)
        os.remove(f)


def build_java():
    src = os.path.join(HERE, 'java', 'GReal.java')
    cls = os.path.join(BUILD, 'classes')
    stamp = os.path.join(cls, 'stamp')
    key = sha(read(src))
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    shutil.rmtree(cls, ignore_errors=True)
    os.makedirs(cls)
    run(['javac', '-nowarn', '-cp', TLAJAR, '-d', cls, src])
    with open(stamp, 'w') as f:
        f.write(key)


def build(python=False, functionals=False):
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    build_java()
    lib_srcs = []
    for root, ds, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            p = os.path.join(root, f)
            if f.endswith('.cpp') and os.path.relpath(p, os.path.join(REPO, 'src')) not in NEED_IFOPT:
                lib_srcs.append(p)
    lib_srcs.sort()
    fun_srcs = [os.path.join(REPO, 'src', s) for s in sorted(NEED_IFOPT)]
    fun_flags = FLAGS + ['-DFUNCTIONALS', '-I' + os.path.join(HERE, 'driver'), '-I' + os.path.join(HERE, 'driver', 'stubs')]
    drv_srcs = sorted(glob.glob(os.path.join(HERE, 'driver', '*.cpp')))
    hh = headers_hash([os.path.join(REPO, 'include'), os.path.join(REPO, 'src')])
    hd = sha(hh, headers_hash([os.path.join(HERE, 'driver')]))
    jobs = {}
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count()) as ex:
        if functionals:      # its own program: the other checks do not depend on this part compiling
            jobs['fd'] = ex.submit(compile_one, os.path.join(HERE, 'driver', 'driver.cpp'), fun_flags, hd)
            for s in fun_srcs:
                jobs['f' + s] = ex.submit(compile_one, s, fun_flags, hd)
        for s in drv_srcs:
            jobs[s] = ex.submit(compile_one, s, FLAGS + ['-I' + os.path.join(HERE, 'driver')], hd)
        if python:
            import sysconfig
            pyflags = ['-DIPOPT_INTERFACE_H', '-fvisibility=hidden',
                       '-I' + sysconfig.get_paths()['include']]
            s = os.path.join(REPO, 'bindings', 'bindings.cpp')
            hb = sha(hh, headers_hash([os.path.join(REPO, 'bindings')]))
            jobs['py'] = ex.submit(compile_one, s, FLAGS + pyflags + ['-I' + os.path.join(REPO, 'bindings')], hb)
        for s in lib_srcs:
            jobs[s] = ex.submit(compile_one, s, FLAGS, hh)
    lib = [jobs[s].result() for s in lib_srcs]
    drv = [jobs[s].result() for s in drv_srcs]
    if drv:
        link(drv + lib, os.path.join(BUILD, 'driver'), ['-lpthread'])
    if functionals:
        link([jobs['fd'].result()] + [jobs['f' + s].result() for s in fun_srcs] + lib, os.path.join(BUILD, 'fdriver'), ['-lpthread'])
    if python:
        import sysconfig
        o = jobs['py'].result()
        weak = o[:-2] + '.weak'
        if not os.path.exists(weak):
            run(['objcopy', '--wildcard', '--weaken-symbol=_ZN8gsplines12optimization*', o, weak + '.tmp'])
            os.replace(weak + '.tmp', weak)
        link([weak] + lib, os.path.join(BUILD, 'pygsplines' + sysconfig.get_config_var('EXT_SUFFIX')), ['-shared'])
    prune()
    return BUILD


if __name__ == '__main__':
    try:
        build(python='--python' in sys.argv, functionals='--functionals' in sys.argv)
    except BuildError as e:
        print(e)
        sys.exit(2)
