"""Generate sessions from the specification, replay them, validate the traces."""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')
BUILD = os.path.join(HERE, 'build')
CP = ':'.join([os.path.join(BUILD, 'classes'), '/opt/veriftools/tla/tla2tools.jar',
               '/opt/veriftools/tla/CommunityModules-deps.jar'])


class HarnessError(Exception):
    pass


def work_dir():
    d = os.path.join(HERE, 'work')
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(dir=d)


def tlc(module, cfg, args, env=None, workers=1, heap='6g', timeout=850):
    """Runs TLC on spec/<module>; returns its output lines."""
    meta = work_dir()
    try:
        cfgp = os.path.join(meta, 'M.cfg')
        with open(cfgp, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-cp', CP, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(meta, 'states'),
               '-noGenerateSpecTE', '-config', cfgp] + args + [module]
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return r.returncode, r.stdout.splitlines()
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def scripts(lines):
    out = []
    for l in lines:
        if l.startswith('"{'):
            out.append(json.loads(json.loads(l)))
    return out


def generate(profile, num, seed, plans=9, module='GGen'):
    """Random behaviours of the specification."""
    cfg = 'INIT Init\nNEXT Next\nCONSTANTS\n Profile = "%s"\n MaxPlans = %d\nCHECK_DEADLOCK FALSE\n' % (profile, plans)
    rc, lines = tlc(module, cfg, ['-simulate', 'num=%d' % num, '-depth', '400', '-seed', str(seed)])
    s = scripts(lines)
    if len(s) < num:
        raise HarnessError('generation failed\n' + '\n'.join(l[:300] for l in lines[-25:]))
    return s


def enumerate_all(profile, stride=1, offset=0):
    """All cases of a family (or every stride-th)."""
    cfg = ('INIT Init\nNEXT Next\nCONSTANTS\n Profile = "%s"\n Stride = %d\n Offset = %d\nCHECK_DEADLOCK FALSE\n'
           % (profile, stride, offset))
    rc, lines = tlc('GEnum', cfg, [], workers=4)
    s = scripts(lines)
    if rc != 0 or not s:
        raise HarnessError('enumeration failed\n' + '\n'.join(l[:300] for l in lines[-25:]))
    s.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return s


PY_PATH = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'python')
REPLAY_ENV = {'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0:glibc.malloc.perturb=165'}


def replay(sessions, jobs=8, python=False, functionals=False):
    """Runs the sessions in the implementation; adds the events to each."""
    d = work_dir()
    try:
        cmd, env = [os.path.join(BUILD, 'fdriver' if functionals else 'driver')], REPLAY_ENV
        if python:
            cmd = ['/usr/bin/python3', os.path.join(HERE, 'pydriver', 'pydriver.py')]
            env = dict(REPLAY_ENV, PYTHONPATH=PY_PATH + ':' + BUILD, PYTHONDONTWRITEBYTECODE='1',
                       OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        chunks = [sessions[i::jobs] for i in range(jobs)]
        def one(i):
            if not chunks[i]:
                return
            a, b = os.path.join(d, 'in%d' % i), os.path.join(d, 'out%d' % i)
            with open(a, 'w') as f:
                for s in chunks[i]:
                    f.write(json.dumps({'pts': s['pts'], 'steps': s['steps']}) + '\n')
            e = dict(os.environ)
            e.update(env)
            r = subprocess.run(cmd + [a, b], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise HarnessError('driver failed: ' + r.stdout[-2000:])
            with open(b) as f:
                outs = [json.loads(l) for l in f]
            if len(outs) != len(chunks[i]):
                raise HarnessError('driver lost sessions')
            for s, o in zip(chunks[i], outs):
                s['evs'] = o
                for ev in o:
                    if ev['x'].startswith('script error'):
                        raise HarnessError(ev['x'] + ' ' + json.dumps(s['steps'])[:2000])
        with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
            list(ex.map(one, range(jobs)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return sessions


def validate(sessions, workers=8, chunk=1500):
    """Checks the recorded traces against the specification.
    Returns [(session, step number, faults, properties broken)], number of states."""
    bad, states = [], 0
    for k in range(0, len(sessions), chunk):
        part = sessions[k:k + chunk]
        d = work_dir()
        try:
            p = os.path.join(d, 'trace.json')
            with open(p, 'w') as f:
                json.dump(part, f)
            cfg = open(os.path.join(SPEC, 'GTrace.cfg')).read()
            rc, lines = tlc('GTrace', cfg, [], env={'TRACE': p}, workers=workers, heap='12g')
        finally:
            shutil.rmtree(d, ignore_errors=True)
        txt = '\n'.join(lines)
        if rc != 0 or 'No error has been found' not in txt:
            raise HarnessError('trace validation failed\n' + '\n'.join(l[:400] for l in lines[-40:]))
        # PrintT output may be wrapped over lines
        txt1 = re.sub(r'\n\s+', ' ', txt)
        n = 0
        # prints of different workers may share a line
        for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),\s*(\d+),\s*"(\{.*?\})",\s*"(\{.*?\})"\s*>>', txt1):
            n += 1
            props = re.findall(r'C\d\d', m.group(3))
            tags = re.findall(r'"([^"]*)"', m.group(4).replace('\\"', '"'))
            bad.append((part[int(m.group(1)) - 1], int(m.group(2)), tags, props))
        if n != txt1.count('"MISMATCH"'):
            if workers > 1:
                return validate(sessions, 1, chunk)
            raise HarnessError('cannot read ' + ' '.join(l[:300] for l in lines if 'MISMATCH' in l)[:2000])
        m = re.findall(r'([\d,]+) states generated', txt)
        states += int(m[-1].replace(',', '')) if m else 0
    return bad, states


if __name__ == '__main__':
    py = sys.argv[1].startswith('py:')
    if py:
        sys.argv[1] = sys.argv[1][3:]
    prof, num, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    t0 = time.time()
    if prof.startswith('enum:'):
        s = enumerate_all(prof[5:], num, seed)
    else:
        s = generate(prof, num, seed, plans=int(sys.argv[4]) if len(sys.argv) > 4 else 9)
    t1 = time.time()
    replay(s, python=py, functionals=prof in ('fun', 'enum:fun', 'opt', 'enum:opt', 'enum:bfun', 'enum:bopt'))
    t2 = time.time()
    bad, states = validate(s)
    t3 = time.time()
    print('gen %.1f replay %.1f validate %.1f states %d sessions %d bad %d' % (t1 - t0, t2 - t1, t3 - t2, states, len(s), len(bad)))
    from collections import Counter
    c = Counter()
    for x, l, tags, props in bad:
        st = x['steps'][l - 1] if l <= len(x['steps']) else {}
        c[(st.get('op'), st.get('f'), st.get('t'), st.get('how'), tuple(sorted(tags)), tuple(props))] += 1
    for k, v in c.most_common(25):
        print(v, k)
    if bad:
        with open(os.path.join(HERE, 'work', 'bad.json'), 'w') as f:
            json.dump([dict(l=l, tags=t, props=pr, **x) for x, l, t, pr in sorted(bad, key=lambda q: len(q[0]['steps']))], f)
