#!/usr/bin/python3
"""Mutation analysis of the conformance checks (not a registered check).

  mutate.py base DIR                 record the quick sessions of all checks on the unchanged tree
  mutate.py run DIR FILE... [-n N]   mutate the files; replay the sessions; validate what changed

A mutant whose traces are all equal to the recorded ones is invisible to every quick check:
it is either equivalent or shows a blind spot."""
import concurrent.futures as cf, glob, json, os, random, re, subprocess, sys, tempfile, shutil, pickle
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'tools'))
import build, pipeline, check

REL = [('<', '<='), ('<=', '<'), ('>', '>='), ('>=', '>'), ('==', '!='), ('!=', '=='), ('<', '>'), ('>', '<')]


def code_lines(path):
    inside = False
    for k, l in enumerate(open(path).read().split('\n')):
        s = l.strip()
        if inside:
            inside = '*/' not in s
            continue
        if s.startswith('/*'):
            inside = '*/' not in s
            continue
        if s.startswith('//') or s.startswith('#') or s.startswith('*') or not s or 'namespace' in s or 'throw ' in s:
            continue
        yield k, l


def mutants(path, rng):
    out = []
    for k, l in code_lines(path):
        code = l.split('//')[0]
        nostr = re.sub(r'"[^"]*"', lambda m: '_' * len(m.group(0)), code)
        def sub(m, new):
            out.append((k, l[:m.start()] + new + l[m.end():]))
        for a, b in REL:
            for m in re.finditer(r'(?<= )' + re.escape(a) + r'(?= )', nostr):
                sub(m, b)
        for a, b in [('+', '-'), ('-', '+'), ('*', '/'), ('+=', '-='), ('and', 'or'), ('or', 'and'), ('&&', '||'), ('||', '&&'), ('+=', '=')]:
            for m in re.finditer(r'(?<= )' + re.escape(a) + r'(?= )', nostr):
                sub(m, b)
        for m in re.finditer(r'(?<![\w.])([0-9])(?![\w.])', nostr):
            d = int(m.group(1))
            sub(m, str(d + 1))
            if d > 0: sub(m, str(d - 1))
        for m in re.finditer(r'(?<![\w.])([0-9]+\.[0-9]*)(?![\w])', nostr):
            sub(m, str(float(m.group(1)) * 2 + 0.5))
        for a, b in [('true', 'false'), ('false', 'true'), ('first', 'second'), ('second', 'first'), ('rows', 'cols'), ('cols', 'rows'),
                     ('begin', 'rbegin'), ('front', 'back'), ('back', 'front'), ('break', 'continue'), ('move_clone', 'clone'), ('clone', 'move_clone'),
                     ('min', 'max'), ('max', 'min'), ('push_back', 'push_front'), ('push_front', 'push_back'), ('sin', 'cos'), ('cos', 'sin'),
                     ('head', 'tail'), ('lower_bound', 'upper_bound'), ('i', 'j'), ('j', 'i'), ('size', 'capacity')]:
            for m in re.finditer(r'\b' + a + r'\b', nostr):
                sub(m, b)
        for m in re.finditer(r'\bif \(', nostr):
            if nostr.rstrip().endswith('{') and nostr.count('(') == nostr.count(')'):
                e = nostr.rindex(')')
                out.append((k, l[:m.end()] + '!(' + l[m.end():e] + ')' + l[e:]))
                out.append((k, l[:m.end()] + 'false && (' + l[m.end():e] + ')' + l[e:]))
        s = code.strip()
        if s.endswith(';') and re.match(r'^[\w\.\->\[\]\(\)_]+(\(| [\+\-\*]?= |\.|->)', s) and not s.startswith('return') and not s.startswith('using') \
                and s.count('(') == s.count(')') and not re.match(r'^[\w:<>\*&]+ [\w]+( =|\(|;)', s):
            out.append((k, '  ;'))
    seen, res = set(), []
    for k, new in out:
        if (k, new) not in seen:
            seen.add((k, new)); res.append((k, new))
    rng.shuffle(res)
    return res


def events(driver, sessions, tmp):
    a, b = os.path.join(tmp, 'in'), os.path.join(tmp, 'out')
    with open(a, 'w') as f:
        for s in sessions:
            f.write(json.dumps({'pts': s['pts'], 'steps': s['steps']}) + '\n')
    e = dict(os.environ); e.update(pipeline.REPLAY_ENV)
    r = subprocess.run(['prlimit', '--as=6000000000', driver, a, b], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
    with open(b) as f:
        return f.read().split('\n')[:-1]


def base(d):
    os.makedirs(d, exist_ok=True)
    build.build(functionals=True)
    S, seen = {'driver': [], 'fdriver': []}, set()
    for prop in check.SOURCES:
        if prop in check.PYTHON: continue
        kind = 'fdriver' if prop in check.FUNCTIONALS else 'driver'
        for s in check.sessions_for(prop, 'quick', 1):
            key = kind + json.dumps([s['pts'], s['steps']], sort_keys=True)
            if key not in seen:
                seen.add(key); s['by'] = prop; S[kind].append(s)
    for kind in S:
        shutil.copy(os.path.join(build.BUILD, kind), os.path.join(d, kind))
        t = tempfile.mkdtemp(dir=d)
        Es = [events(os.path.join(d, kind), S[kind], t) for _ in range(4)]
        E1 = Es[0]
        keep = [i for i in range(len(E1)) if all(E[i] == E1[i] for E in Es)]
        print(kind, len(S[kind]), 'sessions', len(keep), 'repeatable')
        S[kind] = [dict(S[kind][i], ref=E1[i]) for i in keep]
        shutil.rmtree(t)
    pickle.dump(S, open(os.path.join(d, 'base.pkl'), 'wb'))


def objects(repo_file):
    """the baseline compile commands"""
    hh = build.headers_hash([os.path.join(build.REPO, 'include'), os.path.join(build.REPO, 'src')])
    hd = build.sha(hh, build.headers_hash([os.path.join(HERE, 'driver')]))
    lib = []
    for root, ds, fs in os.walk(os.path.join(build.REPO, 'src')):
        lib += [os.path.join(root, f) for f in fs if f.endswith('.cpp')]
    lib = sorted(lib)
    ff = build.FLAGS + ['-DFUNCTIONALS', '-I' + os.path.join(HERE, 'driver'), '-I' + os.path.join(HERE, 'driver', 'stubs')]
    df = build.FLAGS + ['-I' + os.path.join(HERE, 'driver')]
    drv = os.path.join(HERE, 'driver', 'driver.cpp')
    jobs = []   # (program set, src, flags, hash)
    for s in lib:
        fun = os.path.relpath(s, os.path.join(build.REPO, 'src')) in build.NEED_IFOPT
        jobs.append((('fdriver',) if fun else ('driver', 'fdriver'), s, ff if fun else build.FLAGS, hd if fun else hh))
    jobs.append((('driver',), drv, df, hd))
    jobs.append((('fdriver',), drv, ff, hd))
    return jobs


def try_one(args):
    d, path, k, new, idx = args
    S = pickle.load(open(os.path.join(d, 'base.pkl'), 'rb'))
    tmp = tempfile.mkdtemp(dir=d)
    try:
        rel = os.path.relpath(path, build.REPO)
        lines = open(path).read().split('\n')
        old = lines[k]
        lines[k] = new
        header = not path.endswith('.cpp')
        progs = {'driver': [], 'fdriver': []}
        inc = os.path.join(tmp, 'include')
        if header:
            shutil.copytree(os.path.join(build.REPO, 'include'), inc)
            open(os.path.join(tmp, rel), 'w').write('\n'.join(lines))
        else:
            m = os.path.join(tmp, 'm.cpp')
            open(m, 'w').write('\n'.join(lines))
        for prog, src, flags, h in objects(path):
            if header:
                o = os.path.join(tmp, '%d.o' % (len(progs['driver']) + 100 * len(progs['fdriver'])))
                fl = [('-I' + inc if f == '-I%s/include' % build.REPO else f) for f in flags]
                r = subprocess.run([build.CXX] + fl + ['-c', src, '-o', o], capture_output=True)
                if r.returncode: return (rel, k, old, new, 'nocompile', '')
            elif src == path:
                o = os.path.join(tmp, 'm.o')
                r = subprocess.run([build.CXX] + flags + ['-c', m, '-o', o], capture_output=True)
                if r.returncode: return (rel, k, old, new, 'nocompile', '')
            else:
                o = build.compile_one(src, flags, h)
            for p in prog: progs[p].append(o)
        diff, n = [], 0
        fun_only = rel.split('src/')[-1] in build.NEED_IFOPT or 'Optimization' in rel or 'Functionals' in rel
        for p in (('fdriver',) if fun_only else ('driver', 'fdriver')):
            if diff: break
            exe = os.path.join(tmp, p)
            r = subprocess.run([build.CXX] + progs[p] + ['-o', exe, '-lpthread'], capture_output=True)
            if r.returncode: return (rel, k, old, new, 'nolink', '')
            try:
                E = events(exe, S[p], tmp)
            except subprocess.TimeoutExpired:
                return (rel, k, old, new, 'HANG', '')
            if len(E) != len(S[p]):
                return (rel, k, old, new, 'DRIVER-DIED', '')
            diff += [dict(p=s['p'], pts=s['pts'], steps=s['steps'], evs=json.loads(e), by=s['by']) for s, e in zip(S[p], E) if e != s['ref']]
        if not diff: return (rel, k, old, new, 'SAME', '')
        rng = random.Random(1); n = len(diff); rng.shuffle(diff)
        try:
            bad, _ = pipeline.validate(diff[:20], workers=1)
            if not bad and n > 20:
                bad, _ = pipeline.validate(diff[20:200], workers=1)
        except pipeline.HarnessError as e:
            return (rel, k, old, new, 'HARNESS', str(e)[-300:])
        props = sorted({p for b in bad for p in b[3]})
        # flagged by the check that has the session
        own = sorted({b[0]['by'] for b in bad if b[0]['by'] in b[3]})
        return (rel, k, old, new, 'FLAGGED' if bad else 'DIFF-QUIET', '%d diff, %d bad %s' % (n, len(bad), ','.join(props)))
    except Exception as e:
        return (rel, k, old, new, 'ERROR', repr(e)[:200])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    d = sys.argv[2]
    if sys.argv[1] == 'base':
        return base(d)
    n = None
    files = sys.argv[3:]
    if '-n' in files:
        i = files.index('-n'); n = int(files[i + 1]); files = files[:i] + files[i + 2:]
    rng = random.Random(7)
    build.build(functionals=True)
    work = []
    for f in files:
        p = os.path.join(build.REPO, f)
        ms = mutants(p, rng)
        print(f, len(ms), 'mutants', flush=True)
        work += [(d, p, k, new, i) for i, (k, new) in enumerate(ms[:n] if n else ms)]
    from collections import Counter
    c = Counter()
    with cf.ProcessPoolExecutor(max_workers=int(os.environ.get('MUT_JOBS', '7'))) as ex:
        for r in ex.map(try_one, work):
            c[r[4]] += 1
            if r[4] not in ('FLAGGED', 'nocompile', 'nolink'):
                print('%s:%d %s %s\n   - %s\n   + %s' % (r[0], r[1] + 1, r[4], r[5], r[2].strip()[:150], r[3].strip()[:150]), flush=True)
            with open(os.path.join(d, 'log.jsonl'), 'a') as f:
                f.write(json.dumps(r) + '\n')
    print(dict(c))


if __name__ == '__main__':
    main()
