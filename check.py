#!/usr/bin/python3
"""Decides one property on /repo's current working tree.

  check.py ID [--thorough]      generate sessions from the specification, replay them in the
                                implementation, validate the recorded traces against it
  check.py --replay FILE        run one recorded session again

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: could not decide."""
import concurrent.futures as cf, hashlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import build, laws, pipeline                                              # noqa: E402
from pipeline import HarnessError                                   # noqa: E402

# sources of sessions: (kind, name, quick, thorough[, plans]); for 'rand' the numbers of
# sessions, for 'enum' the strides (1: every case)
SOURCES = {
    'C01': [('enum', 'alg', 2, 1), ('enum', 'self', 1, 1), ('enum', 'un', 4, 1), ('rand', 'alg', 400, 20000), ('enum', 'bexp', 2, 1), ('enum', 'magf', 2, 1)],
    'C02': [('enum', 'un', 1, 1), ('enum', 'alg', 4, 1), ('enum', 'dom', 6, 1), ('rand', 'alg', 400, 20000),
            ('rand', 'spl', 150, 3000), ('rand', 'comp', 200, 5000)],
    'C03': [('enum', 'dom', 2, 1), ('enum', 'alg', 8, 1), ('enum', 'cat', 8, 1), ('rand', 'comp', 300, 10000), ('rand', 'alg', 300, 10000), ('enum', 'magf', 4, 1), ('enum', 'magd', 1, 1)],
    'C04': [('enum', 'cat', 2, 1), ('enum', 'comp', 2, 1), ('enum', 'der', 12, 2), ('rand', 'comp', 500, 20000), ('enum', 'bexp', 3, 1), ('enum', 'magf', 5, 1), ('enum', 'magd', 2, 1)],
    'C05': [('enum', 'elemder', 2, 1), ('enum', 'der', 3, 1), ('enum', 'spl', 8, 1), ('rand', 'der', 500, 20000), ('enum', 'bexp', 1, 1), ('enum', 'magf', 5, 1)],
    'C06': [('enum', 'spl', 1, 1), ('enum', 'var', 3, 1), ('enum', 'scale', 8, 2), ('rand', 'spl', 300, 10000), ('enum', 'bspl', 4, 1), ('enum', 'mags', 2, 1)],
    'C07': [('enum', 'var', 1, 1), ('enum', 'spl', 1, 1), ('rand', 'spl', 400, 15000), ('enum', 'bspl', 2, 1), ('enum', 'mags', 2, 1)],
    'C08': [('enum', 'bas', 1, 1), ('enum', 'baseq', 1, 1), ('rand', 'bas', 500, 10000), ('enum', 'bbas', 1, 1), ('enum', 'magb', 1, 1)],
    'C09': [('enum', 'bas', 1, 1), ('rand', 'bas', 600, 10000), ('enum', 'bbas', 1, 1), ('enum', 'near', 3, 1), ('enum', 'magb', 1, 1)],
    'C10': [('enum', 'int', 1, 1), ('rand', 'int', 250, 6000), ('enum', 'bint', 2, 1), ('enum', 'near', 4, 1), ('enum', 'magi', 2, 1)],
    'C11': [('enum', 'int', 1, 1), ('enum', 'sob', 8, 1), ('rand', 'int', 200, 6000), ('enum', 'bint', 2, 1), ('enum', 'near', 4, 1), ('enum', 'magi', 2, 1)],
    'C12': [('enum', 'sob', 2, 1), ('rand', 'int', 200, 6000), ('enum', 'bint', 3, 1), ('enum', 'near', 4, 1), ('enum', 'magi', 3, 1)],
    'C13': [('enum', 'quad', 1, 1), ('rand', 'quad', 400, 10000), ('enum', 'magq', 1, 1)],
    'C14': [('enum', 'scale', 1, 1), ('rand', 'spl', 300, 10000), ('enum', 'bspl', 2, 1), ('enum', 'mags', 2, 1)],
    'C15': [('enum', 'gll', 1, 1), ('rand', 'gll', 400, 10000), ('enum', 'bgll', 2, 1), ('enum', 'magg', 1, 1)],
    'C16': [('enum', 'py', 3, 1), ('rand', 'py', 250, 8000), ('rand', 'pyint', 200, 5000)],
    'C17': [('enum', 'ser', 1, 1), ('rand', 'ser', 300, 8000)],
    'C19': [('enum', 'fun', 1, 1), ('rand', 'fun', 250, 8000), ('enum', 'bfun', 1, 1)],
    'C20': [('enum', 'opt', 4, 1), ('rand', 'opt', 50, 1500), ('enum', 'bopt', 2, 1)],
    'C18': [('rand', 'hist', 300, 8000), ('enum', 'int', 2, 1), ('enum', 'bas', 4, 1), ('rand', 'spl', 100, 3000), ('rand', 'alg', 100, 3000), ('enum', 'bint', 4, 1), ('enum', 'near', 1, 1)],
}
PYTHON = {'C16', 'C17'}   # replayed through the Python interface
FUNCTIONALS = {'C19', 'C20'}     # need the optional sources built against the ifopt stand-in


def how(prop):
    return dict(python=prop in PYTHON, functionals=prop in FUNCTIONALS)


def of_property(prop, bad):
    """The deviations that break the property."""
    if prop != 'C16':
        return [b for b in bad if prop in b[3]]
    # the Python interface: what the C++ interface does right in the same session and Python does not
    bad = [b for b in bad if not b[0]['steps'][min(b[1], len(b[0]['steps'])) - 1]['op'].startswith('ser')]
    if not bad:
        return []
    cpp = [dict(p=b[0]['p'], pts=b[0]['pts'], steps=b[0]['steps']) for b in bad]
    pipeline.replay(cpp)
    first = {}
    for s, l, tags, props in pipeline.validate(cpp)[0]:
        first[id(s)] = min(l, first.get(id(s), l))
    return [b for b, c in zip(bad, cpp) if first.get(id(c), 1 << 30) > b[1]]


def sessions_for(prop, tier, seed):
    def one(src):
        kind, name, q, t = src[:4]
        n = q if tier == 'quick' else t
        if kind == 'rand':
            return pipeline.generate(name, n, seed, plans=src[4] if len(src) > 4 else (9 if tier == 'quick' else 11))
        return pipeline.enumerate_all(name, n, seed)
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        parts = list(ex.map(one, SOURCES[prop]))
    return [s for p in parts for s in p]


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + '.tmp', 'w') as f:
        json.dump(obj, f, indent=1)
    os.replace(path + '.tmp', path)


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                out.append(json.loads(l[6:]))
    return out


def decide(prop, tier, seed):
    t0 = time.time()
    mode = how(prop)
    build.build(**mode)
    held = framed = 0
    if tier != 'quick':
        held, framed = laws.laws(), laws.frames(100, seed)
    t1 = time.time()
    S = sessions_for(prop, tier, seed)
    t2 = time.time()
    pipeline.replay(S, **mode)
    t3 = time.time()
    bad, states = pipeline.validate(S)
    t4 = time.time()
    print('%s %s: build %.0fs, generate %.0fs, replay %.0fs, validate %.0fs; %d sessions, %d states, %d deviations'
          % (prop, tier, t1 - t0, t2 - t1, t3 - t2, t4 - t3, len(S), states, len(bad)), flush=True)
    mine = of_property(prop, bad)
    mine.sort(key=lambda b: b[1])
    violation = None
    # confirm on a fresh replay
    tried = 0
    for s, l, tags, props in mine[:6]:
        again = [dict(p=s['p'], pts=s['pts'], steps=s['steps']) for _ in range(4)]
        pipeline.replay(again, **mode)
        b2, _ = pipeline.validate(again)
        tried += 1
        hit = of_property(prop, b2)
        if hit:
            s, l, tags, props = min(hit, key=lambda b: b[1])
            violation = dict(property=prop, step=l, faults=tags, properties=props,
                             profile=s['p'], pts=s['pts'], steps=s['steps'], events=s['evs'])
            break
    steps = sum(len(s['evs']) for s in S)
    distinct = {hashlib.sha256(json.dumps(s['steps'], sort_keys=True).encode()).hexdigest()
                for s in S if len(s['steps']) > 1}
    short = sorted(S, key=lambda s: len(json.dumps(s['steps'])))
    samples = [dict(profile=s['p'], steps=s['steps']) for s in (short[len(short) // 4], short[len(short) // 2])]
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1),
              violations=1 if violation else 0,
              coverage=dict(states=states, transitions=steps, traces_validated_against_impl=len(S),
                            distinct_nontrivial=len(distinct),
                            rule='sessions generated from the specification (families enumerated by TLC: %s; random behaviours: %s); '
                                 'non-trivial: more than one step; distinct: by script'
                                 % (', '.join('%s/%d' % (s[1], s[2] if tier == 'quick' else s[3]) for s in SOURCES[prop] if s[0] == 'enum'),
                                    ', '.join('%s x%d' % (s[1], s[2] if tier == 'quick' else s[3]) for s in SOURCES[prop] if s[0] == 'rand')),
                            law_instances=held, framed_steps=framed,
                            rejected_steps=sum(1 for s in S for e in s['evs'] if e['x'] not in ('ok',)),
                            deviations_of_other_properties=len(bad) - len(mine),
                            samples=samples),
              assumptions=['the real arithmetic of the specification (40 digits, running magnitudes) and its tolerances',
                           'the driver records faithfully what the library does',
                           'g++ -O1 build of the working tree'])
    write_json(os.path.join(HERE, 'evidence', prop + '.json'), ev)
    if violation:
        path = os.path.join(HERE, 'evidence', prop + '.replay.json')
        write_json(path, violation)
        print('step %d: %s' % (violation['step'], '; '.join(violation['faults'])))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if mine:
        print('%d deviations did not recur in %d replayed sessions' % (len(mine), tried))
    return 0


def replay_file(path):
    v = json.load(open(path))
    mode = how(v['property'])
    build.build(**mode)
    s = dict(p=v['profile'], pts=v['pts'], steps=v['steps'])
    pipeline.replay([s], **mode)
    bad, _ = pipeline.validate([s])
    for s, l, tags, props in bad:
        print('step %d %s: %s breaks %s' % (l, json.dumps(s['steps'][l - 1])[:300], '; '.join(tags), ', '.join(props)))
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return replay_file(a[1])
    tier = 'thorough' if '--thorough' in a else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        return decide(a[0], tier, seed)
    except (HarnessError, build.BuildError, subprocess.TimeoutExpired) as e:
        print('CANNOT DECIDE: %s' % str(e)[-4000:])
        return 2


if __name__ == '__main__':
    sys.exit(main())
