#!/usr/bin/python3
"""Does the validation see wrong numbers?  Replays a family, changes one number
(by 1e-3, relative and of the scale of its row) in each recorded trace, and
counts the changes that the specification does not reject.
  audit.py [py:]FAMILY[/STRIDE] ... [--size 1e-3] [--per 4]"""
import copy, json, random, re, sys, os, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pipeline as P

NUM = re.compile(r'^-?0x[0-9a-f.]+p[-+]\d+$')


def leaves(o, path=()):
    if isinstance(o, dict):
        for k, v in o.items():
            yield from leaves(v, path + (k,))
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield from leaves(v, path + (i,))
    elif isinstance(o, str) and NUM.match(o):
        yield path


def get(o, p):
    for k in p:
        o = o[k]
    return o


def put(o, p, v):
    get(o, p[:-1])[p[-1]] = v


def main():
    args = sys.argv[1:]
    size, per = 1e-3, 3
    fams = []
    while args:
        a = args.pop(0)
        if a == '--size':
            size = float(args.pop(0))
        elif a == '--per':
            per = int(args.pop(0))
        else:
            fams.append(a)
    rnd = random.Random(7)
    total = collections.Counter()
    missed = collections.defaultdict(list)
    for f in fams:
        py = f.startswith('py:')
        f = f[3:] if py else f
        f, _, st = f.partition('/')
        S = P.enumerate_all(f, int(st or 1), 0)
        fun = f in ('fun', 'opt', 'bfun', 'bopt')
        S = P.replay(S, python=py, functionals=fun)
        T, what = [], []
        for s in S:
            groups = collections.defaultdict(list)
            for i, ev in enumerate(s['evs']):
                for p in leaves(ev):
                    key = (s['steps'][i]['op'],) + tuple(k for k in p if isinstance(k, str))
                    groups[key].append((i,) + p)
            ks = sorted(groups)
            for key in rnd.sample(ks, min(per, len(ks))):
                p = rnd.choice(groups[key])
                row = get(s['evs'], p[:-1])
                v = float.fromhex(get(s['evs'], p))
                if isinstance(row, list):
                    scale = max(abs(float.fromhex(x)) for x in row if isinstance(x, str) and NUM.match(x))
                else:
                    scale = abs(v)
                w = v + size * max(scale, abs(v)) * rnd.choice((1, -1))
                if w == v:
                    w = v + 1e-6
                c = dict(s, evs=copy.deepcopy(s['evs']))
                put(c['evs'], p, float(w).hex())
                T.append(c)
                what.append((key, p, v, w))
        bad, _ = P.validate(T)
        seen = {id(b[0]) for b in bad}
        for c, (key, p, v, w) in zip(T, what):
            total[f, key] += 1
            if id(c) not in seen:
                missed[f, key].append((c, p, v, w))
    out = []
    for k in sorted(total, key=str):
        if missed[k]:
            print('%-6s %-60s %d of %d not seen' % (k[0], '.'.join(k[1]), len(missed[k]), total[k]))
            for c, p, v, w in missed[k][:6]:
                out.append(dict(key=str(k), path=p, v=v, w=w, step=c['steps'][p[0]], steps=c['steps'], pts=c['pts']))
    print('changes %d, not seen %d' % (sum(total.values()), sum(len(m) for m in missed.values())))
    json.dump(out, open(os.path.join(P.HERE, 'work', 'audit.json'), 'w'))


main()
