#!/usr/bin/python3
"""Lets TLC check the laws of the specification: GLaws (instances of the semantic laws) and
GFrame (every step of random behaviours changes only what it may)."""
import concurrent.futures as cf, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, pipeline

PROFILES = ['alg', 'comp', 'der', 'spl', 'bas', 'int', 'quad', 'gll', 'hist', 'py', 'pyint', 'ser', 'fun', 'opt']


def laws(stride=1):
    cfg = 'INIT Init\nNEXT Next\nCONSTANT Stride = %d\nINVARIANT Holds\nCHECK_DEADLOCK FALSE\n' % stride
    rc, lines = pipeline.tlc('GLaws', cfg, ['-continue'], workers=8)
    bad = [l for l in lines if re.match(r'(/\\ )?(law|i) = ', l)]
    n = [re.match(r'(\d+) states generated', l) for l in lines]
    n = [int(m.group(1)) for m in n if m]
    bad = [l for l in lines if 'violated' in l] + bad
    if rc != 0 or not n or bad:
        raise pipeline.HarnessError('laws\n' + '\n'.join(l[:200] for l in (bad or lines)[-400:]))
    return n[-1]


def frames(num, seed=1):
    def one(p):
        cfg = ('INIT Init\nNEXT NextChecked\nCONSTANTS\n Profile = "%s"\n MaxPlans = 11\nCHECK_DEADLOCK FALSE\n' % p)
        rc, lines = pipeline.tlc('GFrame', cfg, ['-simulate', 'num=%d' % num, '-depth', '400', '-seed', str(seed)], heap='2g')
        s = pipeline.scripts(lines)
        if rc != 0 or len(s) < num:
            raise pipeline.HarnessError('frame %s\n' % p + '\n'.join(l[:400] for l in lines if not l.startswith('"'))[-3000:])
        return sum(len(x['steps']) for x in s)
    with cf.ThreadPoolExecutor(max_workers=6) as ex:
        return sum(ex.map(one, PROFILES))


def main():
    build.build_java()
    t = time.time()
    n = laws(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
    print('%d instances of the laws hold, %.0fs' % (n, time.time() - t), flush=True)
    t = time.time()
    n = frames(int(sys.argv[2]) if len(sys.argv) > 2 else 200)
    print('%d steps of random behaviours respect the frame, %.0fs' % (n, time.time() - t))


if __name__ == '__main__':
    main()
