#!/usr/bin/python3
"""Planted bugs: make them from tools/seeds_*.py, and try them against the checks.
  seedlib.py make FILE.py      writes seeded/<id>/ from the entries of FILE.py (SEEDS)
  seedlib.py try ID...         apply, build, test, demo, check; undo"""
import json, os, subprocess, sys, runpy, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
VP = '/opt/vp'
if os.environ.get('SEED_ROOT'):           # work on a scratch copy: $SEED_ROOT/repo, $SEED_ROOT/vp
    T = os.environ['SEED_ROOT']
    R, VP = T + '/repo', T + '/vp'
    if not os.path.isdir(T):
        os.makedirs(T)
        subprocess.run(['git', 'clone', '-q', '/repo', R], check=True)
        shutil.copytree('/opt/vp', VP)
        for b, _, fs in os.walk(VP):
            for f in fs:
                p = os.path.join(b, f)
                t = open(p).read()
                open(p, 'w').write(t.replace('/repo', R).replace('/opt/vp', VP))
    os.environ['VERIF_REPO'] = R
PRE = r'''
#include <gsplines/Basis/Basis.hpp>
#include <gsplines/Basis/Basis0101.hpp>
#include <gsplines/Basis/BasisLagrange.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
#include <gsplines/FunctionalAnalysis/Integral.hpp>
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>
#include <gsplines/GSpline.hpp>
#include <gsplines/Interpolator.hpp>
#include <cmath>
#include <cstdio>
using namespace gsplines;
using namespace gsplines::functions;
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;
static bool near(double a, double b, double tol = 1e-7) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
static double at(const FunctionBase &f, double t, int c = 0) { return f(V::Constant(1, t))(0, c); }
static V vec(std::initializer_list<double> l) { V r(l.size()); int i = 0; for (double x : l) r(i++) = x; return r; }
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); return 1; } } while (0)
'''
SH = r'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -O1 -w -I/repo/include -I/usr/include/eigen3 "$D/demo.cpp" -L/repo/_build -lgsplines -Wl,-rpath,/repo/_build -o "$W/demo" || exit 3
timeout 60 "$W/demo" > "$W/out" 2>&1
rc=$?
grep FAILED "$W/out"
exit $rc
'''
SOLVER = r'''#pragma once
#include <ifopt/problem.h>
extern int ifopt_status;
namespace ifopt {
struct IpoptSolver {
  template <typename T> void SetOption(const std::string &, const T &) {}
  void Solve(Problem &) {}
  int GetReturnStatus() { return ifopt_status; }
};
} // namespace ifopt
'''
PYSH = r'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/python:/repo/_build timeout 60 /usr/bin/python3 "$D/demo.py"
'''


def git(*a, **k):
    return subprocess.run(['git', '-C', R] + list(a), capture_output=True, text=True, **k)


def clean():
    git('checkout', '--', '.')


def make(path):
    for s in runpy.run_path(path)['SEEDS']:
        assert git('status', '--porcelain').stdout == '', 'repo not clean'
        d = os.path.join(H, 'seeded', s['id'])
        try:
            for f, old, new in s['edits']:
                p = os.path.join(R, f)
                t = open(p).read()
                n = t.count(old)
                k = s.get('nth', {}).get(f)
                if n != 1 and k is None:
                    raise SystemExit('%s: %d occurrences in %s of\n%s' % (s['id'], n, f, old))
                if k is None:
                    t = t.replace(old, new)
                else:
                    parts = t.split(old)
                    t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
                open(p, 'w').write(t)
            diff = git('diff').stdout
        finally:
            clean()
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        if 'py' in s:
            open(os.path.join(d, 'demo.py'), 'w').write(s['py'])
            open(os.path.join(d, 'demo.sh'), 'w').write(PYSH)
        else:
            open(os.path.join(d, 'demo.cpp'), 'w').write(PRE + s.get('pre', '') + 'int main() {\n' + s['demo'] + '\n  return 0;\n}\n')
            open(os.path.join(d, 'demo.sh'), 'w').write(SH)
            if 'files' in s:              # sources that /opt/vp/build.sh leaves out, with a stand-in for ifopt
                open(os.path.join(d, 'demo.sh'), 'w').write(
                    SH.replace('"$D/demo.cpp"', '-I"$D/stub" "$D/demo.cpp" ' + s['files']))
                shutil.copytree(os.path.join(H, 'driver/stubs'), os.path.join(d, 'stub'), dirs_exist_ok=True)
                open(os.path.join(d, 'stub/ifopt/ipopt_solver.h'), 'w').write(SOLVER)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['what']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('made', s['id'])


def demo(i):
    d = os.path.join(H, 'seeded', i)
    if R == '/repo':
        return subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=R, capture_output=True, text=True)
    t = T + '/demo'
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t)
    x = open(t + '/demo.sh').read()
    open(t + '/demo.sh', 'w').write(x.replace('/repo', R))
    return subprocess.run(['bash', t + '/demo.sh'], cwd=R, capture_output=True, text=True)


def attempt(i, checks=None):
    d = os.path.join(H, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    base = json.load(open(VP + '/BASELINE.json'))
    want = set(base.get('passed', base.get('stable', base if isinstance(base, list) else [])))
    assert git('status', '--porcelain').stdout == '', 'repo not clean'
    res = {}
    a = git('apply', os.path.join(d, 'patch.diff'))
    assert a.returncode == 0, a.stderr
    try:
        t = subprocess.run(['bash', VP + '/test.sh', VP + '/seed_out.json'], capture_output=True, text=True)
        out = json.load(open(VP + '/seed_out.json'))
        miss = want - set(out['passed'])
        res['tests'] = 'pass' if not miss else 'FAIL ' + ','.join(sorted(miss))[:200]
        r = demo(i)
        res['demo'] = '%d %s' % (r.returncode, (r.stdout + r.stderr).strip()[-160:])
        for c in checks or [meta['property']]:
            C = H
            if R != '/repo':
                C = T + '/verif'
                subprocess.run(['rsync', '-a', '--delete', '--exclude', '.git', '--exclude', 'seeded', '--exclude', 'build', '--exclude', 'evidence', H + '/', C + '/'], check=True)
            r = subprocess.run(['python3', os.path.join(C, 'check.py'), c], capture_output=True, text=True, cwd=C)
            ls = r.stdout.strip().splitlines()
            v = [l for l in ls if l.startswith('step ')]
            res[c] = '%d %s | %s' % (r.returncode, v[0][:150] if v else '', ls[0][:160] if ls else r.stderr[-300:])
    finally:
        clean()
    return res


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    elif sys.argv[1] == 'demos':       # on the unchanged tree
        subprocess.run(['bash', VP + '/build.sh'], capture_output=True)
        for i in sorted(os.listdir(os.path.join(H, 'seeded'))):
            r = demo(i)
            print(i, r.returncode, (r.stdout + r.stderr)[-300:].strip(), flush=True)
    else:
        for x in sys.argv[2:]:
            i, _, cs = x.partition(':')
            print(i, json.dumps(attempt(i, cs.split(',') if cs else None), indent=1), flush=True)
        subprocess.run(['bash', VP + '/build.sh'], capture_output=True)
