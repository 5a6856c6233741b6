#!/usr/bin/python3
"""Replays sessions through the Python interface and records the same events as driver.cpp.
usage: pydriver.py IN OUT   (PYTHONPATH: the package and the extension module)"""
import json, os, signal, sys
sys.dont_write_bytecode = True
import numpy as np
import gsplines
import gsplines.serialization as ser
from gsplines import functions as F, basis as B, functional_analysis as FA, collocation as CO


class Missing(Exception):
    pass


class ScriptError(Exception):
    pass


def num(x):
    x = float(x)
    return x.hex()


def seq(v):
    return [num(x) for x in np.asarray(v).reshape(-1)]


def mat(m):
    m = np.asarray(m)
    if m.ndim == 1:
        m = m.reshape(-1, 1)
    return [[num(x) for x in r] for r in m]


class Obj:
    def __init__(self, kind, v):
        self.kind, self.v, self.live, self.last, self.fresh = kind, v, True, None, True
        self.wp = self.b = None


class Session:
    def __init__(self, S):
        self.pts = np.array([fl(x) for x in S['pts']])
        self.heap = []
        self.given = []          # arrays passed to the library in this step
        self.k = 0

    # ---- arguments: arrays of several layouts; overwritten after the step
    def vec(self, a):
        v = np.array([fl(x) for x in a], dtype=float)
        self.k += 1
        if self.k % 4 == 1 and len(v):
            big = np.full(2 * len(v) + 1, 77.25)
            big[1::2] = v
            v = big[1::2]
        elif self.k % 4 == 2:
            return [float(x) for x in v]
        self.given.append(v)
        return v

    def wvec(self, a):           # where a list will not do
        v = np.array([fl(x) for x in a], dtype=float)
        self.given.append(v)
        return v

    def mat(self, a):
        m = np.array([[fl(x) for x in r] for r in a], dtype=float)
        self.k += 1
        if self.k % 3 == 1:
            m = np.asfortranarray(m)
        elif self.k % 3 == 2:
            big = np.full((2 * m.shape[0], m.shape[1] + 3), 77.25)
            big[::2, 1:1 + m.shape[1]] = m
            m = big[::2, 1:1 + m.shape[1]]
        self.given.append(m)
        return m

    def scribble(self):
        for v in self.given:
            v[...] = -99.5
        self.given = []

    def get(self, st, k='a'):
        i = st[k]
        if not 1 <= i <= len(self.heap) or not self.heap[i - 1].live:
            raise Missing()
        return self.heap[i - 1]

    def push(self, kind, v):
        self.heap.append(Obj(kind, v))
        return self.heap[-1]

    # ---- steps
    def basis(self, b, how):
        n, pars = b['name'], b['pars']
        if how == 'get' or n not in ('legendre', 'lagrange', 'basis0101'):
            return B.get_basis(n, b['dim'], [fl(x) for x in pars])
        if n == 'legendre':
            return B.BasisLegendre.get(b['dim']) if how == 'ctorv' else B.BasisLegendre(b['dim'])
        if n == 'lagrange':
            return B.BasisLagrange.get(self.wvec(pars)) if how == 'ctorv' else B.BasisLagrange(self.vec(pars))
        return B.Basis0101.get(fl(pars[0])) if how == 'ctorv' else B.Basis0101(fl(pars[0]))

    def new(self, st):
        e, t = st['e'], st['t']
        d = dom(e['d'])
        if t == 'const1':
            self.push('elem', F.ConstFunction(d, len(e['c']), fl(e['c'][0])))
        elif t == 'dil':
            self.push('elem', F.DomainLinearDilation(d, fl(e['c'])))
        elif t == 'id':
            self.push('elem', F.Identity(d))
        elif t == 'exp':
            self.push('elem', F.Exponential(d))
        elif t == 'cos':
            self.push('elem', F.Cos(d))
        elif t == 'sin':
            self.push('elem', F.Sin(d))
        elif t == 'poly':
            self.push('elem', F.CanonicPolynomial(d, self.vec(e['c'])))
        elif t == 'zero':
            self.push('expr', F.FunctionExpression(d, len(e['c'])))
        elif t == 'gs':
            b = self.basis(e['b'], 'ctor')
            self.push('gs', gsplines.GSpline(d, e['n'], len(e['tau']), b, self.vec(e['c']), self.vec(e['tau']), 'gspline'))
            del b
        else:
            raise ScriptError('new ' + t)

    def step(self, st):
        op = st['op']
        R, self.gs = {}, None
        if op == 'new':
            self.new(st)
        elif op == 'bin':
            a, b, f = self.get(st, 'a'), self.get(st, 'b'), st['f']
            if f == 'dot':
                if a.kind == b.kind == 'expr' and self.k % 2:
                    self.push('elem', F.DotProduct(a.v, b.v))
                else:
                    self.push('elem', a.v.dot(b.v))
                self.k += 1
            else:
                r = (a.v + b.v if f == 'sum' else a.v - b.v if f == 'sub' else a.v * b.v if f == 'mul'
                     else a.v.compose(b.v) if f == 'comp' else a.v.concat(b.v))
                self.push('expr', r)
        elif op == 'neg':
            self.push('expr', -self.get(st).v)
        elif op == 'deriv':
            a, m = self.get(st), st['m']
            self.k += 1
            r = a.v.deriv() if m == 1 and self.k % 2 else a.v.deriv(_deg=m) if self.k % 3 else a.v.deriv(m)
            self.push('gs' if a.kind == 'gs' else 'expr', r)
        elif op == 'drop':
            self.get(st).live = False
            self.get_dead(st).v = None
        elif op == 'gsscale':
            self.push('gs', self.get(st).v.linear_scaling_new_execution_time(fl(st['T'])))
        elif op in ('gseq', 'beq'):
            a, b = self.get(st, 'a').v, self.get(st, 'b').v
            R = dict(eq=bool(a == b), ne=bool(a != b))
        elif op == 'bnew':
            self.push('basis', self.basis(st['b1'], st['how']))
        elif op == 'beval':
            b = self.get(st).v
            v, v0 = self.buff(b.get_dim()), self.buff(b.get_dim())
            b.eval_derivative_on_window(fl(st['s']), fl(st['tau']), st['m'], v)
            b.eval_on_window(fl(st['s']), fl(st['tau']), v0)
            R = dict(v=seq(v), v0=seq(v0))
        elif op == 'bevaltau':
            b = self.get(st).v
            v = self.buff(b.get_dim())
            b.eval_derivative_wrt_tau_on_window(fl(st['s']), fl(st['tau']), st['m'], v)
            R = dict(v=seq(v))
        elif op == 'inew':
            self.push('interp', gsplines.Interpolator(st['n'], st['ni'], self.get(st).v))
        elif op == 'isolve':
            y = self.get(st).v.solve_interpolation(self.vec(st['taus']), self.mat(st['wp']))
            R = dict(y=seq(y))
            if 'keep' in st:
                self.push('arr', y)
        elif op == 'icoefd':
            a = self.get(st).v
            y = a.solve_interpolation(self.vec(st['taus']), self.mat(st['wp'])).copy()
            R = dict(y=seq(y))
            if 'ot' in st:
                a.solve_interpolation(self.vec(st['ot']), self.mat(st['wp']))
            if 'j' in st:
                a.get_coeff_derivative_wrt_tau(y, self.vec(st['taus']), st['j'])
            dy = a.get_coeff_derivative_wrt_tau(y, self.vec(st['taus']), st['i'])
            R['dy'] = seq(dy)
            if 'keep' in st:
                self.push('arr', dy)
        elif op in ('iinterp', 'finterp', 'fpw'):
            t, w = self.vec(st['taus']), self.mat(st['wp'])
            if op == 'iinterp':
                g = self.get(st).v.interpolate(t, w)
            elif op == 'finterp':
                g = gsplines.interpolate(t, w, self.get(st).v)
            else:
                g = gsplines.pw_polynomial_interpolation(t, w, st['nc'])
            self.gs = self.spline(g)
            self.push('gs', g)
        elif op == 'snew':
            b = self.get(st).v
            s = FA.SobolevNorm(self.mat(st['wp']), b, [(q[0], fl(q[1])) for q in st['w']])
            o = self.push('sob', s)
            o.wp = np.array([[fl(x) for x in r] for r in st['wp']])
            o.b = (b.get_name(), b.get_dim(), list(b.get_parameters()))
        elif op in ('sval', 'sgrad'):
            o = self.get(st)
            if op == 'sval':
                R['v'] = num(o.v(self.vec(st['taus'])))
            else:
                g = np.full(o.wp.shape[0] - 1, 77.25)
                o.v.deriv_wrt_interval_len(self.vec(st['taus']), g)
                R['v'] = seq(g)
            t = np.array([fl(x) for x in st['taus']])
            b = B.get_basis(*o.b)
            mk = lambda: gsplines.Interpolator(o.wp.shape[1], o.wp.shape[0] - 1, b)
            it = mk()
            y = it.solve_interpolation(t, o.wp).copy()
            R['y'] = seq(y)
            if op == 'sgrad':
                R['dy'] = []
                for k in range(len(t)):
                    it = mk()
                    yk = it.solve_interpolation(t, o.wp).copy()
                    R['dy'].append(seq(it.get_coeff_derivative_wrt_tau(yk, t, k)))
        elif op == 'qpw':
            p, w = CO.legendre_gauss_lobatto_points_weights(st['n'])
            R = dict(p=seq(p), w=seq(w))
        elif op == 'ip':
            a, b, fn = self.get(st, 'a').v, self.get(st, 'b').v, st['fn']
            w = [(q[0], fl(q[1])) for q in st['w']]
            more = [] if 'dflt' in st else [st['ng'], st['ni']]
            R = dict(v=num(FA.l2_inner_product(a, b, *more) if fn == 'l2' else FA.l2_norm(a, *more) if fn == 'l2n'
                           else FA.sobolev_inner_product(a, b, len(w) - 1, *more) if fn == 'sob'
                           else FA.sobolev_norm(a, len(w) - 1, *more) if fn == 'sobn'
                           else FA.sobolev_semi_inner_product(a, b, w, *more) if fn == 'semi'
                           else FA.sobolev_semi_norm(a, w, *more)))
        elif op == 'ser':
            a = self.get(st)
            d = ser.gspline_to_dict(a.v) if a.kind == 'gs' else ser.basis_to_dict(a.v)
            if st['via'] == 'json':
                d = json.loads(json.dumps(d))
            r = ser.dict_to_gspline(d) if a.kind == 'gs' else ser.dict_to_basis(d)
            R = dict(eq=bool(a.v == r), p=self.numbers(a.kind, a.v), q=self.numbers(a.kind, r))
            self.push(a.kind, r)
        elif op == 'serbad':
            a = self.get(st)
            d = ser.gspline_to_dict(a.v) if a.kind == 'gs' else ser.basis_to_dict(a.v)
            k, how = st['key'], st['how']
            if how == 'missing':
                del d[k]
            elif how == 'none':
                d[k] = None
            elif how == 'len':
                d[k] = d[k] + [0.5]
            else:
                d[k] = 'text' if not isinstance(d[k], str) else 3
            (ser.dict_to_gspline if a.kind == 'gs' else ser.dict_to_basis)(d)
        else:
            raise ScriptError('op ' + op)
        return R

    def get_dead(self, st):
        return self.heap[st['a'] - 1]

    def buff(self, n):
        self.k += 1
        if self.k % 2:
            return np.full(n, 77.25)
        return np.full(2 * n, 77.25)[::2]

    def numbers(self, kind, v):
        b = v.get_basis() if kind == 'gs' else v
        r = list(b.get_parameters()) + [b.get_dim()]
        if kind == 'gs':
            r += list(v.get_domain()) + list(v.get_coefficients()) + list(v.get_interval_lengths()) + [v.get_codom_dim(), v.get_number_of_intervals()]
        return seq(r)

    # ---- observations
    def basis_obs(self, b):
        return dict(name=b.get_name(), dim=b.get_dim(), pars=self.take(b.get_parameters()))

    def take(self, a, f=seq):     # read an answer, then spoil it
        r = f(a)
        if isinstance(a, np.ndarray) and a.flags.writeable and a.size:
            a[...] = 99.75
        return r

    def spline(self, g):
        return dict(d=[num(x) for x in g.get_domain()], n=g.get_codom_dim(), c=self.take(g.get_coefficients()),
                    tau=self.take(g.get_interval_lengths()), b=self.basis_obs(g.get_basis()))

    def observe_fun(self, o, single):
        f = o.v
        d = f.get_domain()
        s = dict(d=[num(x) for x in d], n=f.get_codom_dim())
        idx = [i for i in range(len(self.pts)) if d[0] <= self.pts[i] <= d[1]]
        s['i'] = [i + 1 for i in idx]
        s['len'] = num(f.get_domain_length()) if hasattr(f, 'get_domain_length') else num(d[1] - d[0])
        s['in'] = [i + 1 for i in range(len(self.pts)) if f.is_point_in_domain(self.pts[i])]
        p = self.pts[idx].copy()
        x, v, w, far = 'ok', [], None, 0
        try:
            if idx:
                v = self.take(f(p), mat)
            if single:
                w = [self.take(f(np.array([q])), mat)[0] for q in p]
                if len(idx) > 1:      # views with other strides, many points at once
                    val = f(p).copy()
                    apart = lambda a, k: int(np.sum(~np.isclose(a, val[k], 1e-9, 1e-9, equal_nan=True))) if a.shape == val[k].shape else 1
                    k = np.arange(len(p))
                    far += apart(f(p[::-1]), k[::-1]) + apart(f(np.repeat(p, 2)[::2]), k)
                    k = (np.arange(70) ** 2 + np.arange(70) // 7) % len(p)
                    far += apart(f(p[k]), k) + apart(f(p), np.arange(len(p)))
            p[...] = -99.5
        except Exception as e:
            x, w = exc(e), None
        s['x'], s['v'] = x, v
        if x == 'ok' and w is not None:
            s['w'], s['far'] = w, far
        if o.kind == 'gs':
            q = self.spline(f)
            s.update(c=q['c'], tau=q['tau'], b=q['b'], ni=f.get_number_of_intervals(),
                     bp=self.take(f.get_domain_breakpoints()), wp=self.take(f.get_waypoints(), mat))
        return s

    def observe(self, o):
        if not o.live:
            return {'s': '-'}
        if o.kind in ('elem', 'expr', 'gs'):
            s = self.observe_fun(o, False)
            if not o.fresh and s == o.last:
                return {'s': '='}
            o.last, o.fresh = s, False
            r = self.observe_fun(o, True)
            r['s'] = 'f'
            return r
        if o.kind == 'basis':
            s, tag = self.basis_obs(o.v), 'b'
        elif o.kind == 'arr':
            s, tag = dict(v=seq(o.v)), 'a'
        else:
            s, tag = dict(), 'x'
        if s == o.last:
            return {'s': '='}
        o.last = s
        return dict(s, s=tag)

    def run(self, S, out):
        for st in S['steps']:
            n, R, x = len(self.heap), {}, 'ok'
            self.gs = None
            try:
                R = self.step(st)
            except Missing:
                return
            except ScriptError:
                raise
            except Exception as e:
                x = exc(e)
                del self.heap[n:]
            self.scribble()
            ev = dict(x=x)
            if x == 'ok' and R:
                ev['ret'] = R
            if x == 'ok' and self.gs:
                ev['gs'] = self.gs
            ev['obs'] = [self.observe(o) for o in self.heap]
            write_all(out, (json.dumps(ev) + "\n").encode())


def write_all(fd, b):
    while b:
        k = os.write(fd, b)
        b = b[k:]


def fl(s):
    return float.fromhex(s) if isinstance(s, str) and 'x' in s else float(s)


def dom(d):
    return (fl(d[0]), fl(d[1]))


def exc(e):
    if isinstance(e, ValueError):
        return 'invalid_argument'
    if isinstance(e, TypeError):
        return 'TypeError'
    if isinstance(e, RuntimeError):
        return 'logic_error'
    return type(e).__name__


def main():
    with open(sys.argv[1]) as f, open(sys.argv[2], 'w') as out:
        for line in f:
            if not line.strip():
                continue
            r, w = os.pipe()
            out.flush()
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    os.close(r)
                    nul = os.open('/dev/null', os.O_RDWR)
                    for k in ((0, 1, 2) if 'DRIVER_STDERR' not in os.environ else (0, 1)):
                        os.dup2(nul, k)
                    signal.alarm(60)
                    S = json.loads(line)
                    s = Session(S)
                    try:
                        s.run(S, w)
                    except ScriptError as e:
                        write_all(w, (json.dumps(dict(x='script error ' + str(e), obs=[])) + '\n').encode())
                except BaseException as e:
                    if 'DRIVER_STDERR' in os.environ:
                        import traceback
                        traceback.print_exc()
                    rc = 4
                os._exit(rc)
            os.close(w)
            got = b''
            while True:
                k = os.read(r, 1 << 16)
                if not k:
                    break
                got += k
            os.close(r)
            status = os.waitpid(pid, 0)[1]
            evs = [json.loads(l) for l in got.decode().split('\n') if l and l[-1] == '}']
            if status != 0:
                evs.append(dict(x='crash', obs=[]))
            out.write(json.dumps(evs) + '\n')


main()
