"""Concrete leg: run-time contract checks of the real code on generated inputs.

Every case is a function of one numpy RandomState; the instance i of a case is
reproduced exactly by (case name, seed, i).  The oracles below are written from
the property statements, in plain Python arithmetic, and share no code with the
repository.  Derivative oracles use complex-step differentiation.
"""
import cmath
import math
import zlib
import warnings
from collections import OrderedDict

import numpy as np
import pandas as pd
from scipy.sparse import csr_matrix

warnings.simplefilter('ignore')
np.seterr(all='ignore')

# The optimiser is wrapped before pylogit is imported, so a case can observe or
# replace the call no matter which module makes it.
import scipy.optimize as _so
_REAL_MINIMIZE = _so.minimize
OPT = {'hook': None}


def _minimize(*a, **k):
    if OPT['hook'] is None:
        return _REAL_MINIMIZE(*a, **k)
    return OPT['hook'](_REAL_MINIMIZE, *a, **k)


_so.minimize = _minimize


class hooked(object):
    def __init__(self, fn):
        self.fn = fn

    def __enter__(self):
        OPT['hook'] = self.fn

    def __exit__(self, *a):
        OPT['hook'] = None


CASES = OrderedDict()


class Fail(Exception):
    pass


SAMPLES = []
SEEN = set()     # digests of the distinct non-trivial data sets generated


class Known(Exception):
    """Raised by a case when exactly a listed finding was observed."""

    def __init__(self, fid, detail=''):
        Exception.__init__(self, fid)
        self.fid = fid
        self.detail = detail


def case(pids, quick=20, thorough=None):
    if isinstance(pids, str):
        pids = [pids]

    def deco(fn):
        for p in pids:
            CASES.setdefault(p, []).append(
                (fn.__name__, fn, quick, thorough or quick * 8))
        return fn
    return deco


def inst_seed(name, seed, i):
    return zlib.crc32(('%s:%d:%d' % (name, seed, i)).encode()) & 0x7fffffff


# ---------------------------------------------------------------- comparing
def _short(a):
    s = repr(a)
    return s if len(s) < 700 else s[:700] + '...'


MODE = {'frame_only': False}


def frame_only(fn):
    """The same case, with only its frame (inputs unchanged) checks active."""
    def g(rng):
        MODE['frame_only'] = True
        try:
            fn(rng)
        finally:
            MODE['frame_only'] = False
    g.__name__ = fn.__name__ + '_frame'
    return g


def close(got, want, what, rtol=1e-7, atol=1e-9):
    if MODE['frame_only']:
        return
    g = np.asarray(got)
    w = np.asarray(want)
    if g.shape != w.shape:
        raise Fail('%s: shape %s, expected %s' % (what, g.shape, w.shape))
    g = g.astype(float)
    w = w.astype(float)
    bad = ~((np.abs(g - w) <= atol + rtol * np.abs(w)) | (g == w)
            | (np.isnan(g) & np.isnan(w)))
    if bad.any():
        raise Fail('%s: got %s expected %s' % (what, _short(g), _short(w)))


def same(got, want, what):
    if MODE['frame_only']:
        return
    ok = got == want
    if isinstance(ok, np.ndarray):
        ok = bool(ok.all())
    if not ok:
        raise Fail('%s: got %s expected %s' % (what, _short(got), _short(want)))


def check(cond, what):
    if MODE['frame_only']:
        return
    if not cond:
        raise Fail(what)


def raises(fn, what, exc=Exception):
    try:
        fn()
    except exc:
        return
    raise Fail('%s: accepted, but must be rejected' % what)


def accepts(fn, what):
    try:
        return fn()
    except Exception as e:
        raise Fail('%s: rejected with %r, but is valid' % (what, e))


def frozen(*arrs):
    """Snapshot for frame checks; call the result to compare."""
    snaps = [(a, snap(a)) for a in arrs]
    if any(getattr(a, 'size', 0) >= 2 for a in arrs):
        r = repr([x[1] for x in snaps])
        SEEN.add(zlib.crc32(r.encode()))
        if len(SAMPLES) < 2:
            SAMPLES.append(r[:600])

    def verify(what):
        for k, (a, s) in enumerate(snaps):
            if not same_snap(s, snap(a)):
                raise Fail('%s: argument %d was modified' % (what, k))
    return verify


def snap(a):
    if a is None or isinstance(a, (int, float, str, bool)):
        return a
    if isinstance(a, pd.DataFrame):
        return ('df', list(a.columns), list(a.index), [a[c].values.copy() for c in a.columns],
                [str(t) for t in a.dtypes])
    if isinstance(a, pd.Series):
        return ('series', list(a.index), a.values.copy(), a.name)
    if isinstance(a, np.ndarray):
        return ('arr', a.shape, str(a.dtype), np.array(a, copy=True))
    if hasattr(a, 'toarray'):
        return ('sp', a.shape, np.array(a.toarray(), copy=True))
    if isinstance(a, dict):
        return ('dict', [(k, snap(v)) for k, v in a.items()])
    if isinstance(a, (list, tuple)):
        return ('list', [snap(v) for v in a])
    return ('obj', id(a))


def same_snap(a, b):
    if type(a) != type(b):
        return False
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind == 'f':
            return bool(((a == b) | (np.isnan(a) & np.isnan(b))).all())
        return bool((a == b).all())
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same_snap(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


# ---------------------------------------------------------------- data
class Data(object):
    pass


def wide_ids(rng):
    """offsets of the observation, alternative and person ids: now and then
    they do not fit in 32 bits, or neighbours share a single-precision value"""
    r = np.random.RandomState(int(rng.randint(2 ** 30)))
    if r.randint(5):
        return 0, 0, 0
    return tuple(int(v) for v in r.choice([0, 2 ** 25, 2 ** 33, 10 ** 12], size=3))


def gen(rng, nobs=None, nalt=None, full=False, contiguous=True, all_chosen=True,
        min_avail=1, persons=None, scale=1.0, int_x=False, sort_alts=None):
    """Random long data.  Observation ids increase but have gaps; alternative
    ids are arbitrary integers; rows inside an observation are shuffled."""
    d = Data()
    J = nalt or int(rng.randint(2, 6))
    N = nobs or int(rng.randint(max(2, J), max(3, J) + 8))
    if all_chosen and N < J:
        N = J
    alts = sorted(int(v) for v in rng.choice(np.arange(0, 40), size=J, replace=False))
    obs_ids = np.cumsum(rng.randint(1, 5, size=N)) + int(rng.randint(-1, 50))
    big = wide_ids(rng)
    obs_ids, alts = obs_ids + big[0], [a + big[1] for a in alts]
    P = persons if persons is not None else int(rng.randint(1, N + 1))
    pids = [int(v) + big[2] for v in rng.choice(np.arange(1, 60), size=P, replace=False)]
    obs_pid = [pids[int(rng.randint(P))] for _ in range(N)]
    for k in range(min(P, N)):
        obs_pid[k] = pids[k]
    perm = list(rng.permutation(N))
    obs_pid = [obs_pid[k] for k in perm]
    forced = list(rng.permutation(N))[:J] if all_chosen else []
    rows = []
    sort_alts = bool(rng.randint(2)) if sort_alts is None else sort_alts
    for n in range(N):
        must = alts[forced.index(n)] if n in forced else None
        if full:
            av = list(alts)
        else:
            k = int(rng.randint(min_avail, J + 1))
            av = [alts[t] for t in rng.choice(J, size=k, replace=False)]
        if must is not None and must not in av:
            av[int(rng.randint(len(av)))] = must
        ch = must if must is not None else av[int(rng.randint(len(av)))]
        av = sorted(av)
        if not sort_alts:
            av = [av[t] for t in rng.permutation(len(av))]
        z = float(np.round(rng.normal(), 3))
        for a in av:
            x1 = float(np.round(rng.normal(), 4) * scale)
            x2 = float(np.round(rng.normal(), 4) * scale)
            if int_x:
                x1 = int(rng.randint(-3, 4))
                x2 = int(rng.randint(-3, 4))
            rows.append(dict(obs_id=int(obs_ids[n]), alt_id=a, choice=int(a == ch),
                             x1=x1, x2=x2, z=z, pid=obs_pid[n]))
    if not contiguous:
        rows = [rows[t] for t in rng.permutation(len(rows))]
    d.rows = rows
    d.alts = sorted(set(r['alt_id'] for r in rows))
    d.J = len(d.alts)
    d.df = frame(rows)
    d.rng = rng
    index(d)
    return d


def frame(rows):
    cols = ['obs_id', 'alt_id', 'choice', 'x1', 'x2', 'z', 'pid']
    # columns in any order; row labels as they come from a filter, a sort or
    # the concatenation of frames
    r = np.random.RandomState(zlib.crc32(repr(rows).encode()) % (2 ** 31))
    cols = [cols[k] for k in r.permutation(len(cols))]
    df = pd.DataFrame(OrderedDict((c, [q[c] for q in rows]) for c in cols))
    k, n = int(r.randint(6)), len(rows)
    if k == 3:
        df.index = r.permutation(n) + 5
    elif k == 4:
        df.index = np.arange(n) % max(1, n // 2)
    elif k == 5:
        df.index = ['row %d' % v for v in r.permutation(n)]
    return df


def first_order(vals):
    out = []
    for v in vals:
        if v not in out:
            out.append(v)
    return out


def index(d):
    rows = d.rows
    d.n = len(rows)
    d.alts = sorted(set(r['alt_id'] for r in rows))
    d.J = len(d.alts)
    d.obs = first_order([r['obs_id'] for r in rows])
    d.N = len(d.obs)
    oi = dict((v, k) for k, v in enumerate(d.obs))
    ai = dict((v, k) for k, v in enumerate(d.alts))
    d.o = [oi[r['obs_id']] for r in rows]
    d.a = [ai[r['alt_id']] for r in rows]
    d.y = [r['choice'] for r in rows]
    d.people = first_order([r['pid'] for r in rows])
    pi = dict((v, k) for k, v in enumerate(d.people))
    d.m = [pi[r['pid']] for r in rows]
    d.M = len(d.people)
    if d.N >= 2 and d.J >= 2:
        SEEN.add(zlib.crc32(repr(rows).encode()))
        if len(SAMPLES) < 2:
            SAMPLES.append(repr(rows)[:600])


def onehot(idx, ncol):
    n = len(idx)
    return csr_matrix((np.ones(n, dtype=int), (np.arange(n), np.array(idx))), shape=(n, ncol))


def maps(d):
    r2o = onehot(d.o, d.N)
    r2a = onehot(d.a, d.J)
    ch = csr_matrix(r2o.multiply(np.array(d.y)[:, None]))
    return r2o, r2a, ch


def obs_weights(rng, d, kind=None):
    """Weights constant within an observation, one entry per row."""
    k = int(rng.randint(4)) if kind is None else kind
    if k == 0:
        return [1.0] * d.n
    if k == 3:
        return [float(np.round(rng.uniform(0.2, 3.0), 3))] * d.n
    per = [float(np.round(rng.uniform(0.2, 3.0), 3)) for _ in range(d.N)]
    if k == 2:
        per[int(rng.randint(d.N))] = 0.0
    return [per[d.o[i]] for i in range(d.n)]


def person_weights(rng, d):
    per = [float(np.round(rng.uniform(0.2, 3.0), 3)) for _ in range(d.M)]
    return [per[d.m[i]] for i in range(d.n)]


# ---------------------------------------------------------------- specification
def gen_spec(rng, d, rich=True, names=None, ident=False):
    """(specification, names or None, oracle columns [(name, [values])])"""
    spec = OrderedDict()
    nm = OrderedDict()
    use_names = bool(rng.randint(2)) if names is None else names
    cols = []
    alts = list(d.alts)

    def add(var, s, vals):
        spec[var] = s
        if s == 'all_same':
            nm[var] = 'N ' + var
            cols.append((nm[var] if use_names else var, list(vals)))
        else:
            groups = alts if s == 'all_diff' else s
            nm[var] = []
            for g in groups:
                gl = g if isinstance(g, list) else [g]
                lab = 'N %s %s' % (var, g)
                nm[var].append(lab)
                cols.append((lab if use_names else '%s_%s' % (var, g),
                             [v if r['alt_id'] in gl else 0 for v, r in zip(vals, d.rows)]))
    order = ['intercept', 'x1', 'x2', 'z']
    if not rich:
        order = ['x1', 'x2']
    order = [order[k] for k in rng.permutation(len(order))]
    for v in order:
        if v == 'intercept':
            if rng.randint(2):
                sub = [alts[t] for t in rng.permutation(len(alts))][:max(1, len(alts) - 1)]
                add('intercept', sub, [1.0] * d.n)
        elif v == 'z':
            if rng.randint(2):
                sub = [alts[t] for t in rng.permutation(len(alts))][:max(1, len(alts) - 1)]
                add('z', sub, [r['z'] for r in d.rows])
        else:
            k = int(rng.randint(4)) if rich else 0
            vals = [r[v] for r in d.rows]
            if k == 0:
                add(v, 'all_same', vals)
            elif k == 1:
                add(v, 'all_diff', vals)
            else:
                perm = [alts[t] for t in rng.permutation(len(alts))]
                cut = int(rng.randint(1, len(perm) + 1))
                groups = [perm[:cut]] + list(perm[cut:])
                groups = [groups[t] for t in rng.permutation(len(groups))]
                if k == 3 and len(groups) > 1:
                    groups = groups[:-1]
                add(v, groups, vals)
    if not spec:
        add('x1', 'all_same', [r['x1'] for r in d.rows])
    return spec, (nm if use_names else None), cols


def design_of(cols):
    return np.array([c[1] for c in cols], dtype=float).T.copy()


# ---------------------------------------------------------------- oracles
LOGIT = ['MNL', 'Asym', 'Cloglog', 'Scobit', 'Uneven']


def n_shapes(mt, J):
    return {'MNL': 0, 'Asym': J - 1, 'Cloglog': 0, 'Scobit': J, 'Uneven': J}[mt]


def expand(vals, ref, J, zero=0.0):
    """J entries: vals in sorted-alternative order skipping ref."""
    out = []
    it = iter(vals)
    for j in range(J):
        out.append(zero if j == ref else next(it))
    return out


def h_oracle(mt, V, j, J, shapes, intercepts, shape_ref, int_ref):
    """Transformed utility of alternative position j at systematic utility V."""
    add = 0.0
    if intercepts is not None:
        add = expand(intercepts, int_ref, J)[j]
    if mt == 'MNL':
        return V + add
    if mt == 'Cloglog':
        if V.real >= 3.7:
            return cmath.exp(V) + add
        return cmath.log(cexpm1(cmath.exp(V))) + add
    if mt == 'Scobit':
        s = cmath.exp(shapes[j])
        u = s * csoftplus(-V)
        if u.real > 40:
            return -u + add
        return -cmath.log(cexpm1(u)) + add
    if mt == 'Uneven':
        s = cmath.exp(shapes[j])
        return V + csoftplus(-V) - csoftplus(-s * V) + add
    if mt == 'Asym':
        eta = expand(shapes, shape_ref, J)
        m = max(e.real for e in map(complex, eta))
        ex = [cmath.exp(e - m) for e in eta]
        c = ex[j] / sum(ex)
        if V.real >= 0:
            return cmath.log(c) - V * cmath.log(c) + add
        return cmath.log(c) - V * cmath.log((1 - c) / (J - 1)) + add
    raise AssertionError(mt)


def csoftplus(z):
    """log(1 + exp(z))"""
    z = complex(z)
    if z.real > 40:
        return z
    return clog1p(cmath.exp(z))


def clog1p(z):
    z = complex(z)
    if abs(z) < 1e-4:
        return z - z * z / 2 + z ** 3 / 3 - z ** 4 / 4
    return cmath.log(1 + z)


def cexpm1(z):
    z = complex(z)
    if abs(z) < 1e-4:
        return z + z * z / 2 + z ** 3 / 6 + z ** 4 / 24
    return cmath.exp(z) - 1


class Logit(object):
    """Oracle for a logit-type model on data d with design columns X."""

    def __init__(self, mt, d, X, shape_ref=None, int_ref=None, w=None, ridge=None):
        self.mt, self.d, self.X = mt, d, [[float(v) for v in r] for r in X]
        self.sr, self.ir = shape_ref, int_ref
        self.w = w or [1.0] * d.n
        self.ridge = ridge
        self.K = len(self.X[0])

    def split(self, th):
        S = n_shapes(self.mt, self.d.J)
        I = self.d.J - 1 if self.ir is not None else 0
        return (th[:S] if S else None, th[S:S + I] if I else None, th[S + I:])

    def size(self):
        return n_shapes(self.mt, self.d.J) + (self.d.J - 1 if self.ir is not None else 0) + self.K

    def V(self, th):
        b = self.split(th)[2]
        return [sum(x * t for x, t in zip(r, b)) for r in self.X]

    def h(self, th):
        sh, al, b = self.split(th)
        return [h_oracle(self.mt, complex(v), self.d.a[i], self.d.J, sh, al, self.sr, self.ir)
                for i, v in enumerate(self.V(th))]

    def probs(self, th):
        h = self.h(th)
        return softmax(h, self.d.o, self.d.N)

    def ll(self, th, pen=True):
        p = self.probs(th)
        s = sum(self.w[i] * cmath.log(p[i]) for i in range(self.d.n) if self.d.y[i])
        if self.ridge is not None and pen:
            s = s - self.ridge * sum(t * t for t in th)
        return s

    def grad(self, th):
        return cstep(self.ll, th)

    def dh(self, th):
        """rows x params matrix of derivatives of h"""
        return cstep_vec(self.h, th)

    def hess(self, th):
        """Analytic form of P04."""
        D = self.dh(th)
        p = [v.real for v in self.probs(th)]
        K = len(th)
        H = [[0.0] * K for _ in range(K)]
        for n in range(self.d.N):
            rows = [i for i in range(self.d.n) if self.d.o[i] == n]
            w = self.w[rows[0]]
            mean = [sum(p[i] * D[i][k] for i in rows) for k in range(K)]
            for k in range(K):
                for l in range(K):
                    H[k][l] -= w * (sum(p[i] * D[i][k] * D[i][l] for i in rows)
                                    - mean[k] * mean[l])
        if self.ridge is not None:
            for k in range(K):
                H[k][k] -= 2 * self.ridge
        return H

    def fisher(self, th):
        D = self.dh(th)
        p = [v.real for v in self.probs(th)]
        K = len(th)
        F = [[0.0] * K for _ in range(K)]
        for n in range(self.d.N):
            rows = [i for i in range(self.d.n) if self.d.o[i] == n]
            w = self.w[rows[0]]
            g = [sum((self.d.y[i] - p[i]) * D[i][k] for i in rows) for k in range(K)]
            for k in range(K):
                for l in range(K):
                    F[k][l] += w * g[k] * g[l]
        if self.ridge is not None:
            for k in range(K):
                F[k][k] -= 2 * self.ridge
        return F


def softmax(h, o, N):
    """Probabilities from utilities clipped to +/-700 (complex-safe)."""
    h = [complex(max(-700.0, min(700.0, v.real)), v.imag if -700 <= v.real <= 700 else 0.0)
         for v in map(complex, h)]
    top = {}
    for i, v in enumerate(h):
        top[o[i]] = max(top.get(o[i], -1e9), v.real)
    e = [cmath.exp(v - top[o[i]]) for i, v in enumerate(h)]
    s = {}
    for i, v in enumerate(e):
        s[o[i]] = s.get(o[i], 0) + v
    return [e[i] / s[o[i]] for i in range(len(h))]


def cstep(f, th, eps=1e-30):
    out = []
    for k in range(len(th)):
        t = [complex(v) for v in th]
        t[k] += 1j * eps
        out.append(complex(f(t)).imag / eps)
    return out


def cstep_vec(f, th, eps=1e-30):
    cols = []
    for k in range(len(th)):
        t = [complex(v) for v in th]
        t[k] += 1j * eps
        cols.append([complex(v).imag / eps for v in f(t)])
    return [list(r) for r in zip(*cols)]


class Nested(object):
    def __init__(self, d, X, nest, M, w=None, ridge=None):
        """nest: nest index per row, M nests."""
        self.d, self.X = d, [[float(v) for v in r] for r in X]
        self.nest, self.M = nest, M
        self.w = w or [1.0] * d.n
        self.ridge = ridge
        self.K = len(self.X[0])

    def lam(self, eta):
        return [1 / (1 + cmath.exp(-e)) for e in eta]

    def parts(self, lam, b):
        d = self.d
        V = [sum(x * t for x, t in zip(r, b)) for r in self.X]
        S = {}
        e = [cmath.exp(V[i] / lam[self.nest[i]]) for i in range(d.n)]
        for i in range(d.n):
            k = (d.o[i], self.nest[i])
            S[k] = S.get(k, 0) + e[i]
        den = {}
        for (n, m), s in S.items():
            den[n] = den.get(n, 0) + s ** lam[m]
        return e, S, den

    def probs_nat(self, lam, b):
        e, S, den = self.parts(lam, b)
        d = self.d
        out = []
        for i in range(d.n):
            m = self.nest[i]
            out.append(e[i] * S[(d.o[i], m)] ** (lam[m] - 1) / den[d.o[i]])
        return out

    def probs(self, th):
        return self.probs_nat(self.lam(th[:self.M]), th[self.M:])

    def ll(self, th, pen=True):
        lam = self.lam(th[:self.M])
        b = th[self.M:]
        p = self.probs_nat(lam, b)
        s = sum(self.w[i] * cmath.log(p[i]) for i in range(self.d.n) if self.d.y[i])
        if self.ridge is not None and pen:
            s = s - self.ridge * (sum(t * t for t in b) + sum((l - 1) ** 2 for l in lam))
        return s

    def grad(self, th):
        return cstep(self.ll, th)

    def scores(self, th):
        """observations x params, unweighted, unpenalised"""
        def f(t):
            p = self.probs(t)
            out = [0] * self.d.N
            for i in range(self.d.n):
                if self.d.y[i]:
                    out[self.d.o[i]] = out[self.d.o[i]] + cmath.log(p[i])
            return out
        return cstep_vec(f, th)

    def bhhh(self, th):
        sc = self.scores(th)
        K = len(th)
        B = [[0.0] * K for _ in range(K)]
        for n in range(self.d.N):
            i = self.d.o.index(n)
            for k in range(K):
                for l in range(K):
                    B[k][l] -= self.w[i] * sc[n][k] * sc[n][l]
        if self.ridge is not None:
            for k in range(K):
                B[k][k] -= 2 * self.ridge
        return B


class Mixed(object):
    def __init__(self, d, X, mixpos, draws, w=None, ridge=None):
        """draws[v][person][r]"""
        self.d, self.X = d, [[float(v) for v in r] for r in X]
        self.mp, self.draws = mixpos, draws
        self.R = len(draws[0][0])
        self.w = w or [1.0] * d.n
        self.ridge = ridge
        self.K = len(self.X[0]) + len(mixpos)

    def X3(self):
        return [[list(row) + [row[p] * float(self.draws[v][self.d.m[i]][r])
                              for v, p in enumerate(self.mp)]
                 for r in range(self.R)] for i, row in enumerate(self.X)]

    def kern(self, th):
        X3 = self.X3()
        cols = []
        for r in range(self.R):
            h = [complex(sum(x * t for x, t in zip(X3[i][r], th))) for i in range(self.d.n)]
            cols.append(softmax(h, self.d.o, self.d.N))
        return cols            # [r][row]

    def seq(self, th):
        k = self.kern(th)
        out = []
        for m in range(self.d.M):
            per = []
            for r in range(self.R):
                v = 1.0
                for i in range(self.d.n):
                    if self.d.m[i] == m and self.d.y[i]:
                        v = v * k[r][i]
                per.append(v)
            out.append(per)
        return out             # [person][r]

    def sim(self, th):
        return [sum(s) / self.R for s in self.seq(th)]

    def ll(self, th, pen=True):
        s = self.sim(th)
        tot = sum(self.w[self.d.m.index(m)] * cmath.log(s[m]) for m in range(self.d.M))
        if self.ridge is not None and pen:
            tot = tot - self.ridge * sum(t * t for t in th)
        return tot

    def grad(self, th):
        return cstep(self.ll, th)

    def bhhh(self, th):
        sc = cstep_vec(lambda t: [cmath.log(v) for v in self.sim(t)], th)
        K = len(th)
        B = [[0.0] * K for _ in range(K)]
        for m in range(self.d.M):
            w = self.w[self.d.m.index(m)]
            for k in range(K):
                for l in range(K):
                    B[k][l] -= w * sc[m][k] * sc[m][l]
        if self.ridge is not None:
            for k in range(K):
                B[k][k] += 2 * self.ridge
        return B


def re(v):
    if isinstance(v, list):
        return [re(x) for x in v]
    return complex(v).real


def gen_nests(rng, d):
    """Nest specification over the alternatives; nest order is arbitrary."""
    M = int(rng.randint(1, d.J + 1))
    lab = [int(k) for k in range(M)] + [int(rng.randint(M)) for _ in range(d.J - M)]
    lab = [lab[t] for t in rng.permutation(d.J)]
    names = ['nest %s' % c for c in 'zbyaxcw'[:M]]
    spec = OrderedDict()
    for m in range(M):
        ids = [int(d.alts[j]) for j in range(d.J) if lab[j] == m]
        spec[names[m]] = [ids[t] for t in rng.permutation(len(ids))]
    nest = [lab[d.a[i]] for i in range(d.n)]
    return spec, nest, M


def draws_for(rng, nvar, M, R):
    return [rng.normal(size=(M, R)) for _ in range(nvar)]
