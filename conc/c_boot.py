"""Concrete cases: resampling (P23), intervals (P24, P25), replicates (P26), plus frame (P28) cases of those modules."""
from lib import *
import math
import numpy as np
import pandas as pd
from scipy.stats import norm
from pylogit import pylogit as pl
from pylogit import bootstrap as bt
from pylogit import bootstrap_abc as abc
from pylogit import bootstrap_calcs as bc
from pylogit import bootstrap_mle as bmle
from pylogit import bootstrap_sampler as bs
from pylogit import bootstrap_utils as bu
from pylogit import mixed_logit_calcs as mlc
from c_model import replicate_tables, predicts_new_data, panel_predictions, build, point, parts, Probe, fit, o_grad, prep, B, ALL, TITLE


# ----------------------------------------------------------------- P23
def strata(d):
    out = {}
    for i in range(d.n):
        if d.y[i]:
            out.setdefault(d.rows[i]['alt_id'], set()).add(d.rows[i]['obs_id'])
    return out


@case('P23', 120)
def samples(rng):
    d = gen(rng, contiguous=bool(rng.randint(2)))
    o = np.array([r['obs_id'] for r in d.rows])
    a = np.array([r['alt_id'] for r in d.rows])
    y = np.array(d.y)
    S = int(rng.randint(1, 8))
    seed = int(rng.randint(1, 10 ** 6)) if rng.randint(4) else 0
    fr = frozen(o, a, y)
    got = bs.create_cross_sectional_bootstrap_samples(o, a, y, S, seed=seed)
    fr('create_cross_sectional_bootstrap_samples')
    st = strata(d)
    same(got.shape, (S, d.N), 'one row per sample, one column per observation')
    where = dict((v, al) for al in st for v in st[al])
    for s in range(S):
        cnt = {}
        for v in got[s]:
            check(float(v) == int(v) and int(v) in where, 'sampled id %r is no observation' % v)
            cnt[where[int(v)]] = cnt.get(where[int(v)], 0) + 1
        same(dict((al, cnt.get(al, 0)) for al in st), dict((al, len(st[al])) for al in st), 'draws per chosen alternative')
    again = bs.create_cross_sectional_bootstrap_samples(o, a, y, S, seed=seed)
    check((got == again).all(), 'same seed, other samples')
    rel = bs.relate_obs_ids_to_chosen_alts(o, a, y)
    same(dict((int(k), sorted(int(x) for x in v)) for k, v in rel.items() if len(v)), dict((k, sorted(v)) for k, v in st.items()),
         'observations per chosen alternative')
    num, tot = bs.get_num_obs_choosing_each_alternative(rel)
    same(tot, d.N, 'number of observations')
    for al in st:
        same(num[al], len(st[al]), 'observations choosing %s' % al)
    ids = bs.create_bootstrap_id_array(got)
    same(ids.shape, got.shape, 'id array')
    check(all(list(r) == list(range(1, d.N + 1)) for r in ids), 'bootstrap ids are not 1..N')


@case('P23', 10)
def resampling_spread(rng):
    """every id of a stratum can be drawn, with replacement, independently over samples"""
    d = gen(rng, nobs=8, nalt=2)
    o = np.array([r['obs_id'] for r in d.rows])
    a = np.array([r['alt_id'] for r in d.rows])
    got = bs.create_cross_sectional_bootstrap_samples(o, a, np.array(d.y), 300, seed=int(rng.randint(1, 9999)))
    st = strata(d)
    for al in st:
        ids = sorted(st[al])
        n = len(ids)
        flat = [v for row in got for v in row if v in st[al]]
        for v in ids:
            share = sum(1 for x in flat if x == v) / float(len(flat))
            check(abs(share - 1.0 / n) < 0.35 / n + 0.02, 'id %s of %d is drawn with share %.3f' % (v, n, share))
        if n > 1:
            check(len(set(tuple(sorted(x for x in row if x in st[al])) for row in got)) > 1, 'all samples are equal')
            check(any(len(set(x for x in row if x in st[al])) < n for row in got), 'no replacement')


@case('P23', 100)
def boot_frame(rng):
    d = gen(rng, contiguous=bool(rng.randint(2)))
    df = d.df.copy()
    if rng.randint(2):
        df.index = rng.permutation(len(df)) + 5
    df['tag'] = ['t%d' % k for k in range(d.n)]
    g = bs.create_deepcopied_groupby_dict(df, 'obs_id')
    same(sorted(int(k) for k in g), sorted(set(r['obs_id'] for r in d.rows)), 'groups')
    ids = sorted(set(r['obs_id'] for r in d.rows))
    draw = [ids[int(rng.randint(len(ids)))] for _ in range(int(rng.randint(1, 12)))]
    arr = np.array(draw, dtype=float if rng.randint(2) else int)
    col = 'bootstrap_id' if rng.randint(2) else 'bid'
    fr = frozen(df, arr, dict((k, g[k]) for k in g))
    got = bs.create_bootstrap_dataframe(df, 'obs_id', arr, g, boot_id_col=col)
    fr('create_bootstrap_dataframe')
    want = []
    for k, v in enumerate(draw):
        for i in range(d.n):
            if d.rows[i]['obs_id'] == v:
                want.append((k + 1, i))
    same(got.shape[0], len(want), 'rows of the bootstrap data')
    same(sorted(got.columns), sorted(list(df.columns) + [col]), 'columns of the bootstrap data')
    same([int(v) for v in got[col].values], [w[0] for w in want], 'bootstrap ids')
    for c in df.columns:
        src = list(df[c].values)
        same(list(got[c].values), [src[w[1]] for w in want], 'column %s' % c)


# ----------------------------------------------------------------- P24
def pct_lower(v, q):
    s = sorted(v)
    return s[int(math.floor(round((len(s) - 1) * q / 100.0, 10)))]


def pct_upper(v, q):
    s = sorted(v)
    return s[int(math.ceil(round((len(s) - 1) * q / 100.0, 10)))]


def near(n, q):
    """position so close to an integer that rounding decides"""
    p = (n - 1) * q / 100.0
    return abs(p - round(p)) < 1e-6


@case('P24', 150)
def percentile(rng):
    R, K = int(rng.randint(2, 60)), int(rng.randint(1, 5))
    reps = np.round(rng.normal(size=(R, K)), 2)
    c = float(rng.uniform(1, 99.5)) if rng.randint(2) else float(rng.choice([50, 80, 90, 95, 99]))
    lo, hi = (100 - c) / 2.0, 100 - (100 - c) / 2.0
    if near(R, lo) or near(R, hi):
        c = 93.7123
        lo, hi = (100 - c) / 2.0, 100 - (100 - c) / 2.0
    fr = frozen(reps)
    got = bc.calc_percentile_interval(reps, c)
    fr('calc_percentile_interval')
    want = np.array([[pct_lower(reps[:, k], lo) for k in range(K)], [pct_upper(reps[:, k], hi) for k in range(K)]])
    close(got, want, 'percentile interval')


def bca_parts(reps, jack, mle, c):
    R, K = reps.shape
    out = []
    for k in range(K):
        share = sum(1 for v in reps[:, k] if v < mle[k]) / float(R)
        z0 = norm.ppf(share)
        m = sum(jack[:, k]) / len(jack)
        dd = [m - v for v in jack[:, k]]
        den = 6 * sum(x * x for x in dd) ** 1.5
        a = sum(x ** 3 for x in dd) / (den if den != 0 else 1e-16)
        q = []
        for p in ((100 - c) / 200.0, 1 - (100 - c) / 200.0):
            z = norm.ppf(p)
            q.append(100 * norm.cdf(z0 + (z0 + z) / (1 - a * (z0 + z))))
        out.append((z0, a, q[0], q[1]))
    return out


@case('P24', 150)
def bca(rng):
    R, K, N = int(rng.randint(5, 60)), int(rng.randint(1, 5)), int(rng.randint(2, 15))
    reps = np.round(rng.normal(size=(R, K)), 2)
    jack = rng.normal(size=(N, K)) ** 2
    if rng.randint(3) == 0:
        # precisely estimated parameters
        jack[:, int(rng.randint(K))] *= 10.0 ** rng.uniform(-9, -3)
    if rng.randint(4) == 0:
        jack[:, int(rng.randint(K))] = 0.5
    mle = np.array([float(np.median(reps[:, k])) + float(rng.normal()) * 0.1 for k in range(K)])
    for k in range(K):
        if rng.randint(3) == 0:          # replicates that tie with the estimate
            mle[k] = reps[int(rng.randint(R)), k]
    c = float(rng.uniform(20, 99.5))
    pr = bca_parts(reps, jack, mle, c)
    if any(not np.isfinite(p[0]) for p in pr):
        return
    fr = frozen(reps, jack, mle)
    close(bc.calc_bias_correction_bca(reps, mle), [p[0] for p in pr], 'bias correction')
    close(bc.calc_acceleration_bca(jack), [p[1] for p in pr], 'acceleration', rtol=1e-6)
    z0 = np.array([p[0] for p in pr])
    a = np.array([p[1] for p in pr])
    close(bc.calc_lower_bca_percentile(100 - c, z0, a), [p[2] for p in pr], 'lower percentage', rtol=1e-6)
    close(bc.calc_upper_bca_percentile(100 - c, z0, a), [p[3] for p in pr], 'upper percentage', rtol=1e-6)
    fr('BCa ingredients')
    if any(near(R, p[2]) or near(R, p[3]) for p in pr):
        return
    got = bc.calc_bca_interval(reps, jack, mle, c)
    fr('calc_bca_interval')
    close(got, np.array([[pct_lower(reps[:, k], pr[k][2]) for k in range(K)],
                         [pct_upper(reps[:, k], pr[k][3]) for k in range(K)]]), 'BCa interval')


@case('P24', 40)
def boot_object_intervals(rng):
    b = build(rng, mt=LOGIT[int(rng.randint(5))], named=True, weights=False)
    bo = bt.Boot(b.model, rng.normal(size=b.K) * 0.1)
    R = int(rng.randint(20, 50))
    for _ in range(int(rng.randint(1, 4))):
        intervals_once(rng, b, bo, R)
        R = R if rng.randint(2) else int(rng.randint(20, 50))


def intervals_once(rng, b, bo, R):
    reps, jack = rng.normal(size=(R, b.K)), rng.normal(size=(b.d.N, b.K)) ** 2
    bo.bootstrap_replicates = pd.DataFrame(reps, columns=b.names)
    bo.jackknife_replicates = pd.DataFrame(jack, columns=b.names)
    c = float(rng.uniform(50, 97))
    fake = rng.normal(size=(2, b.K))
    held = {}
    for mod, nm in ((bt, 'calc_abc_interval'), (abc, 'calc_abc_interval')):
        if hasattr(mod, nm):
            held[mod] = getattr(mod, nm)
            setattr(mod, nm, lambda *a, **k: fake.copy())
    how = int(rng.randint(3))
    try:
        if how == 0:
            bo.calc_percentile_interval(c)
            bo.calc_bca_interval(c)
        elif how == 1:
            bo.calc_conf_intervals(c, interval_type='pi')
            bo.calc_conf_intervals(c, interval_type='bca')
        else:
            bo.calc_conf_intervals(c, interval_type='all', init_vals=np.zeros(b.K))
    finally:
        for mod in held:
            setattr(mod, 'calc_abc_interval', held[mod])
    ends = ['%.3g%%' % ((100 - c) / 2.0), '%.3g%%' % (100 - (100 - c) / 2.0)]
    same(list(bo.percentile_interval.columns), ends, 'labels of the percentile interval')
    same(list(bo.bca_interval.columns), ends, 'labels of the BCa interval')
    if how == 2:
        same(list(bo.abc_interval.columns), ends, 'labels of the ABC interval')
        same(list(bo.all_intervals.columns), [(t, e) for t in ('percentile_interval', 'BCa_interval', 'ABC_interval') for e in ends],
             'labels of all intervals')
        close(bo.all_intervals.values, np.concatenate([bo.percentile_interval.values, bo.bca_interval.values, fake.T], axis=1), 'all intervals')
        same(list(bo.all_intervals.index), b.names, 'interval names')
    lo, hi = (100 - c) / 2.0, 100 - (100 - c) / 2.0
    if not (near(R, lo) or near(R, hi)):
        for k in range(b.K):
            close(bo.percentile_interval.values[k], [pct_lower(reps[:, k], lo), pct_upper(reps[:, k], hi)], 'percentile interval')
    pr = bca_parts(reps, jack, bo.mle_params.values, c)
    for k in range(b.K):
        if np.isfinite(pr[k][0]) and not (near(R, pr[k][2]) or near(R, pr[k][3])):
            close(bo.bca_interval.values[k], [pct_lower(reps[:, k], pr[k][2]), pct_upper(reps[:, k], pr[k][3])], 'BCa interval')
    same(list(bo.percentile_interval.index), b.names, 'interval names')
    same(list(bo.bca_interval.index), b.names, 'interval names')


# ----------------------------------------------------------------- P25
class FakeModel(object):
    """An estimator that is a smooth function of observation weights."""

    def __init__(self, rng, d, K, linear=()):
        self.d, self.K = d, K
        self.data = d.df.copy()
        self.obs_id_col = 'obs_id'
        self.A = rng.normal(size=(d.N, K))
        self.C = rng.normal(size=(d.N, K))
        self.linear = set(linear)
        self.seen = []

    def T(self, w):
        """w: one weight per observation"""
        w = np.array(w, dtype=float)
        out = np.zeros(self.K)
        for k in range(self.K):
            m = float(w.dot(self.A[:, k])) / (w.sum() if k not in self.linear else 1.0)
            out[k] = m if k in self.linear else m + 0.7 * m * m + 0.3 * float(w.dot(self.C[:, k])) ** 2
        return out

    def get_mappings_for_fit(self, dense=False):
        d = self.d
        return {'rows_to_obs': onehot(d.o, d.N), 'rows_to_alts': onehot(d.a, d.J), 'chosen_row_to_obs': None,
                'rows_to_nests': None, 'rows_to_mixers': None}

    def fit_mle(self, init_vals, weights=None, just_point=False, **kw):
        check(just_point, 'the estimator is asked for more than the point')
        w = np.asarray(weights)
        same(w.shape, (self.d.n,), 'one weight per row')
        base = self.base if hasattr(self, 'base') else np.ones(self.d.n)
        per = [None] * self.d.N
        for i in range(self.d.n):
            v = w[i] / base[i]
            if per[self.d.o[i]] is None:
                per[self.d.o[i]] = v
            check(abs(per[self.d.o[i]] - v) < 1e-9 * max(1, abs(v)), 'rows of one observation got different weights')
        self.seen.append((per, dict(kw), np.array(init_vals)))
        return {'x': self.T(per)}


def abc_setup(rng, eps=None):
    d = gen(rng, contiguous=True)
    K = int(rng.randint(1, 5))
    lin = [k for k in range(K) if rng.randint(4) == 0]
    f = FakeModel(rng, d, K, lin)
    n = d.N
    w0 = np.ones(n) / n
    t = f.T(w0)
    eps = float(rng.choice([1e-2, 1e-3, 5e-3])) if eps is None else eps
    plus, minus = [], []
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1.0
        plus.append(f.T((1 - eps) * w0 + eps * e))
        minus.append(f.T((1 + eps) * w0 - eps * e))
    plus, minus = np.array(plus), np.array(minus)
    return d, K, f, n, w0, t, eps, plus, minus


def abc_oracle(f, n, K, w0, t, eps, plus, minus, c):
    U = (plus - minus) / (2 * eps)
    U2 = (plus - 2 * t[None, :] + minus) / eps ** 2
    se = np.sqrt((U ** 2).sum(axis=0)) / n
    acc = (U ** 3).sum(axis=0) / (6 * (U ** 2).sum(axis=0) ** 1.5)
    bias = U2.sum(axis=0) / (2.0 * n * n)
    cq = np.zeros(K)
    for k in range(K):
        dlt = U[:, k] / (n * n * se[k])
        cq[k] = (f.T(w0 + eps * dlt)[k] - 2 * t[k] + f.T(w0 - eps * dlt)[k]) / (2 * se[k] * eps ** 2)
    curv = bias / se - cq
    z0 = norm.ppf(2 * norm.cdf(acc) * norm.cdf(-curv))
    ends = []
    for p in ((100 - c) / 200.0, 1 - (100 - c) / 200.0):
        w = z0 + norm.ppf(p)
        lam = w / (1 - acc * w) ** 2
        ends.append([f.T(w0 + lam[k] * U[:, k] / (se[k] * n * n))[k] for k in range(K)])
    return U, U2, se, acc, bias, cq, curv, z0, np.array(ends)


@case('P25', 100)
def abc_ingredients(rng):
    d, K, f, n, w0, t, eps, plus, minus = abc_setup(rng)
    c = float(rng.uniform(50, 99))
    U, U2, se, acc, bias, cq, curv, z0, ends = abc_oracle(f, n, K, w0, t, eps, plus, minus, c)
    init = rng.normal(size=K)
    kw = {}
    if rng.randint(2):
        per = np.round(rng.uniform(0.5, 2, size=d.N), 3)
        f.base = np.array([per[d.o[i]] for i in range(d.n)])
        kw['weights'] = f.base
    if rng.randint(2):
        kw['ridge'] = 0.25
    fr = frozen(t, init, kw, f.data)
    p, m = abc.calc_finite_diff_terms_for_abc(f, t, init, eps, **kw)
    close(p, plus, 'estimates at raised weights')
    close(m, minus, 'estimates at lowered weights')
    for per_, k_, i_ in f.seen:
        close(sum(per_), 1.0, 'weights sum to one')
        same(dict((a, b) for a, b in k_.items() if a != 'print_res'), dict((a, b) for a, b in kw.items() if a != 'weights'),
             'fit options passed through')
        close(i_, init, 'starting values passed through')
    close(abc.calc_empirical_influence_abc(plus, minus, eps), U, 'empirical influence', rtol=1e-6, atol=1e-7)
    close(abc.calc_2nd_order_influence_abc(t, plus, minus, eps), U2, 'second-order influence', rtol=1e-5, atol=1e-5)
    fr('ABC finite differences')
    del f.seen[:]
    f1, f2 = abc.calc_influence_arrays_for_abc(f, t, init, eps, **kw)
    for _, _, i_ in f.seen:
        close(i_, init, 'starting values passed through by the influence arrays')
    close(f1, U, 'influence arrays', rtol=1e-6, atol=1e-7)
    close(f2, U2, 'second-order influence arrays', rtol=1e-5, atol=1e-5)
    fu = frozen(U, U2, se)
    close(abc.calc_std_error_abc(U), se, 'standard error')
    close(abc.calc_acceleration_abc(U), acc, 'acceleration')
    close(abc.calc_bias_abc(U2), bias, 'bias', rtol=1e-6)
    close(abc.efron_quadratic_coef_abc(f, t, init, U, se, eps, **kw), cq, 'quadratic coefficient', rtol=1e-4, atol=1e-4)
    # the variants of the book (equation 22.37; full influence values in the endpoint)
    bq = []
    for k in range(K):
        dlt = U[:, k] / (n * n * se[k])
        bq.append((f.T((1 - eps) * w0 + eps * dlt)[k] - 2 * t[k] + f.T((1 - eps) * w0 - eps * dlt)[k]) / eps ** 2)
    close(abc.calc_quadratic_coef_abc(f, t, init, U, se, eps, **kw), np.array(bq), 'quadratic coefficient, book variant', rtol=1e-4, atol=1e-4)
    q = float(rng.uniform(1, 99))
    zz = acc * 0.5 + norm.ppf(q / 100)
    lm = zz / (1 - acc * zz) ** 2
    want = np.array([f.T(w0 + lm[k] * U[:, k] / se[k])[k] for k in range(K)])
    if np.isfinite(want).all():
        close(abc.calc_endpoint_from_percentile_abc(f, init, q, acc * 0.5, acc, se, U, **kw), want, 'endpoint, book variant', rtol=1e-6, atol=1e-8)
    close(abc.calc_total_curvature_abc(bias, se, cq), curv, 'total curvature')
    close(abc.calc_bias_correction_abc(acc, curv), z0, 'bias correction', rtol=1e-6)
    fu('ABC ingredients')
    if not np.isfinite(z0).all():
        return
    lo, hi = abc.efron_endpoints_for_abc_confidence_interval(c, f, init, z0, acc, se, U, **kw)
    close(lo, ends[0], 'lower endpoint', rtol=1e-6, atol=1e-8)
    close(hi, ends[1], 'upper endpoint', rtol=1e-6, atol=1e-8)
    got = abc.calc_abc_interval(f, t, init, c, epsilon=eps, **kw)
    close(got, ends, 'ABC interval', rtol=1e-3, atol=1e-3)
    fr('calc_abc_interval')


@case('P25', 40)
def abc_large_perturbations(rng):
    d, K, f, n, w0, t, eps, plus, minus = abc_setup(rng, eps=float(rng.uniform(0.1, 0.9)))
    init = rng.normal(size=K)
    p, m = abc.calc_finite_diff_terms_for_abc(f, t, init, eps)
    close(p, plus, 'estimates at raised weights')
    close(m, minus, 'estimates at lowered weights')
    for per_, k_, i_ in f.seen:
        close(sum(per_), 1.0, 'weights sum to one')
    close(abc.calc_empirical_influence_abc(plus, minus, eps), (plus - minus) / (2 * eps), 'empirical influence')
    close(abc.calc_2nd_order_influence_abc(t, plus, minus, eps), (plus - 2 * t[None, :] + minus) / eps ** 2, 'second-order influence', rtol=1e-6)


@case('P25', 60)
def weights_are_spread(rng):
    d = gen(rng, contiguous=bool(rng.randint(2)))
    f = FakeModel(rng, d, 1)
    w = rng.uniform(0, 2, size=d.N)
    fr = frozen(w)
    r2o = onehot(d.o, d.N)
    want = np.array([w[d.o[i]] for i in range(d.n)])
    close(abc.create_long_form_weights(f, w), want, 'long weights')
    close(abc.create_long_form_weights(f, w, rows_to_obs=r2o), want, 'long weights with mapping')
    W = rng.uniform(0, 2, size=(d.N, int(rng.randint(1, 4))))
    close(abc.create_long_form_weights(f, W), np.array([W[d.o[i]] for i in range(d.n)]), '2-D long weights')
    fr('create_long_form_weights')


@case('P25', 60)
def models_use_weights(rng):
    """the package's own models honour the weights the ABC machinery passes"""
    b = build(rng, weights=False, named=True)
    d = b.d
    per = [float(v) for v in np.round(rng.uniform(0.2, 2, size=d.M if b.mt == 'Mixed Logit' else d.N), 3)]
    w = [per[(d.m if b.mt == 'Mixed Logit' else d.o)[i]] for i in range(d.n)]
    b.w = b.orc.w = w
    th = point(rng, b)
    p = Probe(th)
    a = dict(b.fit_kw)
    if b.ridge is not None:
        a['ridge'] = b.ridge
    with hooked(p):
        r = b.model.fit_mle(np.zeros(b.K), print_res=False, just_point=True, weights=np.array(w), **a)
    x, f, g, H = p.calls[0].evals[-1]
    close(f, -re(b.orc.ll(th)), '%s weighted objective' % b.mt)
    if b.mt == 'Mixed Logit':
        return
    # finite differences on the real model: every re-estimation uses the perturbed weights
    eps = 0.01
    seen = []

    def hook(real, fun, x0, **k):
        pr = Probe(th)
        res = pr(real, fun, x0, **k)
        seen.append(pr.calls[0].evals[-1][1])
        return res
    with hooked(hook):
        abc.calc_finite_diff_terms_for_abc(b.model, np.array(th), np.zeros(b.K), eps, print_res=False)
    n = d.N
    lp = [cmath.log(v).real for v in b.orc.probs(th)]
    ll = [0.0] * n
    for i in range(d.n):
        if d.y[i]:
            ll[d.o[i]] += lp[i]
    want = []
    pen = 0.0
    for i in range(n):
        for s in (1, -1):
            wt = [(1 - s * eps) / n + (s * eps if q == i else 0) for q in range(n)]
            want.append(-sum(u * v for u, v in zip(wt, ll)))
    same(len(seen), 2 * n, 'number of re-estimations')
    zero = [0.0] * b.K
    got = sorted(seen)
    close(got, sorted(want), '%s objectives of the perturbed fits' % b.mt, rtol=1e-6)


@case('P25', 20)
def boot_abc(rng):
    """Boot.calc_abc_interval labels and orientation"""
    d, K, f, n, w0, t, eps, plus, minus = abc_setup(rng)
    f.ind_var_names = ['p%d' % k for k in range(K)]
    f.intercept_names = f.shape_names = f.nest_names = None
    bo = bt.Boot(f, t)
    c = float(rng.uniform(60, 95))
    U, U2, se, acc, bias, cq, curv, z0, ends = abc_oracle(f, n, K, w0, t, eps, plus, minus, c)
    if not np.isfinite(ends).all():
        return
    bo.calc_abc_interval(c, np.zeros(K), epsilon=eps)
    close(bo.abc_interval.values, ends.T, 'Boot ABC interval', rtol=1e-3, atol=1e-3)
    R = 30
    bo.bootstrap_replicates = pd.DataFrame(rng.normal(size=(R, K)) * 0.1 + t, columns=f.ind_var_names)
    bo.jackknife_replicates = pd.DataFrame(rng.normal(size=(n, K)), columns=f.ind_var_names)
    bo.calc_conf_intervals(c, interval_type='all', init_vals=np.zeros(K), epsilon=eps)
    close(bo.all_intervals.values, np.concatenate([bo.percentile_interval.values, bo.bca_interval.values, bo.abc_interval.values],
                                                  axis=1), 'all intervals')
    close(bo.all_intervals['ABC_interval'].values, ends.T, 'ABC part', rtol=1e-3, atol=1e-3)
    close(bo.all_intervals['percentile_interval'].values, bo.percentile_interval.values, 'percentile part')
    close(bo.all_intervals['BCa_interval'].values, bo.bca_interval.values, 'BCa part')


# ----------------------------------------------------------------- P26
def sub_data(d, picks):
    """Data made of the observations listed in picks (ids), relabelled 1..n."""
    e = Data()
    e.rows = []
    for k, v in enumerate(picks):
        for r in d.rows:
            if r['obs_id'] == v:
                q = dict(r)
                q['obs_id'] = k + 1
                e.rows.append(q)
    index(e)
    return e


def oracle_for(b, e, spec, cls='model'):
    from c_model import col_oracle
    bb = B()
    bb.spec = spec
    X = col_oracle(bb, e.rows, b.d.alts)
    if cls == 'MNL':
        return Logit('MNL', e, X)
    if b.mt == 'Nested Logit':
        pos = {}
        for k, v in enumerate(b.nest_spec.values()):
            for a in v:
                pos[a] = k
        return Nested(e, X, [pos[r['alt_id']] for r in e.rows], b.sizes[0], None, b.ridge)
    return Logit(b.mt, e, X, b.sr, b.ir, None, b.ridge)


def boot_setup(rng, mt=None):
    mt = mt or ['MNL', 'Asym', 'Cloglog', 'Scobit', 'Uneven', 'Nested Logit'][int(rng.randint(6))]
    d = gen(rng, nobs=int(rng.randint(5, 9)), full=True)
    sh = bool(rng.randint(2)) and mt != 'MNL'
    for _ in range(50):
        b = build(rng, mt=mt, d=d, named=True, weights=False, model_names=True)
        if not (b.ir is not None and 'intercept' in b.spec):
            break
    if mt == 'MNL':
        b.ridge = b.orc.ridge = None
    mnl = None
    mspec, mnames = b.spec, b.nm
    if b.ir is not None:
        al = [a for k, a in enumerate(d.alts) if k != b.ir]
        mspec, mnames = OrderedDict(), OrderedDict()
        items = [('intercept', al, list(b.kw['intercept_names']))] + [(k, b.spec[k], b.nm[k]) for k in b.spec]
        for t in rng.permutation(len(items)):
            mspec[items[t][0]] = items[t][1]
            mnames[items[t][0]] = items[t][2]
    if mt != 'MNL':
        mnl = pl.create_choice_model(d.df.copy(), 'alt_id', 'obs_id', 'choice', mspec, 'MNL', names=mnames)
    return b, mnl, mspec


def default_init(b, mnl_names, x):
    val = dict(zip(mnl_names, x))
    J = b.d.J
    out = [0.0] * (b.sizes[0] + b.sizes[1])
    if b.sizes[2]:
        out += [val[k] for k in b.gnames[2]]
    idx = [val[k] for k in b.gnames[3] if not k.startswith('Sigma ')]
    if b.mt == 'Asym':
        idx = [v / math.log(J) for v in idx]
    out += idx + [0.0] * (b.sizes[3] - len(idx))
    return out


class Chain(object):
    """Optimiser stand-in that returns a different point for every call."""

    def __init__(self, rng):
        self.rng, self.calls = rng, []

    def __call__(self, real, fun, x0, **k):
        x = np.round(self.rng.normal(size=len(x0)) * 0.3, 4)
        p = Probe(x)
        r = p(real, fun, x0, **k)
        c = p.calls[0]
        c.x = x
        self.calls.append(c)
        return r


def check_chain(b, mnl, mspec, calls, datasets, table, what):
    per = 1 if b.mt == 'MNL' else 2
    same(len(calls), per * len(datasets), '%s: optimiser calls' % what)
    for j, e in enumerate(datasets):
        c = calls[per * j]
        mo = oracle_for(b, e, mspec, 'MNL')
        close(c.evals[-1][1], -re(mo.ll(list(c.x))), '%s %d: MNL objective is not that of its own data' % (what, j), rtol=1e-6)
        if per == 2:
            c2 = calls[per * j + 1]
            close(c2.x0, default_init(b, list(mnl.ind_var_names), c.x), '%s %d: starting values' % (what, j))
            o2 = oracle_for(b, e, b.spec)
            close(c2.evals[-1][1], -re(o2.ll(list(c2.x))), '%s %d: objective is not that of its own data' % (what, j), rtol=1e-6)
            c = c2
        close(table[j], c.x, '%s %d: stored replicate' % (what, j))


@case('P26', 40)
def bootstrap_replicates(rng):
    b, mnl, mspec = boot_setup(rng)
    bo = bt.Boot(b.model, point(rng, b))
    S, seed = int(rng.randint(1, 4)), int(rng.randint(1, 9999))
    d = b.d
    samples_ = bs.create_cross_sectional_bootstrap_samples(b.model.data['obs_id'].values, b.model.alt_IDs, b.model.choices, S, seed=seed)
    ch = Chain(rng)
    fr = frozen(b.model.data)
    with hooked(ch):
        bo.generate_bootstrap_replicates(S, mnl_obj=mnl, mnl_init_vals=None if mnl is None else np.zeros(len(mnl.ind_var_names)),
                                         mnl_fit_kwargs={'print_res': False}, ridge=b.ridge, boot_seed=seed)
    fr('generate_bootstrap_replicates')
    same(list(bo.bootstrap_replicates.columns), b.names, 'replicate names')
    same(bo.bootstrap_replicates.shape, (S, b.K), 'replicate table')
    check_chain(b, mnl, mspec, ch.calls, [sub_data(d, [int(v) for v in samples_[j]]) for j in range(S)],
                bo.bootstrap_replicates.values, 'bootstrap')


@case('P26', 16)
def replicates_again(rng):
    b, mnl, mspec = boot_setup(rng)
    bo = bt.Boot(b.model, point(rng, b))
    d = b.d
    ids = sorted(set(r['obs_id'] for r in d.rows))
    zero = None if mnl is None else np.zeros(len(mnl.ind_var_names))
    for what in ('bootstrap', 'jackknife', 'bootstrap'):
        ch = Chain(rng)
        S, seed = int(rng.randint(1, 4)), int(rng.randint(1, 9999))
        b.ridge = b.orc.ridge = None if b.mt == 'MNL' or rng.randint(2) else 0.2
        kw = dict(mnl_obj=mnl, mnl_init_vals=zero, mnl_fit_kwargs={'print_res': False}, ridge=b.ridge)
        if what == 'bootstrap':
            smp = bs.create_cross_sectional_bootstrap_samples(d.df['obs_id'].values, d.df['alt_id'].values, d.df['choice'].values,
                                                              S, seed=seed)
            sets = [sub_data(d, [int(v) for v in smp[j]]) for j in range(S)]
        else:
            sets = [sub_data(d, [v for v in ids if v != w]) for w in ids]
        with hooked(ch):
            if what == 'bootstrap':
                bo.generate_bootstrap_replicates(S, boot_seed=seed, **kw)
            else:
                bo.generate_jackknife_replicates(**kw)
        tab = getattr(bo, what + '_replicates')
        same(tab.shape, (len(sets), b.K), 'replicate table')
        check_chain(b, mnl, mspec, ch.calls, sets, tab.values, what + ' again')


@case('P26', 40)
def jackknife_replicates(rng):
    b, mnl, mspec = boot_setup(rng)
    bo = bt.Boot(b.model, point(rng, b))
    d = b.d
    ids = sorted(set(r['obs_id'] for r in d.rows))
    ch = Chain(rng)
    fr = frozen(b.model.data)
    with hooked(ch):
        bo.generate_jackknife_replicates(mnl_obj=mnl, mnl_init_vals=None if mnl is None else np.zeros(len(mnl.ind_var_names)),
                                         mnl_fit_kwargs={'print_res': False}, ridge=b.ridge)
    fr('generate_jackknife_replicates')
    same(list(bo.jackknife_replicates.columns), b.names, 'replicate names')
    check_chain(b, mnl, mspec, ch.calls, [sub_data(d, [v for v in ids if v != w]) for w in ids],
                bo.jackknife_replicates.values, 'jackknife')


@case('P26', 80)
def replicate_likelihoods(rng):
    b = build(rng, named=True, weights=False, ridge=None)
    if b.mt == 'Mixed Logit':
        fit(b, point(rng, b), cons=list(range(b.K)))
    bo = bt.Boot(b.model, point(rng, b))
    for _ in range(1 + int(rng.randint(3) == 0)):       # a second call sees new replicates
        likelihoods_once(rng, b, bo)


def likelihoods_once(rng, b, bo):
    n = int(rng.randint(1, 5))
    reps = [point(rng, b) for _ in range(n)]
    b.ridge = b.orc.ridge = None
    b.orc.w = [1.0] * b.d.n
    which = ['bootstrap', 'jackknife'][int(rng.randint(2))]
    setattr(bo, which + '_replicates', pd.DataFrame(np.array(reps), columns=b.names))
    fr = frozen(b.model.data.drop('intercept', axis=1, errors='ignore'), getattr(bo, which + '_replicates'))
    if b.mt == 'Mixed Logit':
        R, seed = 3, int(rng.randint(1, 999))
        draws = mlc.get_normal_draws(b.d.M, R, len(b.mp), seed=seed)
        orc = Mixed(b.d, b.X, b.mp, draws)
        want = []
        for t in reps:
            k = orc.kern(t)
            want.append(sum(math.log(sum(k[r][i].real for r in range(R)) / R) for i in range(b.d.n) if b.d.y[i]))
        got = bo.calc_log_likes_for_replicates(replicates=which, num_draws=R, seed=seed)
    else:
        want = [re(b.orc.ll(t)) for t in reps]
        got = bo.calc_log_likes_for_replicates(replicates=which)
    close(got, want, '%s replicate log-likelihoods' % b.mt, rtol=1e-6)
    close(getattr(bo, which + '_log_likelihoods').values, want, 'stored replicate log-likelihoods', rtol=1e-6)
    ridge = None if rng.randint(2) else 0.3
    w = None if rng.randint(2) else np.array(person_weights(rng, b.d) if b.mt == 'Mixed Logit' else obs_weights(rng, b.d, 1))
    b.ridge = b.orc.ridge = ridge
    b.orc.w = [1.0] * b.d.n if w is None else list(w)
    got = bo.calc_gradient_norm_for_replicates(replicates=which, ridge=ridge, weights=w)
    close(got, [float(np.sqrt((o_grad(b, t) ** 2).sum())) for t in reps], '%s gradient norms' % b.mt, rtol=1e-5, atol=1e-6)
    fr('replicate calculations')


@case('P26', 80)
def default_starting_values(rng):
    b = build(rng, named=True, weights=False, model_names=True)
    if b.ir is not None and 'intercept' in b.spec:
        return
    idx = [k for k in b.gnames[3] if not k.startswith('Sigma ')]
    names = list(b.gnames[2]) + idx
    if b.ir is not None:
        names = [names[t] for t in rng.permutation(len(names))]
    x = rng.normal(size=len(names)) if rng.randint(2) else np.arange(1, len(names) + 1)
    s = pd.Series(x, index=names)
    fr = frozen(s)
    got = bmle.extract_default_init_vals(b.model, s, b.K)
    fr('extract_default_init_vals')
    close(got, default_init(b, names, x), '%s default starting values' % b.mt)


# ----------------------------------------------------------------- P28 pieces
@case('P28', 40)
def conversions_leave_inputs(rng):
    from c_tools import conv_data
    from pylogit import choice_tools as ct
    d, df, sub = conv_data(rng)
    df = df.drop('s1', axis=1)
    fr = frozen(df)
    w = ct.convert_long_to_wide(df, ['z', 'z2', 'pid'], ['x1', 'x2'], {}, 'obs_id', 'alt_id', 'choice')
    fr('convert_long_to_wide')
    alts = list(d.alts)
    avail = OrderedDict((a, 'availability_%d' % a) for a in alts)
    avars = OrderedDict((x, dict((a, '%s_%d' % (x, a)) for a in alts)) for x in ('x1', 'x2'))
    ind = ['z', 'z2', 'pid']
    fr = frozen(w, avail, avars, ind)
    ct.convert_wide_to_long(w, ind, avars, avail, 'obs_id', 'choice', 'alt_id')
    fr('convert_wide_to_long')


for _f in (samples, boot_frame, bca, percentile, abc_ingredients, replicate_likelihoods, default_starting_values, replicate_tables,
           predicts_new_data, panel_predictions):
    case('P28', 20)(frame_only(_f))


@case('P28', 30)
def tools_leave_inputs(rng):
    from pylogit import choice_tools as ct
    d = gen(rng)
    nspec, nest, M = gen_nests(rng, d)
    df = d.df.copy()
    df['intercept'] = 1.0
    sp, nm, cols = gen_spec(rng, d)
    fr = frozen(df, sp, nm, nspec)
    ct.create_long_form_mappings(df, 'obs_id', 'alt_id', choice_col='choice', nest_spec=nspec, mix_id_col='pid')
    fr('create_long_form_mappings')
    ct.create_design_matrix(df, sp, 'alt_id', names=nm)
    fr('create_design_matrix')
