"""Concrete cases: parameter splitting and naming (P17), post-estimation statistics (P18), constraints
(P19), estimation flow (P20), prediction (P21, P22), frames (P28), dispatch (P30)."""
from lib import *
import math
import numpy as np
import pandas as pd
from scipy.optimize import OptimizeResult
from scipy.stats import norm
import scipy.sparse as sps
from pylogit import pylogit as pl
from pylogit import base_multinomial_cm_v2 as bm
from pylogit import estimation as es
from pylogit import choice_calcs as cc
from pylogit import choice_tools as ct
from pylogit import mixed_logit_calcs as mlc
from pylogit import asym_logit, clog_log, scobit, uneven_logit, conditional_logit, mixed_logit, nested_logit
from pylogit import construct_estimator as ce
from pylogit import bootstrap as bt
from pylogit import bootstrap_mle as bmle
from pylogit.construct_estimator import create_estimation_obj

SMODS = {'MNL': conditional_logit, 'Asym': asym_logit, 'Cloglog': clog_log, 'Scobit': scobit, 'Uneven': uneven_logit,
         'Nested Logit': nested_logit, 'Mixed Logit': mixed_logit}
CLS = {'MNL': conditional_logit.MNL, 'Asym': asym_logit.MNAL, 'Cloglog': clog_log.MNCL, 'Scobit': scobit.MNSL,
       'Uneven': uneven_logit.MNUL, 'Nested Logit': nested_logit.NestedLogit, 'Mixed Logit': mixed_logit.MixedLogit}
EST = {'MNL': conditional_logit.MNLEstimator, 'Asym': asym_logit.AsymEstimator, 'Cloglog': clog_log.ClogEstimator,
       'Scobit': scobit.ScobitEstimator, 'Uneven': uneven_logit.UnevenEstimator,
       'Nested Logit': nested_logit.NestedEstimator, 'Mixed Logit': mixed_logit.MixedEstimator}
TITLE = {'MNL': 'Multinomial Logit Model', 'Asym': 'Multinomial Asymmetric Logit Model',
         'Cloglog': 'Multinomial Clog-log Model', 'Scobit': 'Multinomial Scobit Model',
         'Uneven': 'Multinomial Uneven Logit Model', 'Nested Logit': 'Nested Logit Model', 'Mixed Logit': 'Mixed Logit Model'}
ALL = list(CLS)


class B(object):
    pass


def build(rng, mt=None, d=None, named=None, rich=True, weights=True, ridge='any', model_names=None):
    """A model of type mt with everything the oracles need."""
    b = B()
    b.mt = mt = mt or ALL[int(rng.randint(7))]
    b.d = d = d or gen(rng)
    sp, nm, cols = gen_spec(rng, d, rich=rich, names=model_names)
    b.spec, b.nm, b.cols = sp, nm, cols
    b.X = X = design_of(cols)
    J = d.J
    idx = [c[0] for c in cols]
    kw = dict(names=nm)
    b.sr = b.ir = b.nest_spec = b.mp = None
    b.sizes = [0, 0, 0, len(idx)]
    b.gnames = [[], [], [], list(idx)]
    named = bool(rng.randint(2)) if named is None else named
    if mt == 'Asym':
        b.sr = kw['shape_ref_pos'] = int(rng.randint(J))
    if mt in ('Asym', 'Cloglog', 'Scobit', 'Uneven') and rng.randint(2):
        b.ir = kw['intercept_ref_pos'] = int(rng.randint(J))
        b.sizes[2] = J - 1
        b.gnames[2] = ['Outside_ASC_%d' % (k + 1) for k in range(J - 1)]
        if named:
            b.gnames[2] = kw['intercept_names'] = ['my asc %s' % chr(122 - k) for k in range(J - 1)]
    S = {'Asym': J - 1, 'Scobit': J, 'Uneven': J}.get(mt, 0)
    if S:
        b.sizes[1] = S
        b.gnames[1] = ['Shape_%d' % (k + 1) for k in range(S)]
        if named:
            b.gnames[1] = kw['shape_names'] = ['my shape %s' % chr(122 - k) for k in range(S)]
    b.w = obs_weights(rng, d) if weights else [1.0] * d.n
    b.ridge = None if (ridge is None or (ridge == 'any' and rng.randint(2))) else float(np.round(rng.uniform(0.05, 1), 3))
    b.fit_kw = {}
    if mt == 'Nested Logit':
        b.nest_spec, b.nest, M = gen_nests(rng, d)
        kw['nest_spec'] = b.nest_spec
        b.sizes[0] = M
        b.gnames[0] = list(b.nest_spec)
        b.orc = Nested(d, X, b.nest, M, b.w, b.ridge)
    elif mt == 'Mixed Logit':
        nv = min(len(idx), int(rng.randint(1, 3)))
        b.mp = [int(v) for v in rng.choice(len(idx), size=nv, replace=False)]
        kw.update(mixing_id_col='pid', mixing_vars=[idx[p] for p in b.mp])
        b.sizes[3] += nv
        b.gnames[3] += ['Sigma ' + idx[p] for p in b.mp]
        b.R = int(rng.choice([1, 2, 4]))
        b.seed = int(rng.randint(1, 10 ** 6))
        b.draws = mlc.get_normal_draws(d.M, b.R, nv, seed=b.seed)
        b.fit_kw = dict(num_draws=b.R, seed=b.seed)
        if weights:
            b.w = person_weights(rng, d)
        b.orc = Mixed(d, X, b.mp, b.draws, b.w, b.ridge)
    else:
        b.orc = Logit(mt, d, X, b.sr, b.ir, b.w, b.ridge)
    b.kw = kw
    b.K = sum(b.sizes)
    b.names = sum(b.gnames, [])
    b.df = d.df.copy()
    b.model = pl.create_choice_model(b.df, 'alt_id', 'obs_id', 'choice', sp, mt, **kw)
    return b


def point(rng, b, scale=0.5):
    for s in (scale, scale / 2, scale / 5, 0.03):
        th = [float(v) for v in np.round(rng.normal(size=b.K) * s, 4)]
        bb = th[b.K - b.sizes[3]:]
        if b.mt == 'Mixed Logit':
            return th
        V = [sum(x * t for x, t in zip(r, bb)) for r in b.orc.X]
        if max(abs(v) for v in V) < 4:
            return th
    return th


def parts(b, th):
    out, k = [], 0
    for n in b.sizes:
        out.append(th[k:k + n] if n else None)
        k += n
    return out


def o_hess(b, th):
    if b.mt in ('Nested Logit', 'Mixed Logit'):
        return np.array(b.orc.bhhh(th))
    return np.array(b.orc.hess(th))


def o_fisher(b, th):
    if b.mt in ('Nested Logit', 'Mixed Logit'):
        return None
    return np.array(b.orc.fisher(th))


def o_grad(b, th):
    """Gradient; None where finding nested-ridge-gradient applies."""
    if b.mt == 'Nested Logit' and b.ridge:
        b.orc.ridge = None
        g = np.array(b.orc.grad(th))
        b.orc.ridge = b.ridge
        M = b.sizes[0]
        for k in range(len(th)):
            g[k] -= 2 * b.ridge * ((20 - th[k]) if k < M else th[k])
        return g
    return np.array(b.orc.grad(th))


class Probe(object):
    """Stands in for the optimiser: records the call and returns a chosen point."""

    def __init__(self, x, tests=()):
        self.x, self.tests = np.array(x, dtype=float), tests
        self.calls = []

    def __call__(self, real, fun, x0, args=(), method=None, jac=None, hess=None, **k):
        rec = B()
        rec.x0 = np.array(x0, dtype=float)
        rec.method = method
        rec.options = k.get('options')
        rec.evals = []
        buf = np.array(self.x)
        for t in list(self.tests) + [self.x]:
            # as optimisers do: one array, overwritten between the evaluations
            t = np.array(t, dtype=float)
            buf[:] = t
            r = fun(buf, *args)
            f, g = r if jac is True else (r, jac(buf, *args) if callable(jac) else None)
            H = hess(buf, *args) if callable(hess) else None
            rec.evals.append((t, float(f), None if g is None else np.array(g, dtype=float),
                              None if H is None else np.array(H, dtype=float)))
        self.calls.append(rec)
        f = rec.evals[-1][1]
        return OptimizeResult(x=self.x.copy(), fun=f, success=True, message='probe', status=0, nfev=1, nit=1, njev=1,
                              jac=rec.evals[-1][2])


def cons_for(rng, b):
    k = int(rng.randint(3))
    if k == 0:
        return None
    n = int(rng.randint(1, b.K + 1))
    return [int(v) for v in rng.choice(b.K, size=n, replace=False)]


def fit(b, th, init=None, cons=None, tests=(), **kw):
    p = Probe(th, tests)
    a = dict(b.fit_kw)
    a.update(kw)
    if b.ridge is not None:
        a['ridge'] = b.ridge
    if cons is not None:
        a['constrained_pos'] = list(cons)
    if not all(v == 1.0 for v in b.w):
        a['weights'] = np.array(b.w)
    with hooked(p):
        res = b.model.fit_mle(np.array(init if init is not None else [0.0] * b.K), print_res=False, **a)
    check(len(p.calls) == 1, 'the optimiser was called %d times' % len(p.calls))
    return res, p.calls[0]


def zcons(b, cons):
    """All constrained positions."""
    c = set(cons or [])
    if b.mt == 'Nested Logit':
        for k, v in enumerate(b.nest_spec.values()):
            if len(v) == 1:
                c.add(k)
    return sorted(c)


def with_cons(b, H, cons):
    """Second-derivative matrix the estimator reports under constraints."""
    if b.mt in ('Nested Logit', 'Mixed Logit'):
        H = H.copy()
        for k in zcons(b, cons):
            H[k, :] = 0
            H[:, k] = 0
            H[k, k] = -1
    return H


def usable(H):
    return np.isfinite(H).all() and np.linalg.cond(H) < 1e8 and (np.diag(-np.linalg.inv(H)) > 0).all()


def prep(b, th, cons=None):
    """Constraints (possibly extended) under which the reported Hessian can be inverted."""
    if usable(with_cons(b, o_hess(b, th), cons)):
        return cons
    if b.mt in ('Nested Logit', 'Mixed Logit'):
        return list(range(b.K))
    b.ridge = b.orc.ridge = 0.5
    return cons


def earlier(rng, b):
    """now and then the model already holds the results of another fit"""
    if rng.randint(4) == 0:
        r0 = b.ridge
        t0 = point(rng, b)
        c0 = prep(b, t0, cons_for(rng, b))
        if usable(with_cons(b, o_hess(b, t0), c0)):
            fit(b, t0, cons=c0)
        b.ridge = b.orc.ridge = r0


# ----------------------------------------------------------------- P17
@case('P17', 120)
def split_vectors(rng):
    b = build(rng)
    th = [float(k + 1) + 0.25 for k in range(b.K)]
    est = None
    if b.mt == 'Mixed Logit':
        b.model.design_3d = mlc.create_expanded_design_for_mixing(b.model.design, b.draws, b.model.mixing_pos, onehot(b.d.m, b.d.M))
    est = create_estimation_obj(b.model, np.array(th))
    v = np.array(th)
    fr = frozen(v)
    al = est.convenience_split_params(v, return_all_types=True)
    want = parts(b, th)
    same(len(al), 4, 'four groups')
    for k, (g, w) in enumerate(zip(al, want)):
        check((g is None) == (w is None), '%s group %d: got %r expected %r' % (b.mt, k, g, w))
        if w is not None:
            close(g, w, '%s group %d' % (b.mt, k))
    short = est.convenience_split_params(v)
    ws = [want[0], want[3]] if b.mt == 'Nested Logit' else want[1:]
    same(len(short), len(ws), 'number of groups')
    for g, w in zip(short, ws):
        check((g is None) == (w is None), '%s: group %r expected %r' % (b.mt, g, w))
        if w is not None:
            close(g, w, '%s group' % b.mt)
    fr('split_params')
    # the module function
    f = SMODS[b.mt].split_param_vec
    r2a = onehot(b.d.a, b.d.J)
    if b.mt == 'Nested Logit':
        got = f(v, onehot(b.nest, b.sizes[0]), return_all_types=True)
    elif b.mt == 'Mixed Logit':
        got = f(v, return_all_types=True)
    else:
        got = f(v, r2a, b.X, return_all_types=True)
    for g, w in zip(got, want):
        check((g is None) == (w is None), 'split_param_vec %r expected %r' % (g, w))
        if w is not None:
            close(g, w, 'split_param_vec')


@case('P17', 60)
def split_pure(rng):
    """split functions on bare arrays of any size"""
    J, K = int(rng.randint(2, 9)), int(rng.randint(1, 9))
    r2a = onehot([int(rng.randint(J)) for _ in range(12)], J)
    X = np.zeros((12, K))
    for mt in ('Asym', 'Cloglog', 'Scobit', 'Uneven'):
        S = {'Asym': J - 1, 'Cloglog': 0}.get(mt, J)
        for I in (0, J - 1):
            v = np.arange(S + I + K) + 1.5
            got = SMODS[mt].split_param_vec(v, r2a, X, return_all_types=True)
            want = [None, v[:S] if S else None, v[S:S + I] if I else None, v[S + I:]]
            for g, w in zip(got, want):
                check((g is None) == (w is None), '%s %r expected %r' % (mt, g, w))
                if w is not None:
                    close(g, w, '%s split' % mt)


@case('P17', 90)
def stored_names(rng):
    b = build(rng)
    earlier(rng, b)
    th = point(rng, b)
    cons = prep(b, th)
    fit(b, th, cons=cons)
    m = b.model
    for attr in ('params', 'gradient', 'standard_errors', 'tvalues', 'pvalues', 'robust_std_errs', 'robust_t_stats', 'robust_p_vals'):
        same(list(getattr(m, attr).index), b.names, '%s names of %s' % (b.mt, attr))
    for attr in ('hessian', 'cov', 'robust_cov', 'fisher_information'):
        same(list(getattr(m, attr).index), b.names, 'row names of %s' % attr)
        same(list(getattr(m, attr).columns), b.names, 'column names of %s' % attr)
    close(m.params.values, th, 'parameter order')
    pt = parts(b, th)
    for attr, k in (('nests', 0), ('shapes', 1), ('intercepts', 2), ('coefs', 3)):
        g = getattr(m, attr)
        if pt[k] is None:
            check(g is None, '%s must be absent' % attr)
        else:
            close(g.values, pt[k], attr)
            same(list(g.index), b.gnames[k], 'names of %s' % attr)
    same(list(m.summary.index), b.names, 'summary names')
    close(m.summary.iloc[:, 0].values, th, 'summary parameters')


@case('P17', 60)
def replicate_tables(rng):
    b = build(rng, named=True)
    if b.mt == 'Mixed Logit':
        b.model._add_mixing_variable_names_to_individual_vars()
    n = int(rng.randint(1, 5))
    reps = rng.normal(size=(n, b.K))
    fr = frozen(reps)
    got = bt.get_param_list_for_prediction(b.model, reps)
    fr('get_param_list_for_prediction')
    k, want = 0, []
    for s in b.sizes:
        want.insert(0, reps[:, k:k + s].T if s else None)
        k += s
    same(len(got), 4, 'four groups')
    for g, w in zip(got, want):
        check((g is None) == (w is None), 'replicate group %r expected %r' % (g, w))
        if w is not None:
            close(g, w, 'replicate group')
    fr2 = frozen(b.model.ind_var_names, b.model.intercept_names, b.model.shape_names)
    same(list(bt.get_param_names(b.model)), b.names, 'get_param_names')
    fr2('get_param_names')
    bo = bt.Boot(b.model, np.arange(b.K) + 0.5)
    same(list(bo.mle_params.index), b.names, 'Boot parameter names')
    close(bo.mle_params.values, np.arange(b.K) + 0.5, 'Boot parameters')


# ----------------------------------------------------------------- P18
@case('P18', 100)
def statistics(rng):
    b = build(rng)
    earlier(rng, b)
    th = point(rng, b)
    cons = cons_for(rng, b) if rng.randint(3) == 0 else None
    cons = prep(b, th, cons)
    H = with_cons(b, o_hess(b, th), cons)
    if not usable(H):
        return
    fit(b, th, cons=cons)
    m, d = b.model, b.d
    zc = zcons(b, cons)
    L, L0, K = re(b.orc.ll(th)), re(b.orc.ll([0.0] * b.K)), b.K
    close(m.log_likelihood, L, 'log-likelihood')
    close(m.null_log_likelihood, L0, 'null log-likelihood')
    if L0 == 0:
        return
    close(m.rho_squared, 1 - L / L0, 'rho squared')
    close(m.rho_bar_squared, 1 - (L - K) / L0, 'rho bar squared')
    close(m.aic, -2 * L + 2 * K, 'AIC')
    close(m.bic, -2 * L + K * math.log(d.N), 'BIC')
    same(m.nobs, d.N, 'nobs')
    same(m.df_model, K, 'df_model')
    same(m.df_resid, d.N - K, 'df_resid')
    close(m.llf, L, 'llf')
    close(bm.compute_aic(m), -2 * L + 2 * K, 'compute_aic')
    close(bm.compute_bic(m), -2 * L + K * math.log(d.N), 'compute_bic')
    if b.mt == 'Mixed Logit':
        kern = b.orc.kern(th)
        p = np.array([[kern[r][i].real for r in range(b.R)] for i in range(d.n)])
        y = np.array(d.y)[:, None]
        chi = np.zeros((d.N, b.R))
    else:
        p = np.array(re(b.orc.probs(th)))
        y = np.array(d.y)
        chi = np.zeros(d.N)
    close(m.long_fitted_probs, p, 'fitted probabilities', rtol=1e-6)
    close(m.long_residuals, y - p, 'residuals', rtol=1e-6)
    t = (y - p) ** 2 / p
    for i in range(d.n):
        chi[d.o[i]] += t[i]
    close(m.ind_chi_squareds, chi, 'chi-squares', rtol=1e-6)
    close(m.chi_square, chi.sum(), 'chi-square', rtol=1e-6)
    C = -np.linalg.inv(H)
    close(m.cov.values, C, 'covariance', rtol=1e-4, atol=1e-7)
    se = np.sqrt(np.diag(C))
    ok = [k for k in range(K) if k not in zc]
    x = np.array(th)
    close(m.standard_errors.values[ok], se[ok], 'standard errors', rtol=1e-4)
    close(m.tvalues.values[ok], (x / se)[ok], 't statistics', rtol=1e-4)
    close(m.pvalues.values[ok], 2 * norm.cdf(-np.abs(x / se))[ok], 'p-values', rtol=1e-3, atol=1e-8)
    F = o_fisher(b, th)
    if F is not None:
        close(m.fisher_information.values, F, 'Fisher information', rtol=1e-6, atol=1e-6)
        R = np.linalg.inv(H).dot(F).dot(np.linalg.inv(H))
        close(m.robust_cov.values, R, 'robust covariance', rtol=1e-3, atol=1e-6)
        with np.errstate(all='ignore'):
            rs = np.sqrt(np.diag(R))
        good = [k for k in ok if np.diag(R)[k] > 1e-6]
        close(m.robust_std_errs.values[good], rs[good], 'robust standard errors', rtol=1e-3)
        close(m.robust_t_stats.values[good], (x / rs)[good], 'robust t', rtol=1e-3)
        close(m.robust_p_vals.values[good], 2 * norm.cdf(-np.abs(x / rs))[good], 'robust p', rtol=1e-2, atol=1e-7)
    alpha = float(rng.uniform(0.01, 0.99))
    ci = m.conf_int(alpha=alpha)
    z = norm.ppf(1 - alpha / 2)
    close(ci[ok, 0], (x - z * se)[ok], 'lower confidence limit', rtol=1e-4, atol=1e-7)
    close(ci[ok, 1], (x + z * se)[ok], 'upper confidence limit', rtol=1e-4, atol=1e-7)
    if len(set(b.names)) == len(b.names):
        sub = [b.names[k] for k in rng.permutation(K)][:int(rng.randint(1, K + 1))]
        cs = m.conf_int(alpha=alpha, coefs=sub, return_df=True)
        same(list(cs.index), sub, 'confidence interval names')
        for nme in sub:
            k = b.names.index(nme)
            if k in ok:
                close(cs.loc[nme].values, ci[k], 'limits of %s' % nme)
    for k, attr in enumerate(('params', 'standard_errors', 'tvalues', 'pvalues', 'robust_std_errs', 'robust_t_stats', 'robust_p_vals')):
        close(m.summary.values[:, k], getattr(m, attr).values, 'summary column of %s' % attr)
    fs = m.fit_summary
    close(fs['Number of Parameters'], K, 'summary K')
    close(fs['Number of Observations'], d.N, 'summary N')
    close(fs['Null Log-Likelihood'], L0, 'summary L0')
    close(fs['Fitted Log-Likelihood'], L, 'summary L')
    close(fs['Rho-Squared'], 1 - L / L0, 'summary rho')
    close(fs['Rho-Bar-Squared'], 1 - (L - K) / L0, 'summary rho bar')


@case('P18', 60)
def statistic_functions(rng):
    L, L0, K = -float(rng.uniform(1, 50)), -float(rng.uniform(1, 80)), int(rng.randint(1, 9))
    r, rb = es.calc_rho_and_rho_bar_squared(L, L0, K)
    close(r, 1 - L / L0, 'rho')
    close(rb, 1 - (L - K) / L0, 'rho bar')
    d = gen(rng, contiguous=bool(rng.randint(2)))
    R = int(rng.randint(1, 4))
    p = rng.uniform(0.01, 0.99, size=(d.n, R))
    res = rng.normal(size=(d.n, R))
    if rng.randint(2):
        p, res = p[:, 0], res[:, 0]
    w = np.zeros((d.N,) + p.shape[1:])
    for i in range(d.n):
        w[d.o[i]] += res[i] ** 2 / p[i]
    fr = frozen(p, res)
    close(es.calc_individual_chi_squares(res, p, onehot(d.o, d.N)), w, 'chi squares')
    fr('calc_individual_chi_squares')


# ----------------------------------------------------------------- P19
@case('P19', 140)
def constraints(rng):
    b = build(rng)
    earlier(rng, b)
    th = point(rng, b)
    t1 = point(rng, b)
    cons = cons_for(rng, b)
    H = with_cons(b, o_hess(b, th), cons)
    full = usable(H) and bool(rng.randint(3))
    fr = frozen(cons)
    _, call = fit(b, th, cons=cons, tests=[t1], just_point=not full)
    fr('fit_mle')
    zc = zcons(b, cons)
    for x, f, g, _ in call.evals:
        close(f, -re(b.orc.ll(list(x))), '%s objective' % b.mt)
        want = -o_grad(b, list(x))
        want[zc] = 0
        close(g, want, '%s objective gradient with constrained %s' % (b.mt, zc), rtol=2e-6, atol=1e-6)
        check(all(g[k] == 0 for k in zc), 'constrained entries are not exactly zero')
    if full:
        m = b.model
        F = o_fisher(b, th)
        for attr in ('standard_errors', 'tvalues', 'pvalues', 'robust_std_errs', 'robust_t_stats', 'robust_p_vals'):
            v = getattr(m, attr).values
            for k in range(b.K):
                if k in zc:
                    check(np.isnan(v[k]), '%s of constrained parameter %d is %r' % (attr, k, v[k]))
                elif not attr.startswith('robust') or (F is not None and np.diag(m.robust_cov.values)[k] > 1e-9):
                    check(not np.isnan(v[k]), '%s of free parameter %d is missing' % (attr, k))
        close(m.params.values, th, 'constrained parameters stay at the optimiser\'s point')


@case('P19', 50)
def constrained_estimates_stay(rng):
    """real optimiser: constrained entries keep their starting value"""
    b = build(rng, mt=ALL[int(rng.randint(7))], rich=False)
    cons = cons_for(rng, b) or [int(rng.randint(b.K))]
    init = [float(v) for v in np.round(rng.normal(size=b.K) * 0.3, 3)]
    a = dict(b.fit_kw)
    res = b.model.fit_mle(np.array(init), print_res=False, just_point=True, constrained_pos=list(cons), maxiter=4,
                          method='BFGS', ridge=0.1, **a)
    for k in zcons(b, cons):
        close(res['x'][k], init[k], '%s: constrained parameter %d moved' % (b.mt, k))


@case('P19', 30)
def degenerate_nests(rng):
    d = gen(rng)
    spec, nest, M = gen_nests(rng, d)
    fr = frozen(spec)
    got = nested_logit.identify_degenerate_nests(spec)
    fr('identify_degenerate_nests')
    same(list(got), [k for k, v in enumerate(spec.values()) if len(v) == 1], 'degenerate nests')


# ----------------------------------------------------------------- P20
@case('P20', 130)
def reports_optimum(rng):
    b = build(rng)
    th, init, t1 = point(rng, b), point(rng, b), point(rng, b)
    cons = cons_for(rng, b) if rng.randint(3) == 0 else None
    cons = prep(b, th, cons)
    H = with_cons(b, o_hess(b, th), cons)
    if not usable(H):
        return
    arg = np.array(init)
    kw = {}
    meth = ['BFGS', 'nelder-mead', 'newton-cg', 'l-bfgs-b'][int(rng.randint(4))]
    iters = int(rng.randint(1, 500))
    p = Probe(th, [t1])
    a = dict(b.fit_kw, method=meth, maxiter=iters)
    if b.ridge is not None:
        a['ridge'] = b.ridge
    if cons is not None:
        a['constrained_pos'] = list(cons)
    if not all(v == 1.0 for v in b.w):
        a['weights'] = np.array(b.w)
    fr = frozen(arg)
    with hooked(p):
        r = b.model.fit_mle(arg, print_res=bool(rng.randint(2)), **a)
    fr('fit_mle')
    check(len(p.calls) == 1, 'optimiser called %d times' % len(p.calls))
    c = p.calls[0]
    close(c.x0, init, 'starting values')
    same(c.method, meth, 'method')
    same(c.options['maxiter'], iters, 'maxiter')
    zc = zcons(b, cons)
    for x, f, g, HH in c.evals:
        close(f, -re(b.orc.ll(list(x))), 'objective')
        w = -o_grad(b, list(x))
        w[zc] = 0
        close(g, w, 'objective gradient', rtol=2e-6, atol=1e-6)
        if HH is not None:
            close(HH, -with_cons(b, o_hess(b, list(x)), cons), 'objective Hessian', rtol=2e-6, atol=1e-6)
    m, d = b.model, b.d
    close(m.params.values, th, 'reported parameters')
    close(m.log_likelihood, re(b.orc.ll(th)), 'reported log-likelihood')
    close(m.null_log_likelihood, re(b.orc.ll([0.0] * b.K)), 'null log-likelihood')
    if b.mt == 'Mixed Logit':
        kern = b.orc.kern(th)
        pr = np.array([[kern[r_][i].real for r_ in range(b.R)] for i in range(d.n)])
    else:
        pr = np.array(re(b.orc.probs(th)))
    close(m.long_fitted_probs, pr, 'fitted probabilities', rtol=1e-6)
    ch = np.zeros((d.N,) + pr.shape[1:])
    for i in range(d.n):
        if d.y[i]:
            ch[d.o[i]] = pr[i]
    close(m.fitted_probs, ch, 'chosen probabilities', rtol=1e-6)
    close(m.gradient.values, o_grad(b, th), 'gradient', rtol=2e-6, atol=1e-6)
    close(m.hessian.values, H, 'Hessian', rtol=2e-6, atol=1e-6)
    same(m.estimation_success, True, 'success flag')
    same(m.estimation_message, 'probe', 'message')
    same(m.optimization_method, meth, 'recorded method')
    same(m.ridge_param, b.ridge, 'recorded ridge penalty')
    # refit on the same model: same objective, same starting values, same names
    n1 = list(m.params.index)
    th2 = point(rng, b)
    if usable(with_cons(b, o_hess(b, th2), cons)):
        p2 = Probe(th2, [t1])
        with hooked(p2):
            m.fit_mle(np.array(init), print_res=False, **a)
        close(p2.calls[0].evals[0][1], c.evals[0][1], 'objective of the second fit')
        close(p2.calls[0].evals[0][2], c.evals[0][2], 'gradient of the second fit')
        same(list(m.params.index), n1, 'names after the second fit')
        close(m.params.values, th2, 'parameters after the second fit')
        close(m.log_likelihood, re(b.orc.ll(th2)), 'log-likelihood after the second fit')


@case('P20', 60)
def refitted(rng):
    """a second fit of the same model, under other arguments, reports as the first would have"""
    b = build(rng)
    d = b.d
    for k in range(2):
        if k:
            b.w = person_weights(rng, d) if b.mt == 'Mixed Logit' else obs_weights(rng, d)
            b.orc.w = list(b.w)
            b.ridge = b.orc.ridge = None if rng.randint(2) else float(np.round(rng.uniform(0.05, 1), 3))
            if b.mt == 'Mixed Logit' and rng.randint(2):
                b.R, b.seed = int(rng.choice([1, 2, 3])), int(rng.randint(1, 10 ** 6))
                b.draws = mlc.get_normal_draws(d.M, b.R, len(b.mp), seed=b.seed)
                b.fit_kw = dict(num_draws=b.R, seed=b.seed)
                b.orc = Mixed(d, b.X, b.mp, b.draws, b.w, b.ridge)
        th, t1 = point(rng, b), point(rng, b)
        cons = prep(b, th, cons_for(rng, b) if rng.randint(2) else None)
        H = with_cons(b, o_hess(b, th), cons)
        if not usable(H):
            return
        init = point(rng, b)
        res, c = fit(b, th, init=init, cons=cons, tests=[t1, th, t1])
        what = 'fit %d: ' % (k + 1)
        close(c.x0, init, what + 'starting values')
        zc = zcons(b, cons)
        for x, f, g, HH in c.evals:
            close(f, -re(b.orc.ll(list(x))), what + 'objective')
            w = -o_grad(b, list(x))
            w[zc] = 0
            close(g, w, what + 'objective gradient', rtol=2e-6, atol=1e-6)
            if HH is not None:
                close(HH, -with_cons(b, o_hess(b, list(x)), cons), what + 'objective Hessian', rtol=2e-6, atol=1e-6)
        m = b.model
        close(m.params.values, th, what + 'parameters')
        close(m.log_likelihood, re(b.orc.ll(th)), what + 'log-likelihood')
        close(m.null_log_likelihood, re(b.orc.ll([0.0] * b.K)), what + 'null log-likelihood')
        if b.mt == 'Mixed Logit':
            kern = b.orc.kern(th)
            pr = np.array([[kern[r_][i].real for r_ in range(b.R)] for i in range(d.n)])
        else:
            pr = np.array(re(b.orc.probs(th)))
        close(m.long_fitted_probs, pr, what + 'fitted probabilities', rtol=1e-6)
        ch = np.zeros((d.N,) + pr.shape[1:])
        for i in range(d.n):
            if d.y[i]:
                ch[d.o[i]] = pr[i]
        close(m.fitted_probs, ch, what + 'chosen probabilities', rtol=1e-6)
        close(m.gradient.values, o_grad(b, th), what + 'gradient', rtol=2e-6, atol=1e-6)
        close(m.hessian.values, H, what + 'Hessian', rtol=2e-6, atol=1e-6)
        F = o_fisher(b, th)
        if F is not None:
            close(m.fisher_information.values, F, what + 'Fisher information', rtol=2e-6, atol=1e-6)
        close(m.cov.values, -np.linalg.inv(H), what + 'covariance', rtol=1e-5, atol=1e-7)
        se = np.sqrt(np.diag(m.cov.values))
        se[zc] = np.nan
        close(m.standard_errors.values, se, what + 'standard errors')
        close(m.tvalues.values, np.array(th) / se, what + 't-values')
        same(list(m.params.index), b.names, what + 'names')
        for nm_, k0, k1 in (('nests', 0, 1), ('shapes', 1, 2), ('intercepts', 2, 3), ('coefs', 3, 4)):
            a0, a1 = sum(b.sizes[:k0]), sum(b.sizes[:k1])
            got = getattr(m, nm_)
            if a0 == a1:
                check(got is None, what + nm_)
            else:
                close(got.values, th[a0:a1], what + nm_)
        same(m.ridge_param, b.ridge, what + 'ridge')


@case('P20', 60)
def point_only(rng):
    b = build(rng)
    th = point(rng, b)
    before = set(vars(b.model))
    res, c = fit(b, th, just_point=True)
    close(res['x'], th, 'point')
    new = set(vars(b.model)) - before
    for k in ('params', 'log_likelihood', 'cov', 'summary', 'fitted_probs', 'hessian', 'standard_errors', 'coefs', 'gradient'):
        check(k not in new, 'point-only estimation stored %s' % k)


@case('P20', 40)
def split_starting_values(rng):
    mt = ['Asym', 'Cloglog', 'Scobit', 'Uneven'][int(rng.randint(4))]
    b = build(rng, mt=mt)
    init = point(rng, b)
    pt = parts(b, init)
    p = Probe(point(rng, b))
    kw = {}
    if pt[1] is not None:
        kw['init_shapes'] = np.array(pt[1])
    if pt[2] is not None:
        kw['init_intercepts'] = np.array(pt[2])
    kw['init_coefs'] = np.array(pt[3])
    fr = frozen(kw)
    if mt == 'Cloglog' and pt[2] is None:
        return
    with hooked(p):
        b.model.fit_mle(None, print_res=False, just_point=True, **kw)
    fr('fit_mle')
    close(p.calls[0].x0, init, '%s starting values given in parts' % mt)


@case('P20', 14)
def real_estimation(rng):
    """the real optimiser improves on the starting values and reports its own point"""
    mt = ALL[int(rng.randint(7))]
    b = build(rng, mt=mt, rich=False, ridge='yes')
    init = [0.0] * b.K
    got = {}

    def spy(real, *a, **k):
        r = real(*a, **k)
        got['x'], got['fun'] = np.array(r['x']), r['fun']
        return r
    a = dict(b.fit_kw, ridge=b.ridge)
    if not all(v == 1.0 for v in b.w):
        a['weights'] = np.array(b.w)
    with hooked(spy):
        try:
            b.model.fit_mle(np.array(init), print_res=False, maxiter=30, **a)
        except np.linalg.LinAlgError:
            return
    close(b.model.params.values, got['x'], 'reported parameters')
    close(b.model.log_likelihood, re(b.orc.ll(list(got['x']))), 'reported log-likelihood', rtol=1e-6)
    check(b.model.log_likelihood >= re(b.orc.ll(init)) - 1e-9, 'the fit is worse than the starting values')


# ----------------------------------------------------------------- P21
def new_data(rng, d, contiguous=None):
    """Data with the same alternatives, other observations."""
    for _ in range(60):
        e = gen(rng, nalt=d.J, contiguous=bool(rng.randint(2)) if contiguous is None else contiguous)
        mp = dict(zip(e.alts, d.alts))
        for r in e.rows:
            r['alt_id'] = mp[r['alt_id']]
        e.rows = list(e.rows)
        return reindex(e)
    raise AssertionError


def reindex(e):
    index(e)
    e.df = frame(e.rows)
    return e


def col_oracle(b, rows, alts):
    """Design columns of the model's specification on other rows."""
    cols = []
    for var, s in b.spec.items():
        vals = [1.0 if var == 'intercept' else r[var] for r in rows]
        if s == 'all_same':
            cols.append(vals)
        else:
            for g in (alts if s == 'all_diff' else s):
                gl = g if isinstance(g, list) else [g]
                cols.append([v if r['alt_id'] in gl else 0 for v, r in zip(vals, rows)])
    return np.array(cols, dtype=float).T.copy()


def oracle_on(b, e, draws=None):
    X = col_oracle(b, e.rows, b.d.alts)
    if b.mt == 'Nested Logit':
        pos = {}
        for k, v in enumerate(b.nest_spec.values()):
            for a in v:
                pos[a] = k
        return Nested(e, X, [pos[r['alt_id']] for r in e.rows], b.sizes[0])
    if b.mt == 'Mixed Logit':
        return Mixed(e, X, b.mp, draws)
    return Logit(b.mt, e, X, b.sr, b.ir)


def chosen_of(e, p, y=None):
    y = e.y if y is None else y
    out = np.zeros(e.N)
    for i in range(e.n):
        if y[i]:
            out[e.o[i]] = p[i]
    return out


@case('P21', 110)
def predicts_new_data(rng):
    b = build(rng, weights=False, named=True)
    th = point(rng, b)
    fit(b, th, cons=prep(b, th))
    e = new_data(rng, b.d)
    df = e.df.copy()
    if rng.randint(2):
        df['choice2'] = df.pop('choice')
        chc = 'choice2'
    else:
        chc = 'choice'
    if rng.randint(2):
        df.index = rng.permutation(len(df)) + 4
    kw = {}
    draws = None
    use = th
    if b.mt == 'Mixed Logit':
        R, seed = int(rng.choice([1, 3])), int(rng.randint(1, 9999))
        draws = mlc.get_normal_draws(e.M, R, len(b.mp), seed=seed)
        kw = dict(num_draws=R, seed=seed)
    pl_ = None
    if rng.randint(2):
        use = point(rng, b)
        pt = parts(b, use)
        if rng.randint(4) == 0 and b.mt in LOGIT:
            # one block of the parameter vector all zero
            cut = np.cumsum([0] + [len(pt[k]) if pt[k] is not None else 0 for k in range(4)])
            k = int(rng.randint(4))
            use = np.array(use, dtype=float)
            use[cut[k]:cut[k + 1]] = 0.0
            pt = parts(b, use)
        pl_ = [np.array(pt[3]), *(None if pt[k] is None else np.array(pt[k]) for k in (2, 1, 0))]
    orc = oracle_on(b, e, draws)
    if b.mt == 'Mixed Logit':
        k = orc.kern(use)
        want = np.array([sum(k[r][i].real for r in range(R)) / R for i in range(e.n)])
    else:
        want = np.array(re(orc.probs(use)))
    fr = frozen(df.drop('intercept', axis=1, errors='ignore'), pl_)
    stored = b.model.params.values.copy()
    got = b.model.predict(df, param_list=pl_, **kw)
    close(got, want, '%s predicted probabilities' % b.mt, rtol=1e-6)
    c = b.model.predict(df, param_list=pl_, return_long_probs=False, choice_col=chc, **kw)
    close(c, chosen_of(e, want), '%s predicted chosen probabilities' % b.mt, rtol=1e-6)
    both = b.model.predict(df, param_list=pl_, return_long_probs=True, choice_col=chc, **kw)
    if isinstance(both, tuple):
        close(both[0], chosen_of(e, want), '%s chosen of both' % b.mt, rtol=1e-6)
        close(both[1], want, '%s long of both' % b.mt, rtol=1e-6)
    else:
        close(both, want, '%s long of both' % b.mt, rtol=1e-6)
    fr('predict')
    close(b.model.params.values, stored, 'stored parameters after predict')


@case('P21', 60)
def predicts_again(rng):
    """predictions for several data sets and parameters, in turn, from one fitted model"""
    b = build(rng, weights=False, named=True)
    th = point(rng, b)
    fit(b, th, cons=prep(b, th))
    sets = [new_data(rng, b.d) for _ in range(2)]
    if rng.randint(2):
        # the same rows with other values
        import copy as cp
        e = cp.deepcopy(sets[0])
        for r in e.rows:
            for v in r:
                if isinstance(r[v], float):
                    r[v] = float(np.round(r[v] * 0.5 + 0.25, 4))
        sets[1] = reindex(e)
    frames = [e.df.copy() for e in sets]
    if b.mt != 'Mixed Logit':
        # what-if scenario: new values in the model's own frame
        e = Data()
        e.rows = [dict(r) for r in b.d.rows]
        for r in e.rows:
            for v in ('x1', 'x2', 'z'):
                r[v] = float(np.round(r[v] * 0.5 + 0.25, 4))
        reindex(e)
        for v in ('x1', 'x2', 'z'):
            b.model.data[v] = [r[v] for r in e.rows]
        close(b.model.predict(b.model.data), re(oracle_on(b, e).probs(th)), '%s prediction on the changed frame of the model' % b.mt,
              rtol=1e-6)
        for v in ('x1', 'x2', 'z'):
            b.model.data[v] = [r[v] for r in b.d.rows]
    todo = [(k, rng.randint(2)) for k in rng.randint(2, size=5)] + [(0, 0)]
    for k, given in todo:
        e = sets[k]
        use = point(rng, b) if given else th
        kw, draws = {}, None
        if b.mt == 'Mixed Logit':
            R, seed = int(rng.choice([1, 3])), int(rng.randint(1, 9999))
            draws = mlc.get_normal_draws(e.M, R, len(b.mp), seed=seed)
            kw = dict(num_draws=R, seed=seed)
        if given:
            pt = parts(b, use)
            kw['param_list'] = [np.array(pt[3]), *(None if pt[k2] is None else np.array(pt[k2]) for k2 in (2, 1, 0))]
        orc = oracle_on(b, e, draws)
        if b.mt == 'Mixed Logit':
            q = orc.kern(use)
            want = np.array([sum(q[r][i].real for r in range(R)) / R for i in range(e.n)])
        else:
            want = np.array(re(orc.probs(use)))
        df = frames[k] if rng.randint(2) else frames[k].copy()
        close(b.model.predict(df, **kw), want, '%s predictions, one after another' % b.mt, rtol=1e-6)
    if b.mt != 'Mixed Logit':
        th2 = point(rng, b)
        fit(b, th2, cons=prep(b, th2))
        close(b.model.predict(frames[0]), re(oracle_on(b, sets[0]).probs(th2)), 'prediction after a second fit', rtol=1e-6)


@case('P21', 40)
def predicts_own_data(rng):
    b = build(rng, weights=False)
    if b.mt == 'Mixed Logit':
        return
    th = point(rng, b)
    fit(b, th, cons=prep(b, th))
    close(b.model.predict(b.d.df.copy()), b.model.long_fitted_probs, 'prediction on the estimation data')
    close(b.model.predict(b.d.df.copy(), return_long_probs=False, choice_col='choice'), b.model.fitted_probs,
          'chosen prediction on the estimation data')


@case('P21', 40)
def predicts_many_vectors(rng):
    mt = LOGIT[int(rng.randint(5))]
    b = build(rng, mt=mt, weights=False, named=True)
    R = int(rng.randint(1, 4))
    ths = [point(rng, b) for _ in range(R)]
    P = [parts(b, t) for t in ths]
    pl_ = [np.array([p[k] for p in P]).T if P[0][k] is not None else None for k in (3, 2, 1, 0)]
    e = new_data(rng, b.d)
    orc = oracle_on(b, e)
    want = np.array([re(orc.probs(t)) for t in ths]).T
    got = b.model.predict(e.df.copy(), param_list=pl_)
    close(np.asarray(got).reshape(want.shape), want, '%s predictions with %d parameter vectors' % (mt, R), rtol=1e-6)


# ----------------------------------------------------------------- P22
@case('P22', 90)
def panel_predictions(rng):
    d = gen(rng)
    b = build(rng, mt='Mixed Logit', d=d, weights=False, ridge=None)
    th = point(rng, b)
    fit(b, th, cons=prep(b, th))
    panel_once(rng, b, d, th)
    if rng.randint(2):
        panel_once(rng, b, d, th)
    if rng.randint(3) == 0:
        th = point(rng, b)
        fit(b, th, cons=prep(b, th))
        panel_once(rng, b, d, th)


def panel_once(rng, b, d, th):
    e = new_data(rng, d)
    # mix known and unknown people
    k = int(rng.randint(3))
    old = list(d.people)
    pool = [old[t] for t in rng.permutation(len(old))]
    fresh = [v for v in range(100, 140)]
    mp = {}
    for q in e.people:
        if k != 2 and pool and (k == 0 or rng.randint(2)):
            mp[q] = pool.pop()
        else:
            mp[q] = fresh.pop(int(rng.randint(len(fresh))))
    if k == 1 and not any(v in old for v in mp.values()):
        mp[e.people[int(rng.randint(e.M))]] = old[int(rng.randint(len(old)))]
    for r in e.rows:
        r['pid'] = mp[r['pid']]
    reindex(e)
    R, seed = int(rng.choice([1, 2, 5])), int(rng.randint(1, 9999))
    draws = mlc.get_normal_draws(e.M, R, len(b.mp), seed=seed)
    X = col_oracle(b, e.rows, d.alts)
    ker = Mixed(e, X, b.mp, draws).kern(th)
    want = []
    wts = {}
    for q, person in enumerate(e.people):
        if person in old:
            rows = [i for i in range(d.n) if d.people[d.m[i]] == person]
            s = Data()
            s.rows = [dict(d.rows[i]) for i in rows]
            index(s)
            X0 = [b.orc.X[i] for i in rows]
            seq = Mixed(s, X0, b.mp, [dr[q:q + 1] for dr in draws]).seq(th)[0]
            tot = sum(v.real for v in seq)
            wts[q] = [v.real / tot for v in seq]
        else:
            wts[q] = [1.0 / R] * R
    for i in range(e.n):
        want.append(sum(wts[e.m[i]][r] * ker[r][i].real for r in range(R)))
    df = e.df.copy()
    fr = frozen(df.drop('intercept', axis=1, errors='ignore'))
    got = b.model.panel_predict(df, R, seed=seed)
    fr('panel_predict')
    close(got, want, 'panel predictions', rtol=1e-6)
    c = b.model.panel_predict(df, R, return_long_probs=False, choice_col='choice', seed=seed)
    close(c, chosen_of(e, want), 'panel chosen predictions', rtol=1e-6)
    both = b.model.panel_predict(df, R, return_long_probs=True, choice_col='choice', seed=seed)
    close(both[0], chosen_of(e, want), 'panel chosen of both', rtol=1e-6)
    close(both[1], want, 'panel long of both', rtol=1e-6)


# ----------------------------------------------------------------- P28
# ----------------------------------------------------------------- P31
@case('P31', 50)
def saved_models_survive(rng):
    import os
    import pickle
    import shutil
    import tempfile
    b = build(rng, weights=False)
    fitted = bool(rng.randint(4))
    th = point(rng, b)
    if fitted:
        fit(b, th, cons=prep(b, th))
    before = snapshot_of(b.model)
    e = new_data(rng, b.d) if b.mt == 'Mixed Logit' or rng.randint(2) else b.d
    pk = dict(num_draws=3, seed=5) if b.mt == 'Mixed Logit' else {}
    want = b.model.predict(e.df.copy(), **pk) if fitted else None
    top = tempfile.mkdtemp(prefix='vf_pickle_')
    try:
        stem = ['model', 'my.model', 'a b', 'x.pkl', 'x.pkl.bak', 'apkl', 'X.PKL', '.pkl', 'run.pkl_2'][int(rng.randint(9))]
        path = os.path.join(top, stem)
        raises(lambda: b.model.to_pickle(17), 'a path that is not a string')
        check(os.listdir(top) == [], 'refused path wrote a file')
        if rng.randint(2):
            with open(path if stem.endswith('.pkl') else path + '.pkl', 'wb') as f:
                f.write(b'older file, longer than nothing' * 4000)
        b.model.to_pickle(path)
        name = stem if stem.endswith('.pkl') else stem + '.pkl'
        same(os.listdir(top), [name], 'files written')
        with open(os.path.join(top, name), 'rb') as f:
            m = pickle.load(f)
    finally:
        shutil.rmtree(top)
    same(type(m), type(b.model), 'class of the restored model')
    equal_snap(before, snapshot_of(b.model), 'the saved model itself')
    equal_snap(before, snapshot_of(m), 'the restored model')
    if fitted:
        same(np.asarray(m.predict(e.df.copy(), **pk)), np.asarray(want), 'predictions of the restored model')


def snapshot_of(m):
    return {k: v for k, v in m.__dict__.items() if k not in ('utility_transform',)}


def equal_snap(a, c, what):
    same(sorted(a), sorted(c), what + ': attributes')
    for k in a:
        x, y = a[k], c[k]
        if hasattr(x, 'toarray'):
            x, y = x.toarray(), y.toarray()
        if hasattr(x, 'columns'):
            same(list(x.columns), list(y.columns), '%s: columns of %s' % (what, k))
        if hasattr(x, 'index') and hasattr(x, 'values'):
            same(list(x.index), list(y.index), '%s: labels of %s' % (what, k))
            x, y = x.values, y.values
        if isinstance(x, np.ndarray):
            same(x.shape, y.shape, '%s: shape of %s' % (what, k))
            if x.dtype.kind in 'fc':
                check(np.array_equal(x, y) or ((x == y) | ((x != x) & (y != y))).all(), '%s: %s' % (what, k))
            else:
                check((x == y).all(), '%s: %s' % (what, k))
        elif isinstance(x, float):
            check(x == y or (x != x and y != y), '%s: %s' % (what, k))
        else:
            same(type(x), type(y), '%s: type of %s' % (what, k))
            if isinstance(x, (int, str, list, tuple, dict, bool, type(None))):
                same(x, y, '%s: %s' % (what, k))
                if isinstance(x, dict):
                    same(list(x), list(y), '%s: order of %s' % (what, k))


@case('P28', 80)
def calculations_leave_inputs(rng):
    mt = LOGIT[int(rng.randint(5))]
    b = build(rng, mt=mt)
    th = np.array(point(rng, b))
    est = create_estimation_obj(b.model, th, ridge=b.ridge, weights=np.array(b.w))
    est.set_derivatives()
    items = [th, est.design, est.choice_vector, est.alt_id_vector, est.weights, b.model.design, b.model.data]
    fr = frozen(*items)
    maps_ = [est.rows_to_obs, est.rows_to_alts, est.chosen_row_to_obs]
    fm = frozen(*maps_)
    for f in ('convenience_calc_probs', 'convenience_calc_log_likelihood', 'convenience_calc_gradient', 'convenience_calc_hessian',
              'convenience_calc_fisher_approx', 'calc_neg_log_likelihood_and_neg_gradient', 'calc_neg_hessian'):
        getattr(est, f)(th)
        fr(f)
        fm(f)
    big = th * (10.0 ** rng.uniform(0, 6))
    fb = frozen(big)
    for f in ('convenience_calc_probs', 'convenience_calc_log_likelihood'):
        getattr(est, f)(big)
        fb(f + ' at large parameters')
        fm(f)


@case('P28', 80)
def transforms_leave_inputs(rng):
    mt = LOGIT[int(rng.randint(5))]
    b = build(rng, mt=mt)
    th = point(rng, b, 1.0)
    sh, al, be = [None if p is None else np.array(p) for p in parts(b, th)[1:]]
    V = rng.normal(size=b.d.n) * 10.0 ** rng.uniform(-1, 5)
    r2a = onehot(b.d.a, b.d.J)
    a = np.array([b.d.alts[k] for k in b.d.a])
    fr = frozen(V, a, r2a, sh, al)
    b.model.utility_transform(V, a, r2a, sh, al)
    fr('utility transform')
    R = int(rng.randint(1, 4))
    V2 = np.tile(V[:, None], (1, R))
    s2 = None if sh is None else np.tile(sh[:, None], (1, R))
    a2 = None if al is None else np.tile(al[:, None], (1, R))
    fr = frozen(V2, a, r2a, s2, a2)
    b.model.utility_transform(V2, a, r2a, s2, a2)
    fr('utility transform of several columns')
    mod = SMODS[mt]
    est = create_estimation_obj(b.model, np.array(th))
    est.set_derivatives()
    fr = frozen(V, a, r2a, sh, al)
    for f in (est.calc_dh_dv, est.calc_dh_d_shape, est.calc_dh_d_alpha):
        f(V, a, r2a, sh)
        fr('derivative of the transform')


@case('P28', 60)
def nested_and_mixed_leave_inputs(rng):
    mt = ['Nested Logit', 'Mixed Logit'][int(rng.randint(2))]
    b = build(rng, mt=mt)
    if mt == 'Mixed Logit':
        draws = [x.copy() for x in b.draws]
        fd = frozen(draws, b.model.design)
        b.model.design_3d = mlc.create_expanded_design_for_mixing(b.model.design, draws, b.model.mixing_pos, onehot(b.d.m, b.d.M))
        fd('create_expanded_design_for_mixing')
    th = np.array(point(rng, b)) * 10.0 ** rng.uniform(0, 1)
    cons = cons_for(rng, b)
    est = create_estimation_obj(b.model, th, ridge=b.ridge, weights=np.array(b.w), constrained_pos=cons)
    items = [th, est.design, est.choice_vector, est.alt_id_vector, est.weights, b.model.data, cons, est.rows_to_obs,
             est.rows_to_alts, est.chosen_row_to_obs, est.rows_to_nests, est.rows_to_mixers, getattr(est, 'design_3d', None)]
    fr = frozen(*items)
    for f in ('convenience_calc_probs', 'convenience_calc_log_likelihood', 'convenience_calc_gradient', 'convenience_calc_hessian',
              'convenience_calc_fisher_approx', 'calc_neg_log_likelihood_and_neg_gradient', 'calc_neg_hessian'):
        getattr(est, f)(th)
        fr('%s %s' % (mt, f))


@case('P28', 80)
def construction_and_fit_leave_inputs(rng):
    d = gen(rng)
    df = d.df.copy()
    b = build(rng, d=d)
    nm, sp = b.nm, b.spec
    kw = dict(b.kw)
    fr = frozen(df.copy())
    before = snap(df)
    spb = frozen(sp, kw)
    m = pl.create_choice_model(df, 'alt_id', 'obs_id', 'choice', sp, b.mt, **kw)
    spb('create_choice_model')
    chk = df.drop('intercept', axis=1) if 'intercept' in df.columns and 'intercept' not in d.df.columns else df
    check(same_snap(before, snap(chk)), 'create_choice_model changed the data frame')
    if 'intercept' in df.columns and 'intercept' not in d.df.columns:
        check('intercept' in sp and (df['intercept'] == 1).all(), 'intercept column')
    b.model = m
    th = point(rng, b)
    cons = cons_for(rng, b)
    cons = prep(b, th, cons)
    init = np.array(point(rng, b))
    w = np.array(b.w)
    a = dict(b.fit_kw)
    if cons is not None:
        a['constrained_pos'] = cons
    if b.ridge is not None:
        a['ridge'] = b.ridge
    fr = frozen(init, w, cons, df, sp, kw.get('names'), kw.get('nest_spec'), kw.get('mixing_vars'), kw.get('shape_names'),
                kw.get('intercept_names'))
    with hooked(Probe(th)):
        m.fit_mle(init, print_res=False, weights=w, **a)
    fr('%s fit_mle' % b.mt)
    m.conf_int()
    fr('conf_int')


@case('P28', 60)
def covariance_leaves_inputs(rng):
    K = int(rng.randint(1, 6))
    A = rng.normal(size=(K, K))
    H = -(A.dot(A.T) + np.eye(K))
    F = A.T.dot(A)
    fr = frozen(H, F)
    cc.calc_asymptotic_covariance(H, F)
    fr('calc_asymptotic_covariance')


# ----------------------------------------------------------------- P30
@case('P30', 100)
def dispatch(rng):
    b = build(rng)
    m, kw = b.model, b.kw
    check(type(m) is CLS[b.mt], '%s gives class %s' % (b.mt, type(m)))
    same(m.model_type, TITLE[b.mt], 'display name')
    same(m.alt_id_col, 'alt_id', 'alt_id_col')
    same(m.obs_id_col, 'obs_id', 'obs_id_col')
    same(m.choice_col, 'choice', 'choice_col')
    check(m.specification is b.spec or m.specification == b.spec, 'specification')
    same(list(m.specification), list(b.spec), 'specification order')
    same(m.name_spec, kw.get('names'), 'names')
    same(m.intercept_ref_position, kw.get('intercept_ref_pos'), 'intercept_ref_position')
    same(m.shape_ref_position, kw.get('shape_ref_pos'), 'shape_ref_position')
    same(m.intercept_names, kw.get('intercept_names'), 'intercept names')
    same(m.shape_names, kw.get('shape_names'), 'shape names')
    same(m.nest_spec, kw.get('nest_spec'), 'nest_spec')
    same(m.nest_names, list(kw['nest_spec']) if 'nest_spec' in kw else None, 'nest names')
    same(m.mixing_vars, kw.get('mixing_vars'), 'mixing_vars')
    same(m.mixing_id_col, kw.get('mixing_id_col'), 'mixing_id_col')
    same(m.mixing_pos, b.mp, 'mixing positions')
    # the estimator behaves like this model type's
    if b.mt == 'Mixed Logit':
        m.design_3d = mlc.create_expanded_design_for_mixing(m.design, b.draws, m.mixing_pos, onehot(b.d.m, b.d.M))
    th = point(rng, b)
    est = create_estimation_obj(m, np.array(th), ridge=b.ridge, weights=np.array(b.w))
    check(type(est) is EST[b.mt], '%s gives estimator %s' % (b.mt, type(est)))
    if hasattr(est, 'set_derivatives'):
        est.set_derivatives()
    close(est.convenience_calc_log_likelihood(np.array(th)), re(b.orc.ll(th)), 'estimator objective')
    close(est.convenience_calc_gradient(np.array(th)), o_grad(b, th), 'estimator gradient', rtol=2e-6, atol=1e-6)
    cons = cons_for(rng, b)
    est = create_estimation_obj(m, np.array(th), ridge=b.ridge, weights=np.array(b.w), constrained_pos=cons)
    same(est.constrained_pos, cons, 'constrained positions passed through')
    same(est.ridge, b.ridge, 'ridge passed through')
    close(est.weights, b.w, 'weights passed through')
    mp = m.get_mappings_for_fit()
    est = create_estimation_obj(m, np.array(th), mappings=mp)
    check(est.rows_to_obs is mp['rows_to_obs'] or (est.rows_to_obs != mp['rows_to_obs']).nnz == 0, 'mappings passed through')
    # only the optimiser sees what fit_mle uses
    p = Probe(th)
    a = dict(b.fit_kw)
    if b.ridge is not None:
        a['ridge'] = b.ridge
    if not all(v == 1.0 for v in b.w):
        a['weights'] = np.array(b.w)
    with hooked(p):
        m.fit_mle(np.zeros(b.K), print_res=False, just_point=True, **a)
    close(p.calls[0].evals[-1][1], -re(b.orc.ll(th)), '%s fit objective' % b.mt)
    bad = ['mnl', 'Logit', 'Probit', '', 'Nested', 'Mixed', None, 'Multinomial Logit Model'][int(rng.randint(8))]
    raises(lambda: pl.create_choice_model(b.d.df.copy(), 'alt_id', 'obs_id', 'choice', b.spec, bad), 'model type %r' % (bad,))


@case('P30', 80)
def recreation(rng):
    b = build(rng)
    m = b.model
    fr = frozen(m.specification, m.name_spec, m.nest_spec, m.mixing_vars, m.shape_names, m.intercept_names)
    same(bmle.get_model_abbrev(m), b.mt, 'abbreviation')
    kw = bmle.get_model_creation_kwargs(m)
    fr('get_model_creation_kwargs')
    n = pl.create_choice_model(data=b.d.df.copy(), alt_id_col='alt_id', obs_id_col='obs_id', choice_col='choice',
                               specification=m.specification, **kw)
    check(type(n) is type(m), 'recreated class %s' % type(n))
    for attr in ('model_type', 'name_spec', 'intercept_names', 'intercept_ref_position', 'shape_names', 'shape_ref_position',
                 'nest_spec', 'nest_names', 'mixing_vars', 'mixing_id_col', 'mixing_pos', 'ind_var_names', 'alt_id_col',
                 'choice_col'):
        same(getattr(n, attr), getattr(m, attr), 'recreated %s' % attr)
    close(n.design, m.design, 'recreated design')
