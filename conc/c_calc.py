"""Cases for the likelihood, derivative and transformation functions."""
import decimal
from functools import partial
from lib import *
import pylogit
from pylogit import pylogit as pl
from pylogit import choice_calcs as cc
from pylogit import nested_choice_calcs as nc
from pylogit import mixed_logit_calcs as mlc
from pylogit import asym_logit, clog_log, scobit, uneven_logit, conditional_logit
from pylogit import mixed_logit, nested_logit
from pylogit.construct_estimator import create_estimation_obj

MODS = {'MNL': conditional_logit, 'Asym': asym_logit, 'Cloglog': clog_log,
        'Scobit': scobit, 'Uneven': uneven_logit}


def refs(rng, mt, J):
    sr = int(rng.randint(J)) if mt == 'Asym' else None
    ir = int(rng.randint(J)) if (mt != 'MNL' and rng.randint(2)) else None
    return sr, ir


def real_transform(mt, sr, ir):
    """The transformation exactly as the model class binds it."""
    if mt == 'MNL':
        return conditional_logit._mnl_utility_transform
    if mt == 'Asym':
        return partial(asym_logit._asym_utility_transform, shape_ref_position=sr,
                       intercept_ref_pos=ir)
    f = {'Cloglog': clog_log._cloglog_utility_transform,
         'Scobit': scobit._scobit_utility_transform,
         'Uneven': uneven_logit._uneven_utility_transform}[mt]
    return partial(f, intercept_ref_pos=ir)


def make_model(rng, mt, d, rich=True, names=None, **over):
    spec, nm, cols = gen_spec(rng, d, rich=rich, names=names)
    sr, ir = refs(rng, mt, d.J)
    kw = dict(names=nm)
    if mt == 'Asym':
        kw['shape_ref_pos'] = sr
    if ir is not None:
        kw['intercept_ref_pos'] = ir
        if rng.randint(2):
            kw['intercept_names'] = ['I %d' % k for k in range(d.J - 1)]
    S = n_shapes(mt, d.J)
    if S and rng.randint(2):
        kw['shape_names'] = ['S %d' % k for k in range(S)]
    kw.update(over)
    m = pl.create_choice_model(d.df.copy(), 'alt_id', 'obs_id', 'choice', spec, mt, **kw)
    return m, design_of(cols), sr, ir, cols


def theta(rng, orc, scale=0.6):
    th = [float(v) for v in np.round(rng.normal(size=orc.size()) * scale, 4)]
    return th


def units(rng):
    """attributes measured in small or large units"""
    r = np.random.RandomState(int(rng.randint(2 ** 30)))
    return float(r.choice([1.0, 1.0, 1.0, 1.0, 1e-3, 200.0]))


def fit_for(rng, orc, lim=5.0):
    """Parameters for which no transformed utility is clipped."""
    size = [max(abs(row[k]) for row in orc.X) for k in range(orc.K)]
    for s in (0.7, 0.4, 0.2, 0.1, 0.02):
        th = theta(rng, orc, s)
        for k in range(orc.K):
            if 0 < size[k] < 0.02 or size[k] > 50:
                th[k - orc.K] /= size[k]
        V = orc.V(th)
        if max(abs(v) for v in V) <= lim:
            h = re(orc.h(th))
            if max(abs(v) for v in h) < 600:
                return th
    return [0.01] * orc.size()


def arr(x):
    return None if x is None else np.array(x, dtype=float)


def logit_setup(rng, mt=None, contiguous=None):
    mt = mt or LOGIT[int(rng.randint(5))]
    d = gen(rng, contiguous=bool(rng.randint(2)) if contiguous is None else contiguous, scale=units(rng))
    _, _, cols = gen_spec(rng, d)
    X = design_of(cols)
    sr, ir = refs(rng, mt, d.J)
    return mt, d, X, sr, ir


# ------------------------------------------------------------------- P01
@case('P01', 120)
def probs_one_vector(rng):
    mt, d, X, sr, ir = logit_setup(rng)
    orc = Logit(mt, d, X, sr, ir)
    big = rng.randint(4) == 0
    th = theta(rng, orc, 40.0) if (big and mt in ('MNL', 'Uneven')) else fit_for(rng, orc)
    sh, al, b = orc.split(th)
    r2o, r2a, ch = maps(d)
    want = re(orc.probs(th))
    args = [arr(b), X, np.array([r['alt_id'] for r in d.rows]), r2o, r2a, real_transform(mt, sr, ir)]
    kw = dict(intercept_params=arr(al), shape_params=arr(sh))
    got = cc.calc_probabilities(*args, return_long_probs=True, **kw)
    want2 = np.maximum(np.array(want), 1e-300)
    close(got, want2, '%s long_probs' % mt, rtol=1e-6, atol=1e-12)
    check((got > 0).all(), 'probability not positive')
    close(r2o.T.dot(got), np.ones(d.N), '%s sums to one' % mt)
    chosen = [0.0] * d.N
    for i in range(d.n):
        if d.y[i]:
            chosen[d.o[i]] = want[i]
    c2, l2 = cc.calc_probabilities(*args, return_long_probs=True, chosen_row_to_obs=ch, **kw)
    close(c2, chosen, '%s chosen' % mt, rtol=1e-6, atol=1e-12)
    close(l2, want2, '%s long_probs (both)' % mt, rtol=1e-6, atol=1e-12)
    c3 = cc.calc_probabilities(*args, return_long_probs=False, chosen_row_to_obs=ch, **kw)
    close(c3, chosen, '%s chosen only' % mt, rtol=1e-6, atol=1e-12)


@case('P01', 60)
def probs_many_vectors(rng):
    mt, d, X, sr, ir = logit_setup(rng)
    orc = Logit(mt, d, X, sr, ir)
    S = int(rng.randint(2, 5)) if rng.randint(5) else 1
    ths = [fit_for(rng, orc) for _ in range(S)]
    parts = [orc.split(t) for t in ths]
    r2o, r2a, ch = maps(d)
    col = lambda k: None if parts[0][k] is None else np.array([p[k] for p in parts], dtype=float).T.copy()
    args = [col(2), X, np.array([r['alt_id'] for r in d.rows]), r2o, r2a, real_transform(mt, sr, ir)]
    c, l = cc.calc_probabilities(*args, intercept_params=col(1), shape_params=col(0),
                                 return_long_probs=True, chosen_row_to_obs=ch)
    same(np.shape(c), (d.N, S), '%s shape of the chosen probabilities' % mt)
    same(np.shape(l), (d.n, S), '%s shape of the long probabilities' % mt)
    for s in range(S):
        want = re(orc.probs(ths[s]))
        close(l[:, s], want, '%s column %d' % (mt, s), rtol=1e-6, atol=1e-12)
        chosen = [0.0] * d.N
        for i in range(d.n):
            if d.y[i]:
                chosen[d.o[i]] = want[i]
        close(c[:, s], chosen, '%s chosen column %d' % (mt, s), rtol=1e-6, atol=1e-12)


@case('P01', 40)
def probs_draws(rng):
    mt, d, X, sr, ir = logit_setup(rng, 'MNL')
    R = int(rng.randint(1, 5))
    mp = [int(v) for v in rng.choice(X.shape[1], size=min(X.shape[1], int(rng.randint(1, 3))), replace=False)]
    orc = Mixed(d, X, mp, draws_for(rng, len(mp), d.M, R))
    th = [float(v) for v in rng.normal(size=orc.K)]
    r2o, r2a, ch = maps(d)
    X3 = np.array(orc.X3())
    c, l = cc.calc_probabilities(np.array(th), X3, None, r2o, r2a, mixed_logit.mnl_utility_transform,
                                 return_long_probs=True, chosen_row_to_obs=ch)
    k = orc.kern(th)
    close(l, np.array([[k[r][i].real for r in range(R)] for i in range(d.n)]), 'draw probabilities')
    want = np.zeros((d.N, R))
    for i in range(d.n):
        if d.y[i]:
            want[d.o[i]] = [k[r][i].real for r in range(R)]
    close(c, want, 'draw chosen probabilities')


@case('P01', 30)
def probs_clipped(rng):
    """Utilities beyond +/-700 are treated as +/-700."""
    mt, d, X, sr, ir = logit_setup(rng, 'MNL')
    orc = Logit(mt, d, X)
    th = [float(v) for v in rng.normal(size=orc.K) * 10 ** rng.uniform(0, 4)]
    r2o, r2a, ch = maps(d)
    got = cc.calc_probabilities(np.array(th), X, None, r2o, r2a, real_transform(mt, None, None),
                                return_long_probs=True)
    want = np.maximum(np.array(re(orc.probs(th))), 1e-300)
    close(got, want, 'clipped probabilities', rtol=1e-5, atol=1.1e-300)


# ------------------------------------------------------------------- estimator based
def est_setup(rng, mt=None):
    mt = mt or LOGIT[int(rng.randint(5))]
    d = gen(rng, scale=units(rng))
    w = obs_weights(rng, d)
    ridge = None if rng.randint(2) else float(np.round(rng.uniform(0, 2), 3))
    if ridge is not None and rng.randint(6) == 0:
        ridge = 0
    m, X, sr, ir, cols = make_model(rng, mt, d)
    orc = Logit(mt, d, X, sr, ir, w, ridge)
    th = fit_for(rng, orc)
    wa = None if all(v == 1.0 for v in w) and rng.randint(2) else np.array(w)
    est = create_estimation_obj(m, np.array(th), ridge=ridge, weights=wa)
    est.set_derivatives()
    return mt, d, m, orc, th, est


@case(['P02'], 90)
def loglike_estimator(rng):
    mt, d, m, orc, th, est = est_setup(rng)
    close(est.convenience_calc_log_likelihood(np.array(th)), re(orc.ll(th)), '%s log-likelihood' % mt)


@case(['P02'], 60)
def loglike_row_weights(rng):
    """Row weights need not be constant within an observation."""
    mt, d, X, sr, ir = logit_setup(rng)
    w = [float(v) for v in np.round(rng.uniform(0, 3, size=d.n), 3)]
    ridge = None if rng.randint(2) else float(rng.uniform(0, 2))
    orc = Logit(mt, d, X, sr, ir, w, ridge)
    th = fit_for(rng, orc)
    sh, al, b = orc.split(th)
    r2o, r2a, ch = maps(d)
    got = cc.calc_log_likelihood(arr(b), X, None, r2o, r2a, np.array(d.y), real_transform(mt, sr, ir),
                                 intercept_params=arr(al), shape_params=arr(sh), ridge=ridge,
                                 weights=np.array(w))
    close(got, re(orc.ll(th)), '%s weighted log-likelihood' % mt)
    got = cc.calc_log_likelihood(arr(b), X, None, r2o, r2a, np.array(d.y), real_transform(mt, sr, ir),
                                 intercept_params=arr(al), shape_params=arr(sh))
    orc2 = Logit(mt, d, X, sr, ir)
    close(got, re(orc2.ll(th)), '%s plain log-likelihood' % mt)


@case('P03', 110)
def gradient_estimator(rng):
    mt, d, m, orc, th, est = est_setup(rng)
    got = est.convenience_calc_gradient(np.array(th))
    close(got, orc.grad(th), '%s gradient' % mt, rtol=2e-6, atol=1e-7)
    th2 = fit_for(rng, orc)
    got = est.convenience_calc_gradient(np.array(th2))
    close(got, orc.grad(th2), '%s gradient, second evaluation' % mt, rtol=2e-6, atol=1e-7)
    x = np.array(th)
    for t in (th, th2, th):
        x[:] = t
        f, g = est.calc_neg_log_likelihood_and_neg_gradient(x)
        close(f, -re(orc.ll(t)), '%s objective' % mt)
        close(g, -np.array(orc.grad(t)), '%s objective gradient' % mt, rtol=2e-6, atol=1e-7)


@case('P03', 40)
def gradient_function(rng):
    """calc_gradient on any row layout."""
    mt, d, X, sr, ir = logit_setup(rng)
    w = obs_weights(rng, d)
    ridge = None if rng.randint(2) else float(rng.uniform(0, 2))
    orc = Logit(mt, d, X, sr, ir, w, ridge)
    th = fit_for(rng, orc)
    sh, al, b = orc.split(th)
    r2o, r2a, ch = maps(d)
    est = Data()
    est.design, est.rows_to_alts, est.shape_ref_pos, est.intercept_ref_pos = X, r2a, sr, ir
    fs = derivs(mt, est)
    got = cc.calc_gradient(arr(b), X, None, r2o, r2a, np.array(d.y), real_transform(mt, sr, ir),
                           fs[0], fs[1], fs[2], arr(al), arr(sh), ridge,
                           None if all(v == 1 for v in w) else np.array(w))
    close(got, orc.grad(th), '%s gradient' % mt, rtol=2e-6, atol=1e-7)


def derivs(mt, est):
    """(dh_d_shape, dh_dv, dh_d_alpha) as the estimators bind them"""
    mod = MODS[mt]
    if mt == 'MNL':
        from scipy.sparse import diags
        dv = diags(np.ones(est.design.shape[0]), 0, format='csr')
        return (mod._mnl_transform_deriv_c, lambda *a: dv, mod._mnl_transform_deriv_alpha)
    shp = mod._cloglog_transform_deriv_c if mt == 'Cloglog' else mod.create_calc_dh_d_shape(est)
    return (shp, mod.create_calc_dh_dv(est), mod.create_calc_dh_d_alpha(est))


@case('P04', 90)
def hessian_estimator(rng):
    mt, d, m, orc, th, est = est_setup(rng)
    got = est.convenience_calc_hessian(np.array(th))
    H = np.array(orc.hess(th))
    close(got, H, '%s hessian' % mt, rtol=2e-6, atol=1e-6)
    close(got, got.T, '%s hessian symmetric' % mt, rtol=1e-8, atol=1e-7)
    check(type(got) is np.ndarray, 'hessian is not a plain array')


@case('P04', 30)
def hessian_mnl_second_derivative(rng):
    mt, d, m, orc, th, est = est_setup(rng, 'MNL')
    got = est.convenience_calc_hessian(np.array(th))
    for k in range(len(th)):
        top = max(abs(row[k]) for row in orc.X)
        eps = 1e-5 / (top or 1.0) if top < 0.02 or top > 50 else 1e-5
        up, dn = list(th), list(th)
        up[k] += eps
        dn[k] -= eps
        col = (np.array(orc.grad(up)) - np.array(orc.grad(dn))) / (2 * eps)
        close(got[:, k], col, 'MNL second derivative column %d' % k, rtol=1e-5, atol=1e-5)


@case('P05', 80)
def fisher_estimator(rng):
    mt, d, m, orc, th, est = est_setup(rng)
    got = est.convenience_calc_fisher_approx(np.array(th))
    close(got, np.array(orc.fisher(th)), '%s fisher' % mt, rtol=2e-6, atol=1e-6)


@case('P05', 30)
def robust_covariance(rng):
    K = int(rng.randint(1, 7))
    A = rng.normal(size=(K, K))
    H = -(A.dot(A.T) + np.eye(K))
    k = rng.randint(4)
    if k == 1:
        H = H + 0.3 * rng.normal(size=(K, K))      # not symmetric
    elif k == 2:
        H = A + A.T + np.diag(rng.uniform(2, 4, size=K) * rng.choice([-1, 1], size=K))      # not definite
    if np.linalg.cond(H) > 1e4:
        H = -(A.dot(A.T) + np.eye(K))
    B = rng.normal(size=(K, K))
    F = B.dot(B.T)
    got = cc.calc_asymptotic_covariance(H, F)
    close(H.dot(got).dot(H), F, 'H C H = F', rtol=1e-5, atol=1e-6)


# ------------------------------------------------------------------- P06 / P07
def transform_setup(rng, lim=6.0, mt=None):
    mt = mt or LOGIT[int(rng.randint(5))]
    d = gen(rng, contiguous=bool(rng.randint(2)))
    sr, ir = refs(rng, mt, d.J)
    r2o, r2a, ch = maps(d)
    S = n_shapes(mt, d.J)
    sh = [float(v) for v in np.round(rng.normal(size=S), 3)] if S else None
    al = [float(v) for v in np.round(rng.normal(size=d.J - 1) * 2, 3)] if ir is not None else None
    V = np.round(rng.uniform(-lim, lim, size=d.n), 4)
    pick = rng.randint(5, size=d.n)
    special = [0.0, 3.7, 3.6999, -0.0001, 0.0001, 3.7001, 1.0, -1.0, 5.5, -8.0]
    for i in range(d.n):
        if pick[i] == 0:
            V[i] = special[int(rng.randint(len(special)))]
    if mt == 'Cloglog':
        V = np.minimum(V, 6.0)
    return mt, d, sr, ir, r2a, sh, al, V


@case('P06', 150)
def transform_formula(rng):
    mt, d, sr, ir, r2a, sh, al, V = transform_setup(rng, lim=6.0 if rng.randint(2) else 14.0)
    want = [complex(h_oracle(mt, complex(V[i]), d.a[i], d.J, sh, al, sr, ir)).real for i in range(d.n)]
    got = real_transform(mt, sr, ir)(V.copy(), np.array([r['alt_id'] for r in d.rows]), r2a, arr(sh), arr(al))
    got = np.asarray(got)
    same(got.shape, (d.n, 1), '%s transform shape' % mt)
    close(got[:, 0], want, '%s transform' % mt, rtol=1e-6, atol=1e-6)


def exact_transform(mt, V, j, J, sh, al, sr, ir):
    """(value, resolution of the double formula) in decimal arithmetic"""
    D = decimal.Decimal
    with decimal.localcontext() as c:
        c.prec = 60
        c.Emax, c.Emin = decimal.MAX_EMAX, decimal.MIN_EMIN
        V = D(V)
        add = D(expand(al, ir, J)[j]) if al is not None else D(0)

        def big(x):             # exp without leaving the range of decimals
            return (x if abs(x) < 10 ** 7 else D(10) ** 7 * (1 if x > 0 else -1)).exp()

        def softplus(x):        # log(1 + exp(x))
            return x if x > 10 ** 5 else D(0) if x < -10 ** 5 else (1 + big(x)).ln()
        eps = D(1) / 2 ** 50
        if mt == 'MNL':
            return V + add, 0
        if mt == 'Cloglog':
            if V >= D(3.7):
                return big(V) + add, 0
            e = big(V)
            h = V if e < D(10) ** -25 else (big(e) - 1).ln()
            return h + add, min(eps / e if e else D(0), D(10) ** 9)
        if mt == 'Scobit':
            s = big(D(sh[j]))
            u = s * softplus(-V)
            if u > 10 ** 5:
                return -u + add, eps * u * u
            if u < D(10) ** -25:
                return (-u.ln() if u else -(D(sh[j]) - V)) + add, D(10) ** 9
            return -(big(u) - 1).ln() + add, eps * (1 + s) / min(u, D(1))
        if mt == 'Uneven':
            s = big(D(sh[j]))
            return V + softplus(-V) - softplus(-s * V) + add, eps * (abs(V) + abs(s * V))
        full = [D(x) for x in expand(sh, sr, J)]
        m = max(full)
        ex = [big(x - m) for x in full]
        rest = sum(ex[:j] + ex[j + 1:])
        tot = sum(ex)
        lc, l1 = full[j] - m - tot.ln(), (rest / tot / (J - 1)).ln()
        one = rest / tot
        return (lc - V * lc if V >= 0 else lc - V * l1) + add, abs(V) * eps / one * 4 if V < 0 else eps * abs(V)


@case('P06', 200)
def transform_saturation(rng, mt=None, tops=(3.0, 20.0, 45.0, 330.0, 705.0)):
    """beyond the resolution of doubles a transformation saturates, on the right side"""
    mt, d, sr, ir, r2a, sh, al, V = transform_setup(rng, mt=mt)
    lim = float(rng.choice([40.0, 300.0, 680.0, 3000.0 if mt in ('MNL', 'Uneven', 'Asym') else 500.0]))
    V = np.round(rng.uniform(-lim, lim, size=d.n), 3)
    pick = rng.randint(3, size=d.n)
    V = np.where(pick == 0, np.round(rng.uniform(-6, 6, size=d.n), 3), V)
    if sh is not None:
        top = float(rng.choice(list(tops)))
        sh = [float(v) for v in np.round(rng.uniform(-top, top, size=len(sh)), 2)]
        if top == 705.0 and len(sh) > 1:
            a, b = rng.choice(len(sh), size=2, replace=False)
            sh[a], sh[b] = float(np.round(rng.uniform(380, 705), 2)), float(np.round(rng.uniform(-705, -380), 2))
    got = np.asarray(real_transform(mt, sr, ir)(V.copy(), np.array([r['alt_id'] for r in d.rows]), r2a, arr(sh), arr(al)))
    same(got.shape, (d.n, 1), '%s transform shape' % mt)
    for i in range(d.n):
        want, res = exact_transform(mt, float(V[i]), d.a[i], d.J, sh, al, sr, ir)
        g = decimal.Decimal(float(got[i, 0]))
        tol = decimal.Decimal(1e-6) * (1 + abs(want)) + decimal.Decimal(res)
        w = min(abs(want), decimal.Decimal(600))
        if mt == 'Scobit' and V[i] > 30:
            continue            # 1 + exp(-V) has no digits left
        good = abs(g - want) <= tol or abs(want) >= (0 if mt == 'Asym' and res > 1e-3 else 30) and g * want > 0 and abs(g) >= w * (1 - decimal.Decimal(1e-6))
        check(good, '%s transform at V=%r alternative %d of %d shapes %r intercepts %r: %s, formula gives %s'
              % (mt, float(V[i]), d.a[i], d.J, sh, al, got[i, 0], want))


@case('P06', 30)
def asym_share_underflows(rng):
    """shape parameters so far apart that a share is zero in double precision"""
    transform_saturation(rng, 'Asym', (705.0,))


@case('P06', 60)
def transform_columns(rng):
    mt, d, sr, ir, r2a, sh, al, V = transform_setup(rng)
    S = int(rng.randint(2, 5))
    V2 = np.stack([V + 0.1 * s for s in range(S)], axis=1)
    sh2 = None if sh is None else np.stack([np.array(sh) + 0.2 * s for s in range(S)], axis=1)
    al2 = None if al is None else np.stack([np.array(al) - 0.3 * s for s in range(S)], axis=1)
    got = np.asarray(real_transform(mt, sr, ir)(V2.copy(), None, r2a, sh2, al2))
    same(got.shape, (d.n, S), '%s transform shape' % mt)
    for s in range(S):
        want = [complex(h_oracle(mt, complex(V2[i, s]), d.a[i], d.J,
                                 None if sh is None else list(sh2[:, s]),
                                 None if al is None else list(al2[:, s]), sr, ir)).real for i in range(d.n)]
        close(got[:, s], want, '%s transform column' % mt, rtol=1e-6, atol=1e-6)


@case('P06', 30)
def transform_bound_by_model(rng):
    mt = LOGIT[int(rng.randint(5))]
    d = gen(rng)
    m, X, sr, ir, cols = make_model(rng, mt, d)
    orc = Logit(mt, d, X, sr, ir)
    th = fit_for(rng, orc)
    sh, al, b = orc.split(th)
    r2o, r2a, ch = maps(d)
    got = np.asarray(m.utility_transform(np.array(orc.V(th)), m.alt_IDs, r2a, arr(sh), arr(al)))
    close(got[:, 0], re(orc.h(th)), '%s bound transform' % mt, rtol=1e-6, atol=1e-6)


@case('P06', 30)
def asym_shares(rng):
    J = int(rng.randint(2, 7))
    ref = int(rng.randint(J))
    eta = rng.normal(size=J - 1) * 3
    full = expand(list(eta), ref, J)
    tot = sum(math.exp(v) for v in full)
    close(asym_logit._convert_eta_to_c(eta.copy(), ref), [math.exp(v) / tot for v in full], 'shares')
    S = int(rng.randint(2, 4))
    e2 = rng.normal(size=(J - 1, S))
    got = asym_logit._convert_eta_to_c(e2.copy(), ref)
    for s in range(S):
        full = expand(list(e2[:, s]), ref, J)
        tot = sum(math.exp(v) for v in full)
        close(got[:, s], [math.exp(v) / tot for v in full], 'shares column')


def dense(x):
    if hasattr(x, 'toarray'):
        return x.toarray()
    return np.asarray(x)


@case('P07', 150)
def transform_derivatives(rng):
    mt, d, sr, ir, r2a, sh, al, V = transform_setup(rng, lim=5.0)
    V = np.where(np.abs(V - 3.7) < 1e-9, 3.71, V)
    if mt in ('Scobit',):
        V = np.clip(V, -5, 5)
    est = Data()
    est.design, est.rows_to_alts, est.shape_ref_pos, est.intercept_ref_pos = np.zeros((d.n, 1)), r2a, sr, ir
    fs = derivs(mt, est)
    alt_ids = np.array([r['alt_id'] for r in d.rows])
    for rep in range(2):
        got_v = dense(fs[1](V.copy(), alt_ids, r2a, arr(sh)))
        want = np.zeros((d.n, d.n))
        for i in range(d.n):
            want[i, i] = cstep(lambda t: h_oracle(mt, t[0], d.a[i], d.J, sh, al, sr, ir), [float(V[i])])[0]
        close(got_v, want, '%s dh/dV' % mt, rtol=1e-5, atol=1e-7)
        if sh is not None:
            got = dense(fs[0](V.copy(), alt_ids, r2a, arr(sh)))
            want = [cstep(lambda t: h_oracle(mt, complex(V[i]), d.a[i], d.J, t, al, sr, ir), sh)
                    for i in range(d.n)]
            close(got, want, '%s dh/dshape' % mt, rtol=1e-5, atol=1e-7)
        else:
            check(fs[0](V.copy(), alt_ids, r2a, None) is None, '%s has no shape derivative' % mt)
        if al is not None:
            got = dense(fs[2](V.copy(), alt_ids, r2a, arr(al)))
            want = [cstep(lambda t: h_oracle(mt, complex(V[i]), d.a[i], d.J, sh, t, sr, ir), al)
                    for i in range(d.n)]
            close(got, want, '%s dh/dintercept' % mt)
        else:
            check(fs[2](V.copy(), alt_ids, r2a, None) is None, '%s has no intercept derivative' % mt)
        V = V * 0.5 + 0.01
        if sh is not None:
            sh = [v * 0.7 for v in sh]


@case('P07', 30)
def derivatives_bound_by_estimator(rng):
    mt, d, m, orc, th, est = est_setup(rng)
    sh, al, b = orc.split(th)
    V = np.array(orc.V(th))
    S = 0 if sh is None else len(sh)
    I = 0 if al is None else len(al)
    D = orc.dh(th)
    a = (V.copy(), m.alt_IDs, est.rows_to_alts, arr(sh))
    dv = dense(est.calc_dh_dv(*a))
    want = [cstep(lambda t: h_oracle(mt, t[0], d.a[i], d.J, sh, al, orc.sr, orc.ir), [float(V[i])])[0]
            for i in range(d.n)]
    close(np.diag(dv), want, '%s dh/dV' % mt, rtol=1e-5, atol=1e-7)
    if S:
        close(dense(est.calc_dh_d_shape(*a)), [r[:S] for r in D], '%s dh/dshape' % mt, rtol=1e-5, atol=1e-7)
    if I:
        close(dense(est.calc_dh_d_alpha(V.copy(), m.alt_IDs, est.rows_to_alts, arr(al))),
              [r[S:S + I] for r in D], '%s dh/dalpha' % mt, rtol=1e-5, atol=1e-7)


# ------------------------------------------------------------------- nested
def nested_setup(rng, contiguous=None, ridge=None, free=False):
    d = gen(rng, contiguous=bool(rng.randint(2)) if contiguous is None else contiguous)
    spec, nest, M = gen_nests(rng, d)
    sp, nm, cols = gen_spec(rng, d)
    X = design_of(cols)
    w = obs_weights(rng, d)
    r = np.random.RandomState(int(rng.randint(2 ** 30)))
    far = free and r.randint(4) == 0
    if far:                 # all utilities of the same large size, as with an uncentred attribute
        X = X.copy()
        X[:, 0] += float(r.choice([-500, -280, -150, 150, 280, 500]))
    orc = Nested(d, X, nest, M, w, ridge)
    eta = [float(v) for v in np.round(rng.normal(size=M) * 1.5 + 0.5, 3)]
    if r.randint(4) == 0:   # nest parameters close to the ends of their range
        eta[int(r.randint(M))] = float(np.round(r.uniform(-4, 16), 3))
    b = [float(v) for v in np.round(rng.normal(size=X.shape[1]) * 0.5, 3)]
    for k in range(14):
        lam = re(orc.lam(eta))
        V = [sum(x * t for x, t in zip(row, b)) for row in orc.X]
        if max(abs(V[i]) / lam[nest[i]] for i in range(d.n)) < (600 if far else 30):
            break
        b = [v * 0.5 for v in b]
    return d, spec, nest, M, sp, nm, X, w, orc, eta, b


@case('P08', 120)
def nested_probs(rng):
    d, spec, nest, M, sp, nm, X, w, orc, eta, b = nested_setup(rng, free=True)
    r2o, r2a, ch = maps(d)
    r2n = onehot(nest, M)
    lam = re(orc.lam(eta))
    if rng.randint(3) == 0:
        lam[int(rng.randint(M))] = 1.0
    want = re(orc.probs_nat(lam, b))
    e, S, den = orc.parts(lam, b)
    A = (np.array(lam), np.array(b), X, r2o, r2n)
    got = nc.calc_nested_probs(*A)
    close(got, want, 'nested long_probs', rtol=1e-6)
    check((got > 0).all(), 'positive')
    close(r2o.T.dot(got), np.ones(d.N), 'sums to one')
    chosen = [0.0] * d.N
    for i in range(d.n):
        if d.y[i]:
            chosen[d.o[i]] = want[i]
    c, l = nc.calc_nested_probs(*A, chosen_row_to_obs=ch, return_type='long_and_chosen_probs')
    close(c, chosen, 'nested chosen', rtol=1e-6)
    close(l, want, 'nested long', rtol=1e-6)
    close(nc.calc_nested_probs(*A, chosen_row_to_obs=ch, return_type='chosen_probs'), chosen, 'chosen', rtol=1e-6)
    al = nc.calc_nested_probs(*A, chosen_row_to_obs=ch, return_type='all_prob_dict')
    close(al['long_probs'], want, 'dict long', rtol=1e-6)
    close(al['chosen_probs'], chosen, 'dict chosen', rtol=1e-6)
    pg = [(e[i] / S[(d.o[i], nest[i])]).real for i in range(d.n)]
    close(al['prob_given_nest'], pg, 'within-nest probability', rtol=1e-6)
    pn = np.array([[((S.get((n, m), 0) ** lam[m]) / den[n]).real if (n, m) in S else 0.0
                    for m in range(M)] for n in range(d.N)])
    close(al['nest_choice_probs'], pn, 'nest probability', rtol=1e-6)
    sm = np.array([[complex(S.get((n, m), 0)).real for m in range(M)] for n in range(d.N)])
    close(al['ind_sums_per_nest'], sm, 'sums per nest', rtol=1e-6)
    back = [al['prob_given_nest'][i] * al['nest_choice_probs'][d.o[i], nest[i]] for i in range(d.n)]
    close(back, want, 'decomposition', rtol=1e-6)
    close(nc.naturalize_nest_coefs(np.array(eta)), re(orc.lam(eta)), 'logistic map')


@case('P08', 30)
def nested_probs_model(rng):
    """Estimator and nest order of the specification."""
    d, spec, nest, M, sp, nm, X, w, orc, eta, b = nested_setup(rng, contiguous=True)
    m = pl.create_choice_model(d.df.copy(), 'alt_id', 'obs_id', 'choice', sp, 'Nested Logit', names=nm,
                               nest_spec=spec)
    th = eta + b
    est = create_estimation_obj(m, np.array(th), weights=np.array(w))
    c, l = est.convenience_calc_probs(np.array(th))
    close(l, re(orc.probs(th)), 'nested estimator probabilities', rtol=1e-6)


def nested_est(rng):
    ridge = None if rng.randint(2) else float(np.round(rng.uniform(0, 2), 3))
    d, spec, nest, M, sp, nm, X, w, orc, eta, b = nested_setup(rng, contiguous=True, ridge=ridge)
    m = pl.create_choice_model(d.df.copy(), 'alt_id', 'obs_id', 'choice', sp, 'Nested Logit', names=nm,
                               nest_spec=spec)
    th = eta + b
    K = len(th)
    cons = None
    if rng.randint(2):
        cons = sorted(int(v) for v in rng.choice(K, size=int(rng.randint(1, K + 1)), replace=False))
    est = create_estimation_obj(m, np.array(th), ridge=ridge, weights=np.array(w), constrained_pos=cons)
    return d, orc, th, est, cons


@case('P09', 110)
def nested_gradient(rng):
    d, orc, th, est, cons = nested_est(rng)
    close(est.convenience_calc_log_likelihood(np.array(th)), re(orc.ll(th)), 'nested log-likelihood')
    got = est.convenience_calc_gradient(np.array(th))
    ridge = orc.ridge
    try:
        close(got, orc.grad(th), 'nested gradient', rtol=2e-6, atol=1e-6)
    except Fail:
        if not ridge:
            raise
        # finding nested-ridge-gradient: nest entries of the penalty's
        # gradient are 2*ridge*(20 - eta); everything else must be right
        orc.ridge = None
        want = np.array(orc.grad(th))
        for k in range(len(th)):
            want[k] -= 2 * ridge * ((20 - th[k]) if k < orc.M else th[k])
        close(got, want, 'nested gradient (apart from the listed ridge finding)', rtol=2e-6, atol=1e-6)
        raise Known('nested-ridge-gradient', 'calc_nested_gradient(ridge=%r) nest entries' % ridge)


@case('P09', 50)
def nested_gradient_function(rng):
    d, spec, nest, M, sp, nm, X, w, orc, eta, b = nested_setup(rng, free=True)
    r2o, r2a, ch = maps(d)
    r2n = onehot(nest, M)
    ws = None if all(v == 1 for v in w) else np.array(w)
    got = nc.calc_nested_gradient(np.array(eta), np.array(b), X, np.array(d.y), r2o, r2n, weights=ws)
    close(got, orc.grad(eta + b), 'nested gradient', rtol=2e-6, atol=1e-6)
    lam = re(orc.lam(eta))
    got = nc.calc_nested_gradient(np.array(eta), np.array(b), X, np.array(d.y), r2o, r2n, weights=ws, use_jacobian=False)
    want = np.array(orc.grad(eta + b))
    scale = np.array([v * (1 - v) for v in lam] + [1.0] * len(b))
    close(got * scale, want, 'nested gradient in the natural nest coefficients', rtol=2e-6, atol=1e-6)
    got = nc.calc_nested_log_likelihood(np.array(lam), np.array(b), X, r2o, r2n, np.array(d.y),
                                        weights=ws)
    close(got, re(orc.ll(eta + b)), 'nested log-likelihood')


@case('P10', 90)
def nested_bhhh(rng):
    d, orc, th, est, cons = nested_est(rng)
    want = np.array(orc.bhhh(th))
    if cons is not None:
        for k in cons:
            want[k, :] = 0
            want[:, k] = 0
            want[k, k] = -1
    close(est.convenience_calc_hessian(np.array(th)), want, 'nested BHHH', rtol=2e-6, atol=1e-6)


# ------------------------------------------------------------------- mixed
def mixed_setup(rng, contiguous=None, int_x=False):
    d = gen(rng, contiguous=bool(rng.randint(2)) if contiguous is None else contiguous, int_x=int_x)
    if int_x:
        X = np.array([[r['x1'], r['x2']] for r in d.rows])
    else:
        _, _, cols = gen_spec(rng, d)
        X = design_of(cols)
    nv = min(X.shape[1], int(rng.randint(1, 4)))
    mp = [int(v) for v in rng.choice(X.shape[1], size=nv, replace=False)]
    R = int(rng.choice([1, 2, 3, 5]))
    draws = draws_for(rng, nv, d.M, R)
    w = person_weights(rng, d)
    ridge = None if rng.randint(2) else float(np.round(rng.uniform(0, 2), 3))
    orc = Mixed(d, X, mp, draws, w, ridge)
    th = [float(v) for v in np.round(rng.normal(size=orc.K) * 0.6, 3)]
    th = unlikely(rng, orc, th)
    r2m = onehot(d.m, d.M)
    return d, X, mp, R, draws, w, ridge, orc, th, r2m


def unlikely(rng, orc, th):
    """now and then parameters under which the observed choices are very
    improbable (as those of long panels are), yet far from underflow"""
    r = np.random.RandomState(int(rng.randint(2 ** 30)))
    if r.randint(4):
        return th
    for f in (80.0, 40.0, 20.0, 10.0, 5.0):
        t = [v * f for v in th]
        if min(abs(v) for p in orc.seq(t) for v in p) > 1e-150:
            return t
    return th


@case('P11', 60)
def mixed_design(rng):
    d, X, mp, R, draws, w, ridge, orc, th, r2m = mixed_setup(rng, int_x=bool(rng.randint(4) == 0))
    got = mlc.create_expanded_design_for_mixing(X, draws, mp, r2m)
    close(got, np.array(orc.X3()), 'expanded design')


@case('P11', 20)
def mixed_draws(rng):
    M, R, K = int(rng.randint(1, 6)), int(rng.randint(1, 6)), int(rng.randint(1, 4))
    seed = int(rng.randint(1, 1000))
    a = mlc.get_normal_draws(M, R, K, seed=seed)
    same(len(a), K, 'one array per variable')
    for x in a:
        same(x.shape, (M, R), 'draw shape')
    b = mlc.get_normal_draws(M, R, K, seed=seed)
    for x, y in zip(a, b):
        same(x, y, 'same seed, same draws')
    if K > 1:
        check(not np.allclose(a[0], a[1]), 'variables share draws')
    big = np.concatenate([v.ravel() for v in mlc.get_normal_draws(200, 100, 2, seed=seed)])
    check(abs(big.mean()) < 0.05 and abs(big.std() - 1) < 0.05, 'draws are not standard normal')


@case('P11', 70)
def mixed_loglike(rng):
    d, X, mp, R, draws, w, ridge, orc, th, r2m = mixed_setup(rng)
    r2o, r2a, ch = maps(d)
    X3 = np.array(orc.X3())
    got = mlc.calc_mixed_log_likelihood(np.array(th), X3, None, r2o, r2a, r2m, np.array(d.y),
                                        mixed_logit.mnl_utility_transform, ridge=ridge, weights=np.array(w))
    close(got, re(orc.ll(th)), 'simulated log-likelihood (R=%d)' % R)
    k = orc.kern(th)
    pa = np.array([[k[r][i].real for r in range(R)] for i in range(d.n)])
    s, e = mlc.calc_choice_sequence_probs(pa, np.array(d.y), r2m, return_type='all')
    close(e, np.array(re(orc.seq(th))), 'sequence probabilities', rtol=1e-6, atol=1e-200)
    close(s, np.array(re(orc.sim(th))), 'simulated probabilities', rtol=1e-6, atol=1e-200)
    close(mlc.calc_choice_sequence_probs(pa, np.array(d.y), r2m), np.array(re(orc.sim(th))), 'simulated only', rtol=1e-6, atol=1e-200)
    got = mlc.calc_mixed_log_likelihood(np.array(th), X3, None, r2o, r2a, r2m, np.array(d.y),
                                        mixed_logit.mnl_utility_transform)
    orc2 = Mixed(d, X, mp, draws)
    close(got, re(orc2.ll(th)), 'plain simulated log-likelihood')


def mixed_est(rng):
    d, X, mp, R, draws, w, ridge, orc, th, r2m = mixed_setup(rng, contiguous=True)
    sp, nm, cols = gen_spec(rng, d)
    X = design_of(cols)
    names = [c[0] for c in cols]
    nv = min(len(names), int(rng.randint(1, 3)))
    mp = [int(v) for v in rng.choice(len(names), size=nv, replace=False)]
    m = pl.create_choice_model(d.df.copy(), 'alt_id', 'obs_id', 'choice', sp, 'Mixed Logit', names=nm,
                               mixing_id_col='pid', mixing_vars=[names[p] for p in mp])
    draws = draws_for(rng, nv, d.M, R)
    m.design_3d = mlc.create_expanded_design_for_mixing(m.design, draws, m.mixing_pos, onehot(d.m, d.M))
    orc = Mixed(d, X, mp, draws, w, ridge)
    th = unlikely(rng, orc, [float(v) for v in np.round(rng.normal(size=orc.K) * 0.6, 3)])
    cons = None
    if rng.randint(2):
        cons = sorted(int(v) for v in rng.choice(orc.K, size=int(rng.randint(1, orc.K + 1)), replace=False))
    est = create_estimation_obj(m, np.array(th), ridge=ridge, weights=np.array(w), constrained_pos=cons)
    return d, orc, th, est, cons, m


@case(['P11', 'P12'], 40)
def mixed_estimator(rng):
    d, orc, th, est, cons, m = mixed_est(rng)
    close(est.convenience_calc_log_likelihood(np.array(th)), re(orc.ll(th)), 'mixed estimator log-likelihood')
    close(est.convenience_calc_gradient(np.array(th)), orc.grad(th), 'mixed estimator gradient', rtol=2e-6, atol=1e-6)
    want = np.array(orc.bhhh(th))
    if cons is not None:
        for k in cons:
            want[k, :] = 0
            want[:, k] = 0
            want[k, k] = -1
    close(est.convenience_calc_hessian(np.array(th)), want, 'mixed estimator BHHH', rtol=2e-6, atol=1e-6)


@case('P12', 70)
def mixed_gradient(rng):
    d, X, mp, R, draws, w, ridge, orc, th, r2m = mixed_setup(rng)
    r2o, r2a, ch = maps(d)
    X3 = np.array(orc.X3())
    A = (np.array(th), X3, None, r2o, r2a, r2m, np.array(d.y), mixed_logit.mnl_utility_transform)
    close(mlc.calc_mixed_logit_gradient(*A, ridge=ridge, weights=np.array(w)), orc.grad(th),
          'mixed gradient (R=%d)' % R, rtol=2e-6, atol=1e-6)
    close(mlc.calc_bhhh_hessian_approximation_mixed_logit(*A, ridge=ridge, weights=np.array(w)),
          np.array(orc.bhhh(th)), 'mixed BHHH (R=%d)' % R, rtol=2e-6, atol=1e-6)
    orc2 = Mixed(d, X, mp, draws)
    close(mlc.calc_mixed_logit_gradient(*A), orc2.grad(th), 'plain mixed gradient', rtol=2e-6, atol=1e-6)
    close(mlc.calc_bhhh_hessian_approximation_mixed_logit(*A), np.array(orc2.bhhh(th)), 'plain mixed BHHH',
          rtol=2e-6, atol=1e-6)
    pos = None if rng.randint(3) == 0 else sorted(int(k) for k in rng.choice(len(th), rng.randint(len(th) + 1), replace=False))
    nl, ng = mlc.calc_neg_log_likelihood_and_neg_gradient(*(A + (pos,)), ridge=ridge, weights=np.array(w))
    want = -np.array(orc.grad(th))
    want[pos or []] = 0
    close(nl, -re(orc.ll(th)), 'negative log-likelihood')
    close(ng, want, 'negative gradient, constrained %s' % pos, rtol=2e-6, atol=1e-6)


# ------------------------------------------------------------------- P29
def extreme(rng, size):
    mag = 10.0 ** rng.uniform(-2, [2, 4, 10, 100, 299][int(rng.randint(5))], size=size)
    v = mag * rng.choice([-1.0, 1.0], size=size)
    if rng.randint(3) == 0:             # around the guards of the code
        near = np.array([3.5, 3.7, 36.0, 37.5, 690.7, 691.0, 700.0, 705.0, 709.7, 709.78, 709.79, 745.0, 746.0])
        v = near[rng.randint(len(near), size=size)] + rng.normal(size=size) * 10.0 ** rng.uniform(-4, 0.5)
        v = v * (rng.choice([-1.0, 1.0], size=size) if rng.randint(2) else rng.choice([-1.0, 1.0]))
    z = rng.randint(6 if rng.randint(2) else 10 ** 6, size=size) == 0
    return np.where(z, 0.0, v)


@case('P29', 500)
def extreme_logit(rng):
    mt = LOGIT[int(rng.randint(5))]
    d = gen(rng, contiguous=bool(rng.randint(2)), min_avail=1)
    sr, ir = refs(rng, mt, d.J)
    r2o, r2a, ch = maps(d)
    X = np.zeros((d.n, 2))
    X[:, 0] = [r['x1'] for r in d.rows]
    which = int(rng.randint(3))
    if which == 0:                     # one huge utility scale
        b = np.array([float(extreme(rng, 1)[0]), 0.0])
    elif which == 1:                   # row utilities of very different scales
        X[:, 1] = extreme(rng, d.n)
        b = np.array([1.0, 1.0])
    else:
        b = rng.normal(size=2)
    S = n_shapes(mt, d.J)
    sh = extreme(rng, S) if S else None
    al = np.clip(extreme(rng, d.J - 1), -1e290, 1e290) if ir is not None else None
    if rng.randint(2) and S:
        sh = rng.normal(size=S)
    V = X.dot(b)
    check(np.isfinite(V).all(), 'generator')
    fr = frozen(b, X, sh, al, r2o, r2a, ch, V)
    h = np.asarray(real_transform(mt, sr, ir)(V, None, r2a, sh, al))
    check(np.isfinite(h).all(), '%s transformed utility not finite: V=%s shapes=%s intercepts=%s -> %s'
          % (mt, _s(V), sh, al, _s(h)))
    est = Data()
    est.design, est.rows_to_alts, est.shape_ref_pos, est.intercept_ref_pos = X, r2a, sr, ir
    fs = derivs(mt, est)
    for nm, g in (('dh/dV', fs[1]), ('dh/dshape', fs[0])):
        m = g(V, np.array([r['alt_id'] for r in d.rows]), r2a, sh)
        if m is not None:
            m = np.asarray(m.todense() if hasattr(m, 'todense') else m)
            check(not np.isnan(m).any(), '%s %s is NaN: V=%s shapes=%s -> %s' % (mt, nm, _s(V), sh, _s(m)))
            if nm == 'dh/dV':
                check(np.isfinite(m).all(), '%s %s is not finite: V=%s shapes=%s -> %s' % (mt, nm, _s(V), sh, _s(m)))
    c, p = cc.calc_probabilities(b, X, None, r2o, r2a, real_transform(mt, sr, ir), intercept_params=al,
                                 shape_params=sh, return_long_probs=True, chosen_row_to_obs=ch)
    for v, nm in ((p, 'long'), (c, 'chosen')):
        if nm == 'chosen':
            v = v[np.array(v) >= 0] if np.isfinite(v).all() else v
        check(np.isfinite(v).all() and (v <= 1 + 1e-9).all(), '%s %s probability %s' % (mt, nm, _s(v)))
    check((p > 0).all(), '%s probability not positive %s' % (mt, _s(p)))
    close(r2o.T.dot(p), np.ones(d.N), '%s probabilities of an observation sum to one, h=%s' % (mt, _s(h)))
    ll = cc.calc_log_likelihood(b, X, None, r2o, r2a, np.array(d.y), real_transform(mt, sr, ir),
                                intercept_params=al, shape_params=sh)
    check(np.isfinite(ll), '%s log-likelihood %s' % (mt, ll))
    framed(fr, '%s at extreme values' % mt)


def framed(fr, what):
    if MODE['frame_only']:
        fr(what)


def _s(a):
    return np.array2string(np.asarray(a).ravel()[:12])


@case('P29', 150)
def extreme_mixed(rng):
    d = gen(rng, contiguous=bool(rng.randint(2)))
    R = int(rng.randint(1, 4))
    r2o, r2a, ch = maps(d)
    r2m = onehot(d.m, d.M)
    X3 = np.zeros((d.n, R, 2))
    X3[:, :, 0] = rng.normal(size=(d.n, R))
    if rng.randint(2):
        X3[:, :, 1] = extreme(rng, d.n * R).reshape((d.n, R))
        b = np.array([1.0, 1.0])
    else:
        b = np.array([float(extreme(rng, 1)[0]), 0.0])
    t = mixed_logit.mnl_utility_transform
    V = X3.dot(b)
    check(np.isfinite(V).all(), 'generator')
    fr = frozen(b, X3, r2o, r2a, r2m)
    p = cc.calc_probabilities(b, X3, None, r2o, r2a, t, return_long_probs=True)
    check(np.isfinite(p).all() and (p > 0).all() and (p <= 1 + 1e-9).all(), 'mixed logit probability %s at V=%s' % (_s(p), _s(V)))
    close(r2o.T.dot(p), np.ones((d.N, R)), 'mixed logit probabilities of an observation sum to one, V=%s' % _s(V))
    ll = mlc.calc_mixed_log_likelihood(b, X3, None, r2o, r2a, r2m, np.array(d.y), t)
    check(np.isfinite(ll), 'mixed logit log-likelihood %s at V=%s' % (ll, _s(V)))
    framed(fr, 'mixed logit at extreme values')


@case('P29', 300)
def extreme_nested(rng):
    d = gen(rng, contiguous=bool(rng.randint(2)), min_avail=1)
    spec, nest, M = gen_nests(rng, d)
    r2o, r2a, ch = maps(d)
    r2n = onehot(nest, M)
    X = np.zeros((d.n, 2))
    X[:, 0] = [r['x1'] for r in d.rows]
    if rng.randint(2):
        X[:, 1] = extreme(rng, d.n)
        b = np.array([1.0, 1.0])
    else:
        b = np.array([float(extreme(rng, 1)[0]), 0.0])
    eta = extreme(rng, M) if rng.randint(2) else rng.normal(size=M) * 3
    fr = frozen(eta)
    lam = nc.naturalize_nest_coefs(eta)
    framed(fr, 'natural nest coefficients at extreme values')
    if rng.randint(2) and X[:, 1].any():          # index values whose scaled exponentials near the guards
        X[:, 0] = 0.0
        X[:, 1] = np.clip(extreme(rng, d.n), -1e299, 1e299) * np.minimum(1.0, lam[np.array(nest)])
    check(np.isfinite(lam).all() and (lam > 0).all() and (lam <= 1).all(), 'natural nest coefficients %s' % lam)
    fr = frozen(lam, b, X, r2o, r2n)
    p = nc.calc_nested_probs(lam, b, X, r2o, r2n)
    check(np.isfinite(p).all() and (p > 0).all() and (p <= 1 + 1e-9).all(),
          'nested probability %s at V=%s lam=%s nest=%s obs=%s' % (_s(p), _s(X.dot(b)), lam, nest, d.o))
    ll = nc.calc_nested_log_likelihood(lam, b, X, r2o, r2n, np.array(d.y))
    check(np.isfinite(ll), 'nested log-likelihood %s' % ll)
    framed(fr, 'nested logit at extreme values')


for _f in (extreme_logit, extreme_mixed, extreme_nested):
    case('P28', 60)(frame_only(_f))
