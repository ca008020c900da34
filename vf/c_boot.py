"""Contracts for bootstrap_calcs.py and bootstrap_abc.py (P24, P25)."""
from .vc import *
from .c_est import Opaque, check_arg, flag, Table
from .c_logit import call_obs

CALC = "bootstrap_calcs."
ABC = "bootstrap_abc."
H = num(Fraction(1, 2))


def cdf(t):
    return add(H, rfn("nodd", (t,)))


def ppf(t):
    return rfn("podd", (sub(t, H),))


def unless(c, t):
    return ite(c, ZERO, t)


class BW(object):
    """R bootstrap replicates, Q jackknife replicates, T parameters"""

    def __init__(self):
        self.R, self.Q, self.T = dim("R"), dim("Q"), dim("T")
        self.f = Facts()
        self.f.assume += [lt(ZERO, app("conf")), lt(app("conf"), num(100))]

    def world(self):
        w = World()
        d = self.inp = {"B": sym_array("B", (self.R, self.T)), "Jk": sym_array("Jk", (self.Q, self.T)), "m": sym_array("m", (self.T,)),
                        "z0": sym_array("z0", (self.T,)), "acc": sym_array("acc", (self.T,))}

        def percentile(a, q, axis=None, interpolation=None, method=None, **k):
            how = interpolation or method or "linear"
            if k:
                raise Unsupported("np.percentile arguments")
            a = asarr(a)
            r = fresh_iv(self.R, "r")
            if len(a.dims) == 2 and axis == 0:
                col = lambda j: a.rel((r, j))
                cols = a.dims[1]
            elif len(a.dims) == 1 and axis in (None, 0):
                col = lambda j: a.rel((r,))
                cols = None
            else:
                raise Unsupported("np.percentile of this array")
            if not dimeq(a.dims[0], self.R):
                raise Unsupported("np.percentile of another array")

            def which(j):
                x = col(j)
                if x.op == "app" and x.args[0] == "B" and x.args[1][0] is r:
                    return x.args[1][1]
                raise Unsupported("np.percentile of transformed replicates")

            def val(qt, j):
                return rfn("percentile:" + how, (qt,), (which(j),))
            qa = asarr(q)
            qf = qa.rsnap()
            if len(qa.dims) == 0:
                if cols is None:
                    return SReal(val(qf(()), None))
                return Arr.fresh((cols,), lambda ix: val(qf(()), ix[0]), "f")
            if len(qa.dims) != 1:
                raise Unsupported("np.percentile at a matrix")
            if cols is None:
                return Arr.fresh(qa.dims, lambda ix: val(qf(ix), None), "f")
            return Arr.fresh(qa.dims + (cols,), lambda ix: val(qf(ix[:1]), ix[1]), "f")
        w.np.percentile = percentile
        self.conf = SReal(app("conf"))
        return w.load("bootstrap_calcs"), d

    def bufs(self):
        return [x.buf for x in self.inp.values()]

    # ---- definitions
    def bias(self, j):
        b = fresh_iv(self.R, "b")
        return ppf(div(sum_(b, iv01(lt(app("B", b, j), app("m", j)))), i2r(self.R)))

    def diff(self, i, j):
        k = fresh_iv(self.Q, "k")
        return sub(div(sum_(k, app("Jk", k, j)), i2r(self.Q)), app("Jk", i, j))

    def acc_parts(self, j):
        a, b = fresh_iv(self.Q, "a"), fresh_iv(self.Q, "b")
        n = sum_(a, pow_(self.diff(a, j), num(3)))
        d = mul(num(6), pow_(sum_(b, pow_(self.diff(b, j), num(2))), num(Fraction(3, 2))))
        return n, d

    def pct(self, lower, z0, a, alpha):
        z = ppf(div(alpha, num(200)))
        z = z if lower else neg(z)
        n = add(z0, z)
        return mul(num(100), cdf(add(z0, div(n, sub(ONE, mul(a, n))))))


def P24(S):
    alpha = sub(num(100), app("conf"))
    bw = BW()

    def contract(fn, label, call, check, f=None):
        def run():
            m, d = bw.world()
            return call(m, d)

        def post(c, out, v):
            if not v.returned(out):
                return
            call_obs(v)
            check(out[1], v)
            v.unchanged("inputs not written", bw.bufs())
        S.verify(fn, label, f or bw.f, run, post)

    contract(CALC + "calc_percentile_interval", "", lambda m, d: m.calc_percentile_interval(d["B"], bw.conf),
             lambda o, v: v.array("endpoints", o, (icst(2), bw.T), lambda ix: ite(
                 ieq(ix[0], icst(0)), rfn("percentile:lower", (div(alpha, num(2)),), (ix[1],)),
                 rfn("percentile:higher", (sub(num(100), div(alpha, num(2))),), (ix[1],)))))
    contract(CALC + "calc_bias_correction_bca", "", lambda m, d: m.calc_bias_correction_bca(d["B"], d["m"]),
             lambda o, v: v.array("bias correction", o, (bw.T,), lambda ix: bw.bias(ix[0])))

    def accel(o, v):
        def spec(ix):
            n, d = bw.acc_parts(ix[0])
            return unless(req(d, ZERO), div(n, d))
        if v.shape("acceleration", o, (bw.T,)):
            g = o.rsnap()
            v.elems("acceleration", lambda ix: unless(req(bw.acc_parts(ix[0])[1], ZERO), g(ix)), (bw.T,), spec)
    contract(CALC + "calc_acceleration_bca", "", lambda m, d: m.calc_acceleration_bca(d["Jk"]), accel)
    for lower in (True, False):
        nm = "calc_%s_bca_percentile" % ("lower" if lower else "upper")
        contract(CALC + nm, "", lambda m, d, nm=nm: getattr(m, nm)(SReal(app("alpha")), d["z0"], d["acc"]),
                 lambda o, v, lower=lower: v.array("percentile", o, (bw.T,), lambda ix: bw.pct(lower, app("z0", ix[0]), app("acc", ix[0]), app("alpha"))))

    # the interval, checked against the contracts of its parts
    def whole(m, d):
        def bias(bootstrap_replicates, mle_estimate):
            check_arg("replicates given to the bias correction", bootstrap_replicates, d["B"])
            check_arg("estimate given to the bias correction", mle_estimate, d["m"])
            return sym_array("z0", (bw.T,))

        def acc(jackknife_replicates):
            check_arg("replicates given to the acceleration", jackknife_replicates, d["Jk"])
            return sym_array("acc", (bw.T,))
        m.calc_bias_correction_bca = bias
        m.calc_acceleration_bca = acc
        return m.calc_bca_interval(d["B"], d["Jk"], d["m"], bw.conf)

    def wspec(ix):
        lo, up = [rfn("percentile:" + h, (bw.pct(l, app("z0", ix[1]), app("acc", ix[1]), alpha),), (ix[1],)) for l, h in ((True, "lower"), (False, "higher"))]
        return ite(ieq(ix[0], icst(0)), lo, up)
    contract(CALC + "calc_bca_interval", "", whole, lambda o, v: v.array("endpoints", o, (icst(2), bw.T), wspec))
    from . import c_rep
    c_rep.boot_intervals(S, ("pi", "bca", "direct", "all"))


# ---------------------------------------------------------------- ABC
class AW(object):
    """O observations, N rows, T parameters; the estimator is any function of
    the row weights: fit_mle(weights) is recognised by its weight vector"""

    def __init__(self, weights):
        self.O, self.N, self.T = dim("O"), dim("N"), dim("T")
        self.w = weights
        f = self.f = Facts()
        f.surj.add("obs")
        f.pos.add("eps")
        f.pos.add("se")
        f.assume += [lt(ZERO, app("conf")), lt(app("conf"), num(100))]
        self.eps = app("eps")
        self.n = i2r(self.O)

    def obs(self, i):
        return ifn("obs", [i], self.O)

    def ow(self, i):
        return app("w", i) if self.w else ONE

    def world(self, specs=()):
        """specs: [(name, weight of observation o for call k)]"""
        w = self.w_ = World()
        m = w.load("bootstrap_abc")
        d = self.inp = {"mle": sym_array("mle", (self.T,)), "x0": sym_array("x0", (self.T,)), "u": sym_array("u", (self.O, self.T)),
                        "u2": sym_array("u2", (self.O, self.T)), "se": sym_array("se", (self.T,)), "acc": sym_array("acc", (self.T,)),
                        "z0": sym_array("z0", (self.T,)), "q": sym_array("q", (self.T,)), "bias": sym_array("bias", (self.T,)),
                        "tp": sym_array("tp", (self.O, self.T)), "tm": sym_array("tm", (self.O, self.T)), "w": sym_array("w", (self.N,)),
                        "curv": sym_array("curv", (self.T,))}
        rto = d["rto"] = onehot((self.N, self.O), self.obs, tag="rows_to_obs")
        ids = Opaque("column", unique=lambda: Opaque("ids", size=wint(self.O), shape=(wint(self.O),)), nunique=lambda: wint(self.O))
        data = Table(self.N, {})

        class D(Table):
            def __getitem__(self_, k):
                return ids if k == "obs" else Table.__getitem__(self_, k)
        self.fits = []

        def fit_mle(init_vals, print_res=True, method="BFGS", loss_tol=None, gradient_tol=None, maxiter=None, ridge=None,
                    constrained_pos=None, just_point=False, **kw):
            check_arg("starting values", init_vals, d["x0"])
            flag("point-only estimation", just_point is True)
            flag("user's options passed on", ridge == 0.25 and maxiter == 11 and set(kw) <= {"weights"})
            flag("weights given to the estimation", "weights" in kw)
            wt = kw["weights"]
            loops = [fr.i for fr in ctx().loops]
            k = loops[-1] if loops else None
            if wt is None or len(wt.dims) != 1 or not dimeq(wt.dims[0], self.N):
                flag("one weight per row")
            i = fresh_iv(self.N, "n")
            for nm, spec in specs:
                if Prover(ctx().facts()).prove_eq(wt.rel((i,)), mul(spec(self.obs(i), k), self.ow(i)))[0]:
                    self.fits.append(nm)
                    return {"x": Arr.fresh((self.T,), lambda ix: app("fit:" + nm, k, ix[0]) if k is not None else app("fit:" + nm, ix[0]), "f"), "fun": None}
            flag("weights are those of the definition", False)
            ctx().calls.append(show(wt.rel((i,)))[:600])
            nm = "other!%d" % len(self.fits)
            return {"x": Arr.fresh((self.T,), lambda ix: app("fit:" + nm, *( [k] if k is not None else []) + [ix[0]]), "f")}
        self.model = Opaque("model", data=D(self.N, {}), obs_id_col="obs", get_mappings_for_fit=lambda dense=False: {"rows_to_obs": rto},
                            fit_mle=fit_mle)
        self.kw = dict(ridge=0.25, maxiter=11)
        if self.w:
            self.kw["weights"] = d["w"]
        self.conf = SReal(app("conf"))
        self.e = SReal(self.eps)
        return m, d

    def bufs(self):
        return [x.buf for x in self.inp.values()]

    def std(self, o, k):
        return div(app("u", o, k), mul(self.n, self.n, app("se", k)))


def P25(S):
    def contract(aw, fn, label, call, check, specs=()):
        def run():
            m, d = aw.world(specs)
            return call(m, d)

        def post(c, out, v):
            if not v.returned(out):
                return
            call_obs(v)
            check(out[1], v)
            v.unchanged("inputs not written", aw.bufs())
        S.verify(ABC + fn, label, aw.f, run, post)

    for weighted in (False, True):
        aw = AW(weighted)
        lab = "original weights=%s" % weighted
        n, e = aw.n, aw.eps
        # perturbation of one observation's weight; weights still sum to one
        per = lambda s: (lambda o, k: add(div(sub(ONE, mul(num(s), e)), n), mul(num(s), e, iv01(ieq(o, k)))))
        specs = [("plus", per(1)), ("minus", per(-1))]

        def fd(o, v):
            if not v.ok("returns two arrays", isinstance(o, tuple) and len(o) == 2):
                return
            for x, nm in zip(o, ("plus", "minus")):
                v.array("estimates with weights perturbed, " + nm, x, (aw.O, aw.T), lambda ix: app("fit:" + nm, *ix))
            k = fresh_iv(aw.O, "k")
            for s in (1, -1):
                o_ = fresh_iv(aw.O, "o")
                v.real("perturbed weights sum to one (%+d)" % s, sum_(o_, per(s)(o_, k)), ONE)
        contract(aw, "calc_finite_diff_terms_for_abc", lab, lambda m, d: m.calc_finite_diff_terms_for_abc(
            aw.model, d["mle"], d["x0"], aw.e, **aw.kw), fd, specs)

        # quadratic coefficient
        qs = lambda s: (lambda o, k: add(div(ONE, n), mul(num(s), e, aw.std(o, k))))

        def quad(o, v):
            d3 = lambda j: sub(add(app("fit:q+", j, j), app("fit:q-", j, j)), mul(num(2), app("mle", j)))
            tol = num(1e-10)
            close = lambda j: and_(le(d3(j), tol), le(neg(d3(j)), tol))
            if v.shape("quadratic coefficient", o, (aw.T,)):
                g = o.rsnap()
                v.elems("quadratic coefficient", lambda ix: unless(close(ix[0]), g(ix)), (aw.T,),
                        lambda ix: unless(close(ix[0]), div(d3(ix[0]), mul(num(2), app("se", ix[0]), e, e))))
        contract(aw, "efron_quadratic_coef_abc", lab, lambda m, d: m.efron_quadratic_coef_abc(
            aw.model, d["mle"], d["x0"], d["u"], d["se"], aw.e, **aw.kw), quad, [("q+", qs(1)), ("q-", qs(-1))])

        # the variant of An Introduction to the Bootstrap, equation 22.37
        bs = lambda s: (lambda o, k: add(div(sub(ONE, e), n), mul(num(s), e, aw.std(o, k))))

        def bquad(o, v):
            d3 = lambda j: sub(add(app("fit:b+", j, j), app("fit:b-", j, j)), mul(num(2), app("mle", j)))
            tol = num(1e-10)
            close = lambda j: and_(le(d3(j), tol), le(neg(d3(j)), tol))
            if v.shape("quadratic coefficient", o, (aw.T,)):
                g = o.rsnap()
                v.elems("quadratic coefficient", lambda ix: unless(close(ix[0]), g(ix)), (aw.T,),
                        lambda ix: unless(close(ix[0]), div(d3(ix[0]), mul(e, e))))
        contract(aw, "calc_quadratic_coef_abc", lab, lambda m, d: m.calc_quadratic_coef_abc(
            aw.model, d["mle"], d["x0"], d["u"], d["se"], aw.e, **aw.kw), bquad, [("b+", bs(1)), ("b-", bs(-1))])

        # endpoints
        wz = lambda j, p: add(app("z0", j), ppf(div(p, num(100))))
        lam = lambda j, p: div(wz(j, p), pow_(sub(ONE, mul(app("acc", j), wz(j, p))), num(2)))
        es = lambda p: (lambda o, k: add(div(ONE, n), mul(lam(k, p), aw.std(o, k))))
        contract(aw, "efron_endpoint_from_percentile_abc", lab, lambda m, d: m.efron_endpoint_from_percentile_abc(
            aw.model, d["x0"], SReal(app("pct")), d["z0"], d["acc"], d["se"], d["u"], **aw.kw),
            lambda o, v: v.array("endpoint", o, (aw.T,), lambda ix: app("fit:end", ix[0], ix[0])), [("end", es(app("pct")))])
        # the variant of the book: the full influence values
        fs = lambda o, k: add(div(ONE, n), div(mul(lam(k, app("pct")), app("u", o, k)), app("se", k)))
        contract(aw, "calc_endpoint_from_percentile_abc", lab, lambda m, d: m.calc_endpoint_from_percentile_abc(
            aw.model, d["x0"], SReal(app("pct")), d["z0"], d["acc"], d["se"], d["u"], **aw.kw),
            lambda o, v: v.array("endpoint", o, (aw.T,), lambda ix: app("fit:full", ix[0], ix[0])), [("full", fs)])
        alpha2 = div(sub(num(100), app("conf")), num(2))

        def ends(o, v):
            if v.ok("two endpoints", isinstance(o, tuple) and len(o) == 2):
                for x, nm in zip(o, ("lower", "upper")):
                    v.array(nm + " endpoint", x, (aw.T,), lambda ix: app("fit:" + nm, ix[0], ix[0]))
        contract(aw, "efron_endpoints_for_abc_confidence_interval", lab, lambda m, d: m.efron_endpoints_for_abc_confidence_interval(
            aw.conf, aw.model, d["x0"], d["z0"], d["acc"], d["se"], d["u"], **aw.kw), ends,
            [("lower", es(alpha2)), ("upper", es(sub(num(100), alpha2)))])

        # the interval against the contracts of its parts
        def whole(m, d):
            def part(name, want, res):
                real = getattr(m, name)
                import inspect
                sig = inspect.signature(real)

                def f(*a, **k):
                    try:
                        ba = sig.bind(*a, **k)
                    except TypeError as ex:
                        flag("call-site: arguments of %s" % name)
                        return res()
                    ba.apply_defaults()
                    for nm, x in ba.arguments.items():
                        if nm == "fit_kwargs":
                            flag("%s: options passed on" % name, set(x) == set(aw.kw) and all(x[q] is aw.kw[q] or x[q] == aw.kw[q] for q in x))
                        elif nm in ("model_obj", "model_object"):
                            flag("%s: the model" % name, x is aw.model)
                        elif nm not in want:
                            raise Unsupported("parameter %s of %s" % (nm, name))
                        else:
                            check_arg("%s of %s" % (nm, name), x, want[nm])
                    return res()
                setattr(m, name, f)
            W = dict(mle_est=d["mle"], mle_params=d["mle"], init_values=d["x0"], init_vals=d["x0"], epsilon=aw.e,
                     empirical_influence=d["u"], second_order_influence=d["u2"], std_error=d["se"], quadratic_coef=d["q"], bias=d["bias"],
                     acceleration=d["acc"], total_curvature=d["curv"], bias_correction=d["z0"], conf_percentage=aw.conf)
            part("calc_influence_arrays_for_abc", W, lambda: (d["u"], d["u2"]))
            part("calc_acceleration_abc", W, lambda: d["acc"])
            part("calc_std_error_abc", W, lambda: d["se"])
            part("calc_bias_abc", W, lambda: d["bias"])
            part("efron_quadratic_coef_abc", W, lambda: d["q"])
            part("calc_total_curvature_abc", W, lambda: d["curv"])
            part("calc_bias_correction_abc", W, lambda: d["z0"])
            part("efron_endpoints_for_abc_confidence_interval", W, lambda: (sym_array("lo", (aw.T,)), sym_array("up", (aw.T,))))
            return m.calc_abc_interval(aw.model, d["mle"], d["x0"], aw.conf, epsilon=aw.e, **aw.kw)
        contract(aw, "calc_abc_interval", lab, whole, lambda o, v: v.array(
            "interval", o, (icst(2), aw.T), lambda ix: ite(ieq(ix[0], icst(0)), app("lo", ix[1]), app("up", ix[1]))))
        contract(aw, "create_long_form_weights", lab + " one column", lambda m, d: m.create_long_form_weights(
            aw.model, Arr.fresh((aw.O,), lambda ix: app("ww", ix[0]), "f"), **({"rows_to_obs": d["rto"]} if weighted else {})),
            lambda o, v: v.array("row weights", o, (aw.N,), lambda ix: app("ww", aw.obs(ix[0]))))
        contract(aw, "create_long_form_weights", lab + " columns", lambda m, d: m.create_long_form_weights(
            aw.model, sym_array("ww", (aw.O, aw.T)), **({"rows_to_obs": d["rto"]} if weighted else {})),
            lambda o, v: v.array("row weights", o, (aw.N, aw.T), lambda ix: app("ww", aw.obs(ix[0]), ix[1])))

    aw = AW(False)
    n, e = aw.n, aw.eps
    tol = num(1e-12)
    near = lambda t: and_(le(t, tol), le(neg(t), tol))

    def infl(o, v):
        if v.shape("influence", o, (aw.O, aw.T)):
            g = o.rsnap()
            t = lambda ix: sub(app("tp", *ix), app("tm", *ix))
            v.elems("influence", lambda ix: unless(near(t(ix)), g(ix)), (aw.O, aw.T), lambda ix: unless(near(t(ix)), div(t(ix), mul(num(2), e))))
    contract(aw, "calc_empirical_influence_abc", "", lambda m, d: m.calc_empirical_influence_abc(d["tp"], d["tm"], aw.e), infl)

    def infl2(o, v):
        if v.shape("second-order influence", o, (aw.O, aw.T)):
            g = o.rsnap()
            t = lambda ix: add(app("tp", *ix), app("tm", *ix), mul(num(-2), app("mle", ix[1])))
            v.elems("second-order influence", lambda ix: unless(near(t(ix)), g(ix)), (aw.O, aw.T), lambda ix: unless(near(t(ix)), div(t(ix), mul(e, e))))
    contract(aw, "calc_2nd_order_influence_abc", "", lambda m, d: m.calc_2nd_order_influence_abc(d["mle"], d["tp"], d["tm"], aw.e), infl2)
    for weighted in (False, True):
        ax = AW(weighted)

        def arrays(m, d):
            def terms(model_obj, mle_params, init_vals, epsilon, **k):
                check_arg("estimate", mle_params, d["mle"])
                check_arg("starting values", init_vals, d["x0"])
                check_arg("epsilon", epsilon, ax.e)
                flag("options passed on", set(k) == set(ax.kw) and all(k[q] is ax.kw[q] for q in k))
                return d["tp"], d["tm"]

            def first(term_plus, term_minus, epsilon):
                check_arg("t+", term_plus, d["tp"])
                check_arg("t-", term_minus, d["tm"])
                check_arg("epsilon", epsilon, ax.e)
                return d["u"]

            def second(mle_params, term_plus, term_minus, epsilon):
                check_arg("estimate", mle_params, d["mle"])
                check_arg("t+", term_plus, d["tp"])
                check_arg("t-", term_minus, d["tm"])
                check_arg("epsilon", epsilon, ax.e)
                return d["u2"]
            m.calc_finite_diff_terms_for_abc, m.calc_empirical_influence_abc, m.calc_2nd_order_influence_abc = terms, first, second
            return m.calc_influence_arrays_for_abc(ax.model, d["mle"], d["x0"], ax.e, **ax.kw)

        def both(o, v):
            if v.ok("two arrays", isinstance(o, tuple) and len(o) == 2):
                v.array("influence", o[0], (ax.O, ax.T), lambda ix: app("u", *ix))
                v.array("second-order influence", o[1], (ax.O, ax.T), lambda ix: app("u2", *ix))
        contract(ax, "calc_influence_arrays_for_abc", "original weights=%s" % weighted, arrays, both)

    def sq(p):
        def f(j):
            k = fresh_iv(aw.O, "k")
            return sum_(k, pow_(app("u", k, j), num(p)))
        return f
    contract(aw, "calc_std_error_abc", "", lambda m, d: m.calc_std_error_abc(d["u"]),
             lambda o, v: v.array("standard error", o, (aw.T,), lambda ix: div(pow_(sq(2)(ix[0]), H), n)))
    contract(aw, "calc_acceleration_abc", "", lambda m, d: m.calc_acceleration_abc(d["u"]),
             lambda o, v: v.array("acceleration", o, (aw.T,), lambda ix: div(sq(3)(ix[0]), mul(num(6), pow_(sq(2)(ix[0]), num(Fraction(3, 2)))))))

    def bias(ix):
        k = fresh_iv(aw.O, "k")
        return div(sum_(k, app("u2", k, ix[0])), mul(num(2), n, n))
    contract(aw, "calc_bias_abc", "", lambda m, d: m.calc_bias_abc(d["u2"]), lambda o, v: v.array("bias", o, (aw.T,), bias))
    contract(aw, "calc_total_curvature_abc", "", lambda m, d: m.calc_total_curvature_abc(d["bias"], d["se"], d["q"]),
             lambda o, v: v.array("curvature", o, (aw.T,), lambda ix: sub(div(app("bias", ix[0]), app("se", ix[0])), app("q", ix[0]))))
    contract(aw, "calc_bias_correction_abc", "", lambda m, d: m.calc_bias_correction_abc(d["acc"], d["curv"]),
             lambda o, v: v.array("bias correction", o, (aw.T,), lambda ix: ppf(mul(num(2), cdf(app("acc", ix[0])), cdf(neg(app("curv", ix[0])))))))
    # the package's own models estimate with the weights they are given
    from . import c_fit
    for kind in c_fit.MODELS:
        its = c_fit.KINDS[kind][3] if kind in c_fit.KINDS else (False,)
        for it in its:
            c_fit.fitting(S, kind, it, True, False)
    from . import c_rep
    c_rep.boot_intervals(S, ("abc", "all"))
