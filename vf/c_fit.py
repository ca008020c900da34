"""Contracts for estimation.py (driver, statistics) and for the storing of
results in base_multinomial_cm_v2.py (P17, P18, P19, P20)."""
import ast
import inspect
from .vc import *
from . import pdshim
from .pdshim import SNames, SName, PSeries, PFrame, PTable, NAN, same_parts, LAB
from .c_logit import call_obs
from .c_est import EW, Opaque, check_arg, expecting, flag, replace, same_value, estimator_class, KINDS

BASE = "base_multinomial_cm_v2"
FN = BASE + ".MNDC_Model."


def names(tag, n):
    return SNames(n, lambda i: ifn("name:" + tag, [i], LAB))


def init_attrs(mod):
    """attributes the constructor stores"""
    tree = ast.parse(open(mod.__file__).read())
    out = set()
    for c in ast.walk(tree):
        if isinstance(c, ast.FunctionDef) and c.name == "__init__":
            for x in ast.walk(c):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    out.add(x.attr)
    return out


def bare_model(mod, cls, **attrs):
    """an instance as the constructor leaves it, with the given attributes;
    other constructor attributes are unknown (outside the contract's reach)"""
    known = init_attrs(mod)

    def ga(self, n):
        if n in known:
            raise Unsupported("model attribute %s" % n)
        raise AttributeError(n)
    c = type(cls.__name__, (cls,), {"__getattr__": ga})
    m = object.__new__(c)
    m.__dict__.update(attrs)
    return m


def half(t):
    return pow_(t, num(Fraction(1, 2)))


def two_sided(t):
    return mul(num(2), sub(num(Fraction(1, 2)), rfn("nodd", (rfn("abs", (t,)),))))


class FW(object):
    """result-storing world: optional nest, shape, intercept blocks; given or
    default names; constrained positions"""

    def __init__(self, nests=False, shapes=False, intercepts=False, named=True, mixed=False, ncon=None, refit=False):
        self.K, self.O, self.N = dim("K"), dim("O"), dim("N")
        self.f = Facts()
        self.refit = refit
        self.blocks = []
        self.named, self.mixed, self.ncon = named, mixed, ncon
        if nests:
            self.blocks.append(("nest", "nest_params", "nest_names", "nests", "Nest_Param_{}", dim("Q")))
        if shapes:
            self.blocks.append(("shape", "shape_params", "shape_names", "shapes", "Shape_{}", dim("S")))
        if intercepts:
            self.blocks.append(("intercept", "intercept_params", "intercept_names", "intercepts", "Outside_ASC_{}", dim("I")))
        self.Kc = iadd(self.K, dim("V")) if mixed else self.K
        self.T = iadd(*([b[5] for b in self.blocks] + [self.Kc]))
        self.pos = [ifn("pos%d" % k, [], self.T) for k in range(ncon or 0)]

    def allnames(self):
        r = None
        for tag, _, _, _, dflt, n in self.blocks:
            x = names(tag, n) if self.named else SNames(n, lambda i, d=dflt: ifn("label:" + d, [iadd(i, 1)], LAB))
            r = x if r is None else r + x
        x = self.coefnames()
        return x if r is None else r + x

    def coefnames(self):
        x = names("index", self.K)
        if self.mixed:
            x = x + SNames(dim("V"), lambda i: ifn("label:Sigma +", [ifn("name:mixvar", [i], LAB)], LAB))
        return x

    def par(self, g):
        """value of the full parameter vector at position g, by blocks"""
        off = icst(0)
        bl = [(tag, n) for tag, _, _, _, _, n in self.blocks] + [("index", self.Kc)]
        offs = []
        for tag, n in bl:
            offs.append((tag, off, iadd(off, n)))
            off = iadd(off, n)
        t = None
        for tag, lo, hi in reversed(offs):
            x = app("p_" + tag, isub(g, lo))
            t = x if t is None else ite(ilt(g, hi), x, t)
        return t

    def results(self, o=""):
        d = {}
        d["utility_coefs"] = sym_array(o + "p_index", (self.Kc,))
        for tag, key, _, _, _, n in self.blocks:
            d[key] = sym_array(o + "p_" + tag, (n,))
        for k in ("nest_params", "shape_params", "intercept_params"):
            d.setdefault(k, None)
        d["final_gradient"] = sym_array(o + "g", (self.T,))
        d["final_hessian"] = sym_array(o + "H", (self.T, self.T))
        d["fisher_info"] = sym_array(o + "F", (self.T, self.T))
        d["chosen_probs"] = sym_array(o + "cp", (self.O,))
        d["long_probs"] = sym_array(o + "lp", (self.N,))
        d["residuals"] = sym_array(o + "res", (self.N,))
        d["ind_chi_squareds"] = sym_array(o + "chi", (self.O,))
        for k, t in (("final_log_likelihood", "L"), ("log_likelihood_null", "L0"), ("rho_squared", "rho"), ("rho_bar_squared", "rhobar")):
            d[k] = SReal(app(o + t))
        d["success"], d["message"] = (True, "converged") if not o else (False, "earlier")
        d["constrained_pos"] = [SInt(p) for p in self.pos] if self.ncon is not None and not o else None
        return d

    def run(self):
        w = World()
        mod = w.load(BASE)
        d = self.inp = self.results()
        attrs = dict(ind_var_names=names("index", self.K), mixing_vars=names("mixvar", dim("V")) if self.mixed else None,
                     intercept_names=None, shape_names=None, nest_names=None, model_type="x", design=sym_array("X", (self.N, self.K)))
        for tag, _, nm, _, _, n in self.blocks:
            attrs[nm] = names(tag, n) if self.named else None
        m = self.m = bare_model(mod, mod.MNDC_Model, **attrs)
        real = w.load("choice_calcs").calc_asymptotic_covariance

        cur = [None, ""]

        def rc(hessian, fisher_info_matrix):
            check_arg("Hessian passed to the robust covariance", asarr(hessian), cur[0]["final_hessian"])
            check_arg("Fisher information passed to the robust covariance", asarr(fisher_info_matrix), cur[0]["fisher_info"])
            return sym_array(cur[1] + "RC", (self.T, self.T))
        replace(list(w.mods.values()), real, rc)
        if self.refit:                       # the model already holds other results
            cur[:] = [self.results("old:"), "old:"]
            m.store_fit_results(cur[0])
        cur[:] = [d, ""]
        m.store_fit_results(d)
        return m

    def bufs(self):
        return [x.buf for x in self.inp.values() if isinstance(x, (Arr, Sp))]

    def nan(self, i, t):
        return ite(or_(*[ieq(i, p) for p in self.pos]), NAN, t) if self.pos else t

    def se(self, i):
        return half(neg(app("inv:H", i, i)))

    def rse(self, i):
        return half(app("RC", i, i))


def series(v, what, x, n, spec, nm):
    if not v.ok(what + " is a labelled vector", isinstance(x, PSeries), "got %r" % type(x)):
        return
    v.array(what, x.values, (n,), lambda ix: spec(ix[0]))
    v.ok(what + " carries the parameter names in order", same_parts(x.index.names, nm))


def frame(v, what, x, n, spec, nm):
    if not v.ok(what + " is a labelled matrix", isinstance(x, PFrame), "got %r" % type(x)):
        return
    v.array(what, x.values, (n, n), lambda ix: spec(*ix))
    v.ok(what + " carries the parameter names in order on rows", same_parts(x.index.names, nm))
    v.ok(what + " carries the parameter names in order on columns", same_parts(x.columns.names, nm))


COMBOS = [(False, False, False), (True, False, False), (False, True, False), (False, False, True), (False, True, True)]


def storing(S, pid):
    fn = FN + "store_fit_results"
    runs = []
    for c in COMBOS:
        for named in ((True, False) if any(c) else (True,)):
            runs.append((c, named, False, None))
    runs.append(((False, False, False), True, True, None))
    for n in (0, 1, 2, 3):
        runs.append(((True, False, False), True, False, n))
    runs = [r + (False,) for r in runs]
    for c in COMBOS:
        runs.append((c, True, False, None, True))
    runs.append(((False, True, True), False, False, None, True))
    runs.append(((False, False, False), True, True, None, True))
    runs.append(((True, False, False), True, False, 2, True))
    for c, named, mixed, ncon, refit in runs:
        if pid == "P19" and ncon is None or pid != "P19" and ncon not in (None,):
            continue
        fw = FW(*c, named=named, mixed=mixed, ncon=ncon, refit=refit)

        def post(c_, out, v):
            if not v.returned(out):
                return
            call_obs(v)
            m, T_, nm = out[1], fw.T, fw.allnames()
            if pid == "P17":
                series(v, "parameters", m.params, T_, fw.par, nm)
                series(v, "index coefficients", m.coefs, fw.Kc, lambda i: app("p_index", i), fw.coefnames())
                for tag, key, _, attr, dflt, n in fw.blocks:
                    x = names(tag, n) if fw.named else SNames(n, lambda i, d=dflt: ifn("label:" + d, [iadd(i, 1)], LAB))
                    series(v, attr, getattr(m, attr), n, lambda i: app("p_" + tag, i), x)
                for attr in ("nests", "shapes", "intercepts"):
                    if attr not in [b[3] for b in fw.blocks]:
                        v.ok("no " + attr, getattr(m, attr) is None)
                series(v, "gradient", m.gradient, T_, lambda i: app("g", i), nm)
                frame(v, "Hessian", m.hessian, T_, lambda i, j: app("H", i, j), nm)
                frame(v, "Fisher information", m.fisher_information, T_, lambda i, j: app("F", i, j), nm)
                frame(v, "covariance", m.cov, T_, lambda i, j: neg(app("inv:H", i, j)), nm)
                frame(v, "robust covariance", m.robust_cov, T_, lambda i, j: app("RC", i, j), nm)
                for a in ("standard_errors", "tvalues", "pvalues", "robust_std_errs", "robust_t_stats", "robust_p_vals"):
                    x = getattr(m, a)
                    v.ok(a + " carries the parameter names in order", isinstance(x, PSeries) and same_parts(x.index.names, nm))
            if pid in ("P18", "P19"):
                N = fw.nan
                cols = [("params", "parameters", lambda i: fw.par(i)),
                        ("standard_errors", "std_err", lambda i: N(i, fw.se(i))),
                        ("tvalues", "t_stats", lambda i: N(i, div(fw.par(i), fw.se(i)))),
                        ("pvalues", "p_values", lambda i: N(i, two_sided(div(fw.par(i), fw.se(i))))),
                        ("robust_std_errs", "robust_std_err", lambda i: N(i, fw.rse(i))),
                        ("robust_t_stats", "robust_t_stats", lambda i: N(i, div(fw.par(i), fw.rse(i)))),
                        ("robust_p_vals", "robust_p_values", lambda i: N(i, two_sided(div(fw.par(i), fw.rse(i)))))]
                for a, nm2, spec in cols:
                    series(v, a, getattr(m, a), T_, spec, nm)
                s = m.summary
                if v.ok("summary is a table", isinstance(s, PTable)):
                    v.ok("summary columns", [c2.name for c2 in s.cols] == [x[1] for x in cols], str([c2.name for c2 in s.cols]))
                    for (a, nm2, spec), col in zip(cols, s.cols):
                        series(v, "summary column " + nm2, col, T_, spec, nm)
            if pid == "P18":
                k = i2r(T_)
                v.real("AIC", treal(m.aic), add(mul(num(-2), app("L")), mul(num(2), k)))
                v.real("BIC", treal(m.bic), add(mul(num(-2), app("L")), mul(k, log(i2r(fw.O)))))
                i = fresh_iv(fw.O, "i")
                v.real("chi-square", treal(m.chi_square), sum_(i, app("chi", i)))
                for a, t in (("log_likelihood", app("L")), ("llf", app("L")), ("null_log_likelihood", app("L0")), ("rho_squared", app("rho")),
                             ("rho_bar_squared", app("rhobar")), ("nobs", i2r(fw.O)), ("df_model", k), ("df_resid", sub(i2r(fw.O), k))):
                    v.real(a, treal(getattr(m, a)), t)
                v.array("fitted probabilities", m.fitted_probs, (fw.O,), lambda ix: app("cp", ix[0]))
                v.array("long fitted probabilities", m.long_fitted_probs, (fw.N,), lambda ix: app("lp", ix[0]))
                v.array("residuals", m.long_residuals, (fw.N,), lambda ix: app("res", ix[0]))
                v.array("individual chi-squares", m.ind_chi_squareds, (fw.O,), lambda ix: app("chi", ix[0]))
                fs = m.fit_summary
                for lab, t in (("Number of Parameters", k), ("Number of Observations", i2r(fw.O)), ("Null Log-Likelihood", app("L0")),
                               ("Fitted Log-Likelihood", app("L")), ("Rho-Squared", app("rho")), ("Rho-Bar-Squared", app("rhobar"))):
                    if v.ok("fit summary has " + lab, isinstance(fs, pdshim.PTableRow) and lab in fs.data):
                        v.real("fit summary " + lab, treal(fs.data[lab]), t)
            v.unchanged("results not written", fw.bufs())
        S.verify(fn, "nests/shapes/intercepts=%s named=%s mixed=%s constrained=%s%s" % (c, named, mixed, ncon, " after an earlier fit" if refit else ""), fw.f, fw.run, post)


def conf_int(S):
    fw = FW(False, True, True)

    def run():
        w = World()
        mod = w.load(BASE)
        nm = fw.allnames()
        m = bare_model(mod, mod.MNDC_Model, params=PSeries(sym_array("p", (fw.T,)), nm, "parameters"),
                       standard_errors=PSeries(sym_array("se", (fw.T,)), nm, "std_err"))
        return m.conf_int(alpha=SReal(app("alpha")))

    def post(c, out, v):
        if v.returned(out):
            z = rfn("podd", (sub(num(Fraction(1, 2)), div(app("alpha"), num(2))),))
            v.array("confidence limits", out[1], (fw.T, icst(2)),
                    lambda ix: ite(ieq(ix[1], icst(0)), sub(app("p", ix[0]), mul(z, app("se", ix[0]))), add(app("p", ix[0]), mul(z, app("se", ix[0])))))
    S.verify(FN + "conf_int", "", fw.f, run, post)


# ---------------------------------------------------------------- estimation.py
def post_est(S, multi):
    """calc_and_store_post_estimation_results"""
    ew = EW()
    R = dim("R")

    def run():
        w = World()
        m = w.load("estimation")
        d = ew.inputs()
        st = run.st = {"x": sym_array("xhat", (ew.T,))}

        def meth(name, res):
            def f(p, *a, **k):
                check_arg("point passed to %s" % name, p, st["x"])
                if a or k:
                    raise Unsupported("arguments of %s" % name)
                return res()
            return f
        lp = (lambda: sym_array("lp", (ew.N, R))) if multi else (lambda: sym_array("lp", (ew.N,)))
        cp = (lambda: sym_array("cp", (ew.O, R))) if multi else (lambda: sym_array("cp", (ew.O,)))

        def split(p, return_all_types=False):
            check_arg("point passed to the splitting rule", p, st["x"])
            flag("all parameter types requested", return_all_types is True)
            return tuple(sym_array("s%d" % i, (dim("D%d" % i),)) for i in range(4))
        e = Opaque("estimator", convenience_split_params=split, convenience_calc_probs=meth("probabilities", lambda: (cp(), lp())),
                   convenience_calc_gradient=meth("gradient", lambda: sym_array("g", (ew.T,))),
                   convenience_calc_hessian=meth("Hessian", lambda: sym_array("H", (ew.T, ew.T))),
                   convenience_calc_fisher_approx=meth("Fisher information", lambda: sym_array("F", (ew.T, ew.T))),
                   convenience_calc_log_likelihood=meth("log-likelihood", lambda: SReal(neg(app("fun")))),
                   choice_vector=d["choice_vector"], rows_to_obs=d["rows_to_obs"], constrained_pos=["marker"])
        run.e = e
        res = {"fun": SReal(app("fun")), "x": st["x"], "log_likelihood_null": SReal(neg(app("mL0"))), "success": True, "message": "m"}
        return m.calc_and_store_post_estimation_results(res, e)
    ew.f.pos.add("mL0")
    L0 = neg(app("mL0"))      # a log-likelihood of probabilities below one is negative
    ew.f.pos.add("lp")

    def post(c, out, v):
        if not v.returned(out):
            return
        call_obs(v)
        r = out[1]
        L = neg(app("fun"))
        K = i2r(ew.T)
        if not v.ok("returns the results", isinstance(r, dict)):
            return
        need = ["final_log_likelihood", "nest_params", "shape_params", "intercept_params", "utility_coefs", "chosen_probs", "long_probs", "residuals",
                "ind_chi_squareds", "rho_squared", "rho_bar_squared", "final_gradient", "final_hessian", "fisher_info", "constrained_pos", "success",
                "message", "log_likelihood_null", "x"]
        miss = [k for k in need if k not in r]
        if not v.ok("all results present", not miss, str(miss)):
            return
        v.real("final log-likelihood", treal(r["final_log_likelihood"]), L)
        v.real("rho-squared", treal(r["rho_squared"]), sub(ONE, div(L, L0)))
        v.real("rho-bar-squared", treal(r["rho_bar_squared"]), sub(ONE, div(sub(L, K), L0)))
        for i, k in enumerate(("nest_params", "shape_params", "intercept_params", "utility_coefs")):
            v.array(k, r[k], (dim("D%d" % i),), lambda ix: app("s%d" % i, *ix))
        ex = (R,) if multi else ()
        v.array("long probabilities", r["long_probs"], (ew.N,) + ex, lambda ix: app("lp", *ix))
        v.array("chosen probabilities", r["chosen_probs"], (ew.O,) + ex, lambda ix: app("cp", *ix))
        res = lambda ix: sub(app("y", ix[0]), app("lp", *ix))
        v.array("residuals", r["residuals"], (ew.N,) + ex, res)

        def chi(ix):
            i = fresh_iv(ew.N, "i")
            x = (i,) + tuple(ix[1:])
            return sum_(i, mul(iv01(ieq(ifn("obs", [i], ew.O), ix[0])), div(mul(res(x), res(x)), app("lp", *x))))
        v.array("individual chi-squares", r["ind_chi_squareds"], (ew.O,) + ex, chi)
        v.array("gradient", r["final_gradient"], (ew.T,), lambda ix: app("g", *ix))
        v.array("Hessian", r["final_hessian"], (ew.T, ew.T), lambda ix: app("H", *ix))
        v.array("Fisher information", r["fisher_info"], (ew.T, ew.T), lambda ix: app("F", *ix))
        v.ok("constrained positions recorded", r["constrained_pos"] is run.e.constrained_pos)
        v.array("point kept", r["x"], (ew.T,), lambda ix: app("xhat", *ix))
        v.unchanged("inputs not written", ew.bufs() + [run.st["x"].buf])
    S.verify("estimation.calc_and_store_post_estimation_results", "simulated=%s" % multi, ew.f, run, post)


def is_same(p, a):
    if not isinstance(p, Arr) or len(p.dims) != len(a.dims) or not all(dimeq(x, y) for x, y in zip(p.dims, a.dims)):
        return False
    ix = tuple(fresh_iv(d) for d in a.dims)
    return Prover(ctx().facts()).prove_eq(p.rel(ix), a.rel(ix))[0]


class Result(dict):
    """scipy OptimizeResult"""

    def __getattr__(self, n):
        if n in self:
            return self[n]
        raise AttributeError(n)

    def __setattr__(self, n, x):
        self[n] = x


def driver(S, just_point, use_hessian, prt):
    ew = EW()

    def run():
        w = World()
        m = w.load("estimation")
        d = ew.inputs()
        st = run.st = {"x0": sym_array("x0", (ew.T,)), "log": [], "post": []}

        def ll(p):
            for nm, a in (("zero", d["zero"]), ("x0", st["x0"])):
                if p is a or is_same(p, a):
                    return SReal(app("LL_" + nm))
            flag("log-likelihood evaluated at the zero vector or the starting values only")
            return SReal(app("LL_other"))
        obj, hes = (lambda p: None), (lambda p: None)
        e = st["e"] = Opaque("estimator", zero_vector=d["zero"], convenience_calc_log_likelihood=ll,
                             calc_neg_log_likelihood_and_neg_gradient=obj, calc_neg_hessian=hes)

        def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
            st["log"].append(1)
            flag("optimises the estimator's own objective", fun is obj)
            check_arg("starting values", x0, st["x0"])
            flag("gradient comes with the objective", jac is True)
            flag("Hessian is the objective's Hessian", hess is (hes if use_hessian else None))
            flag("method passed on", method == "BFGS")
            flag("tolerances passed on", tol == 1e-3 and options == {"gtol": 1e-4, "maxiter": 77})
            flag("no other constraint on the optimisation", not args and hessp is None and bounds is None and not constraints)
            r = st["res"] = Result(fun=SReal(app("fun")), x=sym_array("xhat", (ew.T,)), success=True, message="m")
            return r
        m.minimize = minimize

        def pe(results_dict, estimator):
            st["post"].append(1)
            flag("results of the optimiser are reported", results_dict is st["res"])
            flag("reported with the same estimator", estimator is e)
            flag("null log-likelihood recorded", "log_likelihood_null" in results_dict and
                 Prover(ctx().facts()).prove_eq(treal(results_dict["log_likelihood_null"]), app("LL_zero"))[0])
            check_arg("optimiser's point", results_dict["x"], sym_array("xhat", (ew.T,)))
            check_arg("optimiser's value", results_dict["fun"], SReal(app("fun")))
            return results_dict
        m.calc_and_store_post_estimation_results = pe
        import time as _t
        m.time = Opaque("time", time=lambda: 0.0)
        return m.estimate(st["x0"], e, "BFGS", 1e-3, 1e-4, 77, prt, use_hessian=use_hessian, just_point=just_point)

    def post(c, out, v):
        if not v.returned(out):
            return
        call_obs(v)
        st = run.st
        v.ok("optimises once", len(st["log"]) == 1)
        v.ok("post-estimation results %s" % ("not computed" if just_point else "computed once"), len(st["post"]) == (0 if just_point else 1))
        v.ok("returns the optimiser's result", out[1] is st["res"])
        v.unchanged("inputs not written", ew.bufs() + [st["x0"].buf])
    S.verify("estimation.estimate", "just_point=%s use_hessian=%s print=%s" % (just_point, use_hessian, prt), ew.f, run, post)


def objective(S, n):
    """constrained objective handed to the optimiser"""
    ew = EW()
    pos = [ifn("pos%d" % k, [], ew.T) for k in range(n or 0)]

    def run():
        w = World()
        m = w.load("estimation")
        d = ew.inputs()
        e = ew.build(w, m.EstimationObj, None, constrained_pos=None if n is None else [SInt(p) for p in pos])
        g = run.g = sym_array("g", (ew.T,))

        def fn(name, res):
            def f(p):
                check_arg("point passed to the %s" % name, p, d["params"])
                return res()
            return f
        e.convenience_calc_log_likelihood = fn("log-likelihood", lambda: SReal(app("L")))
        e.convenience_calc_gradient = fn("gradient", lambda: g)
        e.convenience_calc_hessian = fn("Hessian", lambda: sym_array("H", (ew.T, ew.T)))
        return e.calc_neg_log_likelihood_and_neg_gradient(d["params"]), e.calc_neg_hessian(d["params"])

    def post(c, out, v):
        if not v.returned(out):
            return
        call_obs(v)
        o, h = out[1]
        if not v.ok("returns value and gradient", isinstance(o, tuple) and len(o) == 2):
            return
        v.real("objective is minus the log-likelihood", treal(o[0]), neg(app("L")))
        v.array("gradient is minus the gradient with constrained entries zero", o[1], (ew.T,),
                lambda ix: ite(or_(*[ieq(ix[0], p) for p in pos]), ZERO, neg(app("g", ix[0]))) if pos else neg(app("g", ix[0])))
        v.array("Hessian is minus the Hessian", h, (ew.T, ew.T), lambda ix: neg(app("H", *ix)))
        v.unchanged("inputs not written", ew.bufs())
    S.verify("estimation.EstimationObj.calc_neg_log_likelihood_and_neg_gradient", "constrained=%s" % n, ew.f, run, post)


def P17(S):
    storing(S, "P17")


def P18(S):
    storing(S, "P18")
    conf_int(S)
    for multi in (False, True):
        post_est(S, multi)


def P19(S):
    for n in (None, 0, 1, 2, 3):
        objective(S, n)
    degenerate_nests(S)
    storing(S, "P19")


def P20(S):
    for jp in (False, True):
        for uh in (False, True):
            for prt in (False, True):
                driver(S, jp, uh, prt)
    for multi in (False, True):
        post_est(S, multi)
    objective(S, None)
    objective(S, 1)


# ---------------------------------------------------------------- fit_mle of each model
MODELS = {"mnl": "MNL", "asym": "MNAL", "clog": "MNCL", "scobit": "MNSL", "uneven": "MNUL", "nested": "NestedLogit", "mixed": "MixedLogit"}
MODULE = dict({k: v[0] for k, v in KINDS.items()}, nested="nested_logit", mixed="mixed_logit")


class FitW(EW):
    """model about to be fitted; the driver (estimate) and the storing of
    results are replaced by their contracts"""

    def __init__(self, kind, intercepts, weights=True, ridge=True):
        sh = kind in ("asym", "scobit", "uneven")
        EW.__init__(self, sh, intercepts, weights, ridge)
        self.kind = kind
        self.f.assume.append(ilt(icst(1), self.J))
        Sn = isub(self.J, 1) if kind == "asym" else self.J
        self.parts = [("shapes", Sn)] if sh else []
        if intercepts:
            self.parts.append(("intercepts", isub(self.J, 1)))
        if kind == "nested":
            self.parts = [("nests", icst(3))]
        self.V = 2          # mixed variables
        self.parts.append(("coefs", iadd(self.K, self.V) if kind == "mixed" else self.K))
        self.need = iadd(*[n for _, n in self.parts])
        self.pos = ifn("upos", [], self.need)

    def setup(self, constrained=None, nest_spec=None):
        w = self.w = World()
        mod = self.mod = w.load(MODULE[self.kind])
        d = self.inputs()
        cls = getattr(mod, MODELS[self.kind])
        est = w.load("estimation")
        for n in list(vars(est)):
            if n.startswith("ensure_"):
                setattr(est, n, lambda *a, **k: None)
        st = self.st = {"est": [], "store": [], "deriv": []}
        if self.kind == "nested":
            d["rows_to_nests"] = onehot((self.N, icst(3)), lambda i: ifn("nest", [i], icst(3)), tag="rows_to_nests")
        self.maps = {k: d[k] for k in ("rows_to_obs", "rows_to_alts", "chosen_row_to_obs", "rows_to_nests", "rows_to_mixers")}
        attrs = dict(self.model().__dict__)
        attrs.pop("_what")
        if self.kind != "mixed":
            attrs.pop("design_3d")
        else:
            del attrs["design_3d"]
        attrs.update(intercept_ref_position=SInt(ifn("iref", [], self.J)) if self.has[1] else None,
                     shape_ref_position=SInt(ifn("sref", [], self.J)) if self.kind == "asym" else None,
                     nest_spec=nest_spec, mixing_pos=[SInt(ifn("mp%d" % k, [], self.K)) for k in range(self.V)] if self.kind == "mixed" else None)
        m = self.m = bare_model(w.load(BASE), cls, **attrs)
        m.get_mappings_for_fit = lambda dense=False: self.maps if not dense else (_ for _ in ()).throw(Unsupported("dense mappings"))
        m.store_fit_results = lambda r: st["store"].append(r)
        E = estimator_class(mod)
        self.E = E
        if hasattr(E, "set_derivatives"):
            real = E.set_derivatives

            def sd(e):
                st["deriv"].append(e)
                return real(e)
            E.set_derivatives = sd
        if self.kind == "mixed":
            mlc = w.load("mixed_logit_calcs")

            def draws(num_mixers, num_draws, num_vars, seed=None):
                check_arg("number of decision makers drawn for", num_mixers, SInt(self.B))
                check_arg("number of draws", num_draws, SInt(self.R))
                check_arg("number of mixed variables drawn for", num_vars, self.V)
                flag("seed passed on", seed == 17)
                st["draws"] = [sym_array("Z%d" % k, (self.B, self.R)) for k in range(self.V)]
                return st["draws"]
            replace(list(w.mods.values()), mlc.get_normal_draws, draws)
            rc = mlc.create_expanded_design_for_mixing

            def expand(design, draw_list, mixing_pos, rows_to_mixers):
                check_arg("design expanded", design, d["design"])
                flag("draws used for the expansion", len(draw_list) == self.V and all(a is b for a, b in zip(draw_list, st["draws"])))
                flag("positions of the mixed variables", [tint(x) for x in mixing_pos] == [ifn("mp%d" % k, [], self.K) for k in range(self.V)])
                check_arg("rows_to_mixers", rows_to_mixers, d["rows_to_mixers"])
                st["d3"] = sym_array("D3", (self.N, self.R, iadd(self.K, self.V)))
                return st["d3"]
            replace(list(w.mods.values()), rc, expand)
            rs = mlc.calc_choice_sequence_probs

            def seq(prob_array, choice_vec, rows_to_mixers, return_type=None):
                check_arg("probabilities of the choice sequences", prob_array, sym_array("lp0", (self.N, self.R)))
                check_arg("choices of the choice sequences", choice_vec, d["choice_vector"])
                check_arg("decision makers of the choice sequences", rows_to_mixers, d["rows_to_mixers"])
                a = sym_array("SP", (self.B,))
                return a if return_type is None else (a, sym_array("SPR", (self.B, self.R)))
            replace(list(w.mods.values()), rs, seq)

        def estimate(init_values, estimator, method, loss_tol, gradient_tol, maxiter, print_results, use_hessian=True, just_point=False, **k):
            st["est"].append(dict(x0=init_values, e=estimator, opts=(method, loss_tol, gradient_tol, maxiter, print_results), just_point=just_point, k=k))
            r = st["res"] = {"marker": 1, "long_probs": sym_array("lp0", (self.N, self.R) if self.kind == "mixed" else (self.N,))}
            return r
        replace(list(w.mods.values()), est.estimate, estimate)
        return m, d

    def full(self, name):
        """the full vector whose blocks are named arrays"""
        return sym_array(name, (self.need,))


def degenerate(S, single, user):
    """NestedLogit.fit_mle: the constrained positions are those of the nests
    with one alternative together with the user's"""
    fw = FitW("nested", False, True, True)

    def run():
        from collections import OrderedDict
        spec = OrderedDict((n, [10 * k + 1] if k in single else [10 * k + 1, 10 * k + 2]) for k, n in enumerate(("b", "a", "c")))
        m, d = fw.setup(nest_spec=spec)
        run.user = None if user is None else list(user)
        run.spec, run.copy = spec, {k: list(x) for k, x in spec.items()}
        d["x0"] = sym_array("x0", (fw.need,))
        return m.fit_mle(d["x0"], print_res=False, method="BFGS", constrained_pos=run.user, weights=d["weights"], ridge=d["ridge"])

    def post(c, out, v):
        if not v.returned(out):
            return
        st = fw.st
        if not v.ok("estimates once", len(st["est"]) == 1):
            return
        got = st["est"][0]["e"].constrained_pos
        got = [] if got is None else [x for x in got]
        want = set(single) | set(user or ())
        v.ok("constrained: nests of one alternative and the user's positions", len(got) == len(want) and set(got) == want, str(got))
        v.array("starting values", st["est"][0]["x0"], (fw.need,), lambda ix: app("x0", ix[0]))
        v.ok("frame: the user's list of positions", user is None or run.user == list(user))
        v.ok("frame: the nest specification", run.spec == run.copy and list(run.spec) == list(run.copy))
    S.verify("nested_logit.NestedLogit.fit_mle", "nests of one alternative=%s user's constraints=%s" % (list(single), user), fw.f, run, post)


def degenerate_nests(S):
    import itertools
    for k in range(4):
        for single in itertools.combinations(range(3), k):
            for user in (None, [], [0], [2, 4], [1, 3]):
                degenerate(S, single, user)


def piece_lengths(S, kind, intercepts):
    """fit_mle with starting values by part: accepted exactly when every part
    has its own length"""
    fw = FitW(kind, intercepts, True, True)

    def run():
        m, d = fw.setup()
        kw = dict(print_res=False, method="BFGS", weights=d["weights"])
        for n, k in fw.parts:
            kw["init_" + n] = d["i_" + n] = sym_array("i_" + n, (dim("len_" + n),))
        return m.fit_mle(None, **kw)

    def post(c, out, v):
        n = c.norm()
        good = [n.idecide(ieq(dim("len_" + p), k)).op for p, k in fw.parts]
        st = fw.st
        if out[0] == "ret":
            v.returned(out)
            for (p, k), g in zip(fw.parts, good):
                v.ok("accepted only with the right number of %s" % p, g == "true")
        else:
            v.raises(out, ValueError)
            v.ok("refused only with a wrong length", any(g == "false" for g in good), str(good))
            v.ok("nothing estimated", not st["est"] and not st["store"])
    S.verify("%s.%s.fit_mle" % (MODULE[kind], MODELS[kind]), "starting values by part, any lengths, intercepts=%s" % intercepts, fw.f, run, post)


def fitting(S, kind, intercepts, just_point, pieces, weights=True, ridge=True, constrained=False, length=False):
    fw = FitW(kind, intercepts, weights, ridge)
    label = "intercepts=%s just_point=%s %s weights=%s ridge=%s constrained=%s" % (
        intercepts, just_point, "starting values by part" if pieces else "init_vals" + (" of any length" if length else ""), weights, ridge, constrained)

    def run():
        spec = None
        if kind == "nested":
            from collections import OrderedDict
            spec = OrderedDict([("b", [5, 2]), ("c", [3, 4]), ("a", [1, 6])])
        m, d = fw.setup(nest_spec=spec)
        kw = dict(print_res=False, method="L-BFGS-B", loss_tol=1e-3, gradient_tol=1e-4, maxiter=77, ridge=d["ridge"], just_point=just_point)
        if constrained:
            kw["constrained_pos"] = [0] if kind == "nested" else [SInt(fw.pos)]
        if weights:
            kw["weights"] = d["weights"]
        if kind == "mixed":
            kw.update(num_draws=SInt(fw.R), seed=17)
        if pieces:
            for n, k in fw.parts:
                kw["init_" + n] = d["i_" + n] = sym_array("i_" + n, (k,))
            return m.fit_mle(None, **kw)
        d["x0"] = sym_array("x0", (dim("T0"),)) if length else sym_array("x0", (fw.need,))
        return m.fit_mle(d["x0"], **kw)

    def post(c, out, v):
        d, st = fw.inp, fw.st
        if length:
            n = c.norm()
            same = n.idecide(ieq(dim("T0"), fw.need)).op
            if same != "true":
                v.raises(out, ValueError)
                v.ok("nothing estimated", not st["est"] and not st["store"])
                return
        if not v.returned(out):
            return
        call_obs(v)
        if not v.ok("estimates once", len(st["est"]) == 1):
            return
        g = st["est"][0]
        if pieces:
            def x0(ix):
                off, t, offs = icst(0), None, []
                for nm, k in fw.parts:
                    offs.append((nm, off, iadd(off, k)))
                    off = iadd(off, k)
                for nm, lo, hi in reversed(offs):
                    y = app("i_" + nm, isub(ix[0], lo))
                    t = y if t is None else ite(ilt(ix[0], hi), y, t)
                return t
        else:
            x0 = lambda ix: app("x0", ix[0])
        v.array("starting values", g["x0"], (fw.need,), x0)
        v.ok("options passed on", g["opts"] == ("L-BFGS-B", 1e-3, 1e-4, 77, False), str(g["opts"]))
        v.ok("point-only flag passed on", bool(g["just_point"]) == just_point)
        e = g["e"]
        v.ok("the model's own estimator", type(e) is fw.E)
        v.ok("the model's own splitting rule", e.split_params is fw.mod.split_param_vec)
        v.array("zero vector", e.zero_vector, (fw.need,), lambda ix: ZERO)
        v.array("weights", e.weights, (fw.N,), lambda ix: app("w", ix[0]) if weights else ONE)
        v.ok("ridge", (e.ridge is None) == (d["ridge"] is None))
        if d["ridge"] is not None and e.ridge is not None:
            v.real("ridge value", treal(e.ridge), app("r"))
        want = (["0"] if kind == "nested" else None) if constrained else ([] if kind == "nested" else None)
        if kind == "nested":
            v.ok("constrained positions", e.constrained_pos is not None and list(e.constrained_pos) == ([0] if constrained else []), str(e.constrained_pos))
        elif constrained:
            v.ok("constrained positions", e.constrained_pos is not None and len(e.constrained_pos) == 1 and tint(e.constrained_pos[0]) is fw.pos)
        else:
            v.ok("no constrained positions", e.constrained_pos is None or len(e.constrained_pos) == 0)
        for a, k in (("rows_to_obs",) * 2, ("rows_to_alts",) * 2, ("chosen_row_to_obs",) * 2, ("rows_to_nests",) * 2, ("rows_to_mixers",) * 2,
                     ("choice_vector",) * 2, ("design",) * 2, ("alt_id_vector", "alt_IDs")):
            v.ok("estimator uses the model's " + k, getattr(e, a) is d[k])
        v.ok("estimator uses the model's utility transformation", e.utility_transform is d["transform"])
        if kind in KINDS:
            v.ok("derivative functions are set", st["deriv"] == [e] or (len(st["deriv"]) > 0 and all(x is e for x in st["deriv"])))
            for a, b in (("intercept_ref_pos", "intercept_ref_position"), ("shape_ref_pos", "shape_ref_position")):
                x, y = getattr(e, a), getattr(fw.m, b)
                v.ok("estimator uses the model's " + b, x is y or (x is not None and y is not None and tint(x) is tint(y)))
        if kind == "mixed":
            v.ok("estimator uses the simulated design", e.design_3d is st["d3"] and fw.m.design_3d is st["d3"])
        if just_point:
            v.ok("nothing stored on the model", not st["store"])
            v.ok("returns the optimiser's result", out[1] is st["res"])
        else:
            v.ok("results stored once", len(st["store"]) == 1 and st["store"][0] is st["res"])
            v.ok("the method is recorded", getattr(fw.m, "optimization_method", None) == "L-BFGS-B")
            rec = getattr(fw.m, "ridge_param", None)
            if v.ok("the ridge penalty is recorded", (rec is None) == (d["ridge"] is None)) and rec is not None:
                v.real("recorded ridge penalty", treal(rec), app("r"))
            if kind == "mixed":
                same_value(v, "simulated sequence probabilities", st["res"].get("simulated_sequence_probs"), sym_array("SP", (fw.B,)))
                same_value(v, "sequence probabilities per draw", st["res"].get("expanded_sequence_probs"), sym_array("SPR", (fw.B, fw.R)))
        v.unchanged("inputs not written", fw.bufs())
    S.verify("%s.%s.fit_mle" % (MODULE[kind], MODELS[kind]), label, fw.f, run, post)


def fitting_all(S):
    for kind in MODELS:
        its = KINDS[kind][3] if kind in KINDS else (False,)
        for it in its:
            for jp in (False, True):
                fitting(S, kind, it, jp, False)
            fitting(S, kind, it, False, False, weights=False, ridge=False, constrained=True)
            if kind in ("asym", "scobit", "uneven", "clog"):
                fitting(S, kind, it, False, True)


_P20 = P20


def P20(S):
    _P20(S)
    fitting_all(S)
