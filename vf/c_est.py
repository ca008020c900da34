"""Contracts for estimation.py and the model estimators: construction,
delegation to the calculation modules (caller against callee contract),
constrained objective, driver and reported statistics
(P01-P05, P08-P12 delegation; P17, P18, P19, P20)."""
import inspect
from .vc import *
from .c_logit import call_obs, LW

KINDS = {  # module, estimator class, has shapes, may have outside intercepts
    "mnl": ("conditional_logit", "MNLEstimator", False, (False,)),
    "asym": ("asym_logit", "AsymEstimator", True, (False, True)),
    "clog": ("clog_log", "ClogEstimator", False, (False, True)),
    "scobit": ("scobit", "ScobitEstimator", True, (False, True)),
    "uneven": ("uneven_logit", "UnevenEstimator", True, (False, True)),
}


class Opaque(object):
    """object of which only the given attributes are known"""

    def __init__(self, what, **kw):
        self.__dict__["_what"] = what
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (self.__dict__["_what"], n))


class Table(Opaque):
    """data frame of which only some columns are known"""

    def __init__(self, n, cols):
        Opaque.__init__(self, "data frame", n=n, cols=cols)

    @property
    def shape(self):
        return (wint(self.n), wint(dim("ncols")))

    def __getitem__(self, k):
        if isinstance(k, str) and k in self.cols:
            return Opaque("column", values=self.cols[k])
        raise Unsupported("column %r" % (k,))


def estimator_class(mod):
    c = [x for x in vars(mod).values() if isinstance(x, type) and x.__name__.endswith("Estimator") and x.__module__ == mod.__name__]
    if len(c) != 1:
        raise Unsupported("estimator class of %s" % mod.__name__)
    return c[0]


def flag(what, ok=False):
    ctx().obligations.append((what, bool(ok)))


def check_arg(n, got, want):
    if want is got:
        return
    if isinstance(want, (Arr, Sp)):
        LW.same(None, got, want, n)
    elif want is None or isinstance(want, (bool, str)):
        flag("call-site: %s" % n, False)
    elif isinstance(want, (SReal, SInt, int, float)):
        ok = got is not None and not callable(got) and Prover(ctx().facts()).prove_eq(treal(got), treal(want))[0]
        flag("call-site: %s" % n, ok)
    elif callable(want):
        flag("call-site: %s" % n, getattr(got, "__func__", got) is getattr(want, "__func__", want))
    else:
        flag("call-site: %s" % n, False)


def expecting(real, want, res, log=None):
    """stub with the signature of `real` that checks every argument"""
    sig = inspect.signature(real)

    def stub(*a, **k):
        try:
            ba = sig.bind(*a, **k)
        except TypeError as e:
            flag("call-site: arguments of %s (%s)" % (real.__name__, e))
            return res(None)
        ba.apply_defaults()
        g = ba.arguments
        for n, x in g.items():
            if n in ("args", "kwargs"):
                if x:
                    flag("call-site: surplus arguments")
                continue
            if n not in want:
                raise Unsupported("unknown parameter %s of %s" % (n, real.__name__))
            check_arg(n, x, want[n])
        if log is not None:
            log.append(g)
        return res(g)
    return stub


def replace(mods, real, stub):
    for m in mods:
        for n, o in list(vars(m).items()):
            if o is real:
                setattr(m, n, stub)


def same_value(v, what, got, want):
    if isinstance(want, tuple):
        if v.ok(what + ": %d parts" % len(want), isinstance(got, tuple) and len(got) == len(want)):
            for k, (g, w) in enumerate(zip(got, want)):
                same_value(v, "%s (part %d)" % (what, k), g, w)
    elif want is None:
        v.ok(what + " is None", got is None)
    elif isinstance(want, Arr):
        v.array(what, got, want.dims, lambda ix: want.rel(ix))
    else:
        v.real(what, treal(got), treal(want))


class EW(object):
    """estimation world"""

    def __init__(self, shapes=False, intercepts=False, weights=True, ridge=True):
        self.N, self.O, self.J, self.K = dim("N"), dim("O"), dim("J"), dim("K")
        self.B, self.R, self.Q = dim("B"), dim("R"), dim("Q")
        self.Sn, self.In, self.T = dim("S"), dim("I"), dim("T")
        self.has = (shapes, intercepts, weights, ridge)
        f = self.f = Facts()
        f.surj.add("obs")
        f.binary.add("y")
        f.unity.add(("y", "obs"))

    def inputs(self):
        N, O, J = self.N, self.O, self.J
        sh, it, w, r = self.has
        obs = lambda i: ifn("obs", [i], O)
        d = self.inp = {}
        d["params"] = sym_array("par", (self.T,))
        d["design"] = sym_array("X", (N, self.K))
        d["design_3d"] = sym_array("X3", (N, self.R, dim("K3")))
        d["alt_IDs"] = sym_array("altid", (N,), "i")
        d["obs_ids"] = sym_array("obsid", (N,), "i")
        d["choice_vector"] = sym_array("y", (N,))
        d["rows_to_obs"] = onehot((N, O), obs, tag="rows_to_obs")
        d["rows_to_alts"] = onehot((N, J), lambda i: ifn("alt", [i], J), tag="rows_to_alts")
        d["rows_to_nests"] = onehot((N, self.Q), lambda i: ifn("nest", [i], self.Q), tag="rows_to_nests")
        d["rows_to_mixers"] = onehot((N, self.B), lambda i: ifn("mix", [i], self.B), tag="rows_to_mixers")
        d["chosen_row_to_obs"] = Sp((N, O), lambda ix: mul(app("y", ix[0]), iv01(ieq(obs(ix[0]), ix[1]))), "f", "csr", tag="chosen_row_to_obs")
        d["weights"] = sym_array("w", (N,)) if w else None
        d["ridge"] = SReal(app("r")) if r else None
        d["shapes"] = sym_array("c", (self.Sn,)) if sh else None
        d["intercepts"] = sym_array("a", (self.In,)) if it else None
        d["betas"] = sym_array("b", (self.K,))
        d["nests"] = sym_array("t", (self.Q,))
        d["zero"] = Arr.fresh((self.T,), lambda ix: ZERO, "f", "zero_vector")
        d["transform"] = lambda *a, **k: (_ for _ in ()).throw(Unsupported("utility transform called"))
        return d

    def bufs(self):
        return [x.buf for x in self.inp.values() if isinstance(x, (Arr, Sp))]

    def model(self):
        d = self.inp
        return Opaque("model", alt_IDs=d["alt_IDs"], choices=d["choice_vector"], data=Table(self.N, {"obs": d["obs_ids"]}), obs_id_col="obs",
                      design=d["design"], design_3d=d["design_3d"], intercept_ref_position=SInt(ifn("iref", [], self.J)),
                      shape_ref_position=SInt(ifn("sref", [], self.J)), utility_transform=d["transform"])

    def build(self, world, cls, split, constrained_pos=None):
        """the real constructor; the input validators are stubbed (P27)"""
        d = self.inp
        est = world.load("estimation")
        for n in list(vars(est)):
            if n.startswith("ensure_"):
                setattr(est, n, lambda *a, **k: None)
        maps = {k: d[k] for k in ("rows_to_obs", "rows_to_alts", "chosen_row_to_obs", "rows_to_nests", "rows_to_mixers")}
        e = cls(self.model(), maps, d["ridge"], d["zero"], split, constrained_pos=constrained_pos, weights=d["weights"])
        return e


def logit_split(ew):
    def split(p, rows_to_alts, design, return_all_types=False):
        d = ew.inp
        check_arg("parameter vector passed to the splitting rule", p, d["params"])
        check_arg("rows_to_alts passed to the splitting rule", rows_to_alts, d["rows_to_alts"])
        check_arg("design passed to the splitting rule", design, d["design"])
        t = (d["shapes"], d["intercepts"], d["betas"])
        return (None,) + t if return_all_types else t
    return split


LOGIT = {"convenience_calc_probs": "calc_probabilities", "convenience_calc_log_likelihood": "calc_log_likelihood",
         "convenience_calc_gradient": "calc_gradient", "convenience_calc_hessian": "calc_hessian",
         "convenience_calc_fisher_approx": "calc_fisher_info_matrix"}
MIXED = {"convenience_calc_probs": "calc_probabilities", "convenience_calc_log_likelihood": "calc_mixed_log_likelihood",
         "convenience_calc_gradient": "calc_mixed_logit_gradient", "convenience_calc_hessian": "calc_bhhh_hessian_approximation_mixed_logit"}


def logit_want(ew, e):
    d = ew.inp
    wt = d["weights"] if d["weights"] is not None else Arr.fresh((ew.N,), lambda ix: ONE, "f")
    return dict(beta=d["betas"], design=d["design"], alt_IDs=d["alt_IDs"], rows_to_obs=d["rows_to_obs"], rows_to_alts=d["rows_to_alts"],
                choice_vector=d["choice_vector"], utility_transform=d["transform"], intercept_params=d["intercepts"],
                shape_params=d["shapes"], chosen_row_to_obs=d["chosen_row_to_obs"], return_long_probs=True, ridge=d["ridge"], weights=wt,
                transform_first_deriv_c=e.calc_dh_d_shape, transform_first_deriv_v=e.calc_dh_dv, transform_deriv_alpha=e.calc_dh_d_alpha)


def mixed_want(ew, e):
    d = ew.inp
    w = logit_want(ew, e)
    w.update(params=d["betas"], design_3d=d["design_3d"], rows_to_mixers=d["rows_to_mixers"], design=d["design_3d"],
             intercept_params=None, shape_params=None)
    return w


def delegate(S, kind, which, it=False, weights=True, ridge=True):
    """<Model>Estimator.<which>(params) is the calculation at the split
    parameters with the estimator's own data, weights and ridge"""
    if kind == "mixed":
        mod_name, table, calc, sh = "mixed_logit", MIXED, "choice_calcs" if which == "convenience_calc_probs" else "mixed_logit_calcs", False
    else:
        mod_name, _, sh, _ = KINDS[kind]
        table, calc = LOGIT, "choice_calcs"
    ew = EW(sh, it, weights, ridge)
    label = "%s=%s intercepts=%s weights=%s ridge=%s" % (which, table[which], it, weights, ridge)
    state = {}

    def run():
        state.clear()
        w = World()
        mod = w.load(mod_name)
        cm = w.load(calc)
        d = ew.inputs()
        if kind == "mixed":
            e = ew.build(w, estimator_class(mod), lambda p, return_all_types=False: (check_arg("parameter vector", p, d["params"]), (None, None, d["betas"]))[1])
        else:
            e = ew.build(w, estimator_class(mod), logit_split(ew))
            e.set_derivatives()
        real = getattr(cm, table[which])
        state["real"] = real
        mark = state["mark"] = []

        def res(g):
            x = {"convenience_calc_probs": lambda: (sym_array("cp0", (ew.O,)), sym_array("lp0", (ew.N,))),
                 "convenience_calc_log_likelihood": lambda: SReal(app("ll0")),
                 "convenience_calc_gradient": lambda: sym_array("g0", (ew.T,))}.get(which, lambda: sym_array("H0", (ew.T, ew.T)))()
            mark.append(x)
            return x
        want = mixed_want(ew, e) if kind == "mixed" else logit_want(ew, e)
        replace(list(w.mods.values()), real, expecting(real, want, res))
        return getattr(e, which)(d["params"])

    def post(c, out, v):
        if not v.returned(out):
            return
        call_obs(v)
        if v.ok("calls the calculation", len(state["mark"]) > 0):
            same_value(v, "returns that function's value", out[1], {
                "convenience_calc_probs": lambda: (sym_array("cp0", (ew.O,)), sym_array("lp0", (ew.N,))),
                "convenience_calc_log_likelihood": lambda: SReal(app("ll0")),
                "convenience_calc_gradient": lambda: sym_array("g0", (ew.T,))}.get(which, lambda: sym_array("H0", (ew.T, ew.T)))())
        v.unchanged("inputs not written", ew.bufs())
    S.verify("%s.%s" % (mod_name, which), label, ew.f, run, post)


def logit_all(S, which):
    for kind, (mn, cn, sh, its) in KINDS.items():
        for it in its:
            delegate(S, kind, which, it)
    delegate(S, "asym", which, True, False, False)
    delegate(S, "mnl", which, False, True, False)


def P01(S):
    logit_all(S, "convenience_calc_probs")


def P02(S):
    logit_all(S, "convenience_calc_log_likelihood")


def P03(S):
    logit_all(S, "convenience_calc_gradient")


def P04(S):
    logit_all(S, "convenience_calc_hessian")


def P05(S):
    logit_all(S, "convenience_calc_fisher_approx")


def P11(S):
    for w, r in ((True, True), (False, False)):
        delegate(S, "mixed", "convenience_calc_probs", False, w, r)
        delegate(S, "mixed", "convenience_calc_log_likelihood", False, w, r)


def P12(S):
    for w, r in ((True, True), (False, False)):
        delegate(S, "mixed", "convenience_calc_gradient", False, w, r)
        delegate(S, "mixed", "convenience_calc_hessian", False, w, r)


def masked(S, n):
    """MixedEstimator: constrained rows and columns zeroed, -1 on the diagonal"""
    ew = EW()
    pos = [ifn("pos%d" % k, [], ew.T) for k in range(n)]
    inC = lambda a: mk("bapp", "C", (a,))
    base = lambda ix: ite(or_(inC(ix[0]), inC(ix[1])), neg(iv01(ieq(ix[0], ix[1]))), app("H0", ix[0], ix[1]))

    def run():
        w = World()
        mod = w.load("mixed_logit")
        d = ew.inputs()
        e = ew.build(w, estimator_class(mod), lambda p, return_all_types=False: (None, None, p), constrained_pos=[SInt(p) for p in pos])
        real = w.load("mixed_logit_calcs").calc_bhhh_hessian_approximation_mixed_logit
        replace(list(w.mods.values()), real, lambda *a, **k: Arr.fresh((ew.T, ew.T), base, "f"))
        return e.convenience_calc_hessian(d["params"])

    def post(c, out, v):
        if not v.returned(out):
            return

        def spec(ix):
            a, b = ix
            hit = or_(inC(a), inC(b), *[ieq(x, p) for x in ix for p in pos])
            return ite(hit, neg(iv01(ieq(a, b))), app("H0", a, b))
        v.array("masked matrix (any %d positions after any earlier set C)" % n, out[1], (ew.T, ew.T), spec)
    S.verify("mixed_logit.convenience_calc_hessian", "constrained positions: %d (induction step over the loop)" % n, ew.f, run, post)


_P12 = P12


def P12(S):
    _P12(S)
    for n in (0, 1, 2, 3):
        masked(S, n)


# ---------------------------------------------------------------- P17: splitting rules
def split_contract(S, kind):
    if kind == "mixed":
        mn, sh, its = "mixed_logit", False, (False,)
    elif kind == "nested":
        mn, sh, its = "nested_logit", False, (False,)
    else:
        mn, _, sh, its = KINDS[kind]
    for it in its:
        for allt in (False, True):
            for twod in (False, True):
                ew = EW(sh, it)
                Sn = isub(ew.J, 1) if kind == "asym" else ew.J
                parts = ([Sn] if sh else []) + ([isub(ew.J, 1)] if it else []) + [ew.K]
                if kind == "nested":
                    parts = [ew.Q, ew.K]
                T_ = iadd(*parts)
                ew.f.assume.append(ilt(icst(1), ew.J))
                dims = (T_, dim("M")) if twod else (T_,)
                m = World().load(mn)

                def run():
                    d = ew.inputs()
                    d["p"] = sym_array("p", dims)
                    if kind in ("mixed",):
                        return m.split_param_vec(d["p"], return_all_types=allt)
                    if kind == "nested":
                        return m.split_param_vec(d["p"], d["rows_to_nests"], return_all_types=allt)
                    return m.split_param_vec(d["p"], d["rows_to_alts"], d["design"], return_all_types=allt)

                def post(c, out, v):
                    if not v.returned(out):
                        return
                    names = ["nests", "shapes", "intercepts", "betas"] if allt else (["nests", "betas"] if kind == "nested" else ["shapes", "intercepts", "betas"])
                    if not v.ok("returns %d parts" % len(names), isinstance(out[1], tuple) and len(out[1]) == len(names)):
                        return
                    present = {"nests": kind == "nested", "shapes": sh, "intercepts": it, "betas": True}
                    off = icst(0)
                    k = 0
                    for n, x in zip(names, out[1]):
                        if not present[n]:
                            v.ok("no %s" % n, x is None)
                            continue
                        o = off
                        v.array("%s are the block at its offset" % n, x, (parts[k],) + dims[1:], lambda ix: app("p", *((iadd(o, ix[0]),) + tuple(ix[1:]))))
                        off = iadd(off, parts[k])
                        k += 1
                    v.unchanged("inputs not written", ew.bufs())
                S.verify(mn + ".split_param_vec", "intercepts=%s all=%s columns=%s" % (it, allt, twod), ew.f, run, post)


def P17(S):
    for kind in list(KINDS) + ["mixed", "nested"]:
        split_contract(S, kind)
