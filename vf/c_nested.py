"""Contracts for nested_choice_calcs.py and NestedEstimator (P08-P10)."""
from .vc import *
from .c_logit import call_obs

FN = "nested_choice_calcs."
TINY = Fraction(1, 10 ** 299)
HUGE = 10 ** 299


def no_underflow(norm, c):
    """precondition: the magnitude guards (values below 1e-300 or above 1e300)
    are inactive for exponentials; exact zeros of empty nests are not covered by it"""
    if c.op not in ("lt", "lt0"):
        return None
    p = norm.norm(sub(c.args[0], c.args[1]) if c.op == "lt" else c.args[0])
    if len(p) != 2 or ONEM not in p:
        return None
    k = p[ONEM]
    (m, q), = [(m, q) for m, q in p.items() if m is not ONEM]
    if (q == 1 and -TINY < k < 0 or q == -1 and k > HUGE) and not m.args[0] and not m.args[1] and all(b is E for b, e in m.args[2]):
        return False
    return None


class NW(object):
    """N rows, O observations, Q nests, K index variables"""

    def __init__(self, weights=None, ridge=None, natural=True):
        self.N, self.O, self.Q, self.K = dim("N"), dim("O"), dim("Q"), dim("K")
        self.has_w, self.has_r, self.natural = weights, ridge, natural
        f = self.f = Facts()
        f.surj.add("obs")
        f.binary.add("y")
        f.unity.add(("y", "obs"))
        f.pos.update(("W", "l"))
        f.nonneg.add("r")
        f.rowfns.update({"obs": (self.N, self.O), "nest": (self.N, self.Q)})
        f.cond_hooks.append(no_underflow)
        self.wobs = lambda n: app("W", n) if weights else ONE

    def obs(self, i):
        return ifn("obs", [i], self.O)

    def nest(self, i):
        return ifn("nest", [i], self.Q)

    def lam(self, m):
        """natural coefficient of nest m"""
        if self.natural:
            return app("l", m)
        return div(ONE, add(ONE, exp(neg(app("t", m)))))

    def v(self, i):
        k = fresh_iv(self.K, "k")
        return sum_(k, mul(app("X", i, k), app("b", k)))

    def e(self, i):
        return exp(div(self.v(i), self.lam(self.nest(i))))

    def S(self, n, m):
        j = fresh_iv(self.N, "j")
        return sum_(j, mul(iv01(ieq(self.obs(j), n)), iv01(ieq(self.nest(j), m)), self.e(j)))

    def Sl(self, n, m):
        return pow_(self.S(n, m), self.lam(m))

    def D(self, n):
        m = fresh_iv(self.Q, "m")
        return sum_(m, self.Sl(n, m))

    def P(self, i):
        n, m = self.obs(i), self.nest(i)
        return div(mul(self.e(i), pow_(self.S(n, m), sub(self.lam(m), ONE))), self.D(n))

    def cond_p(self, i):
        return div(self.e(i), self.S(self.obs(i), self.nest(i)))

    def nest_p(self, n, m):
        return div(self.Sl(n, m), self.D(n))

    # ---- inputs
    def inputs(self):
        d = self.inp = {}
        N, O, Q, K = self.N, self.O, self.Q, self.K
        d["nest_coefs"] = sym_array("l" if self.natural else "t", (Q,))
        d["orig"] = sym_array("t", (Q,))
        d["index_coefs"] = sym_array("b", (K,))
        d["design"] = sym_array("X", (N, K))
        d["rows_to_obs"] = onehot((N, O), self.obs, tag="rows_to_obs")
        d["rows_to_nests"] = onehot((N, Q), self.nest, tag="rows_to_nests")
        d["choice"] = sym_array("y", (N,))
        d["chosen_row_to_obs"] = Sp((N, O), lambda ix: mul(app("y", ix[0]), iv01(ieq(self.obs(ix[0]), ix[1]))), "f", "csr", tag="chosen_row_to_obs")
        d["weights"] = Arr.fresh((N,), lambda ix: app("W", self.obs(ix[0])), "f", "weights") if self.has_w else None
        d["ridge"] = SReal(app("r")) if self.has_r else None
        return d

    def bufs(self):
        return [x.buf for x in self.inp.values() if isinstance(x, (Arr, Sp))]


def load():
    return World().load("nested_choice_calcs")


def P08(S):
    for ret in ("long_probs", "chosen_probs", "long_and_chosen_probs", "all_prob_dict"):
        nw = NW()
        m = load()

        def run():
            d = nw.inputs()
            kw = {"return_type": ret}
            if ret != "long_probs":
                kw["chosen_row_to_obs"] = d["chosen_row_to_obs"]
            return m.calc_nested_probs(d["nest_coefs"], d["index_coefs"], d["design"], d["rows_to_obs"], d["rows_to_nests"], **kw)

        def post(c, out, v):
            if not v.returned(out):
                return
            r = out[1]
            ch = lo = None
            if ret == "long_probs":
                lo = r
            elif ret == "chosen_probs":
                ch = r
            elif ret == "long_and_chosen_probs":
                if not v.ok("returns a pair", isinstance(r, tuple) and len(r) == 2):
                    return
                ch, lo = r
            else:
                if not v.ok("returns the dictionary of probabilities", isinstance(r, dict) and set(r) >= set(
                        ("long_probs", "chosen_probs", "prob_given_nest", "nest_choice_probs", "ind_sums_per_nest"))):
                    return
                ch, lo = r["chosen_probs"], r["long_probs"]
            if lo is not None:
                v.array("long_probs", lo, (nw.N,), lambda ix: nw.P(ix[0]))
            if ch is not None:
                i = fresh_iv(nw.N, "i")
                v.array("chosen_probs", ch, (nw.O,), lambda ix: sum_(i, mul(app("y", i), iv01(ieq(nw.obs(i), ix[0])), nw.P(i))))
            if ret == "all_prob_dict":
                v.array("prob_given_nest", r["prob_given_nest"], (nw.N,), lambda ix: nw.cond_p(ix[0]))
                v.array("ind_sums_per_nest", r["ind_sums_per_nest"], (nw.O, nw.Q), lambda ix: nw.S(*ix))
                v.array("nest_choice_probs (an unavailable nest gets the floor 1e-300)", r["nest_choice_probs"], (nw.O, nw.Q),
                        lambda ix: ite(req(nw.S(*ix), ZERO), num(Fraction(1, 10 ** 300)), nw.nest_p(*ix)))
                i = fresh_iv(nw.N, "i")
                f, g = r["prob_given_nest"].rsnap(), r["nest_choice_probs"].rsnap()
                h = lo.rsnap()
                v.real("conditional times nest probability is the row probability",
                       mul(f((i,)), g((nw.obs(i), nw.nest(i)))), h((i,)))
            v.unchanged("inputs not written", nw.bufs())
        S.verify(FN + "calc_nested_probs", "return_type=" + ret, nw.f, run, post)

    # lemmas over the specification
    nw = NW()

    def post_l(c, out, v):
        i = fresh_iv(nw.N, "i")
        n = fresh_iv(nw.O, "n")
        v.sign("probabilities are positive", nw.P(i), "+")
        # sum to one: partition by nest, share of a nest, sum of the shares
        j, m_ = fresh_iv(nw.N, "j"), fresh_iv(nw.Q, "m")
        q = fresh_iv(nw.Q, "q")
        mine = lambda n, m: sum_(j, mul(iv01(ieq(nw.nest(j), m)), iv01(ieq(nw.obs(j), n)), nw.P(j)))
        v.real("rows of an observation are partitioned by nest (any summand)", sum_(j, mul(iv01(ieq(nw.obs(j), n)), app("g", j))),
               sum_(m_, sum_(j, mul(iv01(ieq(nw.nest(j), m_)), iv01(ieq(nw.obs(j), n)), app("g", j)))))
        v.real("mass of a nest is S*S^(l-1)/D (zero when S is zero)", mine(n, q), div(mul(nw.S(n, q), pow_(nw.S(n, q), sub(nw.lam(q), ONE))), nw.D(n)))
        v.real("S*S^(l-1) = S^l for a nest with a row", mul(nw.S(nw.obs(i), nw.nest(i)), pow_(nw.S(nw.obs(i), nw.nest(i)), sub(nw.lam(nw.nest(i)), ONE))),
               nw.Sl(nw.obs(i), nw.nest(i)))
        v.real("0^l = 0", pow_(ZERO, nw.lam(q)), ZERO)
        v.real("the shares S^l/D sum to one", sum_(m_, nw.nest_p(n, m_)), ONE)
    S.verify("lemma", "nested probabilities", nw.f, lambda: None, post_l)

    # the logistic map
    nw = NW(natural=False)
    m = load()

    def run_n():
        d = nw.inputs()
        return m.naturalize_nest_coefs(d["nest_coefs"])

    def post_n(c, out, v):
        if not v.returned(out):
            return
        v.array("natural coefficients", out[1], (nw.Q,), lambda ix: nw.lam(ix[0]))
        v.unchanged("inputs not written", nw.bufs())
    S.verify(FN + "naturalize_nest_coefs", "logistic map", nw.f, run_n, post_n)

    # argument validation
    nw = NW()
    m = load()

    def run_b():
        d = nw.inputs()
        return m.calc_nested_probs(d["nest_coefs"], d["index_coefs"], d["design"], d["rows_to_obs"], d["rows_to_nests"], return_type="foo")
    S.verify(FN + "calc_nested_probs", "unknown return type", nw.f, run_b, lambda c, out, v: v.raises(out, ValueError))

    def run_b2():
        d = nw.inputs()
        return m.calc_nested_probs(d["nest_coefs"], d["index_coefs"], d["design"], d["rows_to_obs"], d["rows_to_nests"], return_type="chosen_probs")
    S.verify(FN + "calc_nested_probs", "chosen probabilities without the choice mapping", nw.f, run_b2, lambda c, out, v: v.raises(out, ValueError))


def stub_naturalize(nw):
    """callee contract of naturalize_nest_coefs (proved under P08): with the
    estimated parameters it returns the natural coefficients l"""
    def stub(x):
        from .c_logit import LW
        LW.same(None, x, nw.inp["orig"], "estimated nest parameters passed to naturalize_nest_coefs")
        return sym_array("l", (nw.Q,))
    return stub


def stub_probs(nw, m):
    """callee contract of calc_nested_probs (proved under P08)"""
    import inspect
    sig = inspect.signature(m.calc_nested_probs)

    def same(got, want, what):
        from .c_logit import LW
        LW.same(None, got, want, what)

    def stub(*a, **k):
        ba = sig.bind(*a, **k)
        ba.apply_defaults()
        g = ba.arguments
        d = nw.inp
        for n in ("index_coefs", "design", "rows_to_obs", "rows_to_nests"):
            same(g[n], d[n], "%s passed to calc_nested_probs" % n)
        same(g["nest_coefs"], Arr.fresh((nw.Q,), lambda ix: nw.lam(ix[0]), "f"), "natural nest coefficients passed to calc_nested_probs")
        lo = Arr.fresh((nw.N,), lambda ix: nw.P(ix[0]), "f")
        if g["return_type"] == "long_probs":
            return lo
        if g["return_type"] == "all_prob_dict":
            return {"long_probs": lo, "chosen_probs": None,
                    "prob_given_nest": Arr.fresh((nw.N,), lambda ix: nw.cond_p(ix[0]), "f"),
                    "nest_choice_probs": Arr.fresh((nw.O, nw.Q), lambda ix: ite(req(nw.S(*ix), ZERO), num(Fraction(1, 10 ** 300)), nw.nest_p(*ix)), "f"),
                    "ind_sums_per_nest": Arr.fresh((nw.O, nw.Q), lambda ix: nw.S(*ix), "f")}
        raise Unsupported("return type %r" % (g["return_type"],))
    return stub


def ll(nw):
    i = fresh_iv(nw.N, "i")
    t = sum_(i, mul(app("y", i), nw.wobs(nw.obs(i)), log(nw.P(i))))
    if nw.has_r:
        q, k = fresh_iv(nw.Q, "q"), fresh_iv(nw.K, "k")
        t = sub(t, mul(app("r"), add(sum_(q, pow_(sub(nw.lam(q), ONE), num(2))), sum_(k, mul(app("b", k), app("b", k))))))
    return t


def P09(S):
    for w in (False, True):
        for r in (False, True):
            nw = NW(weights=w, ridge=r)
            m = load()
            m.calc_nested_probs = stub_probs(nw, m)

            def run():
                d = nw.inputs()
                return m.calc_nested_log_likelihood(d["nest_coefs"], d["index_coefs"], d["design"], d["rows_to_obs"], d["rows_to_nests"],
                                                    d["choice"], ridge=d["ridge"], weights=d["weights"])

            def post(c, out, v):
                if not v.returned(out):
                    return
                call_obs(v)
                v.real("log-likelihood", treal(out[1]), ll(nw))
                v.unchanged("inputs not written", nw.bufs())
            S.verify(FN + "calc_nested_log_likelihood", "weights=%s ridge=%s" % (w, r), nw.f, run, post)
    for w in (False, True):
        for jac, r in ((True, False), (False, False), (True, True)):
            nw = NW(weights=w, ridge=r)
            m = load()
            m.calc_nested_probs = stub_probs(nw, m)
            m.naturalize_nest_coefs = stub_naturalize(nw)

            def run():
                d = nw.inputs()
                return m.calc_nested_gradient(d["orig"], d["index_coefs"], d["design"], d["choice"], d["rows_to_obs"], d["rows_to_nests"],
                                              ridge=d["ridge"], weights=d["weights"], use_jacobian=jac)

            def post(c, out, v):
                if not v.returned(out):
                    return
                call_obs(v)
                g = out[1]
                if not v.shape("gradient", g, (iadd(nw.Q, nw.K),)):
                    return
                f = g.rsnap()
                L = ll(nw)
                k = fresh_iv(nw.K, "p")
                v.real("derivative with respect to an index coefficient", f((iadd(nw.Q, k),)), diff(L, app("b", k), nw.f))
                if not r:       # the ridge term of the nest block is the known finding nested-ridge-gradient
                    q = fresh_iv(nw.Q, "p")
                    want = diff(L, app("l", q), nw.f)
                    if jac:
                        want = mul(want, nw.lam(q), sub(ONE, nw.lam(q)))
                    v.real("derivative with respect to a nest parameter", f((q,)), want)
                v.unchanged("inputs not written", nw.bufs())
            S.verify(FN + "calc_nested_gradient", "weights=%s use_jacobian=%s ridge=%s" % (w, jac, r), nw.f, run, post)
    nw = NW(natural=False)

    def post_l(c, out, v):
        q = fresh_iv(nw.Q, "q")
        v.real("derivative of the logistic map is l(1-l)", diff(nw.lam(q), app("t", q), nw.f), mul(nw.lam(q), sub(ONE, nw.lam(q))))
    S.verify("lemma", "logistic map", nw.f, lambda: None, post_l)


def score(nw, n, g_is_nest, idx):
    """observation n's contribution to the unweighted, unpenalised gradient"""
    i = fresh_iv(nw.N, "i")
    t = sum_(i, mul(iv01(ieq(nw.obs(i), n)), app("y", i), log(nw.P(i))))
    if g_is_nest:
        return mul(diff(t, app("l", idx), nw.f), nw.lam(idx), sub(ONE, nw.lam(idx)))
    return diff(t, app("b", idx), nw.f)


def P10(S):
    for w in (False, True):
        for r in (False, True):
            nw = NW(weights=w, ridge=r)
            m = load()
            m.calc_nested_probs = stub_probs(nw, m)
            m.naturalize_nest_coefs = stub_naturalize(nw)

            def run():
                d = nw.inputs()
                return m.calc_bhhh_hessian_approximation(d["orig"], d["index_coefs"], d["design"], d["choice"], d["rows_to_obs"], d["rows_to_nests"],
                                                         ridge=d["ridge"], weights=d["weights"])

            def post(c, out, v):
                if not v.returned(out):
                    return
                call_obs(v)
                tot = iadd(nw.Q, nw.K)
                g = out[1]
                if not v.shape("BHHH matrix", g, (tot, tot)):
                    return
                f = g.rsnap()
                for an in (True, False):
                    for bn in (True, False):
                        a = fresh_iv(nw.Q if an else nw.K, "a")
                        b = fresh_iv(nw.Q if bn else nw.K, "b")
                        ga, gb = (a if an else iadd(nw.Q, a)), (b if bn else iadd(nw.Q, b))
                        n = fresh_iv(nw.O, "n")
                        want = neg(sum_(n, mul(nw.wobs(n), score(nw, n, an, a), score(nw, n, bn, b))))
                        if r and an == bn:
                            want = sub(want, mul(num(2), app("r"), iv01(ieq(a, b))))
                        v.real("entry (%s, %s)" % ("nest" if an else "index", "nest" if bn else "index"), f((ga, gb)), want)
                v.unchanged("inputs not written", nw.bufs())
            S.verify(FN + "calc_bhhh_hessian_approximation", "weights=%s ridge=%s" % (w, r), nw.f, run, post)


# ---------------------------------------------------------------- NestedEstimator
def load_est():
    w = World()
    m = w.load("nested_logit")
    m._world = w
    return m


def estimator(nw, mod, constrained_pos=None):
    """built by the real constructor, validators stubbed (P27), real splitting rule"""
    from .c_est import Opaque, Table
    d = nw.inputs()
    est = mod._world.load("estimation")
    for n in list(vars(est)):
        if n.startswith("ensure_"):
            setattr(est, n, lambda *a, **k: None)
    d["params"] = sym_array("par", (iadd(nw.Q, nw.K),))
    model = Opaque("model", alt_IDs=sym_array("altid", (nw.N,), "i"), choices=d["choice"], data=Table(nw.N, {"obs": sym_array("obsid", (nw.N,), "i")}),
                   obs_id_col="obs", design=d["design"], intercept_ref_position=None, shape_ref_position=None, utility_transform=None)
    maps = dict(rows_to_obs=d["rows_to_obs"], rows_to_nests=d["rows_to_nests"], rows_to_mixers=None, chosen_row_to_obs=d["chosen_row_to_obs"],
                rows_to_alts=onehot((nw.N, dim("J")), lambda i: ifn("alt", [i], dim("J")), tag="rows_to_alts"))
    return mod.NestedEstimator(model, maps, d["ridge"], np_zeros((nw.Q, nw.K)), mod.split_param_vec, constrained_pos=constrained_pos, weights=d["weights"])


def np_zeros(parts):
    return Arr.fresh((iadd(*parts),), lambda ix: ZERO, "f")


def expect(nw, sig, res):
    """stub of a nested_choice_calcs function: checks every argument it is given"""
    from .c_logit import LW

    def bad(what):
        ctx().obligations.append(("call-site: " + what, False))

    def stub(*a, **k):
        ba = sig.bind(*a, **k)
        ba.apply_defaults()
        g = ba.arguments
        d = nw.inp
        nat = lambda t: div(ONE, add(ONE, exp(neg(t))))
        for n, x in g.items():
            if n in ("args", "kwargs"):
                if x:
                    bad("surplus arguments")
                continue
            if n == "orig_nest_coefs":
                LW.same(None, x, Arr.fresh((nw.Q,), lambda ix: app("par", ix[0]), "f"), n)
            elif n == "nest_coefs":
                LW.same(None, x, Arr.fresh((nw.Q,), lambda ix: nat(app("par", ix[0])), "f"), n)
            elif n == "index_coefs":
                LW.same(None, x, Arr.fresh((nw.K,), lambda ix: app("par", iadd(nw.Q, ix[0])), "f"), n)
            elif n in ("choice_vec", "choice_vector"):
                LW.same(None, x, d["choice"], n)
            elif n in ("design", "rows_to_obs", "rows_to_nests"):
                LW.same(None, x, d[n], n)
            elif n == "ridge":
                if x is not d[n] and (x is None or d[n] is None or not Prover(ctx().facts()).prove_eq(treal(x), treal(d[n]))[0]):
                    bad(n)
            elif n in ("weights", "chosen_row_to_obs"):
                LW.same(None, x, d[n], n)
            elif n == "return_type":
                if x != "long_and_chosen_probs":
                    bad(n)
            elif n == "use_jacobian":
                if x is not True:
                    bad(n)
            else:
                bad("unexpected parameter " + n)
        return res()
    return stub


ESTFN = {"convenience_calc_probs": "calc_nested_probs", "convenience_calc_log_likelihood": "calc_nested_log_likelihood",
         "convenience_calc_gradient": "calc_nested_gradient", "convenience_calc_hessian": "calc_bhhh_hessian_approximation"}
ESTALIAS = {"convenience_calc_probs": "general_calc_probabilities", "convenience_calc_log_likelihood": "general_log_likelihood",
            "convenience_calc_gradient": "general_gradient", "convenience_calc_hessian": "bhhh_approx"}


def delegate(S, which, w, r):
    """NestedEstimator.<which>(params) is the module function at the split parameters"""
    import inspect
    nw = NW(weights=w, ridge=r)
    mod = load_est()
    nc = mod.nc
    real = getattr(nc, ESTFN[which])
    mark = []
    tot = iadd(nw.Q, nw.K)
    value = {"convenience_calc_probs": lambda: (sym_array("cp0", (nw.O,)), sym_array("lp0", (nw.N,))),
             "convenience_calc_log_likelihood": lambda: SReal(app("ll0")),
             "convenience_calc_gradient": lambda: sym_array("g0", (tot,)),
             "convenience_calc_hessian": lambda: sym_array("H0", (tot, tot))}[which]

    def res():
        x = value()
        mark.append(x)
        return x
    stub = expect(nw, inspect.signature(real), res)
    for m in (mod, nc):
        for n, o in list(vars(m).items()):
            if o is real:
                setattr(m, n, stub)

    def run():
        del mark[:]
        e = estimator(nw, mod)
        return getattr(e, which)(nw.inp["params"])

    def post(c, out, v):
        if not v.returned(out):
            return
        call_obs(v)
        from .c_est import same_value
        if v.ok("calls the calculation", len(mark) > 0):
            same_value(v, "returns that function's value", out[1], value())
        v.unchanged("inputs not written", nw.bufs())
    S.verify("nested_logit.NestedEstimator." + which, "weights=%s ridge=%s" % (w, r), nw.f, run, post)


def masked(S):
    """constrained positions: rows and columns zeroed, -1 on the diagonal"""
    for n in (0, 1, 2, 3):
        nw = NW(weights=True, ridge=True)
        mod = load_est()
        T_ = iadd(nw.Q, nw.K)
        pos = [ifn("pos%d" % k, [], T_) for k in range(n)]
        inC = lambda a: mk("bapp", "C", (a,))
        base = lambda ix: ite(or_(inC(ix[0]), inC(ix[1])), neg(iv01(ieq(ix[0], ix[1]))), app("H0", ix[0], ix[1]))
        real = mod.nc.calc_bhhh_hessian_approximation
        stub = lambda *a, **k: Arr.fresh((T_, T_), base, "f")
        for m in (mod, mod.nc):
            for nm, o in list(vars(m).items()):
                if o is real:
                    setattr(m, nm, stub)

        def run():
            e = estimator(nw, mod, constrained_pos=[SInt(p) for p in pos])
            return e.convenience_calc_hessian(nw.inp["params"])

        def post(c, out, v):
            if not v.returned(out):
                return

            def spec(ix):
                a, b = ix
                hit = or_(inC(a), inC(b), *[ieq(x, p) for x in ix for p in pos])
                return ite(hit, neg(iv01(ieq(a, b))), app("H0", a, b))
            v.array("masked matrix (any %d positions after any earlier set C)" % n, out[1], (T_, T_), spec)
        S.verify("nested_logit.NestedEstimator.convenience_calc_hessian", "constrained positions: %d (induction step over the loop)" % n, nw.f, run, post)


_P08, _P09, _P10 = P08, P09, P10


def P08(S):
    _P08(S)
    delegate(S, "convenience_calc_probs", False, False)


def P09(S):
    _P09(S)
    for w, r in ((True, False), (True, True)):
        delegate(S, "convenience_calc_log_likelihood", w, r)
        delegate(S, "convenience_calc_gradient", w, r)


def P10(S):
    _P10(S)
    delegate(S, "convenience_calc_hessian", True, True)
    masked(S)
