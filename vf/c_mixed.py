"""Contracts for mixed_logit_calcs.py and MixedEstimator (P11, P12)."""
from .vc import *
from .c_logit import call_obs, LW

FN = "mixed_logit_calcs."


class MW(object):
    """N rows, O observations, B decision makers, R draws, K parameters;
    every observation belongs to one decision maker: mix(i) = mo(obs(i))"""

    def __init__(self, weights=None, ridge=None):
        self.N, self.O, self.B, self.R, self.K = dim("N"), dim("O"), dim("B"), dim("R"), dim("K")
        self.J = dim("J")
        self.has_w, self.has_r = weights, ridge
        f = self.f = Facts()
        f.surj.update(("obs", "mo"))
        f.binary.add("y")
        f.unity.add(("y", "obs"))
        f.pos.add("W")
        f.nonneg.add("r")
        self.wq = lambda q: app("W", q) if weights else ONE

    def obs(self, i):
        return ifn("obs", [i], self.O)

    def mix(self, i):
        return ifn("mo", [self.obs(i)], self.B)

    def v(self, i, r):
        k = fresh_iv(self.K, "k")
        return sum_(k, mul(app("X", i, r, k), app("b", k)))

    def P(self, i, r):
        j = fresh_iv(self.N, "j")
        return div(exp(self.v(i, r)), sum_(j, mul(iv01(ieq(self.obs(j), self.obs(i))), exp(self.v(j, r)))))

    def seq(self, q, r, P=None):
        P = P or self.P
        i = fresh_iv(self.N, "i")
        return exp(sum_(i, mul(iv01(ieq(self.mix(i), q)), app("y", i), log(P(i, r)))))

    def sim(self, q, P=None):
        r = fresh_iv(self.R, "r")
        return div(sum_(r, self.seq(q, r, P)), i2r(self.R))

    def ll(self):
        q = fresh_iv(self.B, "q")
        t = sum_(q, mul(self.wq(q), log(self.sim(q))))
        if self.has_r:
            k = fresh_iv(self.K, "k")
            t = sub(t, mul(app("r"), sum_(k, mul(app("b", k), app("b", k)))))
        return t

    def inputs(self):
        d = self.inp = {}
        N, O, B = self.N, self.O, self.B
        d["params"] = sym_array("b", (self.K,))
        d["design_3d"] = sym_array("X", (N, self.R, self.K))
        d["alt_IDs"] = sym_array("altid", (N,), "i")
        d["rows_to_obs"] = onehot((N, O), self.obs, tag="rows_to_obs")
        d["rows_to_alts"] = onehot((N, self.J), lambda i: ifn("alt", [i], self.J), tag="rows_to_alts")
        d["rows_to_mixers"] = onehot((N, B), self.mix, tag="rows_to_mixers")
        d["choice_vector"] = sym_array("y", (N,))
        d["weights"] = Arr.fresh((N,), lambda ix: app("W", self.mix(ix[0])), "f", "weights") if self.has_w else None
        d["ridge"] = SReal(app("r")) if self.has_r else None
        d["chosen_row_to_obs"] = Sp((N, O), lambda ix: mul(app("y", ix[0]), iv01(ieq(self.obs(ix[0]), ix[1]))), "f", "csr", tag="chosen_row_to_obs")
        return d

    def bufs(self):
        return [x.buf for x in self.inp.values() if isinstance(x, (Arr, Sp))]

    def args(self):
        d = self.inp
        return [d[n] for n in ("params", "design_3d", "alt_IDs", "rows_to_obs", "rows_to_alts", "rows_to_mixers", "choice_vector")] + [self.transform]

    def transform(self, *a, **k):
        raise Unsupported("utility_transform called directly")


def probs_stub(mw, real):
    """callee contract of choice_calcs.calc_probabilities (proved under P01)"""
    import inspect
    sig = inspect.signature(real)

    def stub(*a, **k):
        ba = sig.bind(*a, **k)
        ba.apply_defaults()
        g = ba.arguments
        d = mw.inp
        for n, m in (("beta", "params"), ("design", "design_3d"), ("rows_to_obs", "rows_to_obs"), ("rows_to_alts", "rows_to_alts"), ("alt_IDs", "alt_IDs")):
            LW.same(None, g[n], d[m], "%s passed to calc_probabilities" % n)
        if g["intercept_params"] is not None or g["shape_params"] is not None:
            ctx().obligations.append(("call-site: no shape or intercept parameters", False))
        if g["utility_transform"] is not mw.transform and getattr(g["utility_transform"], "__func__", 1) is not mw.transform.__func__:
            ctx().obligations.append(("call-site: utility transform", False))
        if g["return_long_probs"] is not True or g["chosen_row_to_obs"] is not None:
            raise Unsupported("other return form of calc_probabilities")
        return Arr.fresh((mw.N, mw.R), lambda ix: mw.P(*ix), "f")
    return stub


def seq_stub(mw, real):
    """callee contract of calc_choice_sequence_probs (proved under P11)"""
    import inspect
    sig = inspect.signature(real)

    def stub(*a, **k):
        ba = sig.bind(*a, **k)
        ba.apply_defaults()
        g = ba.arguments
        d = mw.inp
        LW.same(None, g["prob_array"], Arr.fresh((mw.N, mw.R), lambda ix: mw.P(*ix), "f"), "prob_array passed to calc_choice_sequence_probs")
        LW.same(None, g["choice_vec"], d["choice_vector"], "choice_vec passed to calc_choice_sequence_probs")
        LW.same(None, g["rows_to_mixers"], d["rows_to_mixers"], "rows_to_mixers passed to calc_choice_sequence_probs")
        s = Arr.fresh((mw.B,), lambda ix: mw.sim(ix[0]), "f")
        if g["return_type"] is None:
            return s
        return s, Arr.fresh((mw.B, mw.R), lambda ix: mw.seq(*ix), "f")
    return stub


def load(mw):
    m = World().load("mixed_logit_calcs")
    real = m.general_calc_probabilities
    st = probs_stub(mw, real)
    for mod in (m, m.cc):
        for n, o in list(vars(mod).items()):
            if o is real:
                setattr(mod, n, st)
    real2 = m.calc_choice_sequence_probs
    m.calc_choice_sequence_probs = seq_stub(mw, real2)
    m._real_seq = real2
    return m


def draws(S, n, seeded):
    """get_normal_draws: one array of independent standard normal numbers per
    mixed variable, one row per decision maker and one column per draw; the
    same seed gives the same numbers"""
    B, R = dim("B"), dim("R")

    def run():
        m = World().load("mixed_logit_calcs")
        s = run.s = SInt(iadd(ifn("seed", [], dim("S")), icst(1))) if seeded else None
        a = m.get_normal_draws(SInt(B), SInt(R), n, seed=s)
        k = len(ctx().rng)
        b = m.get_normal_draws(SInt(B), SInt(R), n, seed=s)
        run.log = (list(ctx().rng[:k]), list(ctx().rng[k:]))
        return a, b

    def post(c, out, v):
        if not v.returned(out):
            return
        nms = []
        for which, l in zip(("first", "second"), out[1]):
            if not v.ok("one array per mixed variable", isinstance(l, list) and len(l) == n):
                return
            got = []
            for k, x in enumerate(l):
                if not v.shape("draws of variable %d" % k, x, (B, R)):
                    return
                i, r = fresh_iv(B, "b"), fresh_iv(R, "r")
                t = x.rel((i, r))
                if t.op != "app" or not t.args[0].startswith("normal:") or set(t.args[1]) != {i, r}:
                    raise Unsupported("draws of another form: %s" % show(t)[:200])
                v.ok("draws are standard normal numbers, one per decision maker and draw", True)
                got.append(t.args[0])
            v.ok("%s call: no two variables share their draws" % which, len(set(got)) == n, str(got))
            nms.append(got)
        if not seeded:
            v.ok("without a seed, a second call draws new numbers", not set(nms[0]) & set(nms[1]), str(nms))
            v.ok("without a seed, the generator is not reset", not any(e[0] == "seed" for l in run.log for e in l))
        else:
            v.ok("the same seed gives the same draws", nms[0] == nms[1], str(nms))
            v.ok("the draws depend on the seed given", all(x.split(":")[-2] == show(run.s.t) for x in nms[0]), str(nms))
    S.verify(FN + "get_normal_draws", "variables=%d seed %s" % (n, "given" if seeded else "absent"), Facts(), run, post)


def P11(S):
    for n in (1, 2, 3):
        for seeded in (False, True):
            draws(S, n, seeded)
    # simulated design: any number of mixed variables is covered position by position
    for nm in (1, 2, 3):
        mw = MW()
        K0 = dim("K0")
        m = World().load("mixed_logit_calcs")
        pos = [ifn("pos%d" % k, [], K0) for k in range(nm)]

        def run():
            mw.inputs()
            mw.d2 = sym_array("D", (mw.N, K0))
            mw.draws = [sym_array("Z%d" % k, (mw.B, mw.R)) for k in range(nm)]
            return m.create_expanded_design_for_mixing(mw.d2, mw.draws, [SInt(p) for p in pos], mw.inp["rows_to_mixers"])

        def post(c, out, v):
            if not v.returned(out):
                return
            if not v.shape("expanded design", out[1], (mw.N, mw.R, iadd(K0, nm))):
                return
            f = out[1].rsnap()
            i, r, k = fresh_iv(mw.N, "i"), fresh_iv(mw.R, "r"), fresh_iv(K0, "k")
            v.real("original columns repeated for every draw", f((i, r, k)), app("D", i, k))
            for j in range(nm):
                v.real("column of mixed variable %d is the variable times its decision maker's draw" % j, f((i, r, iadd(K0, j))),
                       mul(app("D", i, pos[j]), app("Z%d" % j, mw.mix(i), r)))
            v.unchanged("inputs not written", mw.bufs() + [mw.d2.buf] + [z.buf for z in mw.draws])
        S.verify(FN + "create_expanded_design_for_mixing", "%d mixed variables" % nm, mw.f, run, post)
    mw = MW()
    m = World().load("mixed_logit_calcs")

    def run_b():
        mw.inputs()
        return m.create_expanded_design_for_mixing(sym_array("D", (mw.N, dim("K0"))), [sym_array("Z0", (mw.B, mw.R))], [0, 1], mw.inp["rows_to_mixers"])
    S.verify(FN + "create_expanded_design_for_mixing", "as many draws as mixed variables", mw.f, run_b, lambda c, out, v: v.raises(out, ValueError))
    # sequence probabilities, for any positive probabilities
    for ret in (None, "all"):
        mw = MW()
        mw.f.pos.add("p")
        m = World().load("mixed_logit_calcs")
        P = lambda i, r: app("p", i, r)

        def run_s():
            d = mw.inputs()
            d["p"] = sym_array("p", (mw.N, mw.R))
            return m.calc_choice_sequence_probs(d["p"], d["choice_vector"], d["rows_to_mixers"], return_type=ret)

        def post_s(c, out, v):
            if not v.returned(out):
                return
            a = out[1]
            if ret == "all":
                if not v.ok("returns a pair", isinstance(a, tuple) and len(a) == 2):
                    return
                a, e = a
                v.array("sequence probability per draw is the product of the chosen rows' probabilities", e, (mw.B, mw.R), lambda ix: mw.seq(ix[0], ix[1], P))
            v.array("simulated sequence probability is the average over draws", a, (mw.B,), lambda ix: mw.sim(ix[0], P))
            v.unchanged("inputs not written", mw.bufs())
        S.verify(FN + "calc_choice_sequence_probs", "return_type=%s" % ret, mw.f, run_s, post_s)
    mw = MW()
    m = World().load("mixed_logit_calcs")

    def run_c():
        d = mw.inputs()
        return m.calc_choice_sequence_probs(sym_array("p", (mw.N, mw.R)), d["choice_vector"], d["rows_to_mixers"], return_type="foo")
    S.verify(FN + "calc_choice_sequence_probs", "unknown return type", mw.f, run_c, lambda c, out, v: v.raises(out, ValueError))
    for w in (False, True):
        for r in (False, True):
            mw = MW(weights=w, ridge=r)
            m = load(mw)

            def run_l():
                mw.inputs()
                return m.calc_mixed_log_likelihood(*mw.args(), ridge=mw.inp["ridge"], weights=mw.inp["weights"])

            def post_l(c, out, v):
                if not v.returned(out):
                    return
                call_obs(v)
                v.real("log-likelihood", treal(out[1]), mw.ll())
                v.unchanged("inputs not written", mw.bufs())
            S.verify(FN + "calc_mixed_log_likelihood", "weights=%s ridge=%s" % (w, r), mw.f, run_l, post_l)


def score(mw, q, k):
    return diff(log(mw.sim(q)), app("b", k), mw.f)


def P12(S):
    for w in (False, True):
        for r in (False, True):
            mw = MW(weights=w, ridge=r)
            m = load(mw)

            def run():
                mw.inputs()
                return m.calc_mixed_logit_gradient(*mw.args(), ridge=mw.inp["ridge"], weights=mw.inp["weights"])

            def post(c, out, v):
                if not v.returned(out):
                    return
                call_obs(v)
                v.array("gradient", out[1], (mw.K,), lambda ix: diff(mw.ll(), app("b", ix[0]), mw.f))
                v.unchanged("inputs not written", mw.bufs())
            S.verify(FN + "calc_mixed_logit_gradient", "weights=%s ridge=%s" % (w, r), mw.f, run, post)

            def run_h():
                mw.inputs()
                return m.calc_bhhh_hessian_approximation_mixed_logit(*mw.args(), ridge=mw.inp["ridge"], weights=mw.inp["weights"])

            def post_h(c, out, v):
                if not v.returned(out):
                    return
                call_obs(v)

                def spec(ix):
                    q = fresh_iv(mw.B, "q")
                    t = neg(sum_(q, mul(mw.wq(q), score(mw, q, ix[0]), score(mw, q, ix[1]))))
                    if r:
                        t = add(t, mul(num(2), app("r"), iv01(ieq(*ix))))
                    return t
                v.array("BHHH matrix", out[1], (mw.K, mw.K), spec)
                v.unchanged("inputs not written", mw.bufs())
            S.verify(FN + "calc_bhhh_hessian_approximation_mixed_logit", "weights=%s ridge=%s" % (w, r), mw.f, run_h, post_h)

    for n in (None, 0, 1, 2):
        for w in (False, True):
            negated(S, n, w)


def negated(S, n, w):
    """calc_neg_log_likelihood_and_neg_gradient: minus the log-likelihood and
    minus the gradient of the same inputs, zero at the constrained positions
    (callees under contract: both are proved above and under P11)"""
    import inspect
    from .c_est import check_arg
    mw = MW(weights=w, ridge=w)
    m = World().load("mixed_logit_calcs")
    pos = [ifn("cp%d" % i, [], mw.K) for i in range(n or 0)]

    def stub(real, res):
        sig = inspect.signature(real)

        def f(*a, **k):
            ba = sig.bind(*a, **k)
            ba.apply_defaults()
            g, d = ba.arguments, mw.inp
            for p in ("params", "design_3d", "alt_IDs", "rows_to_obs", "rows_to_alts", "rows_to_mixers", "choice_vector"):
                LW.same(None, g[p], d[p], "%s passed to %s" % (p, real.__name__))
            w0 = d["weights"]
            if w0 is None and isinstance(g["weights"], Arr):
                w0 = Arr.fresh((mw.N,), lambda ix: ONE, "f")
            check_arg("weights passed to %s" % real.__name__, g["weights"], w0)
            check_arg("ridge passed to %s" % real.__name__, g["ridge"], d["ridge"])
            t = g["utility_transform"]
            ctx().obligations.append(("call-site: utility transform", t is mw.transform or getattr(t, "__func__", 1) is mw.transform.__func__))
            return res()
        return f
    m.calc_mixed_log_likelihood = stub(m.calc_mixed_log_likelihood, lambda: SReal(app("L")))
    m.calc_mixed_logit_gradient = stub(m.calc_mixed_logit_gradient, lambda: sym_array("g", (mw.K,)))

    def run():
        mw.inputs()
        return m.calc_neg_log_likelihood_and_neg_gradient(*mw.args(), None if n is None else [SInt(p) for p in pos], ridge=mw.inp["ridge"], weights=mw.inp["weights"])

    def post(c, out, v):
        if not v.returned(out):
            return
        call_obs(v)
        o = out[1]
        if not v.ok("returns value and gradient", isinstance(o, tuple) and len(o) == 2):
            return
        v.real("objective is minus the log-likelihood", treal(o[0]), neg(app("L")))
        v.array("gradient is minus the gradient with constrained entries zero", o[1], (mw.K,),
                lambda ix: ite(or_(*[ieq(ix[0], p) for p in pos]), ZERO, neg(app("g", ix[0]))) if pos else neg(app("g", ix[0])))
        v.unchanged("inputs not written", mw.bufs())
    S.verify(FN + "calc_neg_log_likelihood_and_neg_gradient", "constrained=%s weights and ridge=%s" % (n, w), mw.f, run, post)
