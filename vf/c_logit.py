"""Contracts for choice_calcs.py (properties P01-P05)."""
from .vc import *

FN = "choice_calcs."


class LW(object):
    """specification world: N rows, O observations, J alternatives, K index
    variables, M parameter columns; S shapes; I intercepts."""

    def __init__(self, shapes=None, intercepts=None, weights=None, ridge=None, two_d=False, three_d=False, linear=False, clamp=False):
        self.N, self.O, self.J, self.K = dim("N"), dim("O"), dim("J"), dim("K")
        self.M = dim("M")
        self.Sn, self.In = dim("S"), dim("I")
        self.has_c, self.has_a, self.has_w, self.has_r = shapes, intercepts, weights, ridge
        self.two_d, self.three_d, self.linear, self.clamp = two_d, three_d, linear, clamp
        f = self.f = Facts()
        f.surj.add("obs")
        f.binary.add("y")
        f.unity.add(("y", "obs"))
        f.pos.add("W")
        f.nonneg.add("r")
        f.diff["H"] = self.dH
        self.wobs = lambda i: app("W", self.obs(i)) if weights else ONE
        self.ridge_t = app("r") if ridge else ZERO

    def obs(self, i):
        return ifn("obs", [i], self.O)

    def alt(self, i):
        return ifn("alt", [i], self.J)

    # ---- spec terms
    def v(self, i, m=None):
        k = fresh_iv(self.K, "k")
        if self.three_d:
            return sum_(k, mul(app("X", i, m, k), app("b", k)))
        if self.two_d:
            return sum_(k, mul(app("X", i, k), app("b", k, m)))
        return sum_(k, mul(app("X", i, k), app("b", k)))

    def dH(self, x, ds, wrt):
        V, = x.args[1]
        i = x.args[2][0]
        n = wrt.args[0]
        if n == "b":
            return mul(self.hv(V, i), ds[0])
        if n == "c":
            return self.hc(V, i, wrt.args[1][0])
        if n == "a":
            return self.ha(V, i, wrt.args[1][0])
        if all(d is ZERO for d in ds):
            return ZERO
        raise Unprovable("derivative of H wrt %s" % n)

    def hv(self, V, i):
        return ONE if self.linear else rfn("Hv", (V,), (i,))

    def hc(self, V, i, s):
        return rfn("Hc", (V,), (i, s))

    def ha(self, V, i, s):
        return app("A", i, s) if self.linear else rfn("Ha", (V,), (i, s))

    def h_of(self, V, i, m=None):
        if self.linear:
            t = V
            if self.has_a:
                s = fresh_iv(self.In, "s")
                t = add(t, sum_(s, mul(app("A", i, s), app("a", s))))
            return t
        return rfn("H", (V,), (i,) if m is None else (i, m))

    def h(self, i, m=None):
        t = self.h_of(self.v(i, m), i, m)
        if self.clamp:
            t = ite(lt(t, num(-700)), num(-700), ite(lt(num(700), t), num(700), t))
        return t

    def e(self, i, m=None):
        return exp(self.h(i, m))

    def D(self, n, m=None):
        j = fresh_iv(self.N, "j")
        return sum_(j, mul(iv01(ieq(self.obs(j), n)), self.e(j, m)))

    def P(self, i, m=None):
        return div(self.e(i, m), self.D(self.obs(i), m))

    def ll(self):
        i = fresh_iv(self.N, "i")
        t = sum_(i, mul(app("y", i), self.wobs(i), log(self.P(i))))
        return self.penalise(t)

    def params(self):
        """blocks (name, length) in the order shapes, intercepts, index"""
        out = []
        if self.has_c:
            out.append(("c", self.Sn))
        if self.has_a:
            out.append(("a", self.In))
        out.append(("b", self.K))
        return out

    def penalise(self, t):
        if not self.has_r:
            return t
        for n, L in self.params():
            k = fresh_iv(L, "k")
            t = sub(t, mul(app("r"), sum_(k, mul(app(n, k), app(n, k)))))
        return t

    def npar(self):
        return iadd(*[L for _, L in self.params()])

    def par_at(self, g, fn):
        """value at global parameter index g: fn(blockname, localindex)"""
        off = icst(0)
        bl = self.params()
        offs = []
        for n, L in bl:
            offs.append(off)
            off = iadd(off, L)
        out = fn(bl[-1][0], isub(g, offs[-1]))
        for j in range(len(bl) - 2, -1, -1):
            out = ite(ilt(g, offs[j + 1]), fn(bl[j][0], isub(g, offs[j])), out)
        return out

    def dh(self, i, name, k):
        """derivative of h_i wrt a parameter"""
        V = self.v(i)
        if name == "b":
            return mul(self.hv(V, i), app("X", i, k))
        if name == "c":
            return self.hc(V, i, k)
        return self.ha(V, i, k)

    # ---- symbolic inputs
    def inputs(self):
        d = {}
        N, O, J, K = self.N, self.O, self.J, self.K
        if self.three_d:
            d["design"] = sym_array("X", (N, self.M, K))
            d["beta"] = sym_array("b", (K,))
        elif self.two_d:
            d["design"] = sym_array("X", (N, K))
            d["beta"] = sym_array("b", (K, self.M))
        else:
            d["design"] = sym_array("X", (N, K))
            d["beta"] = sym_array("b", (K,))
        d["alt_IDs"] = sym_array("altid", (N,), "i")
        d["rows_to_obs"] = onehot((N, O), self.obs, tag="rows_to_obs")
        d["rows_to_alts"] = onehot((N, J), self.alt, tag="rows_to_alts")
        y = d["choice_vector"] = sym_array("y", (N,))
        d["chosen_row_to_obs"] = Sp((N, O), lambda ix: mul(app("y", ix[0]), iv01(ieq(self.obs(ix[0]), ix[1]))), "f", "csr", tag="chosen_row_to_obs")
        d["shape_params"] = sym_array("c", (self.Sn,)) if self.has_c else None
        d["intercept_params"] = sym_array("a", (self.In,)) if self.has_a else None
        d["weights"] = Arr.fresh((N,), lambda ix: app("W", self.obs(ix[0])), "f", "weights") if self.has_w else None
        d["ridge"] = SReal(app("r")) if self.has_r else None
        self.inp = d
        return d

    def bufs(self):
        return [x.buf for x in self.inp.values() if isinstance(x, (Arr, Sp))]

    # ---- stubs: assumed contracts of the transformation and its derivatives
    def same(self, got, want, what):
        """call-site obligation: the argument is the expected one"""
        if got is want:
            return
        c = ctx()
        good = isinstance(got, Arr) and isinstance(want, Arr) and len(got.dims) == len(want.dims)
        if good:
            for a, b in zip(got.dims, want.dims):
                if not dimeq(a, b):
                    good = False
        if good:
            ix = tuple(fresh_iv(d) for d in want.dims)
            good = Prover(c.facts()).prove_eq(got.rel(ix), want.rel(ix))[0]
        if not good and isinstance(got, Sp) and isinstance(want, Sp):
            ix = tuple(fresh_iv(d) for d in want.dims)
            good = Prover(c.facts()).prove_eq(got.rel(ix), want.rel(ix))[0]
        if not good:
            c.obligations.append(("call-site: %s" % what, False))

    def transform(self, V, alt_IDs, rows_to_alts, shapes, intercepts, *a, **k):
        d = self.inp
        self.same(alt_IDs, d["alt_IDs"], "alt_IDs passed to utility_transform")
        self.same(rows_to_alts, d["rows_to_alts"], "rows_to_alts passed to utility_transform")
        self.same(shapes, d["shape_params"], "shape_params passed to utility_transform")
        self.same(intercepts, d["intercept_params"], "intercept_params passed to utility_transform")
        f = V.rsnap()
        if len(V.dims) == 1:
            return Arr.fresh((V.dims[0], icst(1)), lambda ix: self.h_of(f((ix[0],)), ix[0]))
        return Arr.fresh(V.dims, lambda ix: self.h_of(f(ix), ix[0], ix[1]))

    def d_v(self, V, alt_IDs, rows_to_alts, shapes, *a, **k):
        self.same(shapes, self.inp["shape_params"], "shape_params passed to the V-derivative")
        self.same(rows_to_alts, self.inp["rows_to_alts"], "rows_to_alts passed to the V-derivative")
        f = V.rsnap()
        return Sp((self.N, self.N), lambda ix: mul(iv01(ieq(ix[0], ix[1])), self.hv(f((ix[0],)), ix[0])), col=lambda i: i)

    def d_c(self, V, alt_IDs, rows_to_alts, shapes, *a, **k):
        if not self.has_c:
            return None
        self.same(shapes, self.inp["shape_params"], "shape_params passed to the shape derivative")
        self.same(rows_to_alts, self.inp["rows_to_alts"], "rows_to_alts passed to the shape derivative")
        f = V.rsnap()
        el = lambda ix: self.hc(f((ix[0],)), ix[0], ix[1])
        if self.has_c == "matrix":
            return Mat.fresh((self.N, self.Sn), el)
        return Sp((self.N, self.Sn), el)

    def d_a(self, V, alt_IDs, rows_to_alts, intercepts, *a, **k):
        if not self.has_a:
            return None
        self.same(rows_to_alts, self.inp["rows_to_alts"], "rows_to_alts passed to the intercept derivative")
        f = V.rsnap()
        return Sp((self.N, self.In), lambda ix: self.ha(f((ix[0],)), ix[0], ix[1]))

    # callee contract of calc_probabilities (proved separately under P01)
    def probs_stub(self, real):
        import inspect
        sig = inspect.signature(real)

        def stub(*a, **k):
            ba = sig.bind(*a, **k)
            ba.apply_defaults()
            g = ba.arguments
            d = self.inp
            for n in ("beta", "design", "rows_to_obs", "rows_to_alts", "alt_IDs", "shape_params", "intercept_params"):
                want = d[n]
                if want is None:
                    if g[n] is not None:
                        ctx().obligations.append(("call-site: %s passed to calc_probabilities" % n, False))
                else:
                    self.same(g[n], want, "%s passed to calc_probabilities" % n)
            if g["return_long_probs"] is not True or g["chosen_row_to_obs"] is not None:
                raise Unsupported("other return form of calc_probabilities")
            if self.three_d or self.two_d:
                return Arr.fresh((self.N, self.M), lambda ix: self.P(ix[0], ix[1]))
            return Arr.fresh((self.N,), lambda ix: self.P(ix[0]))
        return stub


def call_obs(v):
    for n, ok in v.c.obligations:
        v.ok(n, ok)


def load(lw=None, stub=True):
    w = World()
    m = w.load("choice_calcs")
    if lw is not None and stub:
        real = m.calc_probabilities
        m.calc_probabilities = lw.probs_stub(real)
    return m


def P01(S):
    for two, three in ((False, False), (True, False), (False, True)):
        for mode in ("long", "chosen", "both"):
            lw = LW(two_d=two, three_d=three, clamp=True)
            m = load()
            name = "dims=%s ret=%s" % ("3d" if three else "2d-beta" if two else "1d", mode)

            def run():
                d = lw.inputs()
                kw = {}
                if mode != "long":
                    kw["chosen_row_to_obs"] = d["chosen_row_to_obs"]
                if mode != "chosen":
                    kw["return_long_probs"] = True
                return m.calc_probabilities(d["beta"], d["design"], d["alt_IDs"], d["rows_to_obs"], d["rows_to_alts"], lw.transform, **kw)

            def post(c, out, v):
                if not v.returned(out):
                    return
                call_obs(v)
                r = out[1]
                if mode == "both":
                    if not v.ok("returns a pair", isinstance(r, tuple) and len(r) == 2):
                        return
                    ch, lo = r
                elif mode == "long":
                    ch, lo = None, r
                else:
                    ch, lo = r, None
                multi = two or three
                if multi and not isinstance(lo if lo is not None else ch, Arr):
                    v.ok("returns an array", False)
                    return

                def chosen(n, mm=None):
                    i = fresh_iv(lw.N, "i")
                    return sum_(i, mul(app("y", i), iv01(ieq(lw.obs(i), n)), lw.P(i, mm)))
                if lo is not None:
                    if multi:
                        v.array("long_probs", lo, (lw.N, lw.M), lambda ix: lw.P(ix[0], ix[1]))
                    else:
                        v.array("long_probs", lo, (lw.N,), lambda ix: lw.P(ix[0]))
                        f = lo.rsnap()
                        n = fresh_iv(lw.O, "n")
                        v.real("long_probs sum to one over each observation",
                               sum_over(lw.N, lambda i: mul(iv01(ieq(lw.obs(i), n)), f((i,)))), ONE)
                        i = fresh_iv(lw.N, "i")
                        v.sign("long_probs positive", f((i,)), "+")
                if ch is not None:
                    if multi:
                        v.array("chosen_probs", ch, (lw.O, lw.M), lambda ix: chosen(ix[0], ix[1]))
                    else:
                        v.array("chosen_probs", ch, (lw.O,), lambda ix: chosen(ix[0]))
                v.unchanged("inputs not written", lw.bufs())
            S.verify(FN + "calc_probabilities", name, lw.f, run, post)
    # argument validation
    m = load()
    lw = LW()

    def run_bad():
        d = lw.inputs()
        return m.calc_probabilities(d["beta"], d["design"], d["alt_IDs"], d["rows_to_obs"], d["rows_to_alts"], lw.transform)
    S.verify(FN + "calc_probabilities", "neither return requested", lw.f, run_bad, lambda c, out, v: v.raises(out, ValueError))

    def run_bad2():
        d = lw.inputs()
        d["beta"] = sym_array("b2", (lw.K, lw.M))
        d["design"] = sym_array("X3", (lw.N, lw.M, lw.K))
        return m.calc_probabilities(d["beta"], d["design"], d["alt_IDs"], d["rows_to_obs"], d["rows_to_alts"], lw.transform, return_long_probs=True)
    S.verify(FN + "calc_probabilities", "3-D design with 2-D beta", lw.f, run_bad2, lambda c, out, v: v.raises(out, ValueError))


def grid(shapes=(None, "sparse", "matrix")):
    for c in shapes:
        for a in (None, True):
            for w in (None, True):
                for r in (None, True):
                    yield c, a, w, r


def cname(c, a, w, r):
    return "shapes=%s intercepts=%s weights=%s ridge=%s" % (c, bool(a), bool(w), bool(r))


def P02(S):
    for c, a, w, r in grid((None, "sparse")):
        lw = LW(c, a, w, r)
        m = load(lw)

        def run():
            d = lw.inputs()
            return m.calc_log_likelihood(d["beta"], d["design"], d["alt_IDs"], d["rows_to_obs"], d["rows_to_alts"], d["choice_vector"],
                                         lw.transform, intercept_params=d["intercept_params"], shape_params=d["shape_params"],
                                         ridge=d["ridge"], weights=d["weights"])

        def post(cx, out, v):
            if not v.returned(out):
                return
            call_obs(v)
            v.real("log-likelihood", treal(out[1]), lw.ll())
            v.unchanged("inputs not written", lw.bufs())
        S.verify(FN + "calc_log_likelihood", cname(c, a, w, r), lw.f, run, post)


def P03(S):
    for c, a, w, r in grid():
        lw = LW(c, a, w, r)
        m = load(lw)

        def run():
            d = lw.inputs()
            return m.calc_gradient(d["beta"], d["design"], d["alt_IDs"], d["rows_to_obs"], d["rows_to_alts"], d["choice_vector"],
                                   lw.transform, lw.d_c, lw.d_v, lw.d_a, d["intercept_params"], d["shape_params"], d["ridge"], d["weights"])

        def post(cx, out, v):
            if not v.returned(out):
                return
            call_obs(v)
            ll = lw.ll()
            v.array("gradient", out[1], (lw.npar(),), lambda ix: lw.par_at(ix[0], lambda n, k: diff(ll, app(n, k), lw.f)))
            v.unchanged("inputs not written", lw.bufs())
        S.verify(FN + "calc_gradient", cname(c, a, w, r), lw.f, run, post)


def hess_formula(lw, n1, k1, n2, k2):
    """-( sum_i w P dh dh' - sum_n w (sum P dh)(sum P dh') )"""
    i = fresh_iv(lw.N, "i")
    j = fresh_iv(lw.N, "j")
    l = fresh_iv(lw.N, "l")
    t1 = sum_(i, mul(lw.wobs(i), lw.P(i), lw.dh(i, n1, k1), lw.dh(i, n2, k2)))
    t2 = sum_(j, mul(lw.wobs(j), lw.P(j), lw.dh(j, n1, k1), sum_(l, mul(iv01(ieq(lw.obs(l), lw.obs(j))), lw.P(l), lw.dh(l, n2, k2)))))
    return neg(sub(t1, t2))


def P04(S):
    for c, a, w, r in grid():
        lw = LW(c, a, w, r)
        m = load(lw)

        def run():
            d = lw.inputs()
            return m.calc_hessian(d["beta"], d["design"], d["alt_IDs"], d["rows_to_obs"], d["rows_to_alts"],
                                  lw.transform, lw.d_c, lw.d_v, lw.d_a, d["intercept_params"], d["shape_params"], d["ridge"], d["weights"])

        def spec(ix):
            def two(n1, k1):
                return lw.par_at(ix[1], lambda n2, k2: hess_formula(lw, n1, k1, n2, k2))
            t = lw.par_at(ix[0], two)
            if r:
                t = sub(t, mul(num(2), app("r"), iv01(ieq(ix[0], ix[1]))))
            return t

        def post(cx, out, v):
            if not v.returned(out):
                return
            call_obs(v)
            v.array("hessian", out[1], (lw.npar(), lw.npar()), spec)
            v.unchanged("inputs not written", lw.bufs())
        S.verify(FN + "calc_hessian", cname(c, a, w, r), lw.f, run, post)
    # lemma over the contract: with utilities linear in the parameters the
    # contract's formula is the second derivative of the penalised LL
    for a in (None, True):
        for w in (None, True):
            lw = LW(None, a, w, True, linear=True)
            c = Ctx(lw.f)
            CUR[0] = c
            v = V(S, FN + "calc_hessian", "lemma linear intercepts=%s weights=%s" % (bool(a), bool(w)), c)
            try:
                ll = lw.ll()
                bl = lw.params()
                for n1, L1 in bl:
                    for n2, L2 in bl:
                        k1, k2 = fresh_iv(L1, "k"), fresh_iv(L2, "l")
                        t = hess_formula(lw, n1, k1, n2, k2)
                        if n1 == n2:
                            t = sub(t, mul(num(2), app("r"), iv01(ieq(k1, k2))))
                        v.real("formula = second derivative (%s,%s)" % (n1, n2), t,
                               diff(diff(ll, app(n1, k1), lw.f), app(n2, k2), lw.f))
            finally:
                CUR[0] = None
    # helper
    for kinds in (("nd", "nd"), ("sp", "sp"), ("sp", "nd"), ("nd", "sp"), ("mat", "mat"), ("mat", "sp"), ("nd", "mat"), ("mat", "nd"), ("sp", "mat")):
        for w in (None, True):
            lw = LW(weights=w)
            lw.f.pos.add("p")
            m = load()
            A, B = dim("Ka"), dim("Kb")

            def mkv(kind, nm, dims):
                el = lambda ix: app(nm, *ix)
                return {"nd": lambda: Arr.fresh(dims, el), "sp": lambda: Sp(dims, el), "mat": lambda: Mat.fresh(dims, el)}[kind]()

            def run():
                d = lw.inputs()
                return m.quadratic_prod_wrt_dp_ds(mkv(kinds[0], "Lf", (A, lw.N)), mkv(kinds[1], "Rt", (lw.N, B)), sym_array("p", (lw.N,)), d["rows_to_obs"], weights=d["weights"])

            def spec(ix):
                i, j, l = [fresh_iv(lw.N) for _ in range(3)]
                t1 = sum_(i, mul(lw.wobs(i), app("p", i), app("Lf", ix[0], i), app("Rt", i, ix[1])))
                t2 = sum_(j, mul(lw.wobs(j), app("p", j), app("Lf", ix[0], j), sum_(l, mul(iv01(ieq(lw.obs(l), lw.obs(j))), app("p", l), app("Rt", l, ix[1])))))
                return sub(t1, t2)

            def post(cx, out, v):
                if v.returned(out):
                    v.array("left (dP/ds) right", out[1], (A, B), spec)
            S.verify(FN + "quadratic_prod_wrt_dp_ds", "left=%s right=%s weights=%s" % (kinds + (bool(w),)), lw.f, run, post)


def P05(S):
    for c, a, w, r in grid():
        lw = LW(c, a, w, r)
        m = load(lw)

        def run():
            d = lw.inputs()
            return m.calc_fisher_info_matrix(d["beta"], d["design"], d["alt_IDs"], d["rows_to_obs"], d["rows_to_alts"], d["choice_vector"],
                                             lw.transform, lw.d_c, lw.d_v, lw.d_a, d["intercept_params"], d["shape_params"], d["ridge"], d["weights"])

        def score(n, name, k):
            i = fresh_iv(lw.N, "i")
            return sum_(i, mul(iv01(ieq(lw.obs(i), n)), sub(app("y", i), lw.P(i)), lw.dh(i, name, k)))

        def spec(ix):
            def cell(n1, k1, n2, k2):
                n = fresh_iv(lw.O, "n")
                return sum_(n, mul(app("W", n) if w else ONE, score(n, n1, k1), score(n, n2, k2)))

            def two(n1, k1):
                return lw.par_at(ix[1], lambda n2, k2: cell(n1, k1, n2, k2))
            t = lw.par_at(ix[0], two)
            if r:
                t = sub(t, mul(num(2), app("r"), iv01(ieq(ix[0], ix[1]))))
            return t

        def post(cx, out, v):
            if not v.returned(out):
                return
            call_obs(v)
            v.array("fisher information", out[1], (lw.npar(), lw.npar()), spec)
            v.unchanged("inputs not written", lw.bufs())
        S.verify(FN + "calc_fisher_info_matrix", cname(c, a, w, r), lw.f, run, post)
    m = load()
    f = Facts()
    Q = dim("Q")

    def run():
        h = sym_array("Hs", (Q, Q))
        b = sym_array("Bf", (Q, Q))
        return m.calc_asymptotic_covariance(h, b)

    def spec(ix):
        k, l = fresh_iv(Q), fresh_iv(Q)
        return sum_(k, sum_(l, mul(app("inv:Hs", ix[0], k), app("Bf", k, l), app("inv:Hs", l, ix[1]))))

    def post(cx, out, v):
        if v.returned(out):
            v.array("sandwich", out[1], (Q, Q), spec)
    S.verify(FN + "calc_asymptotic_covariance", "sandwich", f, run, post)
