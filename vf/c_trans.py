"""Contracts for the utility transformations and their derivatives (P06, P07)."""
from .vc import *

MODS = {"mnl": "conditional_logit", "asym": "asym_logit", "clog": "clog_log", "scobit": "scobit", "uneven": "uneven_logit"}
NAMES = {"mnl": "_mnl_utility_transform", "asym": "_asym_utility_transform", "clog": "_cloglog_utility_transform",
         "scobit": "_scobit_utility_transform", "uneven": "_uneven_utility_transform"}


class TW(object):
    """N rows, J alternatives; `zone` fixes the sign region of V by a total
    parametrisation (every real of the region is the image of some input)."""

    def __init__(self, kind, intercepts=None, zone=None, two_d=False):
        self.kind, self.has_a, self.zone, self.two_d = kind, intercepts, zone, two_d
        self.N, self.J, self.M = dim("N"), dim("J"), dim("M")
        f = self.f = Facts()
        f.dimlb["J"] = 2
        f.pos.add("u")
        f.nonneg.add("q")
        self.alt = lambda i: ifn("alt", [i], self.J)
        self.aref = ifn("aref", [], self.J)
        self.sref = ifn("sref", [], self.J)
        f.surj.discard("alt")

    # ---- terms
    def V(self, i, m=None):
        ix = (i,) if m is None else (i, m)
        z = self.zone
        if z is None:
            return app("V", *ix)
        if z == "neg":
            return neg(app("u", *ix))
        if z == "nonneg":
            return app("q", *ix)
        if z == "low":           # V < 7/2
            return sub(num(Fraction(7, 2)), app("u", *ix))
        if z == "high":          # V >= 7/2
            return add(num(Fraction(7, 2)), app("q", *ix))
        raise AssertionError(z)

    def skip(self, ref, j, name, at_ref, m=None):
        x = (lambda k: app(name, k)) if m is None else (lambda k: app(name, k, m))
        return ite(ilt(j, ref), x(j), ite(ieq(j, ref), at_ref, x(isub(j, 1))))

    def intercept(self, i, m=None):
        if not self.has_a:
            return ZERO
        return self.skip(self.aref, self.alt(i), "a", ZERO, m)

    def shape_at(self, j, m=None):
        """natural shape of alternative j"""
        x = lambda k: app("c", k) if m is None else app("c", k, m)
        if self.kind == "asym":
            k = fresh_iv(isub(self.J, 1), "k")
            den = add(ONE, sum_(k, exp(x(k))))
            e = ite(ilt(j, self.sref), exp(x(j)), ite(ieq(j, self.sref), ONE, exp(x(isub(j, 1)))))
            return div(e, den)
        return exp(x(j))

    def h(self, i, m=None, v=None):
        V = self.V(i, m) if v is None else v
        a = self.intercept(i, m)
        k = self.kind
        if k == "mnl":
            return V
        if k == "clog":
            return add(log(sub(exp(exp(V)), ONE)), a)
        s = self.shape_at(self.alt(i), m)
        if k == "scobit":
            return sub(a, log(sub(pow_(add(ONE, exp(neg(V))), s), ONE)))
        if k == "uneven":
            return add(V, log(add(ONE, exp(neg(V)))), neg(log(add(ONE, exp(neg(mul(s, V)))))), a)
        if k == "asym":
            lo = log(div(sub(ONE, s), sub(i2r(self.J), ONE)))
            return add(sub(log(s), mul(V, ite(lt(V, ZERO), lo, log(s)))), a)
        raise AssertionError(k)

    # ---- inputs
    def inputs(self):
        d = self.inp = {}
        vd = (self.N, self.M) if self.two_d else (self.N,)
        d["V"] = Arr.fresh(vd, lambda ix: self.V(*ix), "f", "V")
        d["alt_IDs"] = sym_array("altid", (self.N,), "i")
        d["rows_to_alts"] = onehot((self.N, self.J), self.alt, tag="rows_to_alts")
        n = self.J if self.kind in ("scobit", "uneven") else isub(self.J, 1)
        tail = (self.M,) if self.two_d else ()
        d["shapes"] = sym_array("c", (n,) + tail) if self.kind in ("asym", "scobit", "uneven") else None
        d["intercepts"] = sym_array("a", (isub(self.J, 1),) + tail) if self.has_a else None
        return d

    def bufs(self):
        return [x.buf for x in self.inp.values() if isinstance(x, (Arr, Sp))]


class FakeEst(object):
    pass


def zones(kind):
    return {"mnl": (None,), "uneven": (None,), "scobit": (None,), "asym": ("neg", "nonneg"), "clog": ("low", "high")}[kind]


def P06(S):
    for kind in ("mnl", "uneven", "scobit", "asym", "clog"):
        mod = World().load(MODS[kind])
        fn = getattr(mod, NAMES[kind])
        full = MODS[kind] + "." + NAMES[kind]
        for two in (False, True):
            for a in ((None,) if kind == "mnl" else (None, True)):
                for z in zones(kind):
                    tw = TW(kind, a, z, two)
                    name = "V%s zone=%s intercepts=%s" % ("2d" if two else "1d", z, bool(a))

                    def run():
                        d = tw.inputs()
                        kw = {}
                        if kind == "asym":
                            kw["shape_ref_position"] = SInt(tw.sref)
                        if a:
                            kw["intercept_ref_pos"] = SInt(tw.aref)
                        return fn(d["V"], d["alt_IDs"], d["rows_to_alts"], d["shapes"], d["intercepts"], **kw)

                    def post(c, out, v):
                        if not v.returned(out):
                            return
                        r = out[1]
                        dims = (tw.N, tw.M) if two else (tw.N, icst(1))
                        spec = lambda ix: tw.h(ix[0], ix[1] if two else None)
                        if kind == "clog" and z == "high":
                            # from 3.5 upwards the exact value or its limit exp(V) (they differ by less than 4.2e-15)
                            spec2 = lambda ix: add(exp(tw.V(ix[0], ix[1] if two else None)), tw.intercept(ix[0], ix[1] if two else None))
                            if not v.shape("transformed utility", r, dims):
                                return
                            f = r.rsnap()
                            for what, cnd in (("below", True), ("from", False)):
                                pass
                            ix = (fresh_iv(tw.N, "i"), fresh_iv(tw.M, "m") if two else icst(0))
                            g = mul(sub(f(ix), spec(ix)), sub(f(ix), spec2(ix)))
                            v.real("transformed utility is the formula or its limit exp(V)", g, ZERO)
                        else:
                            v.array("transformed utility", r, dims, spec)
                        v.unchanged("inputs not written", tw.bufs())
                    S.verify(full, name, tw.f, run, post)


def estimator(tw):
    e = FakeEst()
    e.design = sym_array("X", (tw.N, dim("K")))
    e.rows_to_alts = tw.inp["rows_to_alts"]
    e.shape_ref_pos = SInt(tw.sref) if tw.kind == "asym" else None
    e.intercept_ref_pos = SInt(tw.aref) if tw.has_a else None
    e.alt_id_vector = tw.inp["alt_IDs"]
    return e


def dterm(tw, i, wrt):
    """derivative of the published formula, evaluated at the zone's V"""
    t = diff(tw.h(i, None, app("V", i)), wrt, tw.f)
    if tw.zone is not None:
        t = replace_terms(t, {app("V", i): tw.V(i)})
    return t


def P07(S):
    for kind in ("mnl", "uneven", "scobit", "asym", "clog"):
        mod = World().load(MODS[kind])
        cls = [x for x in vars(mod).values() if isinstance(x, type) and x.__name__.endswith("Estimator") and x.__module__ == mod.__name__]
        for a in ((None,) if kind == "mnl" else (None, True)):
            for z in (("neg", "nonneg") if kind == "asym" else (None,)):
                for again in (False, True):
                    tw = TW(kind, a, z)
                    name = "zone=%s intercepts=%s%s" % (z, bool(a), " second evaluation on the same buffers" if again else "")

                    def mk_run(which):
                        def run():
                            d = tw.inputs()
                            est = object.__new__(cls[0])
                            est.__dict__.update(estimator(tw).__dict__)
                            est.set_derivatives()
                            f = getattr(est, which)
                            p = d["intercepts"] if which == "calc_dh_d_alpha" else d["shapes"]
                            if again:
                                V0 = sym_array("V0", (tw.N,))
                                p0 = None if p is None else sym_array("p0", p.dims)
                                f(V0, d["alt_IDs"], d["rows_to_alts"], p0)
                            return f(d["V"], d["alt_IDs"], d["rows_to_alts"], p)
                        return run

                    def post_v(c, out, v):
                        if v.returned(out):
                            v.array("dh/dV", out[1], (tw.N, tw.N), lambda ix: mul(iv01(ieq(ix[0], ix[1])), dterm(tw, ix[0], app("V", ix[0]))))
                            v.unchanged("inputs not written", tw.bufs())

                    def post_c(c, out, v):
                        if not v.returned(out):
                            return
                        if tw.inp["shapes"] is None:
                            v.ok("no shape derivative", out[1] is None)
                            return
                        n = tw.inp["shapes"].dims[0]
                        v.array("dh/dshape", out[1], (tw.N, n), lambda ix: dterm(tw, ix[0], app("c", ix[1])))
                        v.unchanged("inputs not written", tw.bufs())

                    def post_a(c, out, v):
                        if not v.returned(out):
                            return
                        if not a:
                            v.ok("no intercept derivative", out[1] is None)
                            return
                        v.array("dh/dintercept", out[1], (tw.N, isub(tw.J, 1)), lambda ix: dterm(tw, ix[0], app("a", ix[1])))
                        v.unchanged("inputs not written", tw.bufs())
                    for which, post in (("calc_dh_dv", post_v), ("calc_dh_d_shape", post_c), ("calc_dh_d_alpha", post_a)):
                        S.verify(MODS[kind] + "." + which, name, tw.f, mk_run(which), post)
