"""Range contracts in IEEE double arithmetic (P29): finite transformed
utilities, probabilities in (0, 1], finite log-likelihoods, for every input
within the stated magnitudes."""
import time
from .vc import *
from . import ieee
from .ieee import Iv, Ranges, OutOfReach, INF, MAX, TINY, recording, simplify
from .c_logit import LW
from .c_mixed import MW
from .c_nested import NW
from .c_trans import TW, MODS, NAMES, estimator

BIG = 1e299
ROWS = 1e9          # rows of a data set
ALTS = 1e4          # rows of one observation
TERMS = {"N": ROWS, "J": 1e4, "Q": 1e3, "K": 1e6, "O": ROWS, "M": 1e6}


def finite(b=MAX):
    return Iv(-b, b)


def leaves(table, patterns=()):
    def leaf(t):
        if t.op == "app" and t.args[0] in table:
            return table[t.args[0]]
        for p, iv in patterns:
            if p(t):
                return iv
        return None
    return leaf


def index_value(t):
    """sum_k X[i, k] * b[k]: the precondition bounds the whole, not its parts"""
    if t.op != "sum":
        return False
    names = {x.args[0] for x in subterms(t, lambda x: x.op == "app")}
    return names == {"X", "b"}


def size(a):
    n = a.args[0] if a.op in ("iv", "dim") else None
    return (2, TERMS["J"]) if n == "J" else (1, TERMS.get(n, ROWS))


def count(t):
    d = t.args[0].args[1]
    c = iconst_value(d)
    if c is not None:
        return c
    b = t.args[1]
    if d.op == "dim" and d.args[0] == "N" and b.op == "spv":
        cs = b.args[0].args[0] if b.args[0].op == "and" else (b.args[0],)
        if any(c.op == "ieq" and any(x.op == "ifn" and x.args[0] == "obs" and t.args[0] in x.ivs for x in c.args) for c in cs):
            return ALTS
    k, ps = as_lin(d)
    return float(k + sum(q * size(a)[1] for a, q in ps))


def path_envs(R, conds, ix):
    envs = [{}]
    for c in conds + instances(conds, ix):
        for c in (c.args[0] if c.op == "and" else (c,)):
            if subterms(c, lambda x: x.op in ("forall", "exists")):
                continue
            c = simplify(c, R.norm.idecide)
            envs = [e2 for e in envs for e2 in R.cases(c, e, True)]
    return envs


def no_overflow(t, R, envs):
    """what is divided by never overflows nor vanishes: the quotients are those
    of the exact formula up to rounding (P01), so that they sum to one"""
    for q in subterms(t, lambda x: x.op == "f/"):
        if subterms(q.args[1], lambda x: x.op in ("sum", "fsum")):
            out = ieee.NONE
            for e in envs:
                out = ieee.union(out, R.range(q.args[1], e))
            if out.nan or out.hi > MAX or out.lo <= 0:
                return out
    return None


def check(v, what, x, lo, hi, leaf, strict=False, given=None, total=False):
    """every element of x is a number in [lo, hi] ((lo, hi] if strict), never NaN;
    total: no denominator overflows or vanishes"""
    S = v.S
    if S.frames:
        return
    t0 = time.time()
    nm = "%s: %s" % (v.label, what)
    if isinstance(x, (Arr, Sp)):
        ix = tuple(icst(0) if iconst_value(d) == 1 else fresh_iv(d, "i") for d in x.dims)
        t = x.rel(ix)
    else:
        ix, t = (), treal(x)
    dec = v.c.norm().idecide
    t = simplify(ieee.dense(t), dec)
    conds, idx = given(ix) if given else ([], [])
    free = set(x for x in ix if x.op == "iv")
    idx = idx + [x for x in subterms(t, lambda x: x.op == "ifn") if set(x.ivs) <= free and x not in idx]
    R = Ranges(leaf, count, size, list(ix) + idx, v.c.norm())
    try:
        out, bad = ieee.NONE, None
        envs = path_envs(R, v.c.conds + conds, ix)
        for e in envs:
            out = ieee.union(out, R.range(t, e))
        if total:
            bad = no_overflow(t, R, envs)
    except OutOfReach as e:
        S.unsupported(v.fn, nm, "range not established: %s" % e)
        return
    good = not out.nan and out.lo >= lo and out.hi <= hi and (not strict or out.lo > lo)
    if total:
        if bad is None:
            S.add(v.fn, nm + ": the denominator neither overflows nor vanishes", True, "", backend="ieee-intervals")
        else:
            S.unsupported(v.fn, nm + ": the denominator neither overflows nor vanishes", "range established is %r" % bad)
    if good:
        S.add(v.fn, nm, True, "range %r within [%g, %.17g]" % (out, lo, hi), t=time.time() - t0, backend="ieee-intervals")
    else:
        S.unsupported(v.fn, nm, "range established is %r, wanted [%g, %.17g]: %s" % (out, lo, hi, show(t)[:700]))


def transforms(S):
    for kind in ("mnl", "uneven", "scobit", "asym", "clog"):
        for two in (False, True):
            for a in ((None,) if kind == "mnl" else (None, True)):
                mod = World().load(MODS[kind])
                fn = getattr(mod, NAMES[kind])
                tw = TW(kind, a, None, two)

                if kind == "asym" and hasattr(mod, "_convert_eta_to_c"):
                    # by contract: natural shapes lie in [0, 1] (natural_shapes below)
                    mod._convert_eta_to_c = lambda eta, ref: sym_array("nat", (tw.J,) + eta.dims[1:])

                def run():
                    d = tw.inputs()
                    d["rows_to_alts"] = ieee.onehot((tw.N, tw.J), tw.alt, tag="rows_to_alts")
                    kw = {}
                    if kind == "asym":
                        kw["shape_ref_position"] = SInt(tw.sref)
                    if a:
                        kw["intercept_ref_pos"] = SInt(tw.aref)
                    return fn(d["V"], d["alt_IDs"], d["rows_to_alts"], d["shapes"], d["intercepts"], **kw)

                def post(c, out, v):
                    if v.returned(out):
                        check(v, "transformed utilities are finite", out[1], -MAX, MAX,
                              leaves({"V": finite(BIG), "c": finite(BIG), "nat": Iv(0, 1), "a": finite(1e290)}))
                S.verify(MODS[kind] + "." + NAMES[kind], "V%s intercepts=%s magnitudes up to 1e299 (intercepts 1e290)" % ("2d" if two else "1d", bool(a)),
                         tw.f, run, post)


def natural_shapes(S):
    mod = World().load("asym_logit")
    for two in (False, True):
        tw = TW("asym", None, None, two)

        def post(c, out, v):
            if v.returned(out) and v.shape("natural shapes", out[1], (tw.J,) + ((tw.M,) if two else ())):
                check(v, "natural shapes lie in [0, 1]", out[1], 0.0, 1.0, leaves({"c": finite(BIG)}))
        if hasattr(mod, "_convert_eta_to_c"):
            S.verify("asym_logit._convert_eta_to_c", "%s magnitudes up to 1e299" % ("2d" if two else "1d"), tw.f,
                     lambda: mod._convert_eta_to_c(tw.inputs()["shapes"], SInt(tw.sref)), post)


def derivatives(S):
    """derivatives of the transformations are numbers (never NaN); those with respect to the utilities are finite"""
    for kind in ("uneven", "scobit", "asym", "clog"):
        mod = World().load(MODS[kind])
        cls = [x for x in vars(mod).values() if isinstance(x, type) and x.__name__.endswith("Estimator") and x.__module__ == mod.__name__]
        tw = TW(kind, None)
        for which in ("calc_dh_dv", "calc_dh_d_shape"):
            def run():
                d = tw.inputs()
                d["rows_to_alts"] = ieee.onehot((tw.N, tw.J), tw.alt, tag="rows_to_alts")
                est = object.__new__(cls[0])
                est.__dict__.update(estimator(tw).__dict__)
                est.set_derivatives()
                return getattr(est, which)(d["V"], d["alt_IDs"], d["rows_to_alts"], d["shapes"])

            def post(c, out, v):
                if not v.returned(out) or out[1] is None:
                    return
                b = MAX if which == "calc_dh_dv" else INF
                check(v, "derivatives are %s" % ("finite" if b == MAX else "never NaN"), out[1], -b, b,
                      leaves({"V": finite(BIG), "c": finite(BIG), "nat": Iv(0, 1), "a": finite(1e290)}))
            S.verify(MODS[kind] + "." + which, "magnitudes up to 1e299", tw.f, run, post)


def chosen_map(dims, obs):
    """the chosen row of each observation: a 1 stored at (chosen row, its observation)"""
    N, O = dims
    ch = lambda n: ifn("chrow", [n], N)
    return Sp(dims, lambda ix: mk("spv", ieq(ix[0], ch(ix[1])), ONE), "f", "csr", tag="chosen_row_to_obs")


def chosen_row(w):
    """the chosen row of observation n belongs to n"""
    def given(ix):
        r = ifn("chrow", [ix[0]], w.N)
        return [ieq(w.obs(r), ix[0])], [r]
    return given


def some_row(w):
    """every observation has a row"""
    def given(ix):
        r = ifn("rowof", [ix[0]], w.N)
        return [ieq(w.obs(r), ix[0])], [r, w.nest(r)]
    return given


def probabilities(S):
    for two, three in ((False, False), (True, False), (False, True)):
        for want in ("long", "chosen", "both"):
            lw = LW(two_d=two, three_d=three)
            m = World().load("choice_calcs")

            def run():
                d = lw.inputs()
                d["rows_to_obs"] = ieee.onehot((lw.N, lw.O), lw.obs, tag="rows_to_obs")
                d["rows_to_alts"] = ieee.onehot((lw.N, lw.J), lw.alt, tag="rows_to_alts")
                ch = chosen_map((lw.N, lw.O), lw.obs) if want != "long" else None
                h = lambda V, *a, **k: sym_array("h", (lw.N, lw.M if two or three else icst(1)))
                return m.calc_probabilities(d["beta"], d["design"], d["alt_IDs"], d["rows_to_obs"], d["rows_to_alts"], h,
                                            chosen_row_to_obs=ch, return_long_probs=want != "chosen")

            def post(c, out, v):
                if not v.returned(out):
                    return
                r = out[1]
                long_, chosen = (r, None) if want == "long" else (None, r) if want == "chosen" else (r[1], r[0])
                lf = leaves({"h": Iv(-INF, INF)})
                if long_ is not None:
                    check(v, "long probabilities lie in (0, 1]", long_, 0.0, 1.0, lf, strict=True, total=True)
                if chosen is not None:
                    check(v, "chosen probabilities lie in [0, 1]", chosen, 0.0, 1.0, lf, given=chosen_row(lw))
            S.verify("choice_calcs.calc_probabilities", "%s %s any transformed utility" % (want, "2d" if two else "3d" if three else "1d"), lw.f, run, post)


def log_likelihood(S):
    for w in (False, True):
        lw = LW(weights=w)
        m = World().load("choice_calcs")
        m.calc_probabilities = lambda *a, **k: sym_array("P", (lw.N,))

        def run():
            d = lw.inputs()
            return m.calc_log_likelihood(d["beta"], d["design"], d["alt_IDs"], d["rows_to_obs"], d["rows_to_alts"], d["choice_vector"],
                                         lambda *a, **k: None, weights=d["weights"])

        def post(c, out, v):
            if v.returned(out):
                check(v, "log-likelihood is finite", out[1], -MAX, MAX,
                      leaves({"P": Iv(TINY, 1), "y": Iv(0, 1), "W": Iv(0, 1e290)}))
        S.verify("choice_calcs.calc_log_likelihood", "probabilities in (0, 1], weights=%s up to 1e290" % w, lw.f, run, post)


def nested(S):
    nw = NW()
    m = World().load("nested_choice_calcs")

    def post_nat(c, out, v):
        if v.returned(out):
            check(v, "natural nest coefficients lie in (0, 1]", out[1], 0.0, 1.0, leaves({"t": finite(BIG)}), strict=True)
            check(v, "natural nest coefficients are at least 1e-309", out[1], 1e-309, 1.0, leaves({"t": finite(BIG)}))
    S.verify("nested_choice_calcs.naturalize_nest_coefs", "magnitudes up to 1e299", nw.f, lambda: m.naturalize_nest_coefs(sym_array("t", (nw.Q,))), post_nat)
    lf = leaves({"l": Iv(1e-309, 1), "y": Iv(0, 1), "W": Iv(0, 1e290), "P": Iv(TINY, 1 + 1e-9)}, [(index_value, finite(BIG))])
    for ret in ("long_probs", "chosen_probs", "all_prob_dict"):
        nw = NW()

        def run():
            d = nw.inputs()
            d["rows_to_obs"] = ieee.onehot((nw.N, nw.O), nw.obs, tag="rows_to_obs")
            d["rows_to_nests"] = ieee.onehot((nw.N, nw.Q), nw.nest, tag="rows_to_nests")
            kw = {"return_type": ret}
            if ret == "chosen_probs":
                kw["chosen_row_to_obs"] = chosen_map((nw.N, nw.O), nw.obs)
            return m.calc_nested_probs(d["nest_coefs"], d["index_coefs"], d["design"], d["rows_to_obs"], d["rows_to_nests"], **kw)

        def post(c, out, v):
            if not v.returned(out):
                return
            r = out[1]
            if ret == "long_probs":
                check(v, "long probabilities lie in (0, 1] up to rounding", r, 0.0, 1 + 1e-9, lf, strict=True)
            elif ret == "chosen_probs":
                check(v, "chosen probabilities lie in (0, 1] up to rounding", r, 0.0, 1 + 1e-9, lf, strict=True, given=chosen_row(nw))
            else:
                check(v, "long probabilities lie in (0, 1] up to rounding", r["long_probs"], 0.0, 1 + 1e-9, lf, strict=True)
                check(v, "probabilities within nests lie in (0, 1]", r["prob_given_nest"], 0.0, 1.0, lf, strict=True)
                check(v, "nest probabilities lie in (0, 1]", r["nest_choice_probs"], 0.0, 1.0, lf, strict=True, given=some_row(nw))
                check(v, "nest sums are finite", r["ind_sums_per_nest"], 0.0, MAX, lf)
        S.verify("nested_choice_calcs.calc_nested_probs", "%s index values up to 1e299, nest coefficients in [1e-309, 1]" % ret, nw.f, run, post)
    for w in (False, True):
        nw = NW(weights=w)
        m2 = World().load("nested_choice_calcs")
        m2.calc_nested_probs = lambda *a, **k: sym_array("P", (nw.N,))

        def run():
            d = nw.inputs()
            return m2.calc_nested_log_likelihood(d["nest_coefs"], d["index_coefs"], d["design"], d["rows_to_obs"], d["rows_to_nests"], d["choice"],
                                                 weights=d["weights"])

        def post_ll(c, out, v):
            if v.returned(out):
                check(v, "log-likelihood is finite", out[1], -MAX, MAX, lf)
        S.verify("nested_choice_calcs.calc_nested_log_likelihood", "probabilities in (0, 1], weights=%s up to 1e290" % w, nw.f, run, post_ll)


def mixed(S):
    for ret in (None, "all"):
        mw = MW()
        m = World().load("mixed_logit_calcs")
        lf = leaves({"P": Iv(TINY, 1), "y": Iv(0, 1)})

        def run():
            return m.calc_choice_sequence_probs(sym_array("P", (mw.N, mw.R)), sym_array("y", (mw.N,)),
                                                ieee.onehot((mw.N, mw.B), mw.mix, tag="rows_to_mixers"), return_type=ret)

        def post(c, out, v):
            if not v.returned(out):
                return
            r = out[1] if ret is None else out[1][0]
            check(v, "simulated probabilities lie in (0, 1] up to rounding", r, 0.0, 1 + 1e-7, lf, strict=True)
            if ret is not None:
                check(v, "probabilities per draw lie in (0, 1]", out[1][1], 0.0, 1.0, lf, strict=True)
        S.verify("mixed_logit_calcs.calc_choice_sequence_probs", "return_type=%s, probabilities in (0, 1]" % ret, mw.f, run, post)
    for w in (False, True):
        mw = MW(weights=w)
        m2 = World().load("mixed_logit_calcs")
        m2.general_calc_probabilities = lambda *a, **k: sym_array("P", (mw.N, mw.R))
        m2.calc_choice_sequence_probs = lambda *a, **k: sym_array("Q", (mw.B,))

        def run():
            d = mw.inputs()
            d["rows_to_mixers"] = ieee.onehot((mw.N, mw.B), mw.mix, tag="rows_to_mixers")
            return m2.calc_mixed_log_likelihood(*mw.args(), weights=d["weights"])

        def post_ll(c, out, v):
            if v.returned(out):
                check(v, "log-likelihood is finite", out[1], -MAX, MAX, leaves({"Q": Iv(TINY, 1 + 1e-7), "W": Iv(0, 1e290)}))
        S.verify("mixed_logit_calcs.calc_mixed_log_likelihood", "simulated probabilities in (0, 1], weights=%s up to 1e290" % w, mw.f, run, post_ll)


def P29(S):
    with recording():
        natural_shapes(S)
        transforms(S)
        derivatives(S)
        probabilities(S)
        log_likelihood(S)
        nested(S)
        mixed(S)
