"""Contracts for bootstrap_sampler.py: resampling of whole observations (P23)."""
from collections import OrderedDict
from .vc import *
from .fake import DISTINCT, distinct
from .pdshim import DF, DSel, DCat, idcol
from .c_data import DW, rk
from .c_est import replace
from .c_valid import iff, prove, ERR
from .shim import VDict

BS = "bootstrap_sampler."


def load():
    return World().load("bootstrap_sampler")


def chose(w_, j):
    """row i is the chosen row of its observation and of alternative j"""
    return lambda i: and_(ieq(rk("alt", i, w_.J), icst(j)), req(app("y", i), ONE))


def stratum_of(a):
    """(mask, ...) of a vector of distinct ids, or None"""
    if not isinstance(a, Arr) or len(a.dims) != 1:
        return None
    k = fresh_iv(a.dims[0], "k")
    t = a.rel((k,))
    if t.op == "app" and t.args[0] == "inj:obs" and t.args[1][0].op == "ifn" and t.args[1][0].args[0].startswith("pick:") and t.args[1][0].args[1][0] is k:
        return DISTINCT[t.args[1][0].args[0][5:]]
    return None


def data(w_):
    N = w_.N
    return idcol("obs", N, w_.O), idcol("alt", N, w_.J), sym_array("y", (N,), "i")


def relate(S, J):
    """alternative id -> sorted distinct ids of the observations choosing it"""
    w_ = DW(J)

    def run():
        run.a = data(w_)
        return load().relate_obs_ids_to_chosen_alts(*run.a)

    def post(c, out, v):
        if not v.returned(out):
            return
        d = out[1]
        if not v.ok("one entry per alternative", isinstance(d, dict) and len(d) == J):
            return
        for j in range(J):
            key = SReal(app("inj:alt", icst(j)))
            try:
                a = d[key]
            except KeyError:
                v.ok("alternative %d has an entry" % j, False)
                continue
            q = stratum_of(a)
            if v.ok("alternative %d: distinct observation ids in increasing order" % j, q is not None and q[3] is w_.N, "got %r" % (a,)):
                i = fresh_iv(w_.N, "i")
                m, s = q[2](i), chose(w_, j)(i)
                prove(v, "alternative %d: ids of exactly the rows of this alternative that are chosen" % j, and_(or_(not_(m), s), or_(not_(s), m)))
        v.unchanged("inputs not written", [x.buf for x in run.a])
    S.verify(BS + "relate_obs_ids_to_chosen_alts", "%d alternatives, any rows" % J, w_.f, run, post)


def strata(w_, J):
    """contract of relate_obs_ids_to_chosen_alts"""
    d = VDict()
    for j in range(J):
        d[SReal(app("inj:alt", icst(j)))] = distinct("obs", w_.O, chose(w_, j), w_.N)
    return d


def counts(S, J):
    w_ = DW(J)

    def run():
        run.d = strata(w_, J)
        return load().get_num_obs_choosing_each_alternative(run.d)

    def post(c, out, v):
        if not v.returned(out):
            return
        r = out[1]
        if not v.ok("a pair (counts, total)", isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], dict)):
            return
        tot = icst(0)
        keys = list(run.d)
        v.ok("counts in the order of the alternatives", [k.t for k in r[0]] == [k.t for k in keys], "keys %s" % list(r[0]))
        for j, k in enumerate(keys):
            n = run.d[k].dims[0]
            tot = iadd(tot, n)
            v.cond("count of alternative %d is the number of its observations" % j, ieq(tint(r[0][k]), n))
        v.cond("total is the sum of the counts", ieq(tint(r[1]), tot))
    S.verify(BS + "get_num_obs_choosing_each_alternative", "%d alternatives" % J, w_.f, run, post)


def samples(S, J, seed):
    w_ = DW(J)
    B = dim("samples")

    def run():
        m = load()
        run.a = data(w_)
        run.st = strata(w_, J)

        def rel(obs, alt, choice):
            c = ctx()
            good = all(isinstance(x, Arr) and x.buf is y.buf for x, y in zip((obs, alt, choice), run.a))
            c.calls.append(("relate", good))
            return run.st

        def cnt(d):
            c = ctx()
            c.calls.append(("count", d is run.st))
            r = OrderedDict((k, wint(x.dims[0])) for k, x in run.st.items())
            return r, wint(iadd(*[x.dims[0] for x in run.st.values()]))
        replace([m], m.relate_obs_ids_to_chosen_alts, rel)
        replace([m], m.get_num_obs_choosing_each_alternative, cnt)
        run.seed = {"none": None, "int": SInt(ifn("seed", [], dim("seeds"))), "float": SReal(app("seed")), "text": "7"}[seed]
        return m.create_cross_sectional_bootstrap_samples(*run.a + (wint(B),), **({} if run.seed is None else {"seed": run.seed}))

    def post(c, out, v):
        if seed in ("float", "text"):
            v.ok("a seed that is not an integer is refused", out[0] == "exc" and isinstance(out[1], ERR), "outcome %r" % (out,))
            v.ok("nothing drawn before the refusal", not any(e[0] == "choice" for e in c.rng))
            return
        if not v.returned(out):
            return
        v.ok("strata taken from the caller's ids, alternatives and choices", all(g for _, g in c.calls), str(c.calls))
        res = out[1]
        parts = [a for a in run.st.values()]
        tot = iadd(*[a.dims[0] for a in parts])
        v.unchanged("inputs not written", [x.buf for x in run.a] + [a.buf for a in parts])
        if not v.shape("samples", res, (B, tot)):
            return
        draws = {e[3]: e for e in c.rng if e[0] == "choice"}
        seeds = [e for e in c.rng if e[0] == "seed"]
        if seed == "int":
            first = [k for k, e in enumerate(c.rng) if e[0] == "choice"][:1]
            s0 = [k for k, e in enumerate(c.rng) if e[0] == "seed"]
            v.ok("seeded once, with the caller's seed, before the first draw",
                 len(seeds) == 1 and isinstance(seeds[0][1], SInt) and seeds[0][1].t is run.seed.t and bool(first) and s0[0] < first[0], str(c.rng))
            v.ok("every draw uses the seeded source", all(e[4] is seeds[0][2] for e in draws.values()) if seeds else False)
        else:
            v.ok("no seed set when none is given", all(e[1] is None for e in seeds), str(seeds))
        off = icst(0)
        used = []
        f = res.rsnap()
        for j, a in enumerate(parts):
            s, q = fresh_iv(B, "s"), fresh_iv(a.dims[0], "q")
            t = c.norm().simp_ites(f((s, iadd(off, q)))) if hasattr(c.norm(), "simp_ites") else f((s, iadd(off, q)))
            g = [x for x in subterms(t, lambda x: x.op == "ifn" and x.args[0].startswith("draw:"))]
            ok = v.ok("block %d: one draw per entry" % j, len(g) >= 1, show(t)[:400])
            hit = None
            for x in g:
                e = draws[x.args[0]]
                want = a.rel((x,)) if x.args[2] is a.dims[0] else None
                if want is not None and Prover(c.facts()).prove_eq(t, want)[0]:
                    hit = x, e
                    break
            if not v.ok("block %d: entries are ids of observations choosing alternative %d" % (j, j), hit is not None, show(t)[:600]):
                off = iadd(off, a.dims[0])
                continue
            x, e = hit
            v.ok("block %d: drawn with replacement" % j, e[2])
            v.ok("block %d: drawn from all observations choosing the alternative" % j, stratum_of(e[1]) is not None and stratum_of(e[1]) == stratum_of(a))
            v.ok("block %d: every entry is its own draw" % j, set(x.args[1]) == {s, q} and x.args[0] not in used, show(x))
            used.append(x.args[0])
            off = iadd(off, a.dims[0])
    S.verify(BS + "create_cross_sectional_bootstrap_samples", "%d alternatives, seed %s" % (J, seed), w_.f, run, post)


def boot_ids(S):
    B, M = dim("samples"), dim("M")
    f = Facts()

    def run():
        run.a = sym_array("ids", (B, M))
        return load().create_bootstrap_id_array(run.a)

    def post(c, out, v):
        if v.returned(out):
            v.array("k-th column holds bootstrap id k", out[1], (B, M), lambda ix: add(ONE, i2r(ix[1])))
            v.unchanged("input not written", [run.a.buf])
    S.verify(BS + "create_bootstrap_id_array", "any shape", f, run, post)


def rows_of(w_, df, k):
    """the rows of the observation of rank k"""
    return DSel(df, lambda ix: ieq(rk("obs", ix[0], w_.O), k))


def same_rows(v, what, sel, w_, df, k, add=None):
    """sel is exactly the rows of the observation of rank k, in order, with all columns"""
    if not v.ok(what + ": rows of the given data", isinstance(sel, DSel) and (sel.df is df or getattr(sel.df, "origin", None) is df), "got %r" % (sel,)):
        return
    i = fresh_iv(w_.N, "i")
    prove(v, what + ": exactly the rows of that observation", iff_(sel.mask((i,)), ieq(rk("obs", i, w_.O), k)))
    v.ok(what + ": all columns and no others", list(sel.fs) == list(run_cols(w_)) and sorted(sel.add) == sorted(add or {}), "columns %s + %s" % (list(sel.fs), list(sel.add)))
    for col, a in run_cols(w_).items():
        if col in sel.fs:
            v.real(what + ": column %s copied" % col, sel.fs[col]((i,)), a((i,)))
    for col, t in (add or {}).items():
        if col in sel.add:
            v.real(what + ": %s" % col, sel.add[col], t)


def iff_(a, b):
    return and_(or_(not_(a), b), or_(not_(b), a))


def run_cols(w_):
    return w_.orig


def frame(w_):
    df = w_.frame(["x"])
    w_.orig = OrderedDict((k, a.rsnap()) for k, a in df.cols.items())
    return df


def groupby(S):
    w_ = DW()

    def run():
        run.df = frame(w_)
        return load().create_deepcopied_groupby_dict(run.df, "obs")

    def post(c, out, v):
        if not v.returned(out):
            return
        d = out[1]
        if not v.ok("a dictionary with one entry per observation id", isinstance(d, VDict) and d.sym is not None and d.sym[0] is w_.O, "got %r" % (d,)):
            return
        k = fresh_iv(w_.O, "k")
        same_rows(v, "entry of the k-th id", d[SReal(app("inj:obs", k))], w_, run.df, k)
        v.unchanged("data not written", w_.b0)
        v.ok("frame: no column added", not w_.df.added)
    S.verify(BS + "create_deepcopied_groupby_dict", "any rows", w_.f, run, post)


def boot_frame(S, boot_col):
    w_ = DW()
    M = dim("M")

    def run():
        m = load()
        run.df = frame(w_)
        d = VDict()
        k = fresh_iv(w_.O, "g")
        d.fill(w_.O, k, SReal(app("inj:obs", k)), rows_of(w_, run.df, k))
        run.ids = Arr.fresh((M,), lambda ix: app("inj:obs", ifn("drawn", [ix[0]], w_.O)), "f", "ids")
        kw = {} if boot_col is None else {"boot_id_col": boot_col}
        return m.create_bootstrap_dataframe(run.df, "obs", run.ids, d, **kw)

    def post(c, out, v):
        if not v.returned(out):
            return
        r = out[1]
        if not v.ok("one block of rows per drawn id, stacked in the order of the draws, rows renumbered", isinstance(r, DCat) and r.n is M and r.ignore_index, "got %r" % (r,)):
            return
        k = fresh_iv(M, "k")
        same_rows(v, "block of the k-th draw", r.sel.at({r.i: k}), w_, run.df, ifn("drawn", [k], w_.O), {boot_col or "bootstrap_id": add(ONE, i2r(k))})
        v.unchanged("data and drawn ids not written", w_.b0 + [run.ids.buf])
        v.ok("frame: no column added", not w_.df.added)
    S.verify(BS + "create_bootstrap_dataframe", "any draws, label column %s" % boot_col, w_.f, run, post)


def boot_frame_errors(S, obs_col, boot_col, ok):
    """columns missing or already present"""
    w_ = DW()
    M = dim("M")

    def run():
        m = load()
        df = frame(w_)
        d = VDict()
        k = fresh_iv(w_.O, "g")
        d.fill(w_.O, k, SReal(app("inj:obs", k)), rows_of(w_, df, k))
        ids = Arr.fresh((M,), lambda ix: app("inj:obs", ifn("drawn", [ix[0]], w_.O)), "f", "ids")
        return m.create_bootstrap_dataframe(df, obs_col, ids, d, boot_id_col=boot_col)
    iff(S, BS + "create_bootstrap_dataframe", "columns %s and %s" % (obs_col, boot_col), w_.f, run, ok)


def ids_known(S):
    w_ = DW()
    M = dim("M")

    def run():
        run.a, run.b = sym_array("want", (M,), "f"), idcol("obs", w_.N, w_.O)
        return load().ensure_resampled_obs_ids_in_df(run.a, run.b)

    def valid():
        k, i = fresh_iv(M, "k"), fresh_iv(w_.N, "i")
        return forall(k, exists(i, req(app("want", k), app("inj:obs", rk("obs", i, w_.O)))))
    iff(S, BS + "ensure_resampled_obs_ids_in_df", "arbitrary ids", w_.f, run, valid)


def P23(S):
    for J in (1, 2, 3, 4):
        relate(S, J)
        counts(S, J)
        for seed in ("none", "int", "float", "text"):
            samples(S, J, seed)
    boot_ids(S)
    groupby(S)
    boot_frame(S, None)
    boot_frame(S, "bid")
    boot_frame_errors(S, "obs", "bid", True)
    boot_frame_errors(S, "missing", "bid", False)
    boot_frame_errors(S, "obs", "alt", False)
    ids_known(S)
