"""Contracts for choice_tools.py: mappings (P13), design matrix (P14)."""
from collections import OrderedDict
from .vc import *
from .pdshim import DF, idcol, SNames, SName, LAB, same_parts
from .c_logit import call_obs

CT = "choice_tools."
# names in an order that is neither sorted nor reversed
LABELS = ["rail", "bus", "walk", "air", "car"]
rk = lambda x, i, u: ifn("rk:" + x, [i], u)
perm = lambda x, k, u: ifn("perm:" + x, [k], u)


class DW(object):
    """long data: N rows, O observations, J alternatives, B decision makers"""

    def __init__(self, J=None):
        self.N, self.O, self.B = dim("N"), dim("O"), dim("B")
        self.J = dim("J") if J is None else icst(J)
        self.f = Facts()
        self.f.binary.add("y")

    def frame(self, extra=()):
        N = self.N
        cols = [("obs", idcol("obs", N, self.O)), ("alt", idcol("alt", N, self.J)), ("mix", idcol("mix", N, self.B)),
                ("choice", sym_array("y", (N,), "i"))]
        cols += [(c, sym_array("x_" + c, (N,))) for c in extra]
        self.df = DF(N, OrderedDict(cols))
        self.b0 = self.df.bufs()
        return self.df

    # entry (i, j) of the three kinds of mapping
    def obs_at(self, i, o):
        return ieq(rk("obs", i, self.O), perm("obs", o, self.O))

    def alt_at(self, i, j):
        return ieq(rk("alt", i, self.J), j)

    def mix_at(self, i, m):
        return ieq(rk("mix", i, self.B), perm("mix", m, self.B))


def mapping(v, what, m, dims, cond, dense):
    kind = Arr if dense else Sp
    if v.ok("%s is %s" % (what, "dense" if dense else "sparse"), isinstance(m, kind), "got %r" % type(m)):
        v.array(what, m, dims, lambda ix: iv01(cond(*ix)))


def one_per_row(v, what, m, dims):
    f = m.rsnap()
    i = fresh_iv(dims[0], "i")
    v.real("%s: exactly one 1 in each row" % what, sum_over(dims[1], lambda k: f((i, k))), ONE)


def unique_order(S):
    """get_original_order_unique_ids: distinct ids in order of first appearance"""
    w_ = DW()

    def run():
        m = World().load("choice_tools")
        run.a = idcol("obs", w_.N, w_.O)
        return m.get_original_order_unique_ids(run.a)

    def post(c, out, v):
        if v.returned(out):
            v.array("k-th distinct id in order of first appearance", out[1], (w_.O,), lambda ix: app("inj:obs", perm("obs", ix[0], w_.O)))
            v.unchanged("ids not written", [run.a.buf])
    S.verify(CT + "get_original_order_unique_ids", "", w_.f, run, post)


def sparse_map(S):
    for fn in ("create_sparse_mapping", "create_row_to_some_id_col_mapping"):
        w_ = DW()

        def run():
            m = World().load("choice_tools")
            run.a = idcol("obs", w_.N, w_.O)
            return getattr(m, fn)(run.a)

        def post(c, out, v):
            if v.returned(out):
                d = (w_.N, w_.O)
                mapping(v, "mapping", out[1], d, w_.obs_at, fn != "create_sparse_mapping")
                if isinstance(out[1], (Arr, Sp)):
                    one_per_row(v, "mapping", out[1], d)
                v.unchanged("ids not written", [run.a.buf])
        S.verify(CT + fn, "columns in order of first appearance", w_.f, run, post)
    # explicit columns: any distinct ids, any row ids
    N, M = dim("N"), dim("M")
    f = Facts()

    def run2():
        m = World().load("choice_tools")
        run2.a = sym_array("x", (N,), "i")
        run2.u = Arr.fresh((M,), lambda ix: app("inj:u", ix[0]), "i", "unique_ids")
        return m.create_sparse_mapping(run2.a, unique_ids=run2.u)

    def post2(c, out, v):
        if v.returned(out):
            mapping(v, "mapping", out[1], (N, M), lambda i, j: req(app("x", i), app("inj:u", j)), False)
            v.unchanged("inputs not written", [run2.a.buf, run2.u.buf])
    S.verify(CT + "create_sparse_mapping", "explicit distinct ids, rows with other ids map to no column", f, run2, post2)


def long_maps(S, choice, mix, dense):
    w_ = DW()

    def run():
        m = World().load("choice_tools")
        return m.create_long_form_mappings(w_.frame(), "obs", "alt", choice_col="choice" if choice else None, mix_id_col="mix" if mix else None, dense=dense)

    def post(c, out, v):
        if not v.returned(out):
            return
        d = out[1]
        keys = ["rows_to_obs", "rows_to_alts", "chosen_row_to_obs", "rows_to_nests", "rows_to_mixers"]
        if not v.ok("all five mappings", isinstance(d, dict) and sorted(d) == sorted(keys)):
            return
        N = w_.N
        mapping(v, "rows to observations", d["rows_to_obs"], (N, w_.O), w_.obs_at, dense)
        mapping(v, "rows to alternatives (sorted)", d["rows_to_alts"], (N, w_.J), w_.alt_at, dense)
        one_per_row(v, "rows to observations", d["rows_to_obs"], (N, w_.O))
        one_per_row(v, "rows to alternatives", d["rows_to_alts"], (N, w_.J))
        v.ok("no nest mapping", d["rows_to_nests"] is None)
        if mix:
            mapping(v, "rows to decision makers", d["rows_to_mixers"], (N, w_.B), w_.mix_at, dense)
            one_per_row(v, "rows to decision makers", d["rows_to_mixers"], (N, w_.B))
        else:
            v.ok("no decision-maker mapping", d["rows_to_mixers"] is None)
        if choice:
            x = d["chosen_row_to_obs"]
            if v.ok("chosen rows is %s" % ("dense" if dense else "sparse"), isinstance(x, Arr if dense else Sp)):
                v.array("chosen rows keep their entry, others none", x, (N, w_.O), lambda ix: mul(app("y", ix[0]), iv01(w_.obs_at(*ix))))
        else:
            v.ok("no chosen-row mapping", d["chosen_row_to_obs"] is None)
        v.unchanged("data not written", w_.b0)
        v.ok("frame: no column added", not w_.df.added)
    S.verify(CT + "create_long_form_mappings", "choice=%s mixing=%s dense=%s" % (choice, mix, dense), w_.f, run, post)


NESTS = [[[0]], [[1, 0]], [[1], [0]], [[2, 0], [1]], [[1], [0, 2]], [[2], [0], [1]], [[3, 1], [0], [2]], [[0, 3], [2, 1]]]


def nest_maps(S, spine):
    J = sum(len(x) for x in spine)
    w_ = DW(J)

    def run():
        m = World().load("choice_tools")
        spec = OrderedDict((LABELS[k], [SReal(app("inj:alt", icst(a))) for a in alts]) for k, alts in enumerate(spine))
        run.keep = {k: list(x) for k, x in spec.items()}
        run.spec = spec
        return m.create_long_form_mappings(w_.frame(), "obs", "alt", nest_spec=spec)

    def post(c, out, v):
        if not v.returned(out):
            return
        x = out[1]["rows_to_nests"]
        Q = len(spine)
        if v.ok("nest mapping is sparse", isinstance(x, Sp)):
            v.array("row belongs to the nest that lists its alternative", x, (w_.N, icst(Q)),
                    lambda ix: iv01(or_(*[and_(ieq(ix[1], icst(q)), ieq(rk("alt", ix[0], w_.J), icst(a))) for q in range(Q) for a in spine[q]])))
            one_per_row(v, "rows to nests", x, (w_.N, icst(Q)))
        v.ok("nest specification unchanged", list(run.spec) == list(run.keep) and all(len(run.spec[k]) == len(run.keep[k]) and all(a is b for a, b in zip(run.spec[k], run.keep[k])) for k in run.keep))
        v.unchanged("data not written", w_.b0)
    S.verify(CT + "create_long_form_mappings", "nests=%s (alternatives by rank)" % spine, w_.f, run, post)


def model_maps(S, dense):
    """MNDC_Model.get_mappings_for_fit: the mappings of the model's own data
    and columns, for every model class"""
    import inspect
    from .c_fit import bare_model, MODELS, MODULE, BASE
    from .c_est import replace
    from .c_type import Mark
    for kind in MODELS:
        def run():
            w = World()
            mod, base, ct = w.load(MODULE[kind]), w.load(BASE), w.load("choice_tools")
            real = ct.create_long_form_mappings
            sig = inspect.signature(real)
            run.got, run.res = [], Mark("mappings")

            def maps(*a, **k):
                g = sig.bind(*a, **k)
                g.apply_defaults()
                run.got.append(dict(g.arguments))
                return run.res
            replace(list(w.mods.values()), real, maps)
            run.o = {k: Mark(k) for k in ("data", "obs_id_col", "alt_id_col", "choice_col", "nest_spec", "mixing_id_col")}
            m = bare_model(base, getattr(mod, MODELS[kind]), **run.o)
            return m.get_mappings_for_fit() if dense is None else m.get_mappings_for_fit(dense=dense)

        def post(c, out, v):
            if not v.returned(out):
                return
            if not v.ok("mappings built once", len(run.got) == 1):
                return
            g = run.got[0]
            for a, b in (("long_form", "data"), ("obs_id_col", "obs_id_col"), ("alt_id_col", "alt_id_col"), ("choice_col", "choice_col"),
                         ("nest_spec", "nest_spec"), ("mix_id_col", "mixing_id_col")):
                v.ok("built from the model's own %s" % b, g[a] is run.o[b])
            v.ok("sparse unless asked for otherwise", g["dense"] is bool(dense))
            v.ok("returns the mappings", out[1] is run.res)
        S.verify(BASE + ".MNDC_Model.get_mappings_for_fit", "class=%s dense=%s" % (MODELS[kind], dense), Facts(), run, post)


def P13(S):
    for dense in (None, False, True):
        model_maps(S, dense)
    unique_order(S)
    sparse_map(S)
    for c, m, d in ((True, True, False), (False, False, False), (True, False, True), (False, True, True)):
        long_maps(S, c, m, d)
    for sp in NESTS:
        nest_maps(S, sp)


# ---------------------------------------------------------------- P14
SPECS = [  # (variable, kind, groups): groups of alternatives, None for a single one
    [("a", "all_same")], [("a", "all_diff")], [("a", [1])], [("a", [2])], [("a", [1, 2])],
    [("b", "all_diff"), ("a", "all_same")], [("a", [2, 1]), ("b", "all_same"), ("c", "all_diff")],
    [("c", [1, 1, 3]), ("a", "all_diff"), ("b", "all_diff")], [("a", "all_same"), ("b", [1, 1])]]


def design(S, spine, named):
    w_ = DW()
    alt = lambda k: app("inj:alt", ifn("g%d" % k, [], w_.J))

    def run():
        m = World().load("choice_tools")
        w_.frame(["a", "b", "c"])
        spec, nm, k = OrderedDict(), OrderedDict(), 0
        run.cols, run.names = [], []      # expected columns: (length, fn of (i, q)), expected names
        J = w_.J
        for var, kind in spine:
            x = lambda i, var=var: app("x_" + var, i)
            if kind == "all_same":
                spec[var] = kind
                nm[var] = "nm_" + var
                run.cols.append((icst(1), lambda i, q, x=x: x(i)))
                run.names.append(SNames.of(["nm_" + var if named else var]))
            elif kind == "all_diff":
                spec[var] = kind
                nm[var] = SNames(J, lambda q, var=var: ifn("name:" + var, [q], LAB))
                run.cols.append((J, lambda i, q, x=x: mul(iv01(w_.alt_at(i, q)), x(i))))
                run.names.append(nm[var] if named else SNames(J, lambda q, var=var: ifn("label:" + var + "_{}", [app("inj:alt", q)], LAB)))
            else:
                spec[var], nm[var] = [], []
                for n in kind:
                    g = [alt(k + q) for q in range(n)]
                    k += n
                    spec[var].append(SReal(g[0]) if n == 1 else [SReal(t) for t in g])
                    nm[var].append("nm_%s_%d" % (var, k))
                    run.cols.append((icst(1), lambda i, q, x=x, g=g: mul(iv01(or_(*[req(app("inj:alt", rk("alt", i, J)), t) for t in g])), x(i))))
                    d = "label:%s_{}" % var if n == 1 else "label:%s_[%s]" % (var, ", ".join(["{}"] * n))
                    run.names.append(SNames.of([nm[var][-1]]) if named else SNames(icst(1), lambda q, d=d, g=g: ifn(d, g, LAB)))
        run.spec = spec
        return m.create_design_matrix(w_.df, spec, "alt", names=nm if named else None)

    def post(c, out, v):
        if not v.returned(out):
            return
        call_obs(v)
        if not v.ok("returns matrix and names", isinstance(out[1], tuple) and len(out[1]) == 2):
            return
        X, names = out[1]
        off = [icst(0)]
        for n, _ in run.cols:
            off.append(iadd(off[-1], n))

        def at(ix):
            r = None
            for q in range(len(run.cols) - 1, -1, -1):
                t = run.cols[q][1](ix[0], isub(ix[1], off[q]))
                if r is None:
                    r = t
                    continue
                cnd = ctx().norm().idecide(ilt(ix[1], off[q + 1]))
                r = t if cnd.op == "true" else r if cnd.op == "false" else ite(cnd, t, r)
            return r
        v.array("design matrix", X, (w_.N, off[-1]), at)
        want = run.names[0]
        for x in run.names[1:]:
            want = want + x
        v.ok("names in column order", isinstance(names, list) and same_names(names, want))
        v.unchanged("data not written", w_.b0)
        v.ok("frame: no column added", not w_.df.added)
    S.verify(CT + "create_design_matrix", "specification %s names=%s" % (spine, named), w_.f, run, post)


def parts1(x):
    """parts with concrete lists split into single labels"""
    out = []
    for n, f in SNames.of(x).parts():
        v = iconst_value(n)
        if v is not None:
            out += [(icst(1), lambda q, k=k, f=f: f(icst(k))) for k in range(v)]
        else:
            out.append((n, f))
    return out


def same_names(a, b):
    pa, pb = parts1(a), parts1(b)
    if len(pa) != len(pb):
        return False
    for (n, f), (m, g) in zip(pa, pb):
        if n is not m:
            return False
        i = fresh_iv(n, "n")
        if f(i) is not g(i):
            return False
    return True


def P14(S):
    for sp in SPECS:
        for named in (False, True):
            design(S, sp, named)
