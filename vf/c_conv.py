"""Contracts for choice_tools.py: conversion between long and wide data (P15, P16)."""
import inspect
from collections import OrderedDict
from .vc import *
from .pdshim import DF, WDF, SMap, LAB, DFlat, Joined, PFrame, SNames, idcol, label, same_parts
from .shim import SIntVal, VDict, token
from .c_data import rk, perm
from .c_est import replace, flag
from .c_valid import ERR

CT = "choice_tools."
PAIR = "obs|alt"
VALIDATORS = ("ensure_all_columns_are_used", "ensure_columns_are_in_dataframe", "check_dataframe_for_duplicate_records",
              "ensure_num_chosen_alts_equals_num_obs", "check_type_and_values_of_alt_name_dict", "ensure_unique_obs_ids_in_wide_data",
              "check_wide_data_for_blank_choices", "ensure_all_wide_alt_ids_are_chosen", "ensure_chosen_alternatives_are_in_user_alt_ids",
              "ensure_each_wide_obs_chose_an_available_alternative")


class Names(object):
    """a mapping from alternative ids to names"""

    def __getitem__(self, x):
        return token(rfn("altname", [treal(x)]))


class LW(object):
    """long data: rows with distinct (observation, alternative) pairs, of
    which exactly one per observation is chosen.  avail(o, j): observation o
    has a row for alternative j; row(o, j): that row; chosen(o): the chosen
    alternative"""

    def __init__(self):
        self.N, self.O, self.J = dim("N"), dim("O"), dim("J")
        self.f = Facts()
        self.f.pairs.add(PAIR)

    def chosen(self, o):
        return ifn("chosen:" + PAIR, [o], self.J)

    def avail(self, o, j):
        return bapp("avail:" + PAIR, perm("obs", o, self.O), j)

    def row(self, o, j):
        return ifn("row:" + PAIR, [perm("obs", o, self.O), j], self.N)

    def frame(self, ind, alt):
        N, O, J = self.N, self.O, self.J
        cols = [("obs", idcol("obs", N, O)), ("alt", idcol("alt", N, J)),
                ("choice", Arr.fresh((N,), lambda ix: iv01(ieq(rk("alt", ix[0], J), self.chosen(rk("obs", ix[0], O)))), "i"))]
        cols += [(c, Arr.fresh((N,), lambda ix, c=c: app("z_" + c, rk("obs", ix[0], O)))) for c in ind]
        cols += [(c, sym_array("x_" + c, (N,))) for c in alt]
        self.df = DF(N, OrderedDict(cols))
        self.b0 = self.df.bufs()
        return self.df

    def maps(self, m, names=("obs", "alt")):
        """create_long_form_mappings by contract (P13)"""
        def stub(long_form, obs_id_col, alt_id_col, choice_col=None, nest_spec=None, mix_id_col=None, dense=False):
            flag("mappings are those of the given data", long_form is self.df and (obs_id_col, alt_id_col) == names)
            if choice_col is not None or nest_spec is not None or mix_id_col is not None:
                raise Unsupported("other mappings in a conversion")
            N, O, J = self.N, self.O, self.J
            kind = (lambda d, g: Arr.fresh(d, g, "i")) if dense else (lambda d, g: Sp(d, g, "i"))
            return {"rows_to_obs": kind((N, O), lambda ix: iv01(ieq(rk("obs", ix[0], O), perm("obs", ix[1], O)))),
                    "rows_to_alts": kind((N, J), lambda ix: iv01(ieq(rk("alt", ix[0], J), ix[1]))),
                    "chosen_row_to_obs": None, "rows_to_nests": None, "rows_to_mixers": None}
        replace([m], m.create_long_form_mappings, stub)


def skip_checks(m):
    for n in VALIDATORS:
        if hasattr(m, n):
            replace([m], getattr(m, n), lambda *a, **k: None)


def block(v, what, final, names, dims, el):
    """the columns with the given (symbolic) names"""
    got = [p for p in final.parts if isinstance(p, PFrame) and same_parts(p.columns.names, names)]
    if v.ok(what + ": columns present once", len(got) == 1):
        v.array(what, got[0].values, dims, el)


def to_wide(S, ind, alt, sub, named):
    w_ = LW()
    N, O, J = w_.N, w_.O, w_.J
    ids = [SIntVal(app("sid%d" % k)) for k in range(2)]

    def run():
        m = World().load("choice_tools")
        skip_checks(m)
        df = w_.frame(ind, alt + sub)
        w_.maps(m)
        k = {"alt_name_dict": Names()} if named else {}
        run.args = (list(ind), list(alt), OrderedDict((s, list(ids)) for s in sub))
        return m.convert_long_to_wide(df, *run.args, "obs", "alt", "choice", null_value=SReal(app("null")), **k)

    def post(c, out, v):
        if not v.returned(out):
            return
        r = out[1]
        if not v.ok("a data frame", isinstance(r, Joined), "got %r" % type(r)):
            return
        single = [("obs", lambda o: app("inj:obs", perm("obs", o, O))), ("choice", lambda o: app("inj:alt", w_.chosen(perm("obs", o, O))))]
        single += [(x, lambda o, x=x: app("z_" + x, perm("obs", o, O))) for x in ind]
        total = icst(0)
        for name, f in single:
            got = r.columns_named(name)
            total = iadd(total, 1)
            if v.ok("column %s present once" % name, len(got) == 1):
                v.array("one row per observation: %s" % name, got[0], (O,), lambda ix: f(ix[0]))

        def names(p):
            e = lambda j: rfn("altname", [app("inj:alt", j)]) if named else app("inj:alt", j)
            return SNames(J, lambda j: label("%s_%s" % (p, token(e(j)))))
        block(v, "availability", r, names("availability"), (O, J), lambda ix: iv01(w_.avail(*ix)))
        total = iadd(total, J)
        for x in alt:
            block(v, x, r, names(x), (O, J), lambda ix: ite(w_.avail(*ix), app("x_" + x, w_.row(*ix)), app("null")))
            total = iadd(total, J)
        if sub:
            full = names(sub[0])
            mask = Arr.fresh((J,), lambda ix: or_(*[req(app("inj:alt", ix[0]), x.t) for x in ids]), "b")
            from .shim import selection
            d, sel, _ = selection(mask)
            for x in sub:
                full = names(x)
                block(v, x, r, SNames(d, lambda k: full.fn(sel(k))), (O, d),
                      lambda ix: ite(w_.avail(ix[0], sel(ix[1])), app("x_" + x, w_.row(ix[0], sel(ix[1]))), app("null")))
                total = iadd(total, d)
        v.ok("no other columns", v.c.norm().idecide(ieq(tint(r.shape[1]), total)).op == "true")
        v.unchanged("long data not written", w_.b0)
        v.ok("frame: lists of variables unchanged", run.args == (list(ind), list(alt), OrderedDict((s, list(ids)) for s in sub)) and not w_.df.added)
    S.verify(CT + "convert_long_to_wide", "ind=%d alt=%d subset=%d named=%s" % (len(ind), len(alt), len(sub), named), w_.f, run, post)


def P15(S):
    to_wide(S, ["z1"], ["a1"], [], False)
    to_wide(S, [], [], ["s1"], False)
    to_wide(S, ["z2", "z1"], ["a2", "a1"], ["s1"], True)
    to_wide(S, ["z1"], ["a1"], [], True)
    to_wide(S, ["z1"], ["a1"], ["s2", "s1"], False)


class WW(object):
    """wide data: R rows with distinct observation ids; every one of the J
    alternatives is chosen by somebody; av(r, j): alternative j is available
    to row r"""

    def __init__(self):
        self.R, self.J = dim("R"), dim("J")
        self.f = Facts()

    def frame(self, ind, alt):
        R, J = self.R, self.J
        cols = [("obs", idcol("obs", R, R)), ("choice", idcol("alt", R, J))]
        cols += [(c, sym_array("z_" + c, (R,))) for c in ind]
        fams = {"av": Arr.fresh((R, J), lambda ix: iv01(bapp("av", *ix)), "i")}
        fams.update((c, sym_array("w_" + c, (R, J))) for c in alt)
        self.df = WDF(R, OrderedDict(cols), fams)
        self.b0 = self.df.bufs()
        return self.df

    def mapping(self, f, has=None):
        return SMap("alt", self.J, lambda j: ifn("col:" + f, [j], LAB), has)


def to_long(S, ind, alt, named):
    """alt: [(variable, defined for every alternative?)]"""
    w_ = WW()
    R, J = w_.R, w_.J
    has = lambda x, every: None if every else (lambda j: bapp("has:" + x, j))

    def run():
        m = World().load("choice_tools")
        skip_checks(m)
        df = w_.frame(ind, [x for x, _ in alt])
        k = {"new_alt_id_name": "mode"} if named else {}
        run.args = (list(ind), OrderedDict((x, w_.mapping(x, has(x, e))) for x, e in alt), w_.mapping("av"))
        return m.convert_wide_to_long(df, *run.args, "obs", "choice", **k)

    def post(c, out, v):
        if not v.returned(out):
            return
        r = out[1]
        if not v.ok("a data frame", isinstance(r, DFlat), "got %r" % type(r)):
            return
        want = OrderedDict([("obs", lambda i, j: app("inj:obs", rk("obs", i, R))), ("mode" if named else "alt_id", lambda i, j: app("inj:alt", j)),
                            ("choice", lambda i, j: iv01(ieq(rk("alt", i, J), j)))])
        for x in ind:
            want[x] = lambda i, j, x=x: app("z_" + x, i)
        for x, e in alt:
            want[x] = lambda i, j, x=x, e=e: app("w_" + x, i, j) if e else ite(bapp("has:" + x, j), app("w_" + x, i, j), ZERO)
        v.ok("columns", list(r.cols) == list(want), "got %s" % list(r.cols))
        for x, f in want.items():
            if x not in r.cols:
                continue
            m = r.cols[x]
            if v.ok("%s: observations by alternatives" % x, len(m.dims) == 2 and all(v.c.norm().idecide(ieq(a, b)).op == "true" for a, b in zip(m.dims, (R, J)))):
                v.elems("%s: rows are the available pairs" % x, lambda ix: iv01(m.mf(ix)), (R, J), lambda ix: iv01(bapp("av", *ix)))
                v.elems("%s" % x, lambda ix: ite(bapp("av", *ix), m.val(ix), ZERO), (R, J), lambda ix: ite(bapp("av", *ix), f(*ix), ZERO))
        v.unchanged("wide data not written", w_.b0)
        v.ok("frame: lists of variables unchanged", run.args[0] == list(ind) and list(run.args[1]) == [x for x, _ in alt] and not w_.df.added)
    S.verify(CT + "convert_wide_to_long", "ind=%d alt=%s named=%s" % (len(ind), "".join("all " if e else "some " for _, e in alt), named), w_.f, run, post)


def P16(S):
    to_long(S, ["z1"], [("a1", True)], False)
    to_long(S, [], [("a1", False)], True)
    to_long(S, ["z2", "z1"], [("a2", True), ("a1", False)], False)
    to_long(S, ["z1"], [], True)
    to_long(S, ["z1"], [("a2", False), ("a1", False)], True)
    round_trip(S)


def round_trip(S):
    """lemma over the two contracts: with the wide data of P15 as input, the
    long rows of P16 are those of the original data.  A row i of the original
    data is found at (o, j), o the position of its observation, j the rank of
    its alternative; conversely the pair (o, j) stands for row(o, j)"""
    w_ = LW()
    N, O, J = w_.N, w_.O, w_.J

    def post(c, out, v):
        i, o, j = fresh_iv(N, "i"), fresh_iv(O, "o"), fresh_iv(J, "j")
        oi, ji = ifn("iperm:obs", [rk("obs", i, O)], O), rk("alt", i, J)
        v.cond("each original row is an available pair", w_.avail(oi, ji))
        v.real("... whose row it is", i2r(w_.row(oi, ji)), i2r(i))
        v.real("... with its value", ite(w_.avail(oi, ji), app("x", w_.row(oi, ji)), app("null")), app("x", i))
        v.real("... its observation", app("inj:obs", perm("obs", oi, O)), app("inj:obs", rk("obs", i, O)))
        v.real("... its choice", iv01(ieq(w_.chosen(perm("obs", oi, O)), ji)), iv01(ieq(ji, w_.chosen(rk("obs", i, O)))))
        r = w_.row(o, j)
        v.real("each available pair is a row of its observation", ite(w_.avail(o, j), app("inj:obs", rk("obs", r, O)), ZERO),
               ite(w_.avail(o, j), app("inj:obs", perm("obs", o, O)), ZERO))
        v.real("... and of its alternative", ite(w_.avail(o, j), app("inj:alt", rk("alt", r, J)), ZERO), ite(w_.avail(o, j), app("inj:alt", j), ZERO))
        v.cond("the chosen alternative is available", w_.avail(o, w_.chosen(perm("obs", o, O))))
    S.verify("lemma", "long to wide and back", w_.f, lambda: None, post)


# ---------------------------------------------------------------- entry checks (P27)
class Asked(Exception):
    pass


def recording(m, calls, refuse=None):
    """validators by contract (their own contracts are in c_valid.py): each
    records its arguments; the one named refuse raises"""
    for n in VALIDATORS:
        real = getattr(m, n, None)
        if real is None:
            continue
        sig = inspect.signature(real)

        def stub(*a, n=n, sig=sig, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            calls.append((n, dict(b.arguments)))
            if n == refuse:
                raise Asked(n)
        replace([m], real, stub)


def entry(S, fn, need, facts, call, label=""):
    """the conversion calls every validator in need with the given arguments
    and passes on its refusal"""
    for refuse in [None] + sorted(need):
        calls = []

        def run():
            del calls[:]
            m = World().load("choice_tools")
            return call(m, calls, refuse)

        def post(c, out, v):
            if refuse is not None:
                v.ok("refused by %s: no result" % refuse, out[0] == "exc" and isinstance(out[1], Asked), "outcome %s" % out[0])
                return
            if v.returned(out):
                for n, ok in need.items():
                    v.ok("%s is asked about the given data" % n, any(ok(a) for k, a in calls if k == n), "calls %r" % [a for k, a in calls if k == n])
                asked = [a for k, a in calls if k == "ensure_columns_are_in_dataframe"]
                for what, labels in call.columns():
                    v.ok("%s: columns are looked up in the data" % what, any(a["dataframe"] is call.df() and covers(a["columns"], labels) for a in asked))
        S.verify(CT + fn, label + "checks%s" % (": %s refuses" % refuse if refuse else ""), facts, run, post)


def covers(cols, want):
    """cols includes the label(s) want: a string, or (n, generic label)"""
    if isinstance(want, str):
        return isinstance(cols, (list, tuple, type({}.keys()))) and want in list(cols)
    n, f = want
    try:
        parts = SNames.of(list(cols) if isinstance(cols, (list, tuple)) else cols).parts()
    except Unsupported:
        return False
    for d, g in parts:
        k = fresh_iv(n, "k")
        if d is n and g(k) is f(k):
            return True
        t = g(icst(0)) if iconst_value(d) == 1 else None      # one label of a loop over all of them
        if t is not None and t.op == "ifn":
            us = [i for i in t.ivs if i.args[1] is n]
            if len(us) == 1 and t is f(us[0]):
                return True
    return False


def entry_long(S):
    for named in (False, True):
        w_ = LW()
        need = {"check_dataframe_for_duplicate_records": lambda a: (a["obs_id_col"], a["alt_id_col"]) == ("obs", "alt") and a["df"] is w_.df,
                "ensure_num_chosen_alts_equals_num_obs": lambda a: (a["obs_id_col"], a["choice_col"]) == ("obs", "choice") and a["df"] is w_.df,
                "ensure_columns_are_in_dataframe": lambda a: a["dataframe"] is w_.df}
        names = Names()
        if named:
            need["check_type_and_values_of_alt_name_dict"] = lambda a: a["alt_name_dict"] is names and a["alt_id_col"] == "alt" and a["df"] is w_.df

        def call(m, calls, refuse):
            recording(m, calls, refuse)
            df = w_.frame(["z1"], ["a1", "s1"])
            w_.maps(m)
            k = {"alt_name_dict": names} if named else {}
            return m.convert_long_to_wide(df, ["z1"], ["a1"], OrderedDict([("s1", [SIntVal(app("sid0"))])]), "obs", "alt", "choice", null_value=SReal(app("null")), **k)
        call.columns = lambda: [(x, x) for x in ("z1", "a1", "s1", "obs", "alt", "choice")]
        call.df = lambda: w_.df
        entry(S, "convert_long_to_wide", need, w_.f, call, "with names: " if named else "")


def entry_wide(S):
    w_ = WW()
    R, J = w_.R, w_.J
    av, a1, a2 = w_.mapping("av"), w_.mapping("a1"), w_.mapping("a2", lambda j: bapp("has:a2", j))
    alt = OrderedDict([("a1", a1), ("a2", a2)])
    data = lambda a: a["wide_data"] is w_.df
    need = {"ensure_unique_obs_ids_in_wide_data": lambda a: a["obs_id_col"] == "obs" and data(a),
            "check_wide_data_for_blank_choices": lambda a: a["choice_col"] == "choice" and data(a),
            "ensure_all_wide_alt_ids_are_chosen": lambda a: a["choice_col"] == "choice" and a["alt_specific_vars"] is alt and a["availability_vars"] is av and data(a),
            "ensure_chosen_alternatives_are_in_user_alt_ids": lambda a: a["choice_col"] == "choice" and a["availability_vars"] is av and data(a),
            "ensure_each_wide_obs_chose_an_available_alternative":
                lambda a: (a["obs_id_col"], a["choice_col"]) == ("obs", "choice") and a["availability_vars"] is av and data(a),
            "ensure_columns_are_in_dataframe": lambda a: a["dataframe"] is w_.df}

    def call(m, calls, refuse):
        recording(m, calls, refuse)
        return m.convert_wide_to_long(w_.frame(["z1"], ["a1", "a2"]), ["z1"], alt, av, "obs", "choice")
    call.columns = lambda: [(x, x) for x in ("z1", "obs", "choice")] + [("family " + n, (q.n, lambda k, q=q: q.value(q.nth(k)))) for n, q in (("av", av), ("a1", a1), ("a2", a2))]
    call.df = lambda: w_.df
    entry(S, "convert_wide_to_long", need, w_.f, call)


def P27(S):
    entry_long(S)
    entry_wide(S)
