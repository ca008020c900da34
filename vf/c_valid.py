"""Contracts for input validation (P27): each entry point returns normally if
and only if the stated requirement holds, and raises an error otherwise."""
import inspect
import itertools
from collections import OrderedDict
from .vc import *
from .pdshim import DF, idcol, SNames, SName
from .c_est import EW, Opaque, replace, KINDS
from .c_fit import bare_model, names, MODELS, MODULE, BASE, fitting, piece_lengths
from .c_data import DW
from . import smt

ERR = (ValueError, TypeError, KeyError, AssertionError)


def prove(v, what, goal):
    """sigma-normaliser first, z3 over the path's assumptions otherwise"""
    t = time.time()
    f = v.c.facts()
    try:
        ok, info = Prover(f).prove_cond(goal)
    except Unprovable as e:
        ok, info = False, str(e)
    be, m = "sigma-normaliser", {}
    if not ok:
        ok, info2 = smt.entails(f.assume, goal)
        info, be = "%s; %s" % (info, info2), "z3"
        if not ok:
            _, m = Prover(f).evaluated((False, {}), iv01(goal), ONE, (), True)
    return v.S.add(v.fn, "%s: %s" % (v.label, what), ok, "%s path %s; %s" % (m.get("model", ""), [show(x) for x in v.c.conds], info),
                   t=time.time() - t, backend=be, status=undecided(ok, m))


def iff(S, fn, label, facts, run, valid, exc=ERR, after=None, max_paths=64):
    """run() returns iff valid() holds, otherwise raises one of exc"""
    def post(c, out, v):
        ok = valid() if callable(valid) else valid
        ok = ok if isinstance(ok, T) else bconst(bool(ok))
        if out[0] == "ret":
            prove(v, "accepted only if the requirement holds", ok)
        else:
            names_ = [e.__name__ for e in exc]
            v.ok("refusal is an error of the documented kind", isinstance(out[1], exc), "raises %r" % (out[1],))
            prove(v, "refused only if the requirement fails", not_(ok))
        if after:
            after(c, out, v)
    S.verify(fn, label, facts, run, post, max_paths)


def anyint(tag):
    """an arbitrary integer"""
    return SInt(isub(ifn(tag + "+", [], dim("huge")), ifn(tag + "-", [], dim("huge"))))


# ------------------------------------------------------------- construction
INIT = BASE + ".MNDC_Model.__init__"


def construct(w_, mk_args, extra=("a",)):
    """run the real constructor with the design stubbed out"""
    w = World()
    base = w.load(BASE)
    df = w_.frame(list(extra))
    ct = w.load("choice_tools")
    K = dim("K")
    nm = names("index", K)
    st = {"design": 0}

    def design(*a, **k):
        st["design"] += 1
        return sym_array("X", (w_.N, K)), st.get("names", nm)
    replace(list(w.mods.values()), ct.create_design_matrix, design)
    kw = dict(data=df, alt_id_col="alt", obs_id_col="obs", choice_col="choice", specification=OrderedDict([("a", "all_same")]))
    kw.update(mk_args(st, df) or {})
    return base.MNDC_Model(**kw)


def name_lists(S, which, ref):
    """reference position in range and one name per estimated parameter"""
    w_ = DW()
    L = dim("L")
    key = {"shape": ("shape_names", "shape_ref_pos"), "intercept": ("intercept_names", "intercept_ref_pos")}[which]

    def run():
        r = {"none": None, "int": anyint("ref"), "float": SReal(app("fref")), "str": "0"}[ref]
        return construct(w_, lambda st, df: {key[0]: names(which, L), key[1]: r})

    def valid():
        if ref in ("float", "str"):
            return FALSE
        if ref == "none":
            return ieq(L, w_.J) if which == "shape" else FALSE
        r = tint(anyint("ref"))
        return and_(not_(ilt(r, 0)), ilt(r, w_.J), ieq(L, isub(w_.J, icst(1))))
    iff(S, INIT, "%s: reference %s, any number of names" % (which, ref), w_.f, run, valid)


def alt_id(k):
    return SIntVal(app("inj:alt", icst(k)))


def nest_specs(S):
    """nests partition the alternatives with non-empty lists of integers"""
    cases = []
    for nests in ([[0, 1, 2]], [[0], [1, 2]], [[2, 1], [0]], [[0], [1], [2]], [[1], [2], [0]],       # valid
                  [[0, 1]], [[0], [1]], [[2]], [[1, 2], []], [[0, 1, 2], []], [[], [0, 1, 2]], [[]],
                  [[0, 1, 2, 2]], [[0, 1], [1, 2]], [[0, 1, 2], [0]], [[0, 0], [1, 2]],
                  [[0, 1, 2, 7]], [[0, 1], [2], [7]], [[7]], [[0, 1], [7]], [[0, 7], [1, 2]]):
        cases.append((str(nests), nests, sorted(x for n in nests for x in n) == [0, 1, 2] and all(nests)))
    for label, nests, ok in cases:
        w_ = DW(J=3)

        def run(nests=nests):
            spec = OrderedDict(("nest%d" % i, [alt_id(k) for k in n]) for i, n in enumerate(nests))
            return construct(w_, lambda st, df: {"nest_spec": spec})
        iff(S, INIT, "nests %s of alternatives 0-2" % label, w_.f, run, ok)
    a, b, c = [alt_id(k) for k in range(3)]
    for label, mkspec in (("tuple instead of a list", lambda: OrderedDict([("x", (a, b, c))])),
                          ("one value not a list", lambda: OrderedDict([("x", [a, b]), ("y", c)])),
                          ("key not a string", lambda: OrderedDict([("x", [a, b]), (2, [c])])),
                          ("non-integer id", lambda: OrderedDict([("x", [a, b]), ("y", [SReal(c.t)])])),
                          ("text id", lambda: OrderedDict([("x", [a, b]), ("y", ["z"])])),
                          ("not an ordered dictionary", lambda: {"x": [a, b, c]}),
                          ("a list", lambda: [a, b, c])):
        w_ = DW(J=3)
        iff(S, INIT, "nests: " + label, w_.f, lambda mkspec=mkspec: construct(w_, lambda st, df: {"nest_spec": mkspec()}), False)


def columns(S):
    """columns exist"""
    for key in ("alt_id_col", "obs_id_col", "choice_col"):
        w_ = DW()
        iff(S, INIT, "%s missing" % key, w_.f, lambda key=key: construct(w_, lambda st, df: {key: "nowhere"}), False)
        iff(S, INIT, "%s removed from the data" % key, w_.f,
            lambda key=key: construct(w_, lambda st, df: df.cols.pop({"alt_id_col": "alt", "obs_id_col": "obs", "choice_col": "choice"}[key]) and None), False)
    for spec, ok in ((["a"], True), (["a", "b"], False), (["b", "a"], False), (["intercept", "a"], True), (["a", "c", "d"], False), (["c"], False)):
        w_ = DW()

        def run(spec=spec):
            return construct(w_, lambda st, df: {"specification": OrderedDict((k, "all_same") for k in spec)})
        iff(S, INIT, "specification of %s with data column a" % spec, w_.f, run, ok)
    w_ = DW()
    iff(S, INIT, "specification not ordered", w_.f, lambda: construct(w_, lambda st, df: {"specification": {"a": "all_same"}}), False)
    for mv, ok in ((["v1"], True), (["v2", "v0"], True), (["v3"], False), (["v0", "v3"], False), ([], True), (None, True)):
        for nm in (None, "given"):
            w_ = DW()

            def run(mv=mv, nm=nm):
                def args(st, df):
                    st["names"] = ["v0", "v1", "v2"]
                    return {"mixing_vars": mv, "names": OrderedDict([("a", "v0")]) if nm else None}
                return construct(w_, args)
            iff(S, INIT, "mixing variables %s of v0-v2, names %s" % (mv, nm), w_.f, run, ok)


def data_argument(S):
    """data is a frame, used as it is, or the path of a csv file, which is read"""
    from .c_type import Mark
    w_ = DW()
    for arg, ok in (("frame", True), ("dir/file.csv", True), ("file.txt", False), ("csv", False), ("file.csv.gz", False), (b"file.csv", False), (None, False),
                    (17, False), ([1], False), ({"a": [1]}, False)):
        def run():
            w = World()
            ct = w.load("choice_tools")
            run.read, run.res = [], Mark("frame read")

            def read_csv(path, **k):
                if k:
                    raise Unsupported("read_csv options")
                run.read.append(path)
                return run.res
            for m in w.mods.values():
                if "pd" in vars(m):
                    m.pd.read_csv = read_csv
            run.df = w_.frame(["a"])
            return ct.get_dataframe_from_data(run.df if arg == "frame" else arg)

        def after(c, out, v):
            if out[0] == "ret":
                v.ok("the frame given or the file read", out[1] is (run.df if arg == "frame" else run.res))
                v.ok("only the file named is read", run.read == ([] if arg == "frame" else [arg]))
            else:
                v.ok("nothing read", not run.read)
        iff(S, "choice_tools.get_dataframe_from_data", "data=%r" % (arg,), w_.f, run, ok, after=after)


def numbers_(S):
    """specification variables are finite real numbers"""
    for kinds in ("f", "ff", "i", "if", "u", "O", "b", "fO", "Of", "U", "c"):
        w_ = DW()

        def run(kinds=kinds):
            def args(st, df):
                for j, k in enumerate(kinds):
                    nm = "wild:z%d" % j if k == "f" else "z%d" % j
                    df.cols["z%d" % j] = sym_array(nm, (w_.N,), k)
                return {"specification": OrderedDict(("z%d" % j, "all_same") for j in range(len(kinds)))}
            return construct(w_, args)

        def valid(kinds=kinds):
            if any(k not in "fiu" for k in kinds):
                return FALSE
            out = []
            for j, k in enumerate(kinds):
                if k == "f":
                    for what in ("isnan:z%d", "isinf:z%d"):
                        i = fresh_iv(w_.N, "i")
                        out.append(forall(i, not_(mk("bapp", what % j, (i,)))))
            return and_(*out) if out else TRUE
        iff(S, INIT, "specification columns of dtype %s" % "/".join(kinds), w_.f, run, valid)


# ------------------------------------------------------------- estimators
def estimator(S, label, change, valid):
    """EstimationObj: ridge, row order, weights"""
    ew = EW(weights=True, ridge=True)

    def run():
        w = World()
        est = w.load("estimation")
        d = ew.inputs()
        m = ew.model()
        m.__dict__["data"] = DF(ew.N, OrderedDict([("obs", Arr.fresh((ew.N,), lambda ix: i2r(ix[0]), "i")), ("x", sym_array("x", (ew.N,)))]))
        kw = dict(weights=None, ridge=d["ridge"])
        kw.update(change(ew, m) or {})
        maps = {k: d[k] for k in ("rows_to_obs", "rows_to_alts", "chosen_row_to_obs", "rows_to_nests", "rows_to_mixers")}
        return est.EstimationObj(m, maps, kw["ridge"], sym_array("zero", (ew.T,)), lambda *a, **k: None, weights=kw["weights"])
    iff(S, "estimation.EstimationObj.__init__", label, ew.f, run, lambda: valid(ew))


# ------------------------------------------------------------- numbers
def conf(S):
    p = app("conf")

    def valid():
        return and_(lt(ZERO, p), lt(p, num(100)))

    def run():
        m = World().load("bootstrap_utils")
        return m.check_conf_percentage_validity(SReal(p))
    iff(S, "bootstrap_utils.check_conf_percentage_validity", "any number", Facts(), run, valid)
    for bad in ("95", None, [95]):
        iff(S, "bootstrap_utils.check_conf_percentage_validity", "not a number: %r" % (bad,), Facts(),
            lambda bad=bad: World().load("bootstrap_utils").check_conf_percentage_validity(bad), False)


    # the interval functions refuse every other level
    f = Facts()
    f.assume.append(not_(valid()))
    B, K, O = dim("B"), dim("K"), dim("O")
    for mod, fn, args in (("bootstrap_calcs", "calc_percentile_interval", lambda: [sym_array("reps", (B, K)), SReal(p)]),
                          ("bootstrap_calcs", "calc_bca_interval", lambda: [sym_array("reps", (B, K)), sym_array("jack", (O, K)), sym_array("mle", (K,)), SReal(p)]),
                          ("bootstrap_abc", "calc_abc_interval", lambda: [Opaque("model"), sym_array("mle", (K,)), sym_array("init", (K,)), SReal(p)])):
        iff(S, mod + "." + fn, "any level outside (0, 100)", f, lambda: getattr(World().load(mod), fn)(*args()), False)


def estimators(S):

    def nonneg(ew):
        i = fresh_iv(ew.N, "i")
        return forall(i, not_(lt(app("anyw", i), ZERO)))
    for label, change, valid in (
            ("no weights", lambda ew, m: {"weights": None}, lambda ew: TRUE),
            ("any weights", lambda ew, m: {"weights": sym_array("anyw", (ew.N,))}, nonneg),
            ("any number of non-negative weights", lambda ew, m: {"weights": Arr.fresh((dim("W"),), lambda ix: exp(app("lw", ix[0])), "f")},
             lambda ew: ieq(dim("W"), ew.N)),
            ("column of weights", lambda ew, m: {"weights": Arr.fresh((ew.N, icst(1)), lambda ix: ONE, "f")}, lambda ew: FALSE),
            ("matrix of weights", lambda ew, m: {"weights": Arr.fresh((ew.N, dim("W")), lambda ix: ONE, "f")}, lambda ew: FALSE),
            ("list of weights", lambda ew, m: {"weights": [1.0, 1.0]}, lambda ew: FALSE),
            ("scalar weight", lambda ew, m: {"weights": 1.0}, lambda ew: FALSE),
            ("no ridge", lambda ew, m: {"ridge": None}, lambda ew: TRUE),
            ("any number as ridge", lambda ew, m: {"ridge": SReal(app("anyridge"))}, lambda ew: TRUE),
            ("integer ridge", lambda ew, m: {"ridge": 2}, lambda ew: TRUE),
            ("text ridge", lambda ew, m: {"ridge": "2"}, lambda ew: FALSE),
            ("list ridge", lambda ew, m: {"ridge": [2.0]}, lambda ew: FALSE),
            ("array ridge", lambda ew, m: {"ridge": sym_array("rr", (dim("K"),))}, lambda ew: FALSE)):
        estimator(S, label, change, valid)
    # rows in non-decreasing order of observation id
    N = dim("N2")

    def run():
        m = World().load("choice_tools")
        return m.ensure_contiguity_in_observation_rows(sym_array("o", (iadd(N, icst(1)),), "i"))

    def valid():
        i = fresh_iv(N, "i")
        return forall(i, not_(lt(app("o", iadd(i, icst(1))), app("o", i))))
    iff(S, "choice_tools.ensure_contiguity_in_observation_rows", "any ids", Facts(), run, valid)
    estimator(S, "any observation ids", lambda ew, m: order(ew, m), lambda ew: ordered(ew))


def order(ew, m):
    m.data.cols["obs"] = sym_array("o", (ew.N,), "i")


def ordered(ew):
    i = fresh_iv(isub(ew.N, icst(1)), "i")
    return forall(i, not_(lt(app("o", iadd(i, icst(1))), app("o", i))))


def lengths(S):
    """starting values have the exact required length"""
    for kind in MODELS:
        its = KINDS[kind][3] if kind in KINDS else (False,)
        for it in its:
            fitting(S, kind, it, True, False, length=True)
            if kind in ("asym", "scobit", "uneven", "clog"):
                piece_lengths(S, kind, it)


# ------------------------------------------------------------- data
CT = "choice_tools."


def counts(S):
    """number of choices equals the number of observations"""
    w_ = DW()
    i = fresh_iv(w_.N, "i")
    tot = sum_(i, app("c", i))

    def run():
        m = World().load("choice_tools")
        df = w_.frame()
        df.cols["choice"] = sym_array("c", (w_.N,), "i")
        return m.ensure_num_chosen_alts_equals_num_obs("obs", "choice", df)
    iff(S, CT + "ensure_num_chosen_alts_equals_num_obs", "any choices", w_.f, run,
        lambda: and_(not_(lt(tot, i2r(w_.O))), not_(lt(i2r(w_.O), tot))))

    def run2():
        m = World().load("choice_tools")
        return m.check_dataframe_for_duplicate_records("obs", "alt", w_.frame())
    iff(S, CT + "check_dataframe_for_duplicate_records", "any ids", w_.f, run2, lambda: unique_pairs(w_))


def unique_pairs(w_):
    i, j = fresh_iv(w_.N, "i"), fresh_iv(w_.N, "j")
    r = lambda x, k, u: ifn("rk:" + x, [k], u)
    same = and_(ieq(r("obs", i, w_.O), r("obs", j, w_.O)), ieq(r("alt", i, w_.J), r("alt", j, w_.J)), not_(ieq(i, j)))
    return forall(i, forall(j, not_(same)))


def spec_dicts(S):
    """specification and name dictionaries"""
    a, b, c, d = [alt_id(k) for k in (0, 1, 2, 7)]
    nid = lambda *x: list(x)
    for label, spec, ok in (("all_same", "all_same", True), ("all_diff", "all_diff", True), ("other text", "all", False), ("number", 3, False), ("tuple", (a, b), False),
                            ("ids", [a, c], True), ("unknown id", [a, d], False), ("groups", [[a, b], c], True), ("unknown id in a group", [[a, d], c], False),
                            ("unknown id after a group", [[a], d], False), ("nested groups", [[a, [b]]], False), ("one group", [[c, a, b]], True)):
        for pos in (0, 1):
            w_ = DW(J=3)

            def run():
                m = World().load("choice_tools")
                items = [("x", spec), ("a", "all_same")]
                return m.create_design_matrix(w_.frame(["x", "a"]), OrderedDict(items if pos == 0 else items[::-1]), "alt")
            iff(S, CT + "create_design_matrix", "specification %s of 3 alternatives, %s" % (label, "first" if pos == 0 else "second"), w_.f, run, ok)
    L = dim("L")
    for label, spec, nm, ok in (("text for all_same", "all_same", lambda: "n", True), ("list for all_same", "all_same", lambda: ["n"], False),
                                ("text for all_diff", "all_diff", lambda: "n", False),
                                ("three names for all_diff", "all_diff", lambda: ["p", "q", "r"], True), ("two names for all_diff", "all_diff", lambda: ["p", "q"], False),
                                ("four names for all_diff", "all_diff", lambda: ["p", "q", "r", "s"], False),
                                ("names for a list", [a, c], lambda: ["p", "q"], True), ("too few names for a list", [a, c], lambda: ["p"], False),
                                ("too many names for a list", [a, c], lambda: ["p", "q", "r"], False), ("text for a list", [a, c], lambda: "pq", False),
                                ("numbers for a list", [a, c], lambda: ["p", 2], False), ("names for groups", [[a, b], c], lambda: ["p", "q"], True),
                                ("a name per id for groups", [[a, b], c], lambda: ["p", "q", "r"], False), ("no name", "all_same", None, False)):
        for pos in (0, 1):
            w_ = DW(J=3)

            def run():
                m = World().load("choice_tools")
                items = [("x", spec), ("a", "all_same")]
                ns = ([("x", nm())] if nm else []) + [("a", "n_a")]
                return m.create_design_matrix(w_.frame(["x", "a"]), OrderedDict(items if pos == 0 else items[::-1]), "alt",
                                              names=OrderedDict(ns if pos == 0 else ns[::-1]))
            iff(S, CT + "create_design_matrix", "names: %s, %s" % (label, "first" if pos == 0 else "second"), w_.f, run, ok)
    for label, call in (("alternative column missing", lambda m, df: m.create_design_matrix(df, OrderedDict([("x", "all_same")]), "nowhere")),
                        ("variable missing", lambda m, df: m.create_design_matrix(df, OrderedDict([("x", "all_same"), ("zz", "all_same")]), "alt")),
                        ("specification not ordered", lambda m, df: m.create_design_matrix(df, {"x": "all_same"}, "alt")),
                        ("names not ordered", lambda m, df: m.create_design_matrix(df, OrderedDict([("x", "all_same")]), "alt", names={"x": "n"})),
                        ("extra name", lambda m, df: m.create_design_matrix(df, OrderedDict([("x", "all_same")]), "alt", names=OrderedDict([("x", "n"), ("y", "m")]))),
                        ("data not a frame", lambda m, df: m.create_design_matrix([1], OrderedDict([("x", "all_same")]), "alt"))):
        w_ = DW(J=3)
        iff(S, CT + "create_design_matrix", label, w_.f, lambda: call(World().load("choice_tools"), w_.frame(["x"])), False)


def wide(S):
    """wide data: choices present and known, unique ids"""
    N, O = dim("N"), dim("O")

    def frame(**cols):
        return DF(N, OrderedDict(list(cols.items())))
    load = lambda: World().load("choice_tools")

    def blank():
        i = fresh_iv(N, "i")
        return forall(i, not_(mk("bapp", "isnan:c", (i,))))
    iff(S, CT + "check_wide_data_for_blank_choices", "any choices", Facts(),
        lambda: load().check_wide_data_for_blank_choices("choice", frame(choice=sym_array("wild:c", (N,)))), blank)
    iff(S, CT + "ensure_unique_obs_ids_in_wide_data", "any ids", Facts(),
        lambda: load().ensure_unique_obs_ids_in_wide_data("obs", frame(obs=idcol("obs", N, O))), lambda: ieq(O, N))
    for keys in ([1], [3, 1], [1, 2, 5]):
        def known(keys=keys):
            i = fresh_iv(N, "i")
            return forall(i, or_(*[req(app("c", i), num(k)) for k in keys]))
        iff(S, CT + "ensure_chosen_alternatives_are_in_user_alt_ids", "alternatives %s" % keys, Facts(),
            lambda keys=keys: load().ensure_chosen_alternatives_are_in_user_alt_ids("choice", frame(choice=sym_array("c", (N,), "i")), OrderedDict((k, "av%d" % k) for k in keys)), known)
    for keys, alts, ok in (([0, 1], [0], True), ([1, 0, 2], [2, 1], True), ([0, 7], [0], False), ([0, 1], [7], False), ([7], [], False), ([0], [0, 2], True), ([], [0, 8], False)):
        def run(keys=keys, alts=alts):
            df = frame(choice=idcol("ch", N, icst(3)))
            x = lambda k: SIntVal(app("inj:ch", icst(k)))
            av = {x(k): "av%d" % k for k in keys}
            sp = {"v": {x(0): "v0"}, "w": {x(k): "w%d" % k for k in alts}}
            return load().ensure_all_wide_alt_ids_are_chosen("choice", sp, av, df)
        iff(S, CT + "ensure_all_wide_alt_ids_are_chosen", "chosen 0-2, availability %s, variables for %s" % (keys, alts), Facts(), run, ok)
    from .c_conv import WW
    w_ = WW()

    def run():
        return load().ensure_each_wide_obs_chose_an_available_alternative("obs", "choice", w_.mapping("av"), w_.frame([], []))

    def ok():
        i = fresh_iv(w_.R, "i")
        return forall(i, bapp("av", i, ifn("rk:alt", [i], w_.J)))
    iff(S, CT + "ensure_each_wide_obs_chose_an_available_alternative", "any availability", w_.f, run, ok)
    # names of alternatives
    w_ = DW(J=3)

    def present(ks):
        out = []
        for k in ks:
            i = fresh_iv(w_.N, "i")
            out.append(exists(i, req(app("inj:alt", ifn("rk:alt", [i], w_.J)), app("inj:alt", icst(k)))))
        return and_(*out)
    for ks in ([0], [2, 0], [1, 7]):
        iff(S, CT + "check_type_and_values_of_alt_name_dict", "names for %s" % ks, w_.f,
            lambda ks=ks: load().check_type_and_values_of_alt_name_dict({alt_id(k): "n%d" % k for k in ks}, "alt", w_.frame()), lambda ks=ks: present(ks))
    iff(S, CT + "check_type_and_values_of_alt_name_dict", "names not a dictionary", w_.f,
        lambda: load().check_type_and_values_of_alt_name_dict([("x", "n")], "alt", w_.frame()), False)
    for cols, ok in ((["alt"], True), (["alt", "obs", "choice"], True), (["alt", "zz"], False), (["zz", "obs"], False), ([], True)):
        for t in ("", "cols"):
            iff(S, CT + "ensure_columns_are_in_dataframe", "%s title %r" % (cols, t), w_.f,
                lambda: load().ensure_columns_are_in_dataframe(cols, w_.frame(), t, "data"), ok)


def param_lists(S):
    """check_param_list_validity: parameters given to prediction"""
    J, K = dim("J"), dim("K")
    D = {"b": K, "i": isub(J, icst(1)), "s": dim("S"), "n": dim("Q")}

    def arr(tag, d, cols):
        return sym_array(tag, (d,) if cols is None else (d, cols))

    def model(w):
        base = w.load(BASE)
        return bare_model(base, base.MNDC_Model, ind_var_names=names("index", K), design=sym_array("X", (dim("N"), K)),
                          intercept_names=names("intercept", D["i"]), shape_names=names("shape", D["s"]), nest_names=names("nest", D["n"]))

    def go(label, mkl, valid):
        def run():
            w = World()
            return model(w).check_param_list_validity(mkl())
        iff(S, BASE + ".MNDC_Model.check_param_list_validity", label, Facts(), run, valid)
    full = lambda c=None: [arr("b", D["b"], c), arr("i", D["i"], c), arr("s", D["s"], c), arr("n", D["n"], c)]
    R = dim("R")
    go("absent", lambda: None, TRUE)
    go("all parts, 1-D", lambda: full(), TRUE)
    go("all parts, 2-D", lambda: full(R), TRUE)
    go("coefficients only", lambda: [arr("b", D["b"], None), None, None, None], TRUE)
    for n, key in enumerate("bisn"):
        for c in (None, R):
            def mkl(n=n, c=c):
                l = full(c)
                l[n] = arr("odd", dim("L"), c)
                return l
            go("part %d of any length, %s" % (n, "1-D" if c is None else "2-D"), mkl, ieq(dim("L"), D[key]))

        def mkc(n=n):
            l = full(R)
            l[n] = arr("odd", D["bisn"[n]], dim("C"))
            return l
        go("part %d with any number of columns" % n, mkc, ieq(dim("C"), R))

        def mkd(n=n):
            l = full(R)
            l[n] = arr("odd", D["bisn"[n]], None)
            return l
        go("part %d 1-D, others 2-D" % n, mkd, FALSE)

        def mkt(n=n):
            l = full()
            l[n] = [1.0]
            return l
        go("part %d a list" % n, mkt, FALSE)

        def mkn(n=n):
            l = full()
            l[n] = None
            return l
        go("part %d absent" % n, mkn, bconst(n > 0))
    go("3-D", lambda: [sym_array("b", (K, R, R)), None, None, None], FALSE)
    go("too short", lambda: full()[:3], FALSE)
    go("too long", lambda: full() + [None], FALSE)
    go("tuple", lambda: tuple(full()), FALSE)


def P27(S):
    for ref in ("none", "int", "float", "str"):
        for which in ("shape", "intercept"):
            name_lists(S, which, ref)
    nest_specs(S)
    columns(S)
    numbers_(S)
    conf(S)
    estimators(S)
    lengths(S)
    counts(S)
    spec_dicts(S)
    wide(S)
    data_argument(S)
    param_lists(S)
