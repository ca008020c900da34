"""Contracts for model creation (P30): pylogit.py, construct_estimator.py, the
model constructors, base constructor, re-creation in bootstrap_mle.py."""
from collections import OrderedDict
import inspect
from .vc import *
from .pdshim import DF, idcol, SNames, SName
from .c_logit import call_obs
from .c_est import EW, Opaque, check_arg, expecting, flag, replace, same_value, estimator_class, KINDS
from .c_fit import bare_model, names, MODELS, MODULE, BASE, FitW, fitting_all
from .c_data import DW

TYPES = {"mnl": "MNL", "asym": "Asym", "clog": "Cloglog", "scobit": "Scobit", "uneven": "Uneven", "nested": "Nested Logit", "mixed": "Mixed Logit"}
DISPLAY = {"mnl": "Multinomial Logit Model", "asym": "Multinomial Asymmetric Logit Model", "clog": "Multinomial Clog-log Model",
           "scobit": "Multinomial Scobit Model", "uneven": "Multinomial Uneven Logit Model", "nested": "Nested Logit Model", "mixed": "Mixed Logit Model"}
TRANS = {"mnl": "_mnl_utility_transform", "asym": "_asym_utility_transform", "clog": "_cloglog_utility_transform",
         "scobit": "_scobit_utility_transform", "uneven": "_uneven_utility_transform"}
# options each type uses
USES = {"mnl": ["names"], "asym": ["names", "intercept_ref_pos", "intercept_names", "shape_ref_pos", "shape_names"],
        "clog": ["names", "intercept_ref_pos", "intercept_names"], "scobit": ["names", "intercept_ref_pos", "intercept_names", "shape_names"],
        "uneven": ["names", "intercept_ref_pos", "intercept_names", "shape_names"], "nested": ["names", "nest_spec"],
        "mixed": ["names", "mixing_id_col", "mixing_vars"]}
OPTS = ["names", "intercept_ref_pos", "shape_ref_pos", "intercept_names", "shape_names", "nest_spec", "mixing_id_col", "mixing_vars"]


class Mark(object):
    """an arbitrary object, compared by identity"""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "<%s>" % self.what

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def same(a, b):
    if a is b:
        return True
    if isinstance(a, SInt) and isinstance(b, SInt):
        return tint(a) is tint(b)
    if isinstance(b, (dict, list)) and not isinstance(b, SNames):
        return type(a) is type(b) and a == b and list(a) == list(b)
    return False


def options(J):
    o = {k: Mark(k) for k in OPTS}
    o["intercept_ref_pos"], o["shape_ref_pos"] = SInt(ifn("iref", [], J)), SInt(ifn("sref", [], J))
    return o


def creation(S, kind, how, minimal=False):
    """create_choice_model (or the class itself) hands every option its type
    uses to the base constructor and installs its own transformation"""
    N, J = dim("N"), dim("J")

    def run():
        w = World()
        pl = w.load("pylogit")
        mod = w.load(MODULE[kind])
        base = w.load(BASE).MNDC_Model
        st = run.st = {"init": []}
        sig = inspect.signature(base.__init__)

        def init(*a, **k):
            g = sig.bind(*a, **k)
            g.apply_defaults()
            st["init"].append(dict(g.arguments))
            return None
        base.__init__ = init
        o = run.o = options(J)
        if minimal:
            for k in USES[kind]:
                if k not in ("shape_ref_pos", "nest_spec", "mixing_id_col", "mixing_vars"):
                    o[k] = None
        for k in OPTS:
            if k not in USES[kind]:
                o[k] = None
        pos = run.pos = [Mark(k) for k in ("data", "alt_id_col", "obs_id_col", "choice_col", "specification")]
        st["trans"] = []
        st["cls"] = getattr(mod, MODELS[kind])
        if kind in TRANS:
            real = getattr(mod, TRANS[kind])

            def t(*a, **k):
                g = inspect.signature(real).bind(*a, **k)
                g.apply_defaults()
                st["trans"].append(dict(g.arguments))
                return "transformed"
            replace(list(w.mods.values()), real, t)
        if how == "function":
            m = pl.create_choice_model(*pos, model_type=TYPES[kind], **o)
        else:
            m = st["cls"](*pos, **o)
        if kind in TRANS:
            st["args"] = [Mark("argument %d" % i) for i in range(5)]
            st["out"] = m.utility_transform(*st["args"])
        else:
            st["V"] = [sym_array("V", (N,)), sym_array("V", (N, dim("R")))]
            rest = [Mark("argument %d" % i) for i in range(4)]
            st["out"] = [m.utility_transform(x, *rest) for x in (st["V"] if kind == "mixed" else st["V"][:1])]
        return m

    def post(c, out, v):
        if not v.returned(out):
            return
        st = run.st
        v.ok("an instance of the type's class", type(out[1]) is st["cls"], str(type(out[1])))
        if not v.ok("base constructor called once", len(st["init"]) == 1):
            return
        g = st["init"][0]
        for n, x in zip(("data", "alt_id_col", "obs_id_col", "choice_col", "specification"), run.pos):
            v.ok("%s passed on unchanged" % n, g[n] is x)
        for n in OPTS:
            v.ok("option %s passed on unchanged" % n, same(g[n], run.o[n]), "got %r" % (g[n],))
        v.ok("display name of the type", g["model_type"] == DISPLAY[kind], str(g["model_type"]))
        if kind in TRANS:
            if v.ok("utility transformation of the type", len(st["trans"]) == 1 and st["out"] == "transformed"):
                t = st["trans"][0]
                pa = list(t.values())
                flat = []
                for x in pa:
                    flat += list(x) if isinstance(x, tuple) else [x]
                v.ok("transformation gets its arguments in order", all(a is b for a, b in zip(flat, st["args"][:1 if kind == "mnl" else 5])))
                if kind != "mnl":
                    v.ok("transformation gets the intercept reference", same(t.get("intercept_ref_pos"), run.o["intercept_ref_pos"]))
                if kind == "asym":
                    v.ok("transformation gets the shape reference", same(t.get("shape_ref_position"), run.o["shape_ref_pos"]))
        else:
            v.array("utility is not transformed", st["out"][0], (N, icst(1)), lambda ix: app("V", ix[0]))
            if kind == "mixed":
                v.array("utilities by draw are not transformed", st["out"][1], (N, dim("R")), lambda ix: app("V", *ix))
    S.verify("pylogit.create_choice_model" if how == "function" else "%s.%s.__init__" % (MODULE[kind], MODELS[kind]),
             "type=%s %s" % (TYPES[kind], "without optional names" if minimal else "all options"), Facts(), run, post)


def refused(S, what, label, call, exc=ValueError):
    def run():
        w = World()
        base = w.load(BASE).MNDC_Model
        run.st = []
        base.__init__ = lambda *a, **k: run.st.append(1)
        return call(w)

    def post(c, out, v):
        v.raises(out, exc)
        v.ok("nothing constructed", not run.st)
    S.verify(what, label, Facts(), run, post)


def rejections(S):
    a5 = [Mark(str(i)) for i in range(5)]
    for t in (token(app("any other type")), "mnl", "MNAL", "Multinomial Logit Model", "", None, "Nested", "Mixed"):
        refused(S, "pylogit.create_choice_model", "unknown type %s" % ("(any other string)" if t and t[0] not in "mMN" else repr(t)),
                lambda w, t=t: w.load("pylogit").create_choice_model(*a5, model_type=t))
    for kind in ("mnl", "mixed"):
        refused(S, "pylogit.create_choice_model", "%s with an outside-intercept reference" % TYPES[kind],
                lambda w, kind=kind: w.load("pylogit").create_choice_model(*a5, model_type=TYPES[kind], intercept_ref_pos=SInt(ifn("iref", [], dim("J")))))
    refused(S, "pylogit.create_choice_model", "Nested Logit without nests", lambda w: w.load("pylogit").create_choice_model(*a5, model_type="Nested Logit"))
    refused(S, "pylogit.create_choice_model", "Asym without shape reference", lambda w: w.load("pylogit").create_choice_model(*a5, model_type="Asym"))


def constructor(S, nests, mixing):
    """MNDC_Model.__init__ stores what it is given; design from the data"""
    w_ = DW()

    def run():
        w = World()
        base = w.load(BASE)
        df = w_.frame(["a"])
        st = run.st = {"calls": []}
        for n in list(vars(base)):
            if n.startswith("ensure_") or n.startswith("check_"):
                setattr(base, n, lambda *a, **k: None)
        spec = run.spec = OrderedDict([("a", "all_same")])
        o = run.o = options(w_.J)
        o["nest_spec"] = OrderedDict([("n1", [1, 2]), ("n0", [3])]) if nests else None
        o["mixing_vars"] = Mark("mixing_vars") if mixing else None
        o["mixing_id_col"] = "mix" if mixing else None
        o["shape_names"], o["intercept_names"] = names("shape", dim("S")), names("intercept", dim("I"))
        K = dim("K")
        st["X"], st["nm"] = sym_array("X", (w_.N, K)), names("index", K)
        ct = w.load("choice_tools")
        rd = ct.create_design_matrix

        def design(*a, **k):
            g = inspect.signature(rd).bind(*a, **k)
            g.apply_defaults()
            st["calls"].append(dict(g.arguments))
            return st["X"], st["nm"]
        replace(list(w.mods.values()), rd, design)
        rm = ct.convert_mixing_names_to_positions

        def mp(mixing_vars, ind_var_names):
            flag("positions of the given mixing variables", mixing_vars is o["mixing_vars"])
            flag("positions among the design's columns", ind_var_names is st["nm"])
            st["pos"] = [Mark("pos")]
            return st["pos"]
        replace(list(w.mods.values()), rm, mp)
        return base.MNDC_Model(df, "alt", "obs", "choice", spec, model_type="T", **o)

    def post(c, out, v):
        if not v.returned(out):
            return
        call_obs(v)
        m, o, st = out[1], run.o, run.st
        if v.ok("design built once", len(st["calls"]) == 1):
            g = st["calls"][0]
            v.ok("design of the data, specification, alternatives and names given", g["long_form"] is m.data and g["specification_dict"] is run.spec
                 and g["alt_id_col"] == "alt" and g["names"] is o["names"])
        v.ok("the data frame itself is kept", m.data is w_.df)
        v.ok("design and names stored", m.design is st["X"] and m.ind_var_names is st["nm"])
        for a, x in (("alt_id_col", "alt"), ("obs_id_col", "obs"), ("choice_col", "choice"), ("model_type", "T"), ("mixing_id_col", o["mixing_id_col"])):
            v.ok(a + " stored", getattr(m, a) == x)
        for a, x in (("specification", run.spec), ("name_spec", o["names"]), ("shape_names", o["shape_names"]), ("intercept_names", o["intercept_names"]),
                     ("shape_ref_position", o["shape_ref_pos"]), ("intercept_ref_position", o["intercept_ref_pos"]),
                     ("nest_spec", o["nest_spec"]), ("mixing_vars", o["mixing_vars"])):
            v.ok(a + " stored", same(getattr(m, a), x))
        v.array("alternative ids stored", m.alt_IDs, (w_.N,), lambda ix: w_.df.cols["alt"].rel(ix))
        v.array("choices stored", m.choices, (w_.N,), lambda ix: app("y", ix[0]))
        v.ok("nest names in order", (list(m.nest_names) == ["n1", "n0"]) if nests else m.nest_names is None)
        v.ok("mixing positions stored", same(m.mixing_pos, st["pos"] if mixing else None))
        v.unchanged("data not written", w_.b0)
        v.ok("frame: no column added", not w_.df.added)
    S.verify(BASE + ".MNDC_Model.__init__", "nests=%s mixing=%s" % (nests, mixing), w_.f, run, post)


def mixing_positions(S):
    """convert_mixing_names_to_positions: the position of each mixed variable"""
    for order in ([0], [2, 0], [1, 2, 0, 3]):
        def run():
            m = World().load("choice_tools")
            ind = ["speed", "cost", "time", "fare"]
            return m.convert_mixing_names_to_positions([ind[k] for k in order], ind)

        def post(c, out, v):
            if v.returned(out):
                v.ok("positions in the order of the mixing variables", [int(x) for x in out[1]] == order, str(out[1]))
        S.verify("choice_tools.convert_mixing_names_to_positions", "order=%s" % order, Facts(), run, post)


def estimation_obj(S, kind, given):
    """create_estimation_obj: estimator and splitting rule of the model's type"""
    ew = EW(weights=True, ridge=True)

    def run():
        w = World()
        ce = w.load("construct_estimator")
        mod = w.load(MODULE[kind])
        d = ew.inputs()
        est = w.load("estimation")
        for n in list(vars(est)):
            if n.startswith("ensure_"):
                setattr(est, n, lambda *a, **k: None)
        maps = run.maps = {k: d[k] for k in ("rows_to_obs", "rows_to_alts", "chosen_row_to_obs", "rows_to_nests", "rows_to_mixers")}
        m = ew.model()
        m.__dict__["model_type"] = DISPLAY[kind]
        m.__dict__["get_mappings_for_fit"] = lambda dense=False: maps if not dense else (_ for _ in ()).throw(Unsupported("dense"))
        run.E, run.split = estimator_class(mod), mod.split_param_vec
        run.con, run.x0, run.m = [Mark("pos")], sym_array("x0", (ew.T,)), m
        return ce.create_estimation_obj(m, run.x0, mappings=maps if given else None, ridge=d["ridge"], constrained_pos=run.con, weights=d["weights"])

    def post(c, out, v):
        if not v.returned(out):
            return
        e, d = out[1], ew.inp
        v.ok("estimator of the model's type", type(e) is run.E, str(type(e)))
        v.ok("splitting rule of the model's type", e.split_params is run.split)
        v.array("zero vector", e.zero_vector, (ew.T,), lambda ix: ZERO)
        v.ok("constrained positions passed on", same(e.constrained_pos, run.con))
        same_value(v, "weights", e.weights, d["weights"])
        v.real("ridge", treal(e.ridge), app("r"))
        for a in ("rows_to_obs", "rows_to_alts", "chosen_row_to_obs", "rows_to_nests", "rows_to_mixers"):
            v.ok("mapping " + a, getattr(e, a) is d[a])
        for a, k in (("choice_vector",) * 2, ("design",) * 2, ("alt_id_vector", "alt_IDs")):
            v.ok("estimator uses the model's " + k, getattr(e, a) is d[k])
        v.ok("estimator uses the model's utility transformation", e.utility_transform is d["transform"])
        for a, b in (("intercept_ref_pos", "intercept_ref_position"), ("shape_ref_pos", "shape_ref_position")):
            v.ok("estimator uses the model's " + b, same(getattr(e, a), getattr(run.m, b)))
        v.unchanged("inputs not written", ew.bufs() + [run.x0.buf])
    S.verify("construct_estimator.create_estimation_obj", "type=%s mappings %s" % (TYPES[kind], "given" if given else "of the model"), ew.f, run, post)


def recreate_kwargs(S, kind):
    def model(w):
        a = {k: Mark(k) for k in ("name_spec", "intercept_names", "intercept_ref_position", "shape_names", "shape_ref_position", "nest_spec",
                                  "mixing_vars", "mixing_id_col")}
        base = w.load(BASE)
        return bare_model(base, base.MNDC_Model, model_type=DISPLAY[kind] if kind else token(app("another display name")), **a)
    WANT = {"names": "name_spec", "intercept_names": "intercept_names", "intercept_ref_pos": "intercept_ref_position", "shape_names": "shape_names",
            "shape_ref_pos": "shape_ref_position", "nest_spec": "nest_spec", "mixing_vars": "mixing_vars", "mixing_id_col": "mixing_id_col"}

    def run():
        w = World()
        bm = w.load("bootstrap_mle")
        run.m = model(w)
        return bm.get_model_creation_kwargs(run.m)

    def post(c, out, v):
        if kind is None:
            v.raises(out, ValueError)
            return
        if not v.returned(out):
            return
        k = dict(out[1])
        v.ok("type of the original", k.get("model_type") == TYPES[kind], str(k.get("model_type")))
        v.ok("every option and nothing else", sorted(k) == sorted(list(WANT) + ["model_type"]), str(sorted(k)))
        for a, b in WANT.items():
            v.ok("option %s is the original's" % a, k.get(a) is getattr(run.m, b))
    S.verify("bootstrap_mle.get_model_creation_kwargs", "type=%s" % (TYPES[kind] if kind else "unknown"), Facts(), run, post)


# ------------------------------------------------------------- saving (P31)
class Disk(object):
    """files of a scratch file system that records what is written where"""

    def __init__(self):
        self.log, self.files = [], {}

    def open(self, name, mode="r", *a, **k):
        if not isinstance(name, str) or a or k:
            raise Unsupported("open")
        if "w" not in mode and "x" not in mode:
            raise Unsupported("open for %s" % mode)
        h = Handle(self, name, mode)
        self.files[name] = []
        self.log.append(h)
        return h


class Handle(object):
    def __init__(self, disk, name, mode):
        self.disk, self.name, self.mode, self.closed = disk, name, mode, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True

    def write(self, x):
        if self.closed:
            raise ValueError("write to closed file")
        self.disk.files[self.name].append(x)

    def flush(self):
        pass


class Pickled(object):
    def __init__(self, obj):
        self.obj = obj


def saving(S, kind, path, want):
    """to_pickle writes exactly one pickle of the model, to the path with the
    extension .pkl; a path that is not a string is refused and nothing opened"""
    def run():
        w = World()
        mod, base = w.load(MODULE[kind]), w.load(BASE)
        cls = getattr(mod, MODELS[kind])
        for c in cls.__mro__:
            for n in ("__getstate__", "__setstate__", "__reduce__", "__reduce_ex__", "__getnewargs__", "__slots__"):
                if c is not object and n in c.__dict__:
                    raise Unsupported("%s defines %s" % (c.__name__, n))
        run.disk = Disk()

        def dump(obj, file, protocol=None, **k):
            if k:
                raise Unsupported("pickle.dump arguments")
            if not isinstance(file, Handle) or "b" not in file.mode:
                raise TypeError("a bytes-like object is required")
            file.write(Pickled(obj))

        def dumps(obj, protocol=None, **k):
            return Pickled(obj)
        import types as _t
        for m in w.mods.values():
            if "pickle" in vars(m):
                m.pickle = Opaque("pickle", dump=dump, dumps=dumps, HIGHEST_PROTOCOL=5, DEFAULT_PROTOCOL=4)
            m.open = run.disk.open
            if "print" not in vars(m):
                m.print = lambda *a, **k: None
        # every attribute a model may hold, and one the library does not know of
        run.m = bare_model(base, cls, **{n: Mark(n) for n in sorted(ATTRIBUTES) + ["set_by_the_user"] if not hasattr(cls, n)})
        run.before = dict(run.m.__dict__)
        return run.m.to_pickle(path)

    def post(c, out, v):
        d = run.disk
        if want is None:
            v.raises(out, ValueError)
            v.ok("nothing opened for writing", not d.log)
        else:
            if not v.returned(out):
                return
            v.ok("exactly one file is written", list(d.files) == [want], str(list(d.files)))
            x = d.files.get(want, [])
            v.ok("it holds exactly one pickle, of this model", len(x) == 1 and isinstance(x[0], Pickled) and x[0].obj is run.m)
            v.ok("the file is closed", all(h.closed for h in d.log))
            v.ok("returns nothing", out[1] is None)
        v.ok("frame: the model", run.m.__dict__ == run.before)
    S.verify(BASE + ".MNDC_Model.to_pickle", "type=%s path=%r" % (TYPES[kind], path), Facts(), run, post)


def by_name(x):
    """pickle stores functions by name: x is found again under its name"""
    import functools
    if isinstance(x, functools.partial):
        return by_name(x.func) and all(by_name(y) for y in x.args) and all(by_name(y) for y in (x.keywords or {}).values())
    if isinstance(x, (list, tuple)):
        return all(by_name(y) for y in x)
    if isinstance(x, dict):
        return all(by_name(y) for y in x.values())
    if inspect.isfunction(x):
        mod = x.__globals__
        return "<" not in x.__qualname__ and mod.get(x.__name__) is x
    return not inspect.isgenerator(x)


def storable(S, kind):
    """the constructor leaves only values that can be stored: no local function"""
    N, J = dim("N"), dim("J")

    def run():
        w = World()
        pl = w.load("pylogit")
        base = w.load(BASE).MNDC_Model
        base.__init__ = lambda self, *a, **k: None
        o = options(J)
        for k in OPTS:
            if k not in USES[kind]:
                o[k] = None
        return pl.create_choice_model(*[Mark(k) for k in ("data", "alt_id_col", "obs_id_col", "choice_col", "specification")], model_type=TYPES[kind], **o)

    def post(c, out, v):
        if not v.returned(out):
            return
        v.ok("the utility transformation is kept", "utility_transform" in out[1].__dict__)
        for n, x in out[1].__dict__.items():
            if not isinstance(x, Mark):
                v.ok("attribute %s can be stored" % n, by_name(x), repr(x))
    S.verify("%s.%s.__init__" % (MODULE[kind], MODELS[kind]), "what is kept can be stored", Facts(), run, post)


def P31(S):
    for kind in TYPES:
        storable(S, kind)
        for path, want in (("dir/model", "dir/model.pkl"), ("dir/model.pkl", "dir/model.pkl"), ("a.pkl.old", "a.pkl.old.pkl"), ("a.csv", "a.csv.pkl"),
                           ("modelpkl", "modelpkl.pkl"), ("pkl", "pkl.pkl"), (17, None), (None, None), (["a.pkl"], None), (b"a.pkl", None)):
            saving(S, kind, path, want)


def P30(S):
    for kind in TYPES:
        for how in ("function", "class"):
            creation(S, kind, how)
        creation(S, kind, "function", True)
        for given in (True, False):
            estimation_obj(S, kind, given)
        recreate_kwargs(S, kind)
    recreate_kwargs(S, None)
    rejections(S)
    for n in (False, True):
        for m in (False, True):
            constructor(S, n, m)
    mixing_positions(S)
    fitting_all(S)
