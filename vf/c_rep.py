"""Contracts for bootstrap.py (replicates) and bootstrap_mle.py (P26)."""
from collections import OrderedDict
import inspect
from .vc import *
from .pdshim import DF, DSel, idcol, SNames, PSeries, PFrame, same_parts
from .c_logit import call_obs
from .c_est import Opaque, check_arg, flag, replace
from .c_fit import bare_model, names, MODELS, MODULE, BASE, Result
from .c_data import DW
from .c_type import Mark, same, TYPES, DISPLAY

BM = "bootstrap_mle."
BT = "bootstrap."


# ------------------------------------------------------- starting values
def start(S, kind, intercepts, order, mixing):
    """extract_default_init_vals"""
    K, I, Q, Mx, N = dim("K"), dim("I"), dim("Q"), dim("Mx"), dim("N")
    nI = I if intercepts else icst(0)
    nM = Mx if mixing else icst(0)
    T_ = iadd(Q, nI, K, nM)           # Q: all other parameters (shapes, nests)
    ix_names, ic_names = names("index", K), names("intercept", I)

    def run():
        w = World()
        m = w.load("bootstrap_mle")
        if intercepts:
            idx = ic_names + ix_names if order == 0 else ix_names + ic_names
            vals = sym_array("mnl", (iadd(I, K),))
        else:
            idx, vals = names("mnl", K), sym_array("mnl", (K,))
        run.vals = vals
        model = Opaque("model", intercept_names=ic_names if intercepts else None, ind_var_names=ix_names, mixing_vars=names("mixing", Mx) if mixing else None,
                       model_type=DISPLAY[kind], alt_IDs=idcol("alt", N, dim("J")), shape_names=None, nest_names=None)
        return m.extract_default_init_vals(model, PSeries(vals, idx), SInt(T_))

    def post(c, out, v):
        if not v.returned(out):
            return

        def spec(ix):
            k = isub(ix[0], Q)
            div_ = (lambda t: div(t, log(i2r(dim("J"))))) if kind == "asym" else (lambda t: t)
            if intercepts:
                ic = app("mnl", k if order == 0 else iadd(K, k))
                co = app("mnl", k if order == 0 else isub(k, I))
            else:
                co = app("mnl", k)
            t = div_(co)
            if mixing:
                t = ite(ilt(k, iadd(nI, K)), t, ZERO)
            if intercepts:
                t = ite(ilt(k, I), ic, t)
            return ite(ilt(ix[0], Q), ZERO, t)
        v.array("starting values", out[1], (T_,), spec)
        v.unchanged("estimates not written", [run.vals.buf])
    S.verify(BM + "extract_default_init_vals", "type=%s intercepts=%s%s mixing=%s" % (TYPES[kind], intercepts, " order %d" % order if intercepts else "", mixing),
             Facts(), run, post)


def start_exact(S):
    """no parameters but index coefficients (and intercepts)"""
    for kind, mixing in (("mixed", True), ("mixed", False), ("nested", False)):
        K, Mx = dim("K"), dim("Mx")
        n = iadd(K, Mx) if mixing else K

        def run():
            m = World().load("bootstrap_mle")
            model = Opaque("model", intercept_names=None, ind_var_names=names("index", K), mixing_vars=names("mixing", Mx) if mixing else None,
                           model_type=DISPLAY[kind], alt_IDs=idcol("alt", dim("N"), dim("J")))
            return m.extract_default_init_vals(model, PSeries(sym_array("mnl", (K,)), names("mnl", K)), SInt(n))

        def post(c, out, v):
            if v.returned(out):
                v.array("starting values", out[1], (n,), lambda ix: ite(ilt(ix[0], K), app("mnl", ix[0]), ZERO) if mixing else app("mnl", ix[0]))
        S.verify(BM + "extract_default_init_vals", "type=%s mixing=%s index coefficients only" % (TYPES[kind], mixing), Facts(), run, post)


# ------------------------------------------------------- point estimates
def point(S, kind, custom, given):
    """retrieve_point_est: fit an MNL to the data, then the model itself
    (own specification and options) from starting values made of it"""
    K, T_ = dim("K"), dim("T")

    def run():
        w = World()
        m = w.load("bootstrap_mle")
        pl = w.load("pylogit")
        st = run.st = {"create": [], "fit": []}
        o = run.o = {k: Mark(k) for k in ("alt_id_col", "choice_col", "specification", "name_spec", "intercept_names", "intercept_ref_position",
                                         "shape_names", "shape_ref_position", "nest_spec", "mixing_vars", "mixing_id_col", "obs_id_col", "data", "alt_IDs", "ind_var_names",
                                         "nest_names")}
        model = Opaque("model", model_type=DISPLAY[kind], **o)
        run.df, run.id = Mark("new data"), Mark("id column")
        run.spec, run.nm = Mark("mnl specification"), Mark("mnl names")
        run.x0 = sym_array("x0", (K,)) if given else None
        sig = inspect.signature(pl.create_choice_model)

        def create(*a, **k):
            g = sig.bind(*a, **k)
            g.apply_defaults()
            n = len(st["create"])
            st["create"].append(dict(g.arguments))

            def fit(init_vals, **kw):
                st["fit"].append((n, init_vals, kw))
                st["res"] = {"x": sym_array("est%d" % n, (K if n == 0 else T_,))}
                return st["res"]
            return Opaque("new model", fit_mle=fit, ind_var_names=names("index", K))
        replace(list(w.mods.values()), pl.create_choice_model, create)

        def extract(orig, series, num):
            flag("starting values for the original model", orig is model)
            flag("starting values made of the MNL estimates", isinstance(series, PSeries) and same_parts(series.index.names, names("index", K)))
            if isinstance(series, PSeries):
                check_arg("MNL estimates", series.values, sym_array("est0", (K,)))
            flag("starting values of the model's length", isinstance(num, SInt) and tint(num) is T_)
            st["start"] = sym_array("start", (T_,))
            return st["start"]
        if not custom:
            replace(list(w.mods.values()), m.extract_default_init_vals, extract)
        kw = {"method": "L-BFGS-B", "ridge": Mark("ridge"), "maxiter": 7, "constrained_pos": Mark("con"), "just_point": True}
        run.kw = dict(kw)
        run.mkw = None if (kind == "mnl" and not given) else {"method": "Powell", "maxiter": 3}
        run.mkw0 = dict(run.mkw) if run.mkw is not None else {}
        return m.retrieve_point_est(model, run.df, run.id, SInt(T_), run.spec, run.nm, run.x0, run.mkw, extract_init_vals=extract if custom else None, **kw)

    def post(c, out, v):
        if not v.returned(out):
            return
        call_obs(v)
        st, o = run.st, run.o
        n = 1 if kind == "mnl" else 2
        if not v.ok("%d model(s) created and fitted, in order" % n, len(st["create"]) == n and [f[0] for f in st["fit"]] == list(range(n)), str(st)[:300]):
            return
        for k, g in enumerate(st["create"]):
            v.ok("model %d on the new data" % k, g["data"] is run.df)
            v.ok("model %d uses the new observation ids" % k, g["obs_id_col"] is run.id)
            v.ok("model %d uses the original alternatives and choices" % k, g["alt_id_col"] is o["alt_id_col"] and g["choice_col"] is o["choice_col"])
        g = st["create"][0]
        own = kind == "mnl"
        v.ok("first model is an MNL", g["model_type"] == "MNL")
        v.ok("MNL has the %s specification" % ("model's own" if own else "given"), g["specification"] is (o["specification"] if own else run.spec))
        v.ok("MNL has the %s names" % ("model's own" if own else "given"), g["names"] is (o["name_spec"] if own else run.nm))
        f = st["fit"][0]
        if run.x0 is not None:
            check = f[1] is run.x0
            v.ok("MNL starts from the given values", check)
        else:
            if own:
                v.array("MNL starts from zeros", f[1], (T_,), lambda ix: ZERO)
            else:
                v.ok("MNL starts from the given values", f[1] is None)
        want = dict(run.mkw0, just_point=True)
        want.setdefault("method", "BFGS")
        v.ok("MNL fitted with its options, point only", f[2] == want, str(f[2]))
        if n == 2:
            g = st["create"][1]
            v.ok("model re-created with its own type", g["model_type"] == TYPES[kind], str(g["model_type"]))
            v.ok("model re-created with its own specification", g["specification"] is o["specification"])
            for a, b in (("names", "name_spec"), ("intercept_names",) * 2, ("intercept_ref_pos", "intercept_ref_position"), ("shape_names",) * 2,
                         ("shape_ref_pos", "shape_ref_position"), ("nest_spec",) * 2, ("mixing_vars",) * 2, ("mixing_id_col",) * 2):
                v.ok("model re-created with its own " + b, g[a] is o[b])
            f = st["fit"][1]
            v.ok("model starts from the derived values", f[1] is st["start"])
            v.ok("model fitted with the given options", f[2] == run.kw, str(f[2]))
        v.ok("returns the model's estimate", out[1] is st["res"])
    S.verify(BM + "retrieve_point_est", "type=%s custom starting values=%s MNL start given=%s" % (TYPES[kind], custom, given), Facts(), run, post)


# ------------------------------------------------------- replicates
class RW(object):
    """a model with data, parameters and replicates"""

    STALE = False        # the object holds the results of an earlier call

    def __init__(self):
        self.stale = RW.STALE
        self.w_ = DW()
        self.f = self.w_.f
        self.T, self.R = dim("T"), dim("R")

    def boot(self, kind="mnl", parts=()):
        w = self.w = World()
        m = self.m = w.load("bootstrap")
        df = self.df = self.w_.frame(["a"])
        self.mark = {k: Mark(k) for k in ("specification", "name_spec")}
        self.model = Opaque("model", data=df, obs_id_col="obs", alt_id_col="alt", choice_col="choice", alt_IDs=df.cols["alt"], choices=df.cols["choice"],
                            model_type=DISPLAY[kind], **self.mark)
        self.dims = OrderedDict((p, dim("n_" + p)) for p in ("nest", "shape", "intercept") if p in parts)
        self.K = dim("K")
        for p in ("nest", "shape", "intercept"):
            self.model.__dict__[p + "_names"] = names(p, self.dims[p]) if p in self.dims else None
        self.model.__dict__["ind_var_names"] = names("index", self.K)
        self.total = iadd(*(list(self.dims.values()) + [self.K]))
        b = object.__new__(m.Boot)
        b.model_obj = self.model
        self.names = names("par", self.total)
        self.mle = sym_array("mle", (self.total,))
        b.mle_params = PSeries(self.mle, self.names)
        if self.stale:
            for a in ("bootstrap", "jackknife"):
                setattr(b, a + "_replicates", PFrame(sym_array("old:reps:" + a, (self.R, self.total)), None, self.names))
                setattr(b, a + "_log_likelihoods", PSeries(sym_array("old:ll:" + a, (self.R,)), None, a + "_log_likelihoods"))
        self.b = b
        return b

    def bufs(self):
        return self.w_.b0 + [self.mle.buf]


def init_boot(S):
    for parts in ((), ("intercept",), ("shape",), ("shape", "intercept"), ("nest",)):
        rw = RW()

        def run():
            rw.boot("mnl", parts)
            return rw.m.Boot(rw.model, rw.mle)

        def post(c, out, v):
            if not v.returned(out):
                return
            x = getattr(out[1], "mle_params", None)
            if not v.ok("estimates stored with labels", isinstance(x, PSeries)):
                return
            want = names("index", rw.K)
            for p in ("intercept", "shape", "nest"):
                if p in rw.dims:
                    want = names(p, rw.dims[p]) + want
            v.ok("labels: nests, shapes, intercepts, index coefficients", same_parts(x.index.names, want))
            v.array("estimates stored in order", x.values, (rw.total,), lambda ix: app("mle", ix[0]))
            v.ok("the model is kept", out[1].model_obj is rw.model)
            for p in ("intercept", "shape", "nest"):
                if p in rw.dims:
                    v.ok("frame: the model's %s names are unchanged" % p, same_parts(getattr(rw.model, p + "_names"), names(p, rw.dims[p])))
            v.ok("frame: the model's index names are unchanged", same_parts(rw.model.ind_var_names, names("index", rw.K)))
        S.verify(BT + "Boot.__init__", "parts=%s" % (parts,), rw.f, run, post)


def options(rw, with_mnl):
    o = {k: Mark(k) for k in ("mnl_init_vals", "mnl_fit_kwargs", "extract_init_vals", "loss_tol", "gradient_tol", "maxiter", "ridge", "constrained_pos")}
    o["print_res"], o["method"] = False, "L-BFGS-B"
    rw.mnl = Opaque("mnl", specification=Mark("mnl spec"), name_spec=Mark("mnl names")) if with_mnl else None
    o["mnl_obj"] = rw.mnl
    rw.o = o
    return o


def est_stub(rw, real, data_ok, row_of):
    """retrieve_point_est by contract: an estimate determined by the data"""
    sig = inspect.signature(real)

    def stub(*a, **k):
        try:
            g = sig.bind(*a, **k)
        except TypeError:
            flag("call-site: arguments of retrieve_point_est")
            return {"x": sym_array("est", (rw.total,))}
        g.apply_defaults()
        x = g.arguments
        o = rw.o
        flag("replicate of the model itself", x["orig_model_obj"] is rw.model)
        row = data_ok(x["new_df"])
        flag("replicate's id column", x["new_id_col"] == rw.idcol)
        flag("number of parameters", isinstance(x["num_params"], (int, SInt)) and tint(x["num_params"]) is rw.total)
        flag("MNL specification and names passed on", x["mnl_spec"] is (rw.mnl.specification if rw.mnl else None) and x["mnl_names"] is (rw.mnl.name_spec if rw.mnl else None))
        for n in ("mnl_init_vals", "mnl_fit_kwargs", "extract_init_vals"):
            flag("%s passed on" % n, x[n] is o[n])
        fk = x["fit_kwargs"]
        flag("fit options passed on", set(fk) == {"print_res", "method", "loss_tol", "gradient_tol", "maxiter", "ridge", "constrained_pos", "just_point"}
             and all(fk[q] is o[q] or fk[q] == o[q] for q in fk if q != "just_point") and fk["just_point"] is True)
        return {"x": Arr.fresh((rw.total,), lambda ix: app("est", row, ix[0]), "f")}
    return stub


def bootstrap_reps(S, with_mnl):
    rw = RW()
    R = rw.R

    def run():
        b = rw.boot()
        bs = rw.w.load("bootstrap_sampler")
        o = options(rw, with_mnl)
        rw.idcol = None
        L = dim("L")
        st = run.st = {"ids": [], "seed": Mark("seed")}
        st["dict"] = Mark("rows by id")

        def sample(obs_id_array, alt_id_array, choice_array, num_samples, seed=None):
            check_arg("sampling: observation ids", obs_id_array, rw.df.cols["obs"])
            check_arg("sampling: alternatives", alt_id_array, rw.df.cols["alt"])
            check_arg("sampling: choices", choice_array, rw.df.cols["choice"])
            flag("sampling: number of samples", isinstance(num_samples, SInt) and tint(num_samples) is R)
            flag("sampling: seed", seed is st["seed"])
            st["ids"].append(1)
            return sym_array("ids", (R, L))

        def group(orig_df, obs_id_col):
            flag("rows by id of the model's data", orig_df is rw.df and obs_id_col == "obs")
            return st["dict"]

        def frame(orig_df, obs_id_col, resampled_obs_ids_1d, groupby_dict, boot_id_col="bootstrap_id"):
            flag("resample of the model's data", orig_df is rw.df and obs_id_col == "obs")
            flag("resample by the rows of each id", groupby_dict is st["dict"])
            ids = asarr(resampled_obs_ids_1d)
            k = fresh_iv(L, "k")
            t = ids.rel((k,)) if len(ids.dims) == 1 else None
            if t is None or t.op != "app" or t.args[0] != "ids" or t.args[1][1] is not k:
                flag("data of one whole sample")
                return Opaque("resample", row=icst(0), col=boot_id_col)
            rw.idcol = boot_id_col
            return Opaque("resample", row=t.args[1][0])
        for n, f in (("create_cross_sectional_bootstrap_samples", sample), ("create_deepcopied_groupby_dict", group), ("create_bootstrap_dataframe", frame)):
            replace(list(rw.w.mods.values()), getattr(bs, n), f)
        m = rw.m

        def data_ok(df):
            ok = isinstance(df, Opaque) and "row" in df.__dict__
            flag("replicate on a resampled data set", ok)
            return df.row if ok else icst(0)
        replace(list(rw.w.mods.values()), rw.w.load("bootstrap_mle").retrieve_point_est, est_stub(rw, rw.w.load("bootstrap_mle").retrieve_point_est, data_ok, None))
        b.generate_bootstrap_replicates(SInt(R), boot_seed=st["seed"], **o)
        return b

    def post(c, out, v):
        if not v.returned(out):
            return
        call_obs(v)
        v.ok("sampled once", len(run.st["ids"]) == 1)
        x = getattr(out[1], "bootstrap_replicates", None)
        if v.ok("replicates stored in a frame", isinstance(x, PFrame)):
            v.ok("columns are the parameters", same_parts(x.columns.names, rw.names))
            v.array("j-th replicate is the estimate of the j-th sample", x.values, (R, rw.total), lambda ix: app("est", ix[0], ix[1]))
        v.unchanged("data and estimates not written", rw.bufs())
        v.ok("frame: no column added", not rw.df.added)
    S.verify(BT + "Boot.generate_bootstrap_replicates", "MNL given=%s" % with_mnl, rw.f, run, post)


def jackknife_reps(S, with_mnl):
    rw = RW()
    O = rw.w_.O

    def run():
        b = rw.boot()
        o = options(rw, with_mnl)
        rw.idcol = "obs"

        def data_ok(df):
            if not isinstance(df, DSel) or df.df is not rw.df:
                flag("replicate on rows of the model's data")
                return icst(0)
            flag("no column changed", not df.add)
            i = fresh_iv(rw.w_.N, "i")
            c = df.mask((i,))
            # every row but those of one id
            if c.op == "not" and c.args[0].op == "ieq":
                r = ifn("rk:obs", [i], O)
                rest = [x for x in c.args[0].args if x is not r]
                if len(rest) == 1 and i not in rest[0].ivs:
                    return rest[0]
            flag("exactly the rows of one observation removed")
            return icst(0)
        rp = rw.w.load("bootstrap_mle").retrieve_point_est
        replace(list(rw.w.mods.values()), rp, est_stub(rw, rp, data_ok, None))
        b.generate_jackknife_replicates(**o)
        return b

    def post(c, out, v):
        if not v.returned(out):
            return
        call_obs(v)
        x = getattr(out[1], "jackknife_replicates", None)
        if v.ok("replicates stored in a frame", isinstance(x, PFrame)):
            v.ok("columns are the parameters", same_parts(x.columns.names, rw.names))
            v.array("i-th replicate omits the i-th observation in id order", x.values, (O, rw.total), lambda ix: app("est", ix[0], ix[1]))
        v.unchanged("data and estimates not written", rw.bufs())
        v.ok("frame: no column added", not rw.df.added)
    S.verify(BT + "Boot.generate_jackknife_replicates", "MNL given=%s" % with_mnl, rw.f, run, post)


PARTS = {"mnl": [()], "asym": [("shape",), ("shape", "intercept")], "clog": [(), ("intercept",)], "scobit": [("shape",), ("shape", "intercept")],
         "uneven": [("shape",), ("shape", "intercept")], "nested": [("nest",)], "mixed": [()]}


def layout(rw, t, part):
    """offset of a part in the parameter vector"""
    off = icst(0)
    for p in ("nest", "shape", "intercept"):
        if p == part:
            return off
        if p in rw.dims:
            off = iadd(off, rw.dims[p])
    return off


def param_list(S, parts):
    rw = RW()

    def run():
        rw.boot("mnl", parts)
        run.reps = sym_array("reps", (rw.R, rw.total))
        return rw.m.get_param_list_for_prediction(rw.model, run.reps)

    def post(c, out, v):
        if not v.returned(out):
            return
        l = out[1]
        if not v.ok("list of four", isinstance(l, list) and len(l) == 4):
            return
        for x, p in zip(l, ("index", "intercept", "shape", "nest")):
            if p != "index" and p not in rw.dims:
                v.ok("%s parameters absent" % p, x is None)
                continue
            n = rw.K if p == "index" else rw.dims[p]
            off = layout(rw, None, p)
            v.array("%s parameters, one column per replicate" % p, x, (n, rw.R), lambda ix: app("reps", ix[1], iadd(ix[0], off)))
        v.unchanged("replicates not written", [run.reps.buf])
    S.verify(BT + "get_param_list_for_prediction", "parts=%s" % (parts,), rw.f, run, post)


def log_likes(S, kind, parts, which):
    """sum over observations of log predicted probability of the choice"""
    rw = RW()
    O = rw.w_.O

    def run():
        b = rw.boot(kind, parts)
        st = run.st = {"draws": Mark("draws"), "seed": Mark("seed"), "n": 0}
        run.reps = sym_array("reps", (rw.R, rw.total))
        setattr(b, which + "_replicates", PFrame(run.reps, None, rw.names))
        setattr(b, {"bootstrap": "jackknife", "jackknife": "bootstrap"}[which] + "_replicates", None)

        def predict(data, param_list=None, return_long_probs=True, choice_col=None, num_draws=None, seed=None):
            flag("predicts the model's data", data is rw.df)
            flag("predicts chosen probabilities", return_long_probs is False and choice_col == "choice")
            if kind == "mixed":
                flag("draws and seed passed on", num_draws is st["draws"] and seed is st["seed"])
            if not (isinstance(param_list, list) and len(param_list) == 4):
                flag("list of four parameter arrays")
                return sym_array("pr", (O,))
            row = None
            two = len(asarr(param_list[0]).dims) == 2
            if kind in ("nested", "mixed"):
                flag("one replicate at a time", not two)
            for x, p in zip(param_list, ("index", "intercept", "shape", "nest")):
                if p != "index" and p not in rw.dims:
                    flag("%s parameters absent" % p, x is None)
                    continue
                if x is None:
                    flag("%s parameters given" % p)
                    continue
                n = rw.K if p == "index" else rw.dims[p]
                k = fresh_iv(n, "k")
                if len(x.dims) != (2 if two else 1):
                    flag("parameter arrays alike")
                    continue
                r = fresh_iv(rw.R, "r") if two else None
                t = x.rel((k, r) if two else (k,))
                good = t.op == "app" and t.args[0] == "reps" and ctx().norm().idecide(ieq(t.args[1][1], iadd(k, layout(rw, None, p)))).op == "true" \
                    and ctx().norm().idecide(ieq(x.dims[0], n)).op == "true"
                flag("%s parameters of the replicate" % p, good)
                if good:
                    q = t.args[1][0]
                    if two:
                        flag("one column per replicate", q is r and ctx().norm().idecide(ieq(x.dims[1], rw.R)).op == "true")
                    elif row is not None:
                        flag("all parts of the same replicate", q is row)
                    else:
                        row = q
            if two:
                return Arr.fresh((O, rw.R), lambda ix: app("pr", ix[1], ix[0]), "f")
            row = row if row is not None else icst(0)
            return Arr.fresh((O,), lambda ix: app("pr", row, ix[0]), "f")
        rw.model.__dict__["predict"] = predict
        kw = dict(num_draws=st["draws"], seed=st["seed"]) if kind == "mixed" else {}
        return b, b.calc_log_likes_for_replicates(replicates=which, **kw)

    def post(c, out, v):
        if not v.returned(out):
            return
        call_obs(v)
        b, ll = out[1]

        def spec(ix):
            o = fresh_iv(O, "o")
            return sum_(o, log(app("pr", ix[0], o)))
        v.array("log-likelihood of each replicate", ll, (rw.R,), spec)
        x = getattr(b, which + "_log_likelihoods", None)
        if v.ok("stored", isinstance(x, PSeries)):
            v.array("stored log-likelihoods", x.values, (rw.R,), spec)
        v.unchanged("replicates not written", rw.bufs() + [run.reps.buf])
    S.verify(BT + "Boot.calc_log_likes_for_replicates", "type=%s parts=%s %s" % (TYPES[kind], parts, which), rw.f, run, post)


def grad_norms(S, which, derivs):
    rw = RW()

    def run():
        b = rw.boot()
        run.reps = sym_array("reps", (rw.R, rw.total))
        setattr(b, which + "_replicates", PFrame(run.reps, None, rw.names))
        o = {k: Mark(k) for k in ("ridge", "constrained_pos", "weights")}
        real = rw.w.load("construct_estimator").create_estimation_obj
        sig = inspect.signature(real)
        st = run.st = {"deriv": 0}

        def create(*a, **k):
            g = sig.bind(*a, **k)
            g.apply_defaults()
            x = g.arguments
            flag("estimator of the model", x["model_obj"] is rw.model and x["mappings"] is None)
            check_arg("estimator's parameters", x["init_vals"], rw.mle)
            for n in o:
                flag("estimator's " + n, x[n] is o[n])

            def grad(p):
                if derivs:
                    flag("derivatives set before the gradient", st["deriv"] > 0)
                p = asarr(p)
                k = fresh_iv(rw.total, "k")
                t = p.rel((k,)) if len(p.dims) == 1 else ONE
                ok = t.op == "app" and t.args[0] == "reps" and t.args[1][1] is k
                flag("gradient at a replicate", ok)
                row = t.args[1][0] if ok else icst(0)
                return Arr.fresh((rw.total,), lambda ix: app("grad", row, ix[0]), "f")
            kw = {"convenience_calc_gradient": grad}
            if derivs:
                kw["set_derivatives"] = lambda: st.__setitem__("deriv", st["deriv"] + 1)
            return Est(kw)
        replace(list(rw.w.mods.values()), real, create)
        return b.calc_gradient_norm_for_replicates(replicates=which, **o)

    def post(c, out, v):
        if not v.returned(out):
            return
        call_obs(v)

        def spec(ix):
            k = fresh_iv(rw.total, "k")
            return pow_(sum_(k, mul(app("grad", ix[0], k), app("grad", ix[0], k))), num(Fraction(1, 2)))
        v.array("norm of the gradient at each replicate", out[1], (rw.R,), spec)
        v.unchanged("replicates not written", rw.bufs() + [run.reps.buf])
    S.verify(BT + "Boot.calc_gradient_norm_for_replicates", "%s derivatives to set=%s" % (which, derivs), rw.f, run, post)


class Est(object):
    def __init__(self, kw):
        self.__dict__.update(kw)


# ------------------------------------------------------- intervals of a Boot
KIND_OF = {"pi": "percentile_interval", "bca": "bca_interval", "abc": "abc_interval"}


def intervals(S, kinds, label, conf=None, stale=False):
    """Boot.calc_conf_intervals: the endpoints of each parameter, computed from
    this object's own replicates and estimates, under that parameter's name"""
    rw = RW()
    conf_t = app("conf") if conf is None else num(Fraction(conf))
    rw.f.assume += [lt(ZERO, app("conf")), lt(app("conf"), num(100))]
    one = {"pi": "calc_percentile_interval", "bca": "calc_bca_interval", "abc": "calc_abc_interval"}

    def run():
        b = rw.boot()
        n = rw.total
        w = rw.w
        bc, abc = w.load("bootstrap_calcs"), w.load("bootstrap_abc")
        mods = list(w.mods.values())
        q = SReal(app("conf")) if conf is None else conf
        B, Jk = sym_array("B", (rw.R, n)), sym_array("Jk", (dim("Q"), n))
        b.bootstrap_replicates, b.jackknife_replicates = PFrame(B, None, rw.names), PFrame(Jk, None, rw.names)
        for a in ("percentile_interval", "bca_interval", "abc_interval", "all_intervals"):
            # intervals of an earlier call, at another level, may be stored already
            setattr(b, a, PFrame(sym_array("old:" + a, (n, icst(2))), rw.names, ["1%", "99%"]) if stale and a != "all_intervals" else None)
        x0, e, rid = sym_array("x0", (n,)), SReal(app("eps")), Mark("ridge")
        run.bufs = rw.bufs() + [B.buf, Jk.buf, x0.buf]
        seen = run.seen = []

        def res(tag):
            seen.append(tag)
            return sym_array("ci:" + tag, (icst(2), n))

        def pi(bootstrap_replicates, conf_percentage):
            check_arg("percentile interval: replicates", bootstrap_replicates, B)
            check_arg("percentile interval: confidence level", conf_percentage, q)
            return res("pi")

        def bca(bootstrap_replicates, jackknife_replicates, mle_params, conf_percentage):
            check_arg("BCa interval: bootstrap replicates", bootstrap_replicates, B)
            check_arg("BCa interval: jackknife replicates", jackknife_replicates, Jk)
            check_arg("BCa interval: estimates", mle_params, rw.mle)
            check_arg("BCa interval: confidence level", conf_percentage, q)
            return res("bca")

        def abci(model_obj, mle_params, init_vals, conf_percentage, epsilon=0.001, **k):
            flag("ABC interval: the model", model_obj is rw.model)
            check_arg("ABC interval: estimates", mle_params, rw.mle)
            check_arg("ABC interval: starting values", init_vals, x0)
            check_arg("ABC interval: confidence level", conf_percentage, q)
            check_arg("ABC interval: epsilon", epsilon, e)
            flag("ABC interval: options passed on", set(k) == {"ridge", "maxiter"} and k["ridge"] is rid and k["maxiter"] == 9)
            return res("abc")
        replace(mods, bc.calc_percentile_interval, pi)
        replace(mods, bc.calc_bca_interval, bca)
        replace(mods, abc.calc_abc_interval, abci)
        kw = dict(ridge=rid, maxiter=9)
        if kinds == "direct":
            b.calc_percentile_interval(q)
            b.calc_bca_interval(q)
            b.calc_abc_interval(q, x0, epsilon=e, **kw)
        elif kinds in ("pi", "bca"):
            b.calc_conf_intervals(q, interval_type=kinds)
        else:
            b.calc_conf_intervals(q, interval_type=kinds, init_vals=x0, epsilon=e, **kw)
        return b

    def post(c, out, v):
        if not v.returned(out):
            return
        call_obs(v)
        b, n = out[1], rw.total
        half_ = (100 - conf) / 2.0 if conf is not None else None
        ends = ["{:.3g}%".format(half_), "{:.3g}%".format(100 - half_)] if conf is not None else None
        ks = [kinds] if kinds in one else ["pi", "bca", "abc"]
        v.ok("each interval computed once", sorted(run.seen) == sorted(ks), str(run.seen))
        for k in ks:
            x = getattr(b, KIND_OF[k])
            if not v.ok("%s stored as a frame" % KIND_OF[k], isinstance(x, PFrame)):
                continue
            v.array("%s: lower and upper endpoint of each parameter" % KIND_OF[k], x.values, (n, icst(2)), lambda ix: app("ci:" + k, ix[1], ix[0]))
            v.ok("%s: rows carry the parameter names" % KIND_OF[k], same_parts(x.index.names, rw.names))
            if ends:
                v.ok("%s: columns carry the percentages" % KIND_OF[k], x.columns.raw == ends, str(x.columns.raw))
        if kinds == "all":
            x = b.all_intervals
            if v.ok("all intervals stored as a frame", isinstance(x, PFrame)):
                def spec(ix):
                    r = ZERO
                    for a, k in enumerate(ks):
                        for s in (0, 1):
                            r = ite(ieq(ix[1], icst(2 * a + s)), app("ci:" + k, icst(s), ix[0]), r)
                    return r
                v.array("all intervals: the endpoints of each kind", x.values, (n, icst(6)), spec)
                v.ok("all intervals: rows carry the parameter names", same_parts(x.index.names, rw.names))
                if ends:
                    want = [(a, e) for a in ("percentile_interval", "BCa_interval", "ABC_interval") for e in ends]
                    v.ok("all intervals: columns carry kind and percentage", list(getattr(x.columns, "tuples", [])) == want)
        v.unchanged("replicates and estimates not written", run.bufs)
    fn = "Boot.calc_conf_intervals" if kinds != "direct" else "Boot.calc_percentile_interval, calc_bca_interval, calc_abc_interval"
    S.verify(BT + fn, label, rw.f, run, post)


def boot_intervals(S, kinds):
    for k in kinds:
        intervals(S, k, "interval_type=%s" % k)
        intervals(S, k, "interval_type=%s conf=95" % k, 95)
        intervals(S, k, "interval_type=%s conf=71.4, after an earlier call" % k, 71.4, True)
    intervals(S, kinds[0], "interval_type=%s conf=99.5" % kinds[0], 99.5)


class Again(object):
    """the same contracts for an object that already holds earlier results"""

    def __init__(self, S):
        self.S = S

    def verify(self, fn, label, *a, **k):
        return self.S.verify(fn, label + " after an earlier call", *a, **k)

    def __enter__(self):
        RW.STALE = True
        return self

    def __exit__(self, *a):
        RW.STALE = False


def P26(S):
    with Again(S) as S2:
        bootstrap_reps(S2, False)
        jackknife_reps(S2, True)
        for kind, ps in PARTS.items():
            for which in ("bootstrap", "jackknife"):
                log_likes(S2, kind, ps[-1], which)
        for which in ("bootstrap", "jackknife"):
            grad_norms(S2, which, True)
    for kind in TYPES:
        if kind == "mnl":
            continue
        mixing = kind == "mixed"
        for it in ((False, True) if kind not in ("nested", "mixed") else (False,)):
            for order in ((0, 1) if it else (0,)):
                start(S, kind, it, order, mixing)
    start_exact(S)
    for kind in TYPES:
        for custom in ((False, True) if kind != "mnl" else (False,)):
            for given in (True, False):
                point(S, kind, custom, given)
    init_boot(S)
    for m in (True, False):
        bootstrap_reps(S, m)
        jackknife_reps(S, m)
    for parts in ((), ("intercept",), ("shape",), ("shape", "intercept"), ("nest",), ("nest", "shape", "intercept")):
        param_list(S, parts)
    for kind, ps in PARTS.items():
        for p in ps:
            for which in ("bootstrap", "jackknife"):
                log_likes(S, kind, p, which)
    for which in ("bootstrap", "jackknife"):
        for d in (True, False):
            grad_norms(S, which, d)
