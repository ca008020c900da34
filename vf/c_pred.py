"""Contracts for prediction (P21): MNDC_Model.predict."""
from collections import OrderedDict
import inspect
from .vc import *
from .pdshim import DF, idcol, SNames, PSeries
from .c_logit import call_obs
from .c_est import Opaque, check_arg, expecting, flag, replace, same_value, KINDS
from .c_fit import bare_model, names, MODELS, MODULE, BASE
from .c_type import DISPLAY, TYPES
from .c_data import DW

FN = BASE + ".MNDC_Model.predict"


class PW(DW):
    """new data (N rows, O observations, ...) and a model fitted on other data"""

    def __init__(self, kind, shapes, intercepts, params, choice, long, icept=False, own=False):
        DW.__init__(self)
        self.kind, self.shapes, self.its, self.params, self.choice, self.long, self.icept = kind, shapes, intercepts, params, choice, long, icept
        self.K, self.M, self.R, self.Q = dim("K"), dim("M"), dim("R"), dim("Q")
        self.V, self.own = 2, own
        self.Kc = iadd(self.K, self.V) if kind == "mixed" else self.K

    def maps(self):
        N = self.N
        d = {}
        d["rows_to_obs"] = Sp((N, self.O), lambda ix: iv01(self.obs_at(*ix)), "f", "csr", tag="rows_to_obs")
        d["rows_to_alts"] = Sp((N, self.J), lambda ix: iv01(self.alt_at(*ix)), "f", "csr", tag="rows_to_alts")
        d["rows_to_mixers"] = Sp((N, self.B), lambda ix: iv01(self.mix_at(*ix)), "f", "csr", tag="rows_to_mixers") if self.kind == "mixed" else None
        d["rows_to_nests"] = onehot((N, self.Q), lambda i: ifn("nest", [i], self.Q), tag="rows_to_nests") if self.kind == "nested" else None
        d["chosen_row_to_obs"] = Sp((N, self.O), lambda ix: mul(app("y", ix[0]), iv01(self.obs_at(*ix))), "f", "csr", tag="chosen") if self.choice else None
        return d

    def run(self):
        w = World()
        base = w.load(BASE)
        ct = w.load("choice_tools")
        cc, nc, mlc = w.load("choice_calcs"), w.load("nested_choice_calcs"), w.load("mixed_logit_calcs")
        df = self.frame(["a"])
        N2 = dim("N2")
        old = DF(N2, OrderedDict((c, sym_array("old_" + c, (N2,))) for c in ("obs", "alt", "mix", "choice", "a")))
        spec = OrderedDict([("intercept", "all_same"), ("a", "all_same")] if self.icept else [("a", "all_same")])
        nm = OrderedDict([("a", "a")])
        nests = OrderedDict([("n1", [2]), ("n0", [1])]) if self.kind == "nested" else None
        trans = lambda *a, **k: (_ for _ in ()).throw(Unsupported("utility transform called"))
        mixed = self.kind == "mixed"
        vec = lambda n, t: PSeries(sym_array("s_" + n, (t,)), names(n, t))
        mp = [SInt(ifn("mp%d" % k, [], self.K)) for k in range(self.V)]
        oldmaps = {k: Opaque("old mapping") for k in ("rows_to_obs", "rows_to_alts", "chosen_row_to_obs", "rows_to_nests", "rows_to_mixers")}
        S_, I_ = dim("S"), dim("I")
        m = self.m = bare_model(
            base, base.MNDC_Model, specification=spec, name_spec=nm, alt_id_col="alt", obs_id_col="obs", choice_col="choice_old",
            mixing_id_col="mix" if mixed else None, mixing_vars=["v0", "v1"] if mixed else None, mixing_pos=mp if mixed else None,
            nest_spec=nests, nest_names=["n1", "n0"] if nests else None, model_type=DISPLAY[self.kind], utility_transform=trans,
            ind_var_names=names("index", self.Kc), intercept_names=names("intercept", I_) if self.its else None,
            shape_names=names("shape", S_) if self.shapes else None,
            # own: the model's own frame, whose values may have changed since the fit
            data=df if self.own else old, design=sym_array("Xold", (N2, self.K)), alt_IDs=sym_array("altold", (N2,)), choices=sym_array("yold", (N2,)),
            design_3d=sym_array("X3old", (N2, self.R, self.Kc)), intercept_ref_position=None, shape_ref_position=None,
            coefs=vec("coefs", self.Kc), intercepts=vec("intercepts", I_) if self.its else None,
            shapes=vec("shapes", S_) if self.shapes else None, nests=vec("nests", self.Q) if nests else None)
        m.get_mappings_for_fit = lambda dense=False: oldmaps
        m.check_param_list_validity = lambda p: None       # P27
        mp_ = self.mp = self.maps()
        X = sym_array("X", (self.N, self.K))
        st = self.st = {"n": 0}
        tail = (self.M,) if self.params == "2d" else ()
        if self.params is None:
            par = {k: getattr(m, k).values if getattr(m, k) is not None else None for k in ("coefs", "intercepts", "shapes", "nests")}
            plist = None
        else:
            par = {k: sym_array("p_" + k, (t,) + tail) if on else None
                   for k, t, on in (("coefs", self.Kc, True), ("intercepts", I_, self.its), ("shapes", S_, self.shapes), ("nests", self.Q, nests))}
            plist = [par["coefs"], par["intercepts"], par["shapes"], par["nests"]]
        self.plist, self.keep = plist, list(plist) if plist else None
        mods = list(w.mods.values())

        def design(long_form, specification_dict, alt_id_col, names=None):
            flag("design of the supplied data", long_form is df)
            flag("design follows the model's specification and names", specification_dict is spec and names is nm)
            flag("design uses the model's alternative id column", alt_id_col == "alt")
            if self.icept:
                flag("intercept column present in the supplied data", "intercept" in df.cols)
            return X, Opaque("names")
        replace(mods, ct.create_design_matrix, design)

        def mappings(long_form, obs_id_col, alt_id_col, choice_col=None, nest_spec=None, mix_id_col=None, dense=False):
            flag("mappings of the supplied data", long_form is df)
            flag("mappings use the model's id columns", obs_id_col == "obs" and alt_id_col == "alt" and (not mixed or mix_id_col == "mix"))
            flag("mappings use the supplied choice column", choice_col == ("choice" if self.choice else None))
            flag("mappings use the model's nests", nest_spec is nests)
            if dense:
                raise Unsupported("dense mappings")
            return mp_
        replace(mods, ct.create_long_form_mappings, mappings)
        cp = (self.O,) + (tail or ((self.R,) if mixed else ()))
        lp = (self.N,) + (tail or ((self.R,) if mixed else ()))
        want = dict(beta=par["coefs"], design=X, alt_IDs=self.df.cols["alt"], rows_to_obs=mp_["rows_to_obs"], rows_to_alts=mp_["rows_to_alts"],
                    utility_transform=trans, intercept_params=par["intercepts"], shape_params=par["shapes"], chosen_row_to_obs=mp_["chosen_row_to_obs"],
                    return_long_probs=self.long, nest_coefs=sym_array("natural", (self.Q,)), index_coefs=par["coefs"], rows_to_nests=mp_["rows_to_nests"])
        if mixed:
            X3 = want["design"] = sym_array("X3", (self.N, self.R, self.Kc))

            def draws(num_mixers, num_draws, num_vars, seed=None):
                check_arg("number of decision makers drawn for", num_mixers, SInt(self.B))
                check_arg("number of draws", num_draws, SInt(self.R))
                check_arg("number of mixed variables drawn for", num_vars, self.V)
                flag("seed passed on", seed == 17)
                st["draws"] = [sym_array("Z%d" % k, (self.B, self.R)) for k in range(self.V)]
                return st["draws"]
            replace(mods, mlc.get_normal_draws, draws)

            def expand(design, draw_list, mixing_pos, rows_to_mixers):
                check_arg("design expanded", design, X)
                flag("draws used for the expansion", len(draw_list) == self.V and all(a is b for a, b in zip(draw_list, st["draws"])))
                flag("positions of the mixed variables", [tint(x) for x in mixing_pos] == [tint(x) for x in mp])
                check_arg("rows_to_mixers", rows_to_mixers, mp_["rows_to_mixers"])
                return X3
            replace(mods, mlc.create_expanded_design_for_mixing, expand)

        def probs(g):
            st["n"] += 1
            L, C = sym_array("lp", lp), sym_array("cp", cp)
            if g["return_long_probs"]:
                return (C, L) if g["chosen_row_to_obs"] is not None else L
            return C
        if self.kind == "nested":
            def nat(nest_coefs):
                check_arg("estimated nest parameters", nest_coefs, par["nests"])
                return want["nest_coefs"]
            replace(mods, nc.naturalize_nest_coefs, nat)
            real = nc.calc_nested_probs
            sig = inspect.signature(real)

            def nested(*a, **k):
                g = sig.bind(*a, **k)
                g.apply_defaults()
                st["n"] += 1
                for n, x in g.arguments.items():
                    if n == "return_type":
                        continue
                    if n == "chosen_row_to_obs" and g.arguments["return_type"] == "long_probs":
                        continue
                    if n in want:
                        check_arg(n, x, want[n])
                    elif x:
                        raise Unsupported("argument " + n)
                r = {"long_probs": sym_array("lp", lp), "chosen_probs": sym_array("cp", cp)}
                t = g.arguments["return_type"]
                if t in r:
                    return r[t]
                if t == "long_and_chosen_probs":
                    return r["chosen_probs"], r["long_probs"]
                raise Unsupported("return type %s" % t)
            replace(mods, real, nested)
        else:
            real = cc.calc_probabilities
            # chosen rows and long output are independent requests: any superset
            # of the requested output is acceptable to the callee contract
            sig = inspect.signature(real)

            def p(*a, **k):
                g = sig.bind(*a, **k)
                g.apply_defaults()
                g = g.arguments
                for n, x in g.items():
                    if n == "return_long_probs":
                        continue
                    if n == "chosen_row_to_obs" and x is None:
                        continue
                    check_arg(n, x, want[n])
                return probs(g)
            replace(mods, real, p)
        kw = dict(num_draws=SInt(self.R), seed=17) if mixed else {}
        return m.predict(df, param_list=plist, return_long_probs=self.long, choice_col="choice" if self.choice else None, **kw)


def predict(S, kind, shapes=False, intercepts=False, params=None, choice=True, long=True, icept=False, own=False):
    p = PW(kind, shapes, intercepts, params, choice, long, icept, own)

    def post(c, out, v):
        if not choice and not long:
            v.raises(out, ValueError)
            return
        if not v.returned(out):
            return
        call_obs(v)
        tail = (p.M,) if params == "2d" else ()

        def val(name, n):
            if kind != "mixed":
                return sym_array(name, (n,) + tail)
            r = lambda i: sum_over(p.R, lambda k: app(name, i, k))
            return Arr.fresh((n,), lambda ix: div(r(ix[0]), i2r(p.R)), "f")
        L, C = val("lp", p.N), val("cp", p.O)
        if kind == "nested":
            same_value(v, "long probabilities" if long else "chosen probabilities", out[1], L if long else C)
        elif long and choice:
            same_value(v, "chosen and long probabilities", tuple(out[1]) if isinstance(out[1], (list, tuple)) else out[1], (C, L))
        else:
            same_value(v, "long probabilities" if long else "chosen probabilities", out[1], L if long else C)
        v.unchanged("supplied data not written", p.b0)
        v.ok("frame: no column added but a missing intercept", p.df.added == (["intercept"] if icept else []), str(p.df.added))
        if icept:
            v.array("intercept column", p.df.cols["intercept"], (p.N,), lambda ix: ONE)
        if p.plist is not None:
            v.ok("parameter list unchanged", len(p.plist) == 4 and all(a is b for a, b in zip(p.plist, p.keep)))
            v.unchanged("parameters not written", [x.buf for x in p.keep if x is not None])
    S.verify(FN, "%s shapes=%s intercepts=%s parameters=%s choice=%s long=%s%s" % (
        TYPES[kind], shapes, intercepts, params or "stored", choice, long, " missing intercept" if icept else " on the model's own frame" if own else ""), p.f, p.run, post)


def P21(S):
    for choice, long in ((True, True), (True, False), (False, True), (False, False)):
        for par in (None, "1d", "2d"):
            predict(S, "mnl", params=par, choice=choice, long=long)
            predict(S, "asym", True, True, params=par, choice=choice, long=long)
            if par != "2d":
                predict(S, "nested", params=par, choice=choice, long=long)
                predict(S, "mixed", params=par, choice=choice, long=long)
    for kind, sh, it in (("asym", True, False), ("clog", False, False), ("clog", False, True), ("scobit", True, False), ("scobit", True, True),
                         ("uneven", True, False), ("uneven", True, True)):
        predict(S, kind, sh, it)
    for kind in TYPES:
        predict(S, kind, kind in ("asym", "scobit", "uneven"), own=True)
        predict(S, kind, kind in ("asym", "scobit", "uneven"), params="1d", choice=False, own=True)
    predict(S, "mnl", icept=True)
    predict(S, "mixed", icept=True)
    predict(S, "nested", icept=True)
