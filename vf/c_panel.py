"""Contracts for MixedLogit.panel_predict (P22)."""
from collections import OrderedDict
import inspect
from .vc import *
from .pdshim import DF, idcol, PSeries
from .shim import SELECT, selection, compress, Masked
from .c_logit import call_obs
from .c_est import Opaque, check_arg, flag, replace, same_value
from .c_fit import bare_model, names
from .c_data import DW, rk, perm
from .c_valid import prove, ERR

FN = "mixed_logit.MixedLogit.panel_predict"
FILTER = "mixed_logit.MixedLogit.__filter_past_mappings"


def both(a, b):
    return and_(or_(not_(a), b), or_(not_(b), a))


# ------------------------------------------------------------ filtering
def filter_maps(S, which):
    """mappings of the rows of some people, in order: kept rows and the
    columns they use"""
    N, C, B = dim("N2"), dim("C"), dim("B2")
    f = Facts()
    f.surj.update(("ro", "co"))
    f.binary.add("y")
    # row i belongs to column ro(i); an observation has one person, co
    pers = (lambda i: ifn("co", [ifn("ro", [i], C)], B)) if which != "people" else (lambda i: ifn("ro", [i], B))
    keep = lambda i: bapp("rep", pers(i))

    def cols():
        return B if which == "people" else C

    def entry(i, c):
        return ieq(ifn("ro", [i], B), c) if which == "people" else ieq(ifn("ro", [i], C), c)

    def run():
        w = World()
        m = w.load("mixed_logit")
        mod = bare_model(w.load("base_multinomial_cm_v2"), m.MixedLogit)
        fn = getattr(mod, "_MixedLogit__filter_past_mappings", None)
        if fn is None:
            raise Unsupported("no such helper any more")
        run.mask = Arr.fresh((N,), lambda ix: keep(ix[0]), "b", "mask")
        run.map = Sp((N, cols()), lambda ix: iv01(entry(*ix)), "f", "csr", tag="map")
        run.d = {"m": run.map, "absent": None}
        return fn(run.d, run.mask)

    def post(c, out, v):
        if not v.returned(out):
            return
        r = out[1]
        if not v.ok("same keys, absent mappings stay absent", isinstance(r, dict) and sorted(r) == ["absent", "m"] and r["absent"] is None and isinstance(r["m"], Sp)):
            return
        x = r["m"]
        want = selection(run.mask)
        i = fresh_iv(N, "i")
        if x.dims[0] is not want[0]:
            q = SELECT.get(x.dims[0])
            if not v.ok("rows: a selection of the given rows", q is not None and q[1] is N, "rows %s" % show(x.dims[0])):
                return
            prove(v, "rows: exactly the kept ones", both(q[2](i), keep(i)))
            row = lambda k, q=q: ifn("sel:" + q[0], [k], N)
        else:
            row = want[1]
        q = SELECT.get(x.dims[1])
        if not v.ok("columns: a selection of the given columns", q is not None and q[1] is cols(), "columns %s" % show(x.dims[1])):
            return
        j = fresh_iv(cols(), "c")
        has = bapp("rep", j if which == "people" else ifn("co", [j], B))
        m_ = q[2](j)
        for val in (TRUE, FALSE):
            g = c.facts().copy()
            g.assume = list(g.assume) + [has if val is TRUE else not_(has)]
            t0 = time.time()
            ok, info = Prover(g).prove_cond(m_ if val is TRUE else not_(m_))
            v.S.add(v.fn, "%s: columns: %s" % (v.label, "every column with a kept row stays" if val is TRUE else "columns without kept rows go"), ok, str(info), t=time.time() - t0)
        col = lambda k: ifn("sel:" + q[0], [k], cols())
        v.array("entries", x, x.dims, lambda ix: iv01(entry(row(ix[0]), col(ix[1]))))
        v.unchanged("mapping and mask not written", [run.mask.buf])
    S.verify(FILTER, "rows kept per person, columns are %s" % which, f, run, post)


# ------------------------------------------------------------ prediction
class PP(DW):
    """new data (N, O, J, B) and old data (N2, O2, J2, B2); two people are the
    same when their ids are equal numbers"""

    def __init__(self, choice, long, seed, icept=False, missing=None):
        DW.__init__(self)
        self.choice, self.long, self.seed, self.icept, self.missing = choice, long, seed, icept, missing
        self.N2, self.O2, self.J2, self.B2 = dim("N2"), dim("O2"), dim("J2"), dim("B2")
        self.K, self.R = dim("K"), dim("R")
        self.V = 2
        self.f.surj.update(("rk:mix", "rk:mixo"))
        self.f.pos.add("SEQ")

    def new_id(self, b):
        return app("inj:mix", perm("mix", b, self.B))

    def old_id(self, a):
        return app("inj:mixo", perm("mixo", a, self.B2))

    def run(self):
        w = World()
        ml, base, ct, mlc, cc = w.load("mixed_logit"), w.load("base_multinomial_cm_v2"), w.load("choice_tools"), w.load("mixed_logit_calcs"), w.load("choice_calcs")
        mods = list(w.mods.values())
        df = self.frame(["a"])
        if self.missing:
            del df.cols[self.missing]
        N, N2, K, R, V = self.N, self.N2, self.K, self.R, self.V
        Kc = iadd(K, V)
        oldmix = idcol("mixo", N2, self.B2)
        old = self.old = DF(N2, OrderedDict([("mix", oldmix)] + [(c, sym_array("old_" + c, (N2,))) for c in ("obs", "alt", "choice", "a")]))
        spec, nm = OrderedDict([("intercept", "all_same"), ("a", "all_same")] if self.icept else [("a", "all_same")]), OrderedDict([("a", "a")])
        mp = [SInt(ifn("mp%d" % k, [], K)) for k in range(V)]
        coefs = PSeries(sym_array("coefs", (Kc,)), names("index", Kc))
        design, altold, yold = sym_array("Xold", (N2, K)), sym_array("altold", (N2,)), sym_array("yold", (N2,))
        m = self.m = bare_model(
            base, ml.MixedLogit, specification=spec, name_spec=nm, alt_id_col="alt", obs_id_col="obs", choice_col="choice_old", mixing_id_col="mix",
            mixing_vars=["v0", "v1"], mixing_pos=mp, nest_spec=None, nest_names=None, model_type="Mixed Logit Model", ind_var_names=names("index", Kc),
            intercept_names=None, shape_names=None, data=old, design=design, alt_IDs=altold, choices=yold, design_3d=sym_array("X3old", (N2, dim("Rold"), Kc)),
            intercept_ref_position=None, shape_ref_position=None, coefs=coefs, intercepts=None, shapes=None, nests=None)
        if not hasattr(type(m), "_MixedLogit__filter_past_mappings"):
            raise Unsupported("helper not there any more")
        self.bufs = [design.buf, altold.buf, yold.buf, coefs.values.buf] + old.bufs()
        # rows of returning people, and these people
        back = lambda i: self.back_old(rk("mixo", i, self.B2))
        self.rowmask = Arr.fresh((N2,), lambda ix: back(ix[0]), "b")
        self.permask = Arr.fresh((self.B2,), lambda ix: self.back_old(perm("mixo", ix[0], self.B2)), "b")
        nr, rsel, _ = selection(self.rowmask)
        npp, psel, _ = selection(self.permask)
        self.npp, self.psel, self.nr = npp, psel, nr
        oldmaps = OrderedDict((k, Opaque("old mapping " + k)) for k in ("rows_to_obs", "rows_to_alts", "chosen_row_to_obs", "rows_to_mixers"))
        oldmaps["rows_to_nests"] = None
        m.get_mappings_for_fit = lambda dense=False: oldmaps
        past = {k: Opaque("past mapping " + k) for k in ("rows_to_obs", "rows_to_alts", "chosen_row_to_obs")}
        past["rows_to_obs"] = Sp((nr, dim("pastO")), lambda ix: app("pastobs", *ix), "f", "csr", tag="past rows_to_obs")
        past["rows_to_alts"] = Sp((nr, dim("pastJ")), lambda ix: app("pastalt", *ix), "f", "csr", tag="past rows_to_alts")
        past["rows_to_mixers"] = Sp((nr, npp), lambda ix: iv01(ieq(rk("mixo", rsel(ix[0]), self.B2), perm("mixo", psel(ix[1]), self.B2))), "f", "csr", tag="past rows_to_mixers")
        past["rows_to_nests"] = None

        def filt(maps, keep):
            flag("past mappings come from the fitted model's own mappings", maps is oldmaps)
            i = fresh_iv(N2, "i")
            ok = isinstance(keep, Arr) and keep.kind == "b" and dimeq(keep.dims[0], N2)
            flag("rows kept: exactly those of people in the new data", ok and self.cond_same(keep.snapshot()((i,)), back(i)))
            return past
        m._MixedLogit__filter_past_mappings = filt
        X = sym_array("X", (N, K))
        mp_ = {"rows_to_obs": Sp((N, self.O), lambda ix: iv01(self.obs_at(*ix)), "f", "csr", tag="rows_to_obs"),
               "rows_to_alts": Sp((N, self.J), lambda ix: iv01(self.alt_at(*ix)), "f", "csr", tag="rows_to_alts"),
               "rows_to_mixers": Sp((N, self.B), lambda ix: iv01(self.mix_at(*ix)), "f", "csr", tag="rows_to_mixers"), "rows_to_nests": None,
               "chosen_row_to_obs": Sp((N, self.O), lambda ix: mul(app("y", ix[0]), iv01(self.obs_at(*ix))), "f", "csr", tag="chosen") if self.choice else None}
        st = self.st = {"probs": 0}

        def mkdesign(long_form, specification_dict, alt_id_col, names=None):
            flag("design of the supplied data", long_form is df)
            flag("design follows the model's specification", specification_dict is spec and alt_id_col == "alt")
            if self.icept:
                flag("intercept column present in the supplied data", "intercept" in df.cols)
            return X, Opaque("names")
        replace(mods, ct.create_design_matrix, mkdesign)

        def mappings(long_form, obs_id_col, alt_id_col, choice_col=None, nest_spec=None, mix_id_col=None, dense=False):
            flag("mappings of the supplied data and the model's id columns", long_form is df and obs_id_col == "obs" and alt_id_col == "alt" and mix_id_col == "mix")
            flag("mappings use the supplied choice column", choice_col == ("choice" if self.choice else None))
            if dense:
                raise Unsupported("dense mappings")
            return mp_
        replace(mods, ct.create_long_form_mappings, mappings)

        def draws(num_mixers, num_draws, num_vars, seed=None):
            check_arg("number of people drawn for", num_mixers, SInt(self.B))
            check_arg("number of draws", num_draws, SInt(R))
            check_arg("number of mixed variables drawn for", num_vars, V)
            flag("seed passed on", seed == self.seed)
            flag("drawn once", "draws" not in st)
            st["draws"] = [sym_array("Z%d" % k, (self.B, R)) for k in range(V)]
            return st["draws"]
        replace(mods, mlc.get_normal_draws, draws)

        def expand(design_, draw_list, mixing_pos, rows_to_mixers):
            flag("positions of the mixed variables", [tint(x) for x in mixing_pos] == [tint(x) for x in mp])
            if rows_to_mixers is mp_["rows_to_mixers"]:
                check_arg("design expanded for the new data", design_, X)
                flag("draws used for the new data", len(draw_list) == V and all(a is b for a, b in zip(draw_list, st["draws"])))
                return sym_array("X3", (N, R, Kc))
            flag("past design expanded with the past decision makers", rows_to_mixers is past["rows_to_mixers"])
            check_arg("past design: rows of returning people", design_, compress(design, self.rowmask))
            flag("one set of past draws per mixed variable", len(draw_list) == V)
            for k, z in enumerate(draw_list):
                # row p: the draws of the new person with the id of the p-th returning person
                ok = isinstance(z, Arr) and len(z.dims) == 2 and dimeq(z.dims[0], npp) and dimeq(z.dims[1], R)
                if ok:
                    p, r = fresh_iv(npp, "p"), fresh_iv(R, "r")
                    t = z.rel((p, r))
                    b = t.args[1][0] if t.op == "app" and t.args[0] == "Z%d" % k and t.args[1][1] is r else None
                    j = fresh_iv(self.B, "j")
                    ok = b is not None and irange_len(b) is self.B and self.cond_same(ieq(b, j), req(self.old_id(psel(p)), self.new_id(j)))
                flag("past draws of variable %d are the person's own draws" % k, ok)
            return sym_array("X3past", (nr, R, Kc))
        replace(mods, mlc.create_expanded_design_for_mixing, expand)
        sig = inspect.signature(cc.calc_probabilities)

        def probs(*a, **k):
            g = sig.bind(*a, **k)
            g.apply_defaults()
            g = g.arguments
            st["probs"] += 1
            check_arg("coefficients", g["beta"], coefs.values)
            flag("no shape or intercept parameters", g["intercept_params"] is None and g["shape_params"] is None)
            flag("kernel is the multinomial logit", getattr(g["utility_transform"], "__name__", "") == "mnl_utility_transform")
            flag("row probabilities requested", g["return_long_probs"] is True)
            if g["chosen_row_to_obs"] is not None:
                raise Unsupported("chosen probabilities requested")
            new = g["rows_to_obs"] is mp_["rows_to_obs"]
            n = "new" if new else "past"
            if new:
                check_arg("new design", g["design"], sym_array("X3", (N, R, Kc)))
                check_arg("new rows_to_alts", g["rows_to_alts"], mp_["rows_to_alts"])
                check_arg("new alternatives", g["alt_IDs"], df.cols["alt"])
                return sym_array("KER", (N, R))
            check_arg("past rows_to_obs", g["rows_to_obs"], past["rows_to_obs"])
            check_arg("past rows_to_alts", g["rows_to_alts"], past["rows_to_alts"])
            check_arg("past design", g["design"], sym_array("X3past", (nr, R, Kc)))
            check_arg("past alternatives", self.arr(g["alt_IDs"]), compress(altold, self.rowmask))
            return sym_array("KERpast", (nr, R))
        replace(mods, cc.calc_probabilities, probs)

        def seq(prob_array, choice_vec, rows_to_mixers, return_type=None):
            check_arg("past kernel probabilities", prob_array, sym_array("KERpast", (nr, R)))
            check_arg("past choices", self.arr(choice_vec), compress(yold, self.rowmask))
            flag("past decision makers", rows_to_mixers is past["rows_to_mixers"])
            if return_type != "all":
                flag("probability per draw requested", False)
                return sym_array("SEQMEAN", (npp,))
            return sym_array("SEQMEAN", (npp,)), sym_array("SEQ", (npp, R))
        replace(mods, mlc.calc_choice_sequence_probs, seq)
        return m.panel_predict(df, SInt(R), return_long_probs=self.long, choice_col="choice" if self.choice else None, seed=self.seed)

    @staticmethod
    def arr(x):
        return x.packed() if isinstance(x, Masked) else x

    @staticmethod
    def cond_same(a, b):
        from . import smt
        from .shim import alpha
        if alpha(a) is alpha(b):
            return True
        g = both(a, b)
        f = ctx().facts()
        try:
            if Prover(f).prove_cond(g)[0]:
                return True
        except Unprovable:
            pass
        return smt.entails(f.assume, g)[0]

    def back_old(self, a):
        """the old person of rank a is among the new people"""
        b = fresh_iv(self.B, "b")
        return exists(b, req(app("inj:mixo", a), self.new_id(b)))

    def back_new(self, b):
        a = fresh_iv(self.B2, "a")
        return exists(a, req(self.new_id(b), self.old_id(a)))

    def weight(self, b, r):
        """draw weight of the new person b"""
        p, q = fresh_iv(self.npp, "p"), fresh_iv(self.R, "q")
        w = sum_(p, mul(iv01(req(self.new_id(b), self.old_id(self.psel(p)))), div(app("SEQ", p, r), sum_(q, app("SEQ", p, q)))))
        return ite(self.back_new(b), w, div(ONE, i2r(self.R)))


def panel(S, choice, long, seed=None, icept=False, missing=None):
    p = PP(choice, long, seed, icept, missing)

    def post(c, out, v):
        if not choice and not long:
            v.raises(out, ValueError)
            return
        if missing:
            v.ok("data without the %s column refused" % missing, out[0] == "exc" and isinstance(out[1], ERR), "outcome %r" % (out,))
            return
        if not v.returned(out):
            return
        call_obs(v)
        v.ok("kernel evaluated for the new and for the past data", p.st["probs"] == 2)

        def pred(i):
            r = fresh_iv(p.R, "r")
            return sum_(r, mul(p.weight(ifn("iperm:mix", [rk("mix", i, p.B)], p.B), r), app("KER", i, r)))
        L = Arr.fresh((p.N,), lambda ix: pred(ix[0]), "f")
        res = out[1]
        if long and choice:
            if not v.ok("chosen and long probabilities", isinstance(res, (tuple, list)) and len(res) == 2):
                return
            chosen, res = res
        elif not long:
            chosen, res = res, None
        else:
            chosen = None
        if res is not None:
            v.array("weighted average of the person's kernel probabilities", res, (p.N,), lambda ix: pred(ix[0]))
        if chosen is not None:
            i = fresh_iv(p.N, "i")
            v.array("chosen probabilities", chosen, (p.O,), lambda ix: sum_(i, mul(app("y", i), iv01(p.obs_at(i, ix[0])), pred(i))))
        v.unchanged("supplied data, stored design, choices and parameters not written", p.b0 + p.bufs)
        v.ok("frame: no column added but a missing intercept", p.df.added == (["intercept"] if icept else []) and not p.old.added, str(p.df.added))
        # lemma: a person's weights sum to one
        q, r, r2 = fresh_iv(p.npp, "p"), fresh_iv(p.R, "r"), fresh_iv(p.R, "q")
        v.real("weights of a returning person sum to one", sum_(r, div(app("SEQ", q, r), sum_(r2, app("SEQ", q, r2)))), ONE)
        v.real("weights of a new person sum to one", sum_(r, div(ONE, i2r(p.R))), ONE)
    S.verify(FN, "choice=%s long=%s seed=%s%s%s" % (choice, long, seed, " missing intercept" if icept else "", " without %s" % missing if missing else ""), p.f, p.run, post)


def P22(S):
    for which in ("people", "observations"):
        filter_maps(S, which)
    for choice, long in ((True, True), (True, False), (False, True), (False, False)):
        panel(S, choice, long)
    panel(S, True, True, 11)
    panel(S, True, True, icept=True)
    for col in ("alt", "obs", "mix"):
        panel(S, False, True, missing=col)
