"""Obligation bookkeeping: run a function of /repo under a contract on every
feasible path, compare with the spec, record each obligation."""
import time
import traceback
from .terms import *
from .norm import *
from .shim import *
from .loader import explore, World
from . import shim


class Session(object):
    def __init__(self, pid):
        self.pid = pid
        self.obs = []            # obligations
        self.functions = {}      # function -> set(status)
        self.assumptions = []
        self.t0 = time.time()
        self.solver_s = 0.0
        self.ncall = 0
        self.shard = None        # (k, n): only every n-th contract
        self.only = None         # restrict to these contracts
        self.group = None
        self.frames = False      # only the frame conditions
        self.prefix = ""

    def add(self, fn, name, ok, detail="", status=None, t=0.0, backend="sigma-normaliser"):
        if self.frames and ": frame: " not in name:
            return ok
        self.obs.append({"fn": fn, "name": name, "status": status or ("proved" if ok else "failed"),
                         "detail": str(detail)[:3000], "t": round(t, 3), "backend": backend, "g": self.group})
        self.solver_s += t
        return ok

    def unsupported(self, fn, name, reason):
        self.obs.append({"fn": fn, "name": name, "status": "unsupported", "detail": str(reason)[:1500], "t": 0.0, "backend": "-", "g": self.group})

    # ---------------------------------------------------------------- driver
    def verify(self, fn, name, facts, run, post, max_paths=64, min_paths=1):
        """run() executes the real code; post(ctx, outcome, V) states the contract"""
        self.ncall += 1
        name = self.prefix + name
        if self.shard and (self.ncall - 1) % self.shard[1] != self.shard[0]:
            return
        if self.only is not None and [fn, name] not in self.only:
            return
        self.group = [fn, name]
        try:
            self._verify(fn, name, facts, run, post, max_paths, min_paths)
        finally:
            self.group = None

    def _verify(self, fn, name, facts, run, post, max_paths, min_paths):
        n = 0
        outer = list(World.live)
        try:
            for c, out in explore(facts, run, max_paths):
                n += 1
                CUR[0] = c
                label = "%s#%d" % (name, n)
                try:
                    post(c, out, V(self, fn, label, c))
                finally:
                    CUR[0] = None
                for w in World.live:
                    kept = w.remembers()
                    if kept:
                        raise Unsupported("state kept between calls: %s" % ", ".join(kept))
                World.live = list(outer)
                new = World.sets - ATTRIBUTES
                if new:
                    World.sets = set()
                    raise Unsupported("state kept on objects: %s" % ", ".join(sorted(new)))
        except Unsupported as e:
            World.live = outer
            self.unsupported(fn, name, "unsupported construct: %s" % e)
            return
        except RecursionError:
            self.unsupported(fn, name, "recursion limit")
            return
        except Unprovable as e:
            self.unsupported(fn, name, "normaliser: %s" % e)
            return
        if n < min_paths:
            self.add(fn, name, False, "no feasible path (vacuous)", status="vacuous")

    def counts(self):
        d = {}
        for o in self.obs:
            d[o["status"]] = d.get(o["status"], 0) + 1
        return d


# attributes of models, estimators and Boot objects that the contracts know of;
# another one may carry state from one call to the next
ATTRIBUTES = set("""
    _MixedLogit__filter_past_mappings abc_interval aic all_intervals alt_IDs alt_id_col
    alt_id_vector bca_interval bic bootstrap_log_likelihoods bootstrap_replicates bse
    calc_dh_d_alpha calc_dh_d_shape calc_dh_dv check_param_list_validity chi_square choice_col
    choice_vector choices chosen_row_to_obs coefs constrained_pos convenience_calc_gradient
    convenience_calc_hessian convenience_calc_log_likelihood cov data design design_3d df_model
    df_resid estimation_message estimation_success fisher_information fit_summary fitted_probs
    get_mappings_for_fit gradient hessian ind_chi_squareds ind_var_names intercept_names
    intercept_ref_pos intercept_ref_position intercepts jackknife_log_likehoods
    jackknife_log_likelihoods jackknife_replicates llf log_likelihood long_fitted_probs
    long_residuals mixing_id_col mixing_pos mixing_vars mle_params model_obj model_type
    name_spec nest_names nest_spec nests nobs null_log_likelihood obs_id_col obs_id_vector
    optimization_method params percentile_interval pvalues rho_bar_squared rho_squared ridge
    ridge_param robust_cov robust_p_vals robust_std_errs robust_t_stats rows_to_alts
    rows_to_mixers rows_to_nests rows_to_obs shape_names shape_ref_pos shape_ref_position shapes
    specification split_params standard_errors store_fit_results summary tvalues
    utility_transform weights zero_vector
""".split())


class V(object):
    """contract assertions on one path"""

    def __init__(self, S, fn, label, c):
        self.S, self.fn, self.label, self.c = S, fn, label, c

    def ok(self, what, good, detail=""):
        return self.S.add(self.fn, "%s: %s" % (self.label, what), bool(good), detail or ("path: %s" % [show(x) for x in self.c.conds]),
                          backend="symbolic-execution")

    def returned(self, out):
        if out[0] == "exc":
            e = out[1]
            tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])
            self.ok("returns normally", False, "raises %r on path %s\n%s" % (e, [show(x) for x in self.c.conds], tb))
            return False
        return True

    def raises(self, out, types):
        names = [t.__name__ for t in (types if isinstance(types, tuple) else (types,))]
        good = out[0] == "exc" and type(out[1]).__name__ in names or (out[0] == "exc" and isinstance(out[1], types))
        return self.ok("raises %s" % "/".join(names), good, "outcome %r" % (out,))

    def real(self, what, a, b):
        if self.S.frames:
            return True
        t = time.time()
        a = treal(a) if not isinstance(a, T) else a
        b = treal(b) if not isinstance(b, T) else b
        ok, info = Prover(self.c.facts()).prove_eq(a, b, refute=True)
        return self.S.add(self.fn, "%s: %s" % (self.label, what), ok, self._info(info, a, b), t=time.time() - t, status=undecided(ok, info))

    def _info(self, info, a, b):
        m = info.get("model")
        if m is not None:
            return "%s: %s; path %s; code: %s; spec: %s; %s" % (m[0], m[1:], [show(x) for x in self.c.conds], show(a)[:600], show(b)[:600],
                                                             info.get("residual") or info.get("why"))
        if "residual" in info or "why" in info:
            return "path %s; %s; code: %s; spec: %s" % ([show(x) for x in self.c.conds], info.get("residual") or info.get("why"), show(a)[:600], show(b)[:600])
        return info

    def cond(self, what, c):
        if self.S.frames:
            return True
        t = time.time()
        ok, info = Prover(self.c.facts()).prove_cond(c if isinstance(c, T) else tbool(c), refute=True)
        return self.S.add(self.fn, "%s: %s" % (self.label, what), ok, str(info), t=time.time() - t, status=undecided(ok, info))

    def sign(self, what, a, want):
        if self.S.frames:
            return True
        t = time.time()
        ok, info = Prover(self.c.facts()).prove_sign(a if isinstance(a, T) else treal(a), want)
        return self.S.add(self.fn, "%s: %s" % (self.label, what), ok, str(info), t=time.time() - t)

    def shape(self, what, arr, dims):
        if self.S.frames:
            return True
        if not isinstance(arr, (Arr, Sp)):
            return self.ok(what + " is an array", False, "got %r" % (type(arr),))
        n = self.c.norm()
        good = len(arr.dims) == len(dims) and all(n.idecide(ieq(a, b)).op == "true" for a, b in zip(arr.dims, dims))
        return self.ok(what + " has shape (%s)" % ",".join(show(d) for d in dims), good,
                       "" if good else "shape is (%s)" % ",".join(show(d) for d in arr.dims))

    def array(self, what, arr, dims, spec):
        """arr[ix] = spec(ix) for every index; spec is a function of index terms"""
        if self.S.frames:
            return True
        if not self.shape(what, arr, dims):
            return False
        f = arr.rsnap()
        return self.elems(what, f, dims, spec)

    def elems(self, what, f, dims, spec, fixed=()):
        if self.S.frames:
            return True
        n = self.c.norm()
        good = True

        def go(i, ix):
            nonlocal good
            if i == len(dims):
                t = time.time()
                a, b = f(ix), spec(ix)
                ok, info = Prover(self.c.facts()).prove_eq(a, b, extra=instances(self.c.conds, ix) + selected(ix), refute=True)
                nm = "%s: %s[%s]" % (self.label, what, ",".join(show(x) for x in ix))
                import re
                nm = re.sub(r"!\d+", "", nm)
                self.S.add(self.fn, nm, ok, self._info(info, a, b), t=time.time() - t, status=undecided(ok, info))
                good = good and ok
                return
            d = dims[i]
            c = iconst_value(d)
            if c is not None and c <= 3:
                for q in range(c):
                    go(i + 1, ix + (icst(q),))
                return
            k = fresh_iv(d, "i")
            rest = tuple(fresh_iv(x, "r") for x in dims[i + 1:])
            probe_ix = ix + (k,) + rest
            pts = breakpoints(f(probe_ix), k) + breakpoints(spec(probe_ix), k)
            segs = segments(d, list(dict.fromkeys(pts)), n) if pts else [(icst(0), d)]
            for s in segs:
                x, v = at(s)
                go(i + 1, ix + (x,))
        go(0, ())
        return good

    def unchanged(self, what, bufs):
        """frame: none of the given input buffers was written"""
        w = [b for b in bufs if b in self.c.writes]
        return self.ok("frame: " + what, not w, "written: %s" % [b.tag for b in w])


def undecided(ok, info):
    """neither proved nor refuted: it holds in many finite models, with every condition in it seen true and false"""
    m = info.get("model")
    return "unsupported" if not ok and m is not None and m[0] == "agree" and m[1] >= 12 and not m[2] else None


def selected(ix):
    """the k-th selected position satisfies the selecting condition"""
    out = []
    for k in ix:
        d = irange_len(k)
        if d in shim.SELECT:
            key, n, mask = shim.SELECT[d]
            out.append(mask(ifn("sel:" + key, [k], n)))
    return out


def instances(conds, ix):
    """instances of assumed universal conditions at the indices ix"""
    out = []
    ix = list(ix)
    for k in list(ix):
        d = irange_len(k)
        if d in shim.SELECT:
            key, n, _ = shim.SELECT[d]
            ix.append(ifn("sel:" + key, [k], n))

    def go(c):
        if c.op == "forall":
            for x in ix:
                if irange_len(x) is c.args[0].args[1]:
                    go(subst(c.args[1], {c.args[0]: x}))
        else:
            out.append(c)
    for c in conds:
        if c.op == "and":
            for x in c.args[0]:
                if x.op == "forall":
                    go(x)
        elif c.op == "forall":
            go(c)
    return out


def sym_array(name, dims, kind="f", cls=Arr):
    return cls.fresh(dims, lambda ix: app(name, *ix), kind, tag=name)
