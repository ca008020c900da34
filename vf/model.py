"""Random finite models of obligations.

An obligation  facts => a = b  is evaluated in finite interpretations: array
lengths of a few entries, index functions and values drawn at random subject to
the facts.  Two uses, neither of which ever discharges an obligation:

* a model in which the two sides differ is the verifier's counterexample of a
  failed obligation;
* a failed equality that holds in many models, every condition occurring in it
  having been both true and false, is reported as undecided and not as a violation;
* with VF_AUDIT set, every proved equality is evaluated as well: a disagreement
  would mean that a rewriting rule of the prover is wrong (tools/selftest.py).
"""
import random
import mpmath
from mpmath import mp, mpf
from .terms import *
from . import terms

DPS = 50


class Skip(Exception):
    """this model says nothing (undefined value, facts not satisfiable in it)"""


class Unknown(Exception):
    """a symbol without an interpretation here"""


KNOWN_PREFIX = ("perm:", "iperm:", "rk:", "first:", "sfirst:", "sel:", "rank:", "pick:", "row:", "chosen:", "label", "name:", "col:", "at:")


def constants(ts):
    """numbers occurring in the terms, as candidate values"""
    out = set()
    for t in ts:
        for x in subterms(t, lambda x: x.op == "num"):
            q = x.args[0]
            if q not in (0, 1, -1):
                out.add(q)
    return sorted(out, key=lambda q: (abs(q), q))[:12]


class Model(object):
    def __init__(self, facts, seed, consts=(), select=None, distinct=None):
        self.f, self.seed, self.consts = facts, seed, list(consts)
        self.select, self.distinct = select or {}, distinct or {}
        self.memo, self.fns, self.dims, self.seen = {}, {}, {}, {}
        self.hooked = {}
        self.mode = seed % 4
        self.bump = None        # (symbol, indices, h): this value is shifted by h

    def rnd(self, *key):
        return random.Random("%r|%r" % (self.seed, key))

    # ---------------------------------------------------------------- sizes
    def size(self, d):
        v = iconst_value(d)
        if v is not None:
            return v
        if d.op != "dim":
            return self.ev(d, {})
        if d in self.dims:
            return self.dims[d]
        n = d.args[0]
        if d in self.select:
            key, of, mask = self.select[d]
            i = mk("iv", "@m", of)
            c = mask(i)
            r = sum(1 for k in range(self.size(of)) if self.cond(c, {i: k}))
        elif n.startswith("distinct("):
            r = len(self.picked(n[9:-1]))
        elif n.startswith("count(") or "(" in n:
            raise Unknown("length " + n[:40])
        else:
            r = self.rnd("dim", n)
            lo = max(1, self.f.dimlb.get(n, 1))
            r = r.randint(max(lo, 2), 5) if n in ("N", "M", "R") else r.randint(lo, lo + 2)
        self.dims[d] = r
        return r

    # ---------------------------------------------------------------- index functions
    def table(self, name, dom, cod):
        """values of a unary index function over its domain"""
        k = ("fn", name)
        if k in self.fns:
            t = self.fns[k]
            if len(t) != dom:
                raise Unknown("domain of " + name)
            return t
        r = self.rnd("fn", name)
        t = [r.randrange(cod) for _ in range(dom)] if cod else []
        if name in self.f.surj or name.startswith("rk:"):
            if dom < cod:
                raise Skip("onto")
            pos = r.sample(range(dom), cod)
            for j, p in enumerate(pos):
                t[p] = j
        for xy in self.f.pairs:
            x, y = xy.split("|")
            if name == "rk:" + y and ("fn", "rk:" + x) in self.fns:
                a = self.fns[("fn", "rk:" + x)]
                if len(set(zip(a, t))) < len(t):
                    raise Skip("distinct pairs")
            if name == "rk:" + x and ("fn", "rk:" + y) in self.fns:
                a = self.fns[("fn", "rk:" + y)]
                if len(set(zip(a, t))) < len(t):
                    raise Skip("distinct pairs")
        self.fns[k] = t
        return t

    def picked(self, key):
        if key not in self.distinct:
            raise Unknown("pick")
        x, n, mask, of = self.distinct[key]
        t = self.table("rk:" + x, self.size(of), self.size(n))
        i = mk("iv", "@m", of)
        c = mask(i)
        return sorted(set(t[k] for k in range(self.size(of)) if self.cond(c, {i: k})))

    def order(self, x, cod):
        """ranks of the id vector x in order of first appearance"""
        t = self.fns.get(("fn", "rk:" + x))
        if t is None:
            r = self.rnd("order", x)
            p = list(range(cod))
            r.shuffle(p)
            # an id vector met later has to respect it
            self.fns[("order", x)] = p
            return p
        return list(dict.fromkeys(t))

    def ifn(self, t, env):
        name, args, cd = t.args
        cod = self.size(cd)
        if name in terms.LOOKUPS:
            vals = [self.ev(a, env) for a in args]
            ivs = [mk("iv", "@q%d" % k, irange_len(a) or icst(vals[k] + 1)) for k, a in enumerate(args)]
            j = mk("iv", "@m", cd)
            c = terms.LOOKUPS[name](tuple(ivs), j)
            e = dict(zip(ivs, vals))
            for k in range(cod):
                e[j] = k
                if self.cond(c, e):
                    return k
            raise Skip("lookup")
        vals = tuple(self.ev(a, env) for a in args)
        p, _, x = name.partition(":")
        if cod == 0:
            raise Skip("empty range")
        if p in ("label", "name", "col", "at") or name.startswith("label"):
            raise Unknown("index function " + name[:30])
        if p in ("perm", "iperm"):
            o = self.order(x, cod)
            if sorted(o) != list(range(cod)):
                raise Skip("order")
            return o[vals[0]] if p == "perm" else o.index(vals[0])
        if p in ("first", "sfirst"):
            tb = self.fns.get(("fn", "rk:" + x))
            if tb is None:
                raise Unknown("first")
            return tb.index(vals[0]) if p == "first" else sorted(tb.index(j) for j in set(tb))[vals[0]]
        if p in ("sel", "rank"):
            for key, of, mask in self.select.values():
                if key == x:
                    i = mk("iv", "@m", of)
                    c = mask(i)
                    hits = [k for k in range(self.size(of)) if self.cond(c, {i: k})]
                    if p == "sel":
                        if vals[0] >= len(hits):
                            raise Skip("selection")
                        return hits[vals[0]]
                    if vals[0] not in hits:
                        raise Skip("rank")
                    return hits.index(vals[0])
            raise Unknown("selection")
        if p == "pick":
            h = self.picked(x)
            if vals[0] >= len(h):
                raise Skip("pick")
            return h[vals[0]]
        if p in ("row", "chosen"):
            a, b = x.split("|")
            ta, tb = self.fns.get(("fn", "rk:" + a)), self.fns.get(("fn", "rk:" + b))
            if ta is None or tb is None:
                raise Unknown("rows of pairs")
            if p == "row":
                for k in range(len(ta)):
                    if (ta[k], tb[k]) == vals:
                        return k
                raise Skip("row")
            c = [tb[k] for k in range(len(ta)) if ta[k] == vals[0]]
            if not c:
                raise Skip("chosen")
            return self.rnd("chosen", x, vals).choice(c)
        if len(args) == 1:
            d = irange_len(args[0])
            if d is not None:
                tb = self.table(name, self.size(d), cod)
                if ("order", x) in self.fns and p == "rk" and list(dict.fromkeys(tb)) != self.fns[("order", x)]:
                    raise Skip("order")
                if vals[0] >= len(tb):
                    raise Skip("domain")
                return tb[vals[0]]
        if name in self.f.surj or p == "rk":
            raise Unknown("argument of " + name)
        if p in ("sfirst", "perm"):
            raise Unknown(name)
        return self.rnd("fn", name, vals).randrange(cod)

    # ---------------------------------------------------------------- values
    def value(self, name, ix):
        r = self.rnd("app", name, ix)
        f = self.f
        if name.startswith("wild:"):
            raise Unknown("value that may be NaN")
        if name.startswith("inj:"):
            if len(ix) != 1:
                raise Unknown(name)
            return mpf(ix[0] * 2 - 1)
        for y, fn in f.unity:
            if y == name:
                t = self.fns.get(("fn", fn))
                if t is None:
                    raise Unknown("unity")
                rows = [k for k in range(len(t)) if t[k] == t[ix[0]]]
                ch = self.rnd("unity", name, t[ix[0]]).choice(rows)
                return mpf(1 if ch == ix[0] else 0)
        if name in f.binary:
            return mpf(r.randint(0, 1))
        if name in f.rng:
            lo, hi = f.rng[name]
            lo = mpf(-3) if lo is None else mpf(lo.numerator) / lo.denominator if hasattr(lo, "numerator") else mpf(lo)
            hi = lo + 6 if hi is None else mpf(hi.numerator) / hi.denominator if hasattr(hi, "numerator") else mpf(hi)
            return lo + (hi - lo) * mpf(r.choice([r.random(), r.random(), 0.5]))
        m = self.rnd("mode", name).choice((0, 0, 1, 2, 3)) if self.mode == 3 else self.mode
        if m == 0:
            v = mpf(r.uniform(-2, 2))
        elif m == 1:
            v = mpf(r.choice((-2, -1, -1, 0, 0, 1, 1, 2, 3, 5))) / r.choice((1, 1, 2))
        elif m == 2:
            v = mpf(10) ** r.uniform(-4, 4) * r.choice((-1, 1))
        else:
            v = self.special(r)
        if name in f.pos:
            v = abs(v)
            if v == 0:
                v = mpf(r.choice((1, 1, 2)))
        elif name in f.nonneg:
            v = abs(v)
        return v

    def special(self, r):
        if not self.consts:
            return mpf(r.uniform(-2, 2))
        q = r.choice(self.consts)
        v = mpf(q.numerator) / q.denominator
        k = r.randrange(6)
        if k == 1:
            v = v * (1 + mpf(r.uniform(-1e-3, 1e-3)))
        elif k == 2:
            v = -v
        elif k == 3 and v > 0:
            v = mpmath.log(v)
        elif k == 4 and v > 0:
            v = mpmath.log(v) * mpf(r.uniform(0.9, 1.1))
        elif k == 5:
            v = v + r.choice((-1, 1))
        return v

    def ev(self, t, env):
        if isinstance(t, int):
            return t
        if t.op == "iv":
            if t in env:
                return env[t]
            return self.free(t)
        k = (t,) + tuple((v, env.get(v)) for v in sorted(t.ivs, key=lambda v: v.key))
        if k in self.memo:
            r = self.memo[k]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self._ev(t, env)
        except (Skip, Unknown) as e:
            self.memo[k] = e
            raise
        self.memo[k] = r
        return r

    def free(self, v):
        n = self.size(v.args[1])
        if not n:
            raise Skip("empty range")
        return self.rnd("free", v.args[0]).randrange(n)

    def _ev(self, t, env):
        o = t.op
        if o == "num":
            q = t.args[0]
            return mpf(q.numerator) / q.denominator
        if o == "ilin":
            return t.args[0] + sum(c * self.ev(x, env) for x, c in t.args[1])
        if o == "imul":
            return self.ev(t.args[0], env) * self.ev(t.args[1], env)
        if o == "dim":
            return self.size(t)
        if o == "ifn":
            return self.ifn(t, env)
        if o == "app":
            ix = tuple(self.ev(x, env) for x in t.args[1])
            v = self.value(t.args[0], ix)
            return v + self.bump[2] if self.bump and self.bump[:2] == (t.args[0], ix) else v
        if o == "add":
            return mpmath.fsum(self.ev(x, env) for x in t.args[0])
        if o == "mul":
            r, bad = mpf(1), None
            for x in t.args[0]:
                try:
                    v = self.ev(x, env)
                except Skip as e:
                    bad = e
                    continue
                if v == 0:
                    return mpf(0)
                r = r * v
            if bad is not None:
                raise bad
            return r
        if o == "pow":
            b, e = self.ev(t.args[0], env), self.ev(t.args[1], env)
            if e == 0:
                return mpf(1)
            if b == 0:
                if e < 0:
                    raise Skip("division by zero")
                return mpf(0)
            if b < 0 and e != int(e):
                raise Skip("power of a negative number")
            if abs(e) > 1e4 or abs(e * mpmath.log(abs(b))) > 1000:
                raise Skip("size")
            return mpmath.power(b, int(e) if e == int(e) and abs(e) < 100 else e)
        if o == "exp":
            a = self.ev(t.args[0], env)
            if abs(a) > 1000:
                raise Skip("size")
            return mpmath.exp(a)
        if o == "log":
            a = self.ev(t.args[0], env)
            if a <= 0:
                raise Skip("logarithm")
            return mpmath.log(a)
        if o == "ite":
            return self.ev(t.args[1] if self.cond(t.args[0], env) else t.args[2], env)
        if o == "i2r":
            return mpf(self.ev(t.args[0], env))
        if o in ("sum", "max", "min"):
            v, body = t.args
            vals = []
            e = dict(env)
            for k in range(self.size2(v.args[1], env)):
                e[v] = k
                vals.append(self.ev(body, e))
            if o == "sum":
                return mpmath.fsum(vals)
            if not vals:
                raise Skip("maximum of nothing")
            return max(vals) if o == "max" else min(vals)
        if o == "rfn":
            name, rs, ix = t.args
            vals = tuple(self.ev(x, env) for x in rs)
            jx = tuple(self.ev(x, env) for x in ix)
            if name == "abs":
                return abs(vals[0])
            if name == "nodd":
                return mpmath.ncdf(vals[0]) - mpf(1) / 2
            if name == "podd":
                p = vals[0]
                if abs(p) >= 0.5:
                    raise Skip("quantile")
                return mpmath.sqrt(2) * mpmath.erfinv(2 * p)
            if name.startswith("percentile"):
                raise Unknown("function " + name)
            r = self.rnd("rfn", name, jx)
            s = mpf(r.uniform(-1, 1))
            for k, v in enumerate(vals):
                s += mpmath.sin(mpf(r.uniform(0.5, 2)) * v + mpf(r.uniform(0, 3))) * mpf(r.uniform(0.5, 1.5))
            if name in self.f.pos:
                return mpmath.exp(s)
            if name in self.f.nonneg or name in self.f.binary or name in self.f.rng:
                raise Unknown("function " + name)
            return s
        raise Unknown("term " + o)

    def size2(self, d, env):
        return self.ev(d, env) if d.ivs else self.size(d)

    # ---------------------------------------------------------------- conditions
    def hook(self, c):
        if c not in self.hooked:
            r = None
            if self.f.cond_hooks:
                from .norm import Norm
                n = Norm(self.f)
                for hk in self.f.cond_hooks:
                    try:
                        r = hk(n, c)
                    except Exception:
                        r = None
                    if r is not None:
                        break
            self.hooked[c] = r
        return self.hooked[c]

    def cond(self, c, env):
        o = c.op
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "not":
            return not self.cond(c.args[0], env)
        if o == "and":
            return all(self.cond(x, env) for x in c.args[0])
        if o == "forall":
            v, b = c.args
            e = dict(env)
            for k in range(self.size2(v.args[1], env)):
                e[v] = k
                if not self.cond(b, e):
                    return False
            return True
        h = self.hook(c)
        if h is not None:
            return h
        if o == "bapp":
            name = c.args[0]
            ix = tuple(self.ev(x, env) for x in c.args[1])
            if name.startswith("avail:"):
                a, b = name[6:].split("|")
                ta, tb = self.fns.get(("fn", "rk:" + a)), self.fns.get(("fn", "rk:" + b))
                if ta is None or tb is None:
                    raise Unknown("availability")
                r = ix in set(zip(ta, tb))
            else:
                r = bool(self.rnd("bapp", name, ix).randint(0, 1))
        elif o == "ieq":
            r = self.ev(c.args[0], env) == self.ev(c.args[1], env)
        elif o == "ilt":
            r = self.ev(c.args[0], env) < 0
        elif o == "lt":
            r = self.ev(c.args[0], env) < self.ev(c.args[1], env)
        elif o == "eq":
            a, b = self.ev(c.args[0], env), self.ev(c.args[1], env)
            r = a == b or abs(a - b) <= mpf(10) ** (20 - mp.dps) * (abs(a) + abs(b))
        else:
            raise Unknown("condition " + o)
        self.seen.setdefault(c, set()).add(r)
        return r

    def prepare(self, ts):
        """interpret the id vectors and row mappings before what depends on them"""
        fs = {}
        for t in ts:
            for x in subterms(t, lambda x: x.op == "ifn" and len(x.args[1]) == 1):
                fs.setdefault(x.args[0], x)
        for xy in sorted(self.f.pairs):
            x, y = xy.split("|")
            a, b = fs.get("rk:" + x), fs.get("rk:" + y)
            if a is None or b is None:
                continue
            n, ca, cb = self.size(irange_len(a.args[1][0])), self.size(a.args[2]), self.size(b.args[2])
            cells = [(p, q) for p in range(ca) for q in range(cb)]
            r = self.rnd("pairs", xy)
            for _ in range(30):
                if n > len(cells):
                    break
                t = r.sample(cells, n)
                if len(set(p for p, _ in t)) == ca and len(set(q for _, q in t)) == cb:
                    self.fns[("fn", "rk:" + x)] = [p for p, _ in t]
                    self.fns[("fn", "rk:" + y)] = [q for _, q in t]
                    break
            else:
                raise Skip("distinct pairs")
        for n in sorted(fs):
            x = fs[n]
            if (n.startswith("rk:") or n in self.f.surj) and irange_len(x.args[1][0]) is not None:
                self.table(n, self.size(irange_len(x.args[1][0])), self.size(x.args[2]))


def evaluate(facts, a, b, assume, want=24, tries=160, seconds=8.0, select=None, distinct=None):
    """('refuted', text) | ('agree', number of models, all conditions seen both ways) | ('none', why)"""
    import time
    t0 = time.time()
    cs = constants([a, b])
    good, why, seen = 0, "", {}
    for seed in range(tries):
        if time.time() - t0 > seconds:
            break
        mp.dps = DPS
        m = Model(facts, seed, cs, select, distinct)
        try:
            m.prepare([a, b] + list(assume))
            if not all(m.cond(x, {}) for x in assume):
                why = why or "assumptions"
                continue
            m.seen = {}
            x, y = m.ev(a, {}), m.ev(b, {})
        except Skip as e:
            why = "skipped: %s" % e
            continue
        except Unknown as e:
            return "none", "not interpreted: %s" % e
        except (RecursionError, OverflowError, ValueError, ZeroDivisionError) as e:
            why = repr(e)
            continue
        if differ(x, y):
            # again with more digits, to tell rounding from a difference
            mp.dps = 1000
            m2 = Model(facts, seed, cs, select, distinct)
            try:
                m2.prepare([a, b] + list(assume))
                x2, y2 = m2.ev(a, {}), m2.ev(b, {})
                ok = all(m2.cond(q, {}) for q in assume)
            except (Skip, Unknown):
                continue
            finally:
                mp.dps = DPS
            if ok and differ(x2, y2):
                return "refuted", "code gives %s, contract %s with %s" % (mpmath.nstr(x2, 12), mpmath.nstr(y2, 12), describe(m2, a, b))
            continue
        good += 1
        for c, s in m.seen.items():
            seen.setdefault(c, set()).update(s)
        if good >= want and all(len(s) == 2 for s in seen.values()):
            break
    if not good:
        return "none", why or "no model"
    return "agree", good, [c for c, s in seen.items() if len(s) < 2]


def slope(facts, t, wrt, d, select=None, distinct=None, want=6, tries=60):
    """the symbolic derivative d of t against a difference quotient"""
    if subterms(t, lambda x: x.op == "rfn" and x.args[0] not in ("abs",)):
        return "none", "uninterpreted function"
    good, why = 0, ""
    h = mpf(10) ** -25
    for seed in range(tries):
        mp.dps = 120
        vals = []
        try:
            for k in (0, 1, -1):
                m = Model(facts, seed, (), select, distinct)
                m.mode = 0
                m.prepare([t, d])
                ix = tuple(m.ev(x, {}) for x in wrt.args[1])
                m.bump = (wrt.args[0], ix, k * h) if k else None
                vals.append(m.ev(d, {}) if not k else m.ev(t, {}))
        except Skip as e:
            why = str(e)
            continue
        except Unknown as e:
            return "none", "not interpreted: %s" % e
        q = (vals[1] - vals[2]) / (2 * h)
        if abs(q - vals[0]) > mpf(10) ** -15 * (abs(q) + abs(vals[0]) + 1):
            return "refuted", "derivative %s, difference quotient %s with %s" % (mpmath.nstr(vals[0], 12), mpmath.nstr(q, 12), describe(m, t, d))
        good += 1
        if good >= want:
            break
    return ("agree", good, []) if good else ("none", why)


def differ(x, y):
    return abs(x - y) > mpf(10) ** -20 * (abs(x) + abs(y) + mpf(10) ** -12)


def describe(m, a, b):
    out = ["%s=%d" % (d.args[0][:20], n) for d, n in sorted(m.dims.items(), key=lambda p: str(p[0].args[0]))]
    out += ["%s=%s" % (k[1][:30], t) for k, t in sorted(m.fns.items())]
    n = 0
    for x in sorted(set(q for t in (a, b) for q in subterms(t, lambda x: x.op == "app")), key=show):
        if n >= 12:
            break
        try:
            out.append("%s=%s" % (show(x)[:40], mpmath.nstr(m.ev(x, {}), 8)))
            n += 1
        except (Skip, Unknown):
            pass
    return ", ".join(out)
