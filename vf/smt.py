"""z3 back end for conditions: validity of  assumptions => goal  over linear
integer and real arithmetic with uninterpreted functions and quantifiers.
Everything else (exp, log, sums, ...) is abstracted by a constant, or a
function of its bound variables, named by the term: sound for validity."""
import time
import z3
from .terms import *

CACHE = {}


class Enc(object):
    def __init__(self, dimlb=None):
        self.side = []
        self.memo = {}
        self.dimlb = dimlb or {}
        self.bound = {}

    def fun(self, name, dom, rng):
        return z3.Function(name, *(dom + [rng])) if dom else z3.Const(name, rng)

    def opaque(self, t, sort):
        vs = sorted((v for v in t.ivs if v in self.bound), key=lambda v: v.key)
        m = {v: mk("iv", "$b%d" % k, icst(0)) for k, v in enumerate(vs)}
        k = "t_" + canon(subst(t, m)).key
        f = self.fun(k, [z3.IntSort()] * len(vs), sort)
        return f(*[self.bound[v] for v in vs]) if vs else f

    def i(self, t):
        if isinstance(t, int):
            return z3.IntVal(t)
        o = t.op
        if o == "ilin":
            r = z3.IntVal(t.args[0])
            for x, c in t.args[1]:
                r = r + c * self.i(x)
            return r
        if o == "iv":
            if t in self.bound:
                return self.bound[t]
            c = z3.Int("iv_" + t.key)
            if t not in self.memo:
                self.memo[t] = c
                self.side += [c >= 0, c < self.i(t.args[1])]
            return c
        if o == "dim":
            c = z3.Int("dim_" + str(t.args[0]))
            if t not in self.memo:
                self.memo[t] = c
                self.side.append(c >= self.dimlb.get(t.args[0], 1))
            return c
        if o == "ifn":
            a = [self.i(x) if not is_real(x) else self.r(x) for x in t.args[1]]
            f = self.fun("ifn_%s_%d" % (t.args[0], len(a)), [x.sort() for x in a], z3.IntSort())
            r = f(*a) if a else f
            if not any(v in self.bound for v in t.ivs) and t not in self.memo:
                self.memo[t] = r
                self.side += [r >= 0, r < self.i(t.args[2])]
            self.axioms(t, f, a)
            return r
        if o == "imul":
            return self.i(t.args[0]) * self.i(t.args[1])
        return self.opaque(t, z3.IntSort())

    def axioms(self, t, f, a):
        """range of an index function"""
        d = t.args[2]
        key = ("axiom", t.args[0], len(a))
        if not a or d.op != "dim" or key in self.memo or any(x.sort() != z3.IntSort() for x in a):
            return
        self.memo[key] = True
        xs = [z3.Int("ax%d" % k) for k in range(len(a))]
        n = self.i(d)
        self.side.append(z3.ForAll(xs, z3.And(f(*xs) >= 0, f(*xs) < n)))

    def r(self, t):
        o = t.op
        if o == "num":
            q = t.args[0]
            return z3.RealVal(str(q.numerator)) / z3.RealVal(str(q.denominator))
        if o == "app":
            a = [self.i(x) if not is_real(x) else self.r(x) for x in t.args[1]]
            f = self.fun("app_%s_%d" % (t.args[0], len(a)), [x.sort() for x in a], z3.RealSort())
            return f(*a) if a else f
        if o == "add":
            return z3.Sum([self.r(x) for x in t.args[0]])
        if o == "mul":
            ns = [x for x in t.args[0] if x.op != "num"]
            if len(ns) <= 1:
                r = z3.RealVal(1)
                for x in t.args[0]:
                    r = r * self.r(x)
                return r
            k = [x for x in t.args[0] if x.op == "num"]
            r = self.opaque(mk("mul", tuple(ns)), z3.RealSort())
            for x in k:
                r = r * self.r(x)
            return r
        if o == "i2r":
            return z3.ToReal(self.i(t.args[0]))
        if o == "ite":
            return z3.If(self.b(t.args[0]), self.r(t.args[1]), self.r(t.args[2]))
        return self.opaque(t, z3.RealSort())

    def b(self, c):
        o = c.op
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "not":
            return z3.Not(self.b(c.args[0]))
        if o == "and":
            return z3.And([self.b(x) for x in c.args[0]])
        if o == "lt":
            return self.r(c.args[0]) < self.r(c.args[1])
        if o == "eq":
            z = none_of(*c.args) or none_of(*c.args[::-1])
            if z is not None:
                return self.b(z)
            return self.r(c.args[0]) == self.r(c.args[1])
        if o == "ieq":
            return self.i(c.args[0]) == self.i(c.args[1])
        if o == "ilt":
            return self.i(c.args[0]) < 0
        if o == "bapp":
            a = [self.i(x) if not is_real(x) else self.r(x) for x in c.args[1]]
            f = self.fun("b_%s_%d" % (c.args[0], len(a)), [x.sort() for x in a], z3.BoolSort())
            return f(*a) if a else f
        if o == "forall":
            v, body = reindex(*c.args)
            x = z3.Int("q_" + v.key)
            self.bound[v] = x
            try:
                r = z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < self.i(v.args[1])), self.b(body)))
            finally:
                del self.bound[v]
            return r
        return self.opaque(c, z3.BoolSort())


def none_of(a, b):
    """sum of 0/1 terms = 0  as  forall: term = 0"""
    if b is not ZERO or a.op != "sum":
        return None
    t = a.args[1]
    if t.op == "ite" and t.args[1] is ONE and t.args[2] is ZERO:
        return forall(a.args[0], not_(t.args[0]))
    if t.op == "ite" and t.args[1] is ZERO and t.args[2] is ONE:
        return forall(a.args[0], t.args[0])
    return None


def reindex(v, body):
    """forall v: P(perm(v))  as  forall v: P(v)"""
    ps = subterms(body, lambda t: t.op == "ifn" and t.args[0].startswith("perm:") and t.args[1] == (v,) and t.args[2] is v.args[1])
    if len(set(ps)) == 1:
        w = fresh_iv(v.args[1], "w")
        from .norm import replace_terms
        b = replace_terms(body, {list(ps)[0]: w})
        if v not in b.ivs:
            return w, b
    return v, body


def canon(t, depth=0):
    """bound variables named by their depth"""
    def go(x, d):
        if isinstance(x, tuple):
            return tuple(go(y, d) for y in x)
        if not isinstance(x, T):
            return x
        if x.op in BINDERS:
            w = mk("iv", "$c%d" % d, go(x.args[0].args[1], d))
            return mk(x.op, w, go(subst(x.args[1], {x.args[0]: w}), d + 1))
        return mk(x.op, *[go(a, d) for a in x.args])
    return go(t, depth)


def is_real(t):
    return isinstance(t, T) and t.op not in ("iv", "ifn", "dim", "ilin", "imul")


def entails(assume, goal, dimlb=None, timeout=20000):
    """(proved?, text)"""
    e = Enc(dimlb)
    s = z3.Solver()
    s.set("timeout", timeout)
    s.set("random_seed", 1)
    for c in assume:
        s.add(e.b(c))
    s.add(z3.Not(e.b(goal)))
    for x in e.side:
        s.add(x)
    r = s.check()
    if r == z3.unsat:
        return True, "z3: unsat"
    return False, "z3: %s %s" % (r, str(s.model())[:800] if r == z3.sat else s.reason_unknown())
