"""Decision procedure for equalities between Sigma-terms.

A real term is brought into a sum-of-products normal form in which every
monomial is   c * Sum_{bound} Prod [eq] * Prod base^exponent .  Monomials are
identified up to renaming of their bound variables (canonical labelling), so
two terms whose normal forms coincide are equal for *every* size of every
dimension and for every value of every symbol.  All rewriting steps are
equivalences over the reals:

  * distributivity, linearity of sums, exp/log/power laws (positivity checked),
  * elimination of  Sum_v [v = t] f(v)   (t in range of v),
  * congruence under the equalities of a monomial,
  * partition-of-unity facts  Sum_v [g(v) = t] y(v) = 1,
  * folding  Sum_v body(v) * P^x  into  P^(x+1)  when P = Sum_v body(v).
"""
import os
from fractions import Fraction
import itertools
import sys
from .terms import *
from . import terms as tm

sys.setrecursionlimit(20000)
E = mk("E")
F1 = Fraction(1)



def idepth(t):
    """nesting depth of an index term (an equality is never oriented towards a term containing its own left side)"""
    if t.op == "ifn":
        return 1 + max([idepth(a) for a in t.args[1]] or [0])
    if t.op == "ilin":
        return 1 + max([idepth(a) for a, _ in t.args[1]] or [-1])
    return 0


class Unprovable(Exception):
    pass


class Facts(object):
    """Facts available to an obligation: properties of symbols, bounds of
    dimensions, path condition and preconditions."""

    def __init__(self):
        self.pos = set()
        self.nonneg = set()
        self.binary = set()
        self.rng = {}
        self.unity = set()      # (y symbol, index function)
        self.surj = set()
        self.dimlb = {}
        self.assume = []        # conditions
        self.sign_hooks = []
        self.diff = {}          # rfn name -> function(term, wrt) -> term
        self.cond_hooks = []    # function(norm, cond)->True/False/None
        self.index_facts = []   # extra int conditions (quantifier free)
        self.pairs = set()      # "X|Y": the pairs of ranks in X and Y are distinct over the rows
        self.rowfns = {}        # index function -> (domain, codomain), for existence witnesses

    def copy(self):
        f = Facts()
        for k, v in self.__dict__.items():
            f.__dict__[k] = v.copy() if hasattr(v, "copy") else v
        return f


def pconst(q):
    return {ONEM: Fraction(q)} if q else {}


ONEM = mk("mono", (), (), ())
TINY = Fraction(1, 10 ** 299)
HUGE = 10 ** 299


def padd(a, b, k=F1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + k * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    if not k:
        return {}
    return {m: c * k for m, c in a.items()}


def is_const(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and ONEM in p:
        return p[ONEM]
    return None


def replace_terms(t, m, memo=None):
    """replace arbitrary index terms (by identity), innermost last"""
    if memo is None:
        memo = {}
    vs = frozenset().union(*[k.ivs for k in m]) if m else frozenset()

    def go(x):
        if isinstance(x, T):
            if x in m:
                return m[x]
            if vs and not (x.ivs & vs) and x.op != "dim":
                return x
            r = memo.get(x)
            if r is not None:
                return r
            if x.op in ("iv", "dim"):
                return x
            r = tm.rebuild(x.op, tuple(go(a) for a in x.args))
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(a) for a in x)
        return x
    return go(t)


_ak = {}


def akey(t):
    """structural key of a canonical term that does not depend on the names of
    its free index variables"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(akey(x) for x in t) + ")"
        return repr(t)
    r = _ak.get(t)
    if r is not None:
        return r
    o, a = t.op, t.args
    if o == "iv":
        r = a[0] if a[0].startswith("$") else "#" + a[1].key
    elif not t.ivs and o not in ("mono", "poly"):
        r = t.key
    else:
        if o == "poly":
            body = ",".join(sorted(akey(m) + "*" + str(c) for m, c in a[0]))
        elif o == "mono":
            body = "|".join([akey(a[0]), ",".join(sorted("=".join(sorted((akey(x), akey(y)))) for x, y in a[1])),
                             ",".join(sorted(akey(b) + "^" + akey(e) for b, e in a[2]))])
        elif o in ("ieq", "eq"):
            body = "=".join(sorted((akey(a[0]), akey(a[1]))))
        elif o == "ilin":
            body = str(a[0]) + ",".join(sorted(akey(x) + "*" + str(c) for x, c in a[1]))
        else:
            body = ",".join(akey(x) for x in a)
        r = tm.blake2b((o + "|" + body).encode(), digest_size=12).hexdigest()
    _ak[t] = r
    return r


def lead_of(p):
    return min(p, key=lambda m: (akey(m), m.key))


def content(p):
    """positive rational gcd of the coefficients"""
    import math
    n = d = 0
    for c in p.values():
        n = math.gcd(n, abs(c.numerator))
        d = d * c.denominator // math.gcd(d, c.denominator) if d else c.denominator
    return Fraction(n, d)


class Norm(object):
    def __init__(self, facts, budget=None):
        self.f = facts
        self.memo = {}
        self.pmemo = {}
        self.cmemo = {}
        self.imemo = {}
        self.smemo = {}
        self.gmemo = {}
        self._iassume = None
        self.steps = 0
        self.budget = budget or 400000
        self._assumed = None

    # ------------------------------------------------------------ poly <-> term
    def toT(self, p):
        c = is_const(p)
        if c is not None:
            return num(c)
        t = mk("poly", tuple(sorted(((m, c) for m, c in p.items()), key=lambda x: x[0].key)))
        self.memo[t] = p
        return t

    def N(self, t):
        """canonical term"""
        return self.toT(self.norm(t))

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Unprovable("normaliser budget exceeded")

    # ------------------------------------------------------------ main entry
    def norm(self, t):
        r = self.memo.get(t)
        if r is None:
            self.tick()
            r = self._norm(t)
            self.memo[t] = r
        return r

    def _norm(self, t):
        o, a = t.op, t.args
        if o == "num":
            return pconst(a[0])
        if o == "app":
            return self.atom(mk("app", a[0], a[1]))
        if o == "i2r":
            c, ps = as_lin(a[0])
            r = pconst(c)
            for x, k in ps:
                if x.op == "imul":
                    q = self.pmul(self.norm(i2r(x.args[0])), self.norm(i2r(x.args[1])))
                else:
                    q = self.atom(mk("i2r", x))
                r = padd(r, q, Fraction(k))
            return r
        if o == "add":
            r = {}
            for x in a[0]:
                r = padd(r, self.norm(x))
            return r
        if o == "mul":
            r = pconst(1)
            xs = sorted(a[0], key=lambda x: len(self.norm(x)))
            for x in xs:
                r = self.pmul(r, self.norm(x))
                if not r:
                    return r
            return r
        if o == "pow":
            return self.ppow(self.norm(a[0]), self.norm(a[1]))
        if o == "exp":
            return self.pexp(self.norm(a[0]))
        if o == "log":
            return self.plog(self.norm(a[0]))
        if o == "rfn":
            return self.prfn(a[0], [self.norm(x) for x in a[1]], a[2])
        if o == "ite":
            c = self.cond(a[0])
            k = is_const(c)
            if k == 1:
                return self.norm(a[1])
            if k == 0:
                return self.norm(a[2])
            p, q = self.norm(a[1]), self.norm(a[2])
            if p == q:
                return p
            nc = padd(pconst(1), c, Fraction(-1))
            return padd(self.pmul(c, p), self.pmul(nc, q))
        if o == "sum":
            v, body = a
            n = iconst_value(v.args[1])
            if n is not None and n <= 8:
                r = {}
                for i in range(n):
                    r = padd(r, self.norm(subst(body, {v: icst(i)})))
                return r
            return self.bind([v], self.norm(body))
        if o in ("max", "min"):
            return self.pmax(o, a[0], self.norm(a[1]))
        if o == "poly":
            r = {}
            for m, c in a[0]:
                r = padd(r, self.norm(m), c)
            return r
        if o == "mono":
            return self.renorm_mono(t)
        if o == "g":
            return self.cond(a[0])
        if o == "E":
            return self.atom(E, ONE)
        raise Unprovable("cannot normalise %s" % o)

    def atom(self, base, e=ONE):
        m = mk("mono", (), (), ((base, e),))
        return {m: F1}

    def renorm_mono(self, t):
        bound, eqs, fac = t.args
        ren = {v: fresh_iv(subst(v.args[1], {})) for v in bound}
        r = pconst(1)
        for b, e in fac:
            b2, e2 = subst(b, ren), subst(e, ren)
            r = self.pmul(r, self.basepow(b2, e2))
            if not r:
                return r
        for x, y in eqs:
            r = self.pmul(r, self.cond(ieq(subst(x, ren), subst(y, ren))))
            if not r:
                return r
        return self.bind([ren[v] for v in bound], r)

    def basepow(self, b, e):
        """norm of b^e for a canonical base (possibly after substitution)"""
        if b is E:
            return self.pexp(self.norm(e))
        if b.op == "g":
            return self.cond(b.args[0])
        return self.ppow(self.norm(b), self.norm(e))

    # ------------------------------------------------------------ products
    def pmul(self, p, q):
        if not p or not q:
            return {}
        c = is_const(p)
        if c is not None:
            return pscale(q, c)
        c = is_const(q)
        if c is not None:
            return pscale(p, c)
        r = {}
        for m, a in p.items():
            for n, b in q.items():
                r = padd(r, self.mmul(m, n), a * b)
        return r

    def mmul(self, m, n):
        if m is ONEM:
            return {n: F1}
        if n is ONEM:
            return {m: F1}
        k = (m, n) if m.key <= n.key else (n, m)
        r = self.pmemo.get(k)
        if r is not None:
            return r
        self.tick()
        m2, n2 = k
        b1, e1, f1 = self.open(m2)
        b2, e2, f2 = self.open(n2)
        fac, extra = self.merge(f1, f2)
        r = self.finish(b1 + b2, e1 + e2, fac, extra)
        self.pmemo[k] = r
        return r

    def open(self, m):
        bound, eqs, fac = m.args
        if not bound:
            return [], list(eqs), dict(fac)
        ren = {v: fresh_iv(v.args[1]) for v in bound}
        f = {}
        for b, e in fac:
            f[subst(b, ren)] = subst(e, ren)
        return [ren[v] for v in bound], [(subst(x, ren), subst(y, ren)) for x, y in eqs], f

    def merge(self, f1, f2):
        fac = dict(f1)
        extra = []
        for b, e in f2.items():
            if b in fac:
                if b.op == "g":
                    continue
                s = self.N(add(fac[b], e))
                if s is ZERO:
                    del fac[b]
                else:
                    fac[b] = s
            else:
                fac[b] = e
        return fac, extra

    def finish(self, bound, eqs, fac, extra=()):
        """Build a polynomial from raw parts.  Expands natural powers of
        polynomial bases, applies idempotence, then binds."""
        fac = dict(fac)
        expand = []
        for b in list(fac):
            e = fac[b]
            if b.op == "app" and b.args[0] in self.f.binary and e.op == "num" and e.args[0] > 0 and e.args[0].denominator == 1:
                fac[b] = ONE
            elif b.op == "poly" and e.op == "num" and e.args[0].denominator == 1 and e.args[0] > 0:
                del fac[b]
                expand.append((b, e))
            elif b is E and e.op == "num" and e.args[0] == 0:
                del fac[b]
        if E in fac:
            ee = fac[E]
            # exponent may contain extractable logs after addition
            if ee.op == "poly":
                p = self.norm(ee)
                if any(self.log_extractable(m) is not None for m in p):
                    del fac[E]
                    return self.bind(bound, self.pmul(self.finish([], eqs, fac), self._mulall(expand, self.pexp(p))))
        if expand:
            base = self.finish([], eqs, fac)
            for b, e in expand:
                base = self.pmul(base, self.ppow(self.norm(b), self.norm(e)))
            return self.bind(bound, base)
        return self.simp(bound, eqs, fac)

    def _mulall(self, expand, p):
        for b, e in expand:
            p = self.pmul(p, self.ppow(self.norm(b), self.norm(e)))
        return p

    # ------------------------------------------------------------ binding
    def bind(self, bound, p):
        if not bound:
            return p
        r = {}
        for m, c in p.items():
            b, e, f = self.open(m)
            r = padd(r, self.simp(list(bound) + b, e, f), c)
        return r

    def subst_parts(self, bound, eqs, fac, sm, replace=False):
        """apply an index substitution to a monomial's parts and renormalise"""
        S = (lambda x: replace_terms(x, sm)) if replace else (lambda x: subst(x, sm))
        keep = {}
        changed = []
        for b, e in fac.items():
            b2, e2 = S(b), S(e)
            if b2 is b and e2 is e:
                keep[b] = e
            else:
                changed.append((b2, e2))
        r = None
        conds = []
        eq2 = []
        for x, y in eqs:
            x2, y2 = (x, y) if replace else (S(x), S(y))
            if x2 is x and y2 is y:
                eq2.append((x, y))
            else:
                conds.append(ieq(x2, y2))
        if not changed and not conds:
            return self.simp(bound, eq2, keep)
        p = self.simp([], eq2, keep)
        for b, e in changed:
            p = self.pmul(p, self.basepow(b, e))
            if not p:
                return p
        for c in conds:
            p = self.pmul(p, self.cond(c))
            if not p:
                return p
        return self.bind(bound, p)

    # ------------------------------------------------------------ monomial simplification
    def simp(self, bound, eqs, fac):
        self.tick()
        bound = list(bound)
        bs = set(bound)
        # 1. trivial / solvable equalities
        out = []
        for (x, y) in eqs:
            c = ieq(x, y)
            if c.op == "true":
                continue
            if c.op == "false":
                return {}
            out.append(c.args)
        eqs = list(dict.fromkeys(out))
        for (x, y) in eqs:
            s = self.solve(x, y, bs)
            if s is not None:
                v, t = s
                rest = [e for e in eqs if e != (x, y)]
                bound2 = [b for b in bound if b is not v]
                guard = self.in_range(t, v.args[1])
                if guard.op == "false":
                    return {}
                if guard.op == "true":
                    return self.subst_parts(bound2, rest, fac, {v: t})
                p = self.subst_parts([], rest, fac, {v: t})
                return self.bind(bound2, self.pmul(p, self.cond(guard)))
        # 2. congruence; equalities between linear index terms are used in
        # solved form (largest atom eliminated), so rewriting terminates
        lin = []
        for (x, y) in eqs:
            if (x.op == "ilin" and x.args[1]) or (y.op == "ilin" and y.args[1]):
                s = self.solve_atom(x, y)
                if s is not None:
                    lin.append(((x, y), s))
        for xy, (v, t) in lin:
            sm = {v: t}
            rest = [e for e in eqs if e != xy]
            hit = any(replace_terms(a, sm) is not a for e in rest for a in e)
            hit = hit or any(replace_terms(a, sm) is not a for be in fac.items() for a in be)
            if hit:
                rest2 = []
                dead = False
                for e in rest:
                    c = ieq(replace_terms(e[0], sm), replace_terms(e[1], sm))
                    if c.op == "false":
                        dead = True
                    elif c.op != "true":
                        rest2.append(c.args)
                if dead:
                    return {}
                keep = ieq(v, t).args
                return self.subst_parts(bound, list(dict.fromkeys([keep] + rest2)), fac, sm, replace=True)
        if lin:
            can = {xy: ieq(v, t).args for xy, (v, t) in lin}
            eqs = list(dict.fromkeys(can.get(e, e) for e in eqs))
            if self.int_unsat([mk("ieq", x, y) for x, y in eqs]):
                return {}
        linset = set(ieq(v, t).args for _, (v, t) in lin)
        classes = self.classes([e for e in eqs if e not in linset])
        if classes is None:
            return {}
        if classes:
            cm = {}
            eq2 = []
            for cl in classes:
                rep = min(cl, key=lambda t: (iconst_value(t) is None, t.op != "iv", idepth(t), t.key))
                for t in cl:
                    if t is not rep:
                        cm[t] = rep
                        eq2.append((t, rep) if t.key < rep.key else (rep, t))
            # inner congruence: rewrite strict subterms of the equalities
            eq3 = []
            changed = False
            for x, y in eq2:
                x2, y2 = self.rw_strict(x, cm), self.rw_strict(y, cm)
                if x2 is not x or y2 is not y:
                    changed = True
                eq3.append((x2, y2))
            if changed:
                return self.simp(bound, eq3 + list(linset), fac)
            lin2 = [ieq(replace_terms(a, cm), replace_terms(b, cm)) for a, b in linset]
            if any(c.op == "false" for c in lin2):
                return {}
            eqs = list(dict.fromkeys(eq2 + [c.args for c in lin2 if c.op != "true"]))
            if set(c.args for c in lin2 if c.op != "true") != linset:
                return self.simp(bound, eqs, fac)
            touched = False
            for b, e in fac.items():
                if replace_terms(b, cm) is not b or replace_terms(e, cm) is not e:
                    touched = True
                    break
            if touched:
                return self.subst_parts(bound, eqs, fac, cm, replace=True)
        # 3. guards: consistency and redundancy of integer guards
        ig = [b for b in fac if b.op == "g" and b.args[0].op == "ilt"]
        if ig and (len(ig) > 1 or eqs):
            conds = [b.args[0] for b in ig] + [mk("ieq", x, y) for x, y in eqs]
            if self.int_unsat(conds):
                return {}
            for b in sorted(ig, key=lambda b: b.key):
                others = [c for c in conds if c is not b.args[0]]
                if others and self.int_unsat(others + [not_(b.args[0])]):
                    fac = {k: v for k, v in fac.items() if k is not b}
                    return self.simp(bound, eqs, fac)
        rg = [b for b in fac if b.op == "g" and b.args[0].op in ("lt0", "eq0")]
        for b in rg:
            if b.args[0].op == "eq0":
                # [x = 0] * x^e = 0 for e > 0
                x = self.toT(self.norm(b.args[0].args[0]))
                for q, e in fac.items():
                    if q is not b and q is not E and q.op != "g" and (q is x or self.toT(self.norm(q)) is x) and self.sign(self.norm(e)) == "+":
                        return {}
            # the same condition written with other members of the equalities
            for sm in self.rewrites(eqs):
                c2 = replace_terms(b.args[0], sm)
                if c2 is b.args[0]:
                    continue
                d = is_const(self.cond(c2))
                if d == 0:
                    return {}
                if d == 1:
                    fac = {k: v for k, v in fac.items() if k is not b}
                    return self.simp(bound, eqs, fac)
        if len(rg) > 1 and self.contradictory(rg):
            return {}
        # 4. folds and unused variables
        allcl = self.classes(eqs)
        if allcl is None:
            return {}
        for v in bound:
            r = self.fold(v, bound, eqs, fac, allcl)
            if r is not None:
                return r
        return {self.canon(bound, eqs, fac): F1}

    def rewrites(self, eqs):
        """substitutions justified by the equalities: towards the functions of
        one index variable (f(z), g(z), ...), and one equality at a time"""
        cls = self.classes(eqs) or []
        out = []
        zs = {}
        for cl in cls:
            for t in cl:
                if t.op == "ifn" and len(t.args[1]) == 1:
                    zs.setdefault(t.args[1][0], []).append((t, cl))
        for z, lst in zs.items():
            sm = {}
            for t, cl in lst:
                for u in cl:
                    if u is not t and u not in sm and z not in u.ivs:
                        sm[u] = t
            if sm:
                out.append(sm)
        for x, y in eqs:
            out.append({x: y})
            out.append({y: x})
        return out

    def contradictory(self, rg):
        for a, b in itertools.combinations(rg, 2):
            k = (a, b) if a.key <= b.key else (b, a)
            r = self.gmemo.get(k)
            if r is None:
                ca, cb = a.args[0], b.args[0]
                p, q = self.norm(ca.args[0]), self.norm(cb.args[0])
                r = False
                if ca.op == "lt0" and cb.op == "lt0":
                    r = self.sign(padd(p, q)) in ("+", ">=0", "0")
                elif ca.op == "eq0" and cb.op == "lt0":
                    r = self.sign(padd(q, p)) in ("+", ">=0", "0") or self.sign(padd(q, p, Fraction(-1))) in ("+", ">=0", "0")
                elif ca.op == "lt0" and cb.op == "eq0":
                    r = self.sign(padd(p, q)) in ("+", ">=0", "0") or self.sign(padd(p, q, Fraction(-1))) in ("+", ">=0", "0")
                else:
                    r = self.sign(padd(p, q, Fraction(-1))) in ("+", "-") or self.sign(padd(p, q)) in ("+", "-")
                self.gmemo[k] = r
            if r:
                return True
        return False

    def rw_strict(self, t, cm):
        if t.op in ("ifn",):
            return tm.rebuild(t.op, (t.args[0], tuple(replace_terms(a, cm) for a in t.args[1]), t.args[2]))
        if t.op == "ilin":
            return t
        return t

    def solve(self, x, y, bs):
        d = isub(x, y)
        c, ps = as_lin(d)
        for a, k in ps:
            if a in bs and abs(k) == 1:
                rest = ilin(c, [(b, q) for b, q in ps if b is not a])
                if a in rest.ivs:
                    continue
                t = iscale(-k, rest)
                # keep definitional  f(i)=n  orientation: eliminating n is always fine
                return a, t
        return None

    def solve_atom(self, x, y):
        """x = y as (atom, linear term over smaller atoms), or None"""
        c, ps = as_lin(isub(x, y))
        for a, k in sorted(ps, key=lambda p: (p[0].op != "iv", p[0].key), reverse=True):
            if abs(k) != 1:
                continue
            t = iscale(-k, ilin(c, [(b, q) for b, q in ps if b is not a]))
            if replace_terms(t, {a: icst(0)}) is t:
                return a, t
        return None

    def in_range(self, t, L):
        n = irange_len(t) if t.op in ("iv", "ifn") else None
        if n is L:
            return TRUE
        return and_(self.idecide(not_(ilt(t, 0))), self.idecide(ilt(t, L)))

    def classes(self, eqs):
        """congruence classes (union-find); None when contradictory"""
        par = {}

        def find(x):
            while par.get(x, x) is not x:
                x = par[x]
            return x
        for x, y in eqs:
            a, b = find(x), find(y)
            par.setdefault(a, a)
            par.setdefault(b, b)
            if a is not b:
                par[a] = b
        # congruence for ifn
        terms_ = list(par)
        ch = True
        while ch:
            ch = False
            ifs = [t for t in terms_ if t.op == "ifn"]
            for s, t in itertools.combinations(ifs, 2):
                if s.args[0] == t.args[0] and find(s) is not find(t):
                    if all(a is b or (a in par and b in par and find(a) is find(b)) for a, b in zip(s.args[1], t.args[1])):
                        par[find(s)] = find(t)
                        ch = True
        cl = {}
        for t in terms_:
            cl.setdefault(find(t), []).append(t)
        res = [c for c in cl.values() if len(c) > 1]
        for c in res:
            cs = [iconst_value(t) for t in c if iconst_value(t) is not None]
            if len(set(cs)) > 1:
                return None
        return res

    def fold(self, v, bound, eqs, fac, classes):
        rest_bound = [b for b in bound if b is not v]
        rw = {}
        sub_eqs = []
        rest_eqs = []
        okc = True
        for cl in classes:
            mine = [t for t in cl if v in t.ivs]
            oth = [t for t in cl if v not in t.ivs]
            if mine and oth:
                bs = set(bound)
                r = min(oth, key=lambda t: (bool(t.ivs & bs), t.op != "iv", t.key))
                for t in mine:
                    rw[t] = r
                    sub_eqs.append((t, r))
                for t in oth:
                    if t is not r:
                        rest_eqs.append((t, r))
            elif mine:
                okc = False
                for t in mine[1:]:
                    sub_eqs.append((t, mine[0]))
            else:
                for t in oth[1:]:
                    rest_eqs.append((t, oth[0]))
        # v-occurrence partition after rewriting
        subf, restf = {}, {}
        rewritten = False
        for b, e in fac.items():
            b2, e2 = (replace_terms(b, rw), replace_terms(e, rw)) if rw else (b, e)
            if b2 is not b or e2 is not e:
                rewritten = True
            if b2 is E and v in e2.ivs:
                inn, outp = {}, {}
                for m, c in self.norm(e2).items():
                    (inn if v in m.ivs else outp)[m] = c
                subf[E] = self.toT(inn)
                if outp:
                    restf[E] = self.toT(outp)
            elif v in b2.ivs or v in e2.ivs:
                subf[b2] = e2
            else:
                restf[b2] = e2

        def cont(newbound, neweqs, newfac):
            # newfac may contain rewritten (non canonical) bases
            p = self.simp([], neweqs, {})
            for b, e in newfac.items():
                p = self.pmul(p, self.basepow(b, e))
                if not p:
                    return p
            return self.bind(newbound, p)

        if not subf and not sub_eqs:
            # unused: multiplies by the length of the range
            p = cont(rest_bound, rest_eqs, restf)
            return self.pmul(self.norm(i2r(v.args[1])), p)
        for xy in self.f.pairs:
            # rows with given ranks in both id vectors: at most one, row(a, b)
            got = {}
            for t, r in sub_eqs:
                if v in r.ivs:
                    continue
                if t.op == "ifn" and t.args[0].startswith("iperm:") and t.args[1][0].op == "ifn":
                    t, r = t.args[1][0], tm.ifn(t.args[0][1:], [r], t.args[1][0].args[2])
                if t.op == "ifn" and t.args[0].startswith("rk:") and t.args[1] == (v,):
                    got[t.args[0][3:]] = r
            x, y = xy.split("|")
            for l, r in eqs + [(r, l) for l, r in eqs]:
                # the one rank as a function of the other
                if len(got) == 1 and l.op == "ifn" and l.args[0].startswith("rk:") and l.args[1] == (v,) and l.args[0][3:] not in got:
                    (k, a), = got.items()
                    q = replace_terms(r, {u: a for u in subterms(r, lambda z: z.op == "ifn" and z.args[0] == "rk:" + k and z.args[1] == (v,))})
                    if v not in q.ivs:
                        got[l.args[0][3:]] = q
            if x in got and y in got:
                a, b = got[x], got[y]
                p = self.subst_parts([], eqs, fac, {v: tm.ifn("row:" + xy, [a, b], v.args[1])})
                return self.bind(rest_bound, self.pmul(p, self.cond(tm.bapp("avail:" + xy, a, b))))
        ys = [b for b in subf if b.op == "app" and b.args[0] in self.f.binary and b.args[1] == (v,)]
        if len(ys) == 1 and okc:
            y = ys[0]
            funs = [fn for (yn, fn) in self.f.unity if yn == y.args[0]]
            for fn in funs:
                if len(subf) == 1 and len(sub_eqs) == 1 and sub_eqs[0][0].op == "ifn" and sub_eqs[0][0].args[0] == fn and sub_eqs[0][0].args[1] == (v,):
                    return cont(rest_bound, rest_eqs, restf)
                # occurrences only through fn(v)
                cand = None
                for b in list(subf) + list(subf.values()) + [x for q in sub_eqs for x in q]:
                    for s in subterms(b, lambda x: x.op == "ifn" and x.args[0] == fn and x.args[1] == (v,)):
                        cand = s
                if cand is not None:
                    inrw = [q for q in sub_eqs if q[0] is cand]
                    if inrw:
                        tgt, extra_bound = inrw[0][1], []
                    else:
                        n = fresh_iv(cand.args[2])
                        tgt, extra_bound = n, [n]
                    mp = {cand: tgt}
                    nf = {}
                    good = True
                    for b, e in subf.items():
                        if b is y:
                            continue
                        b2, e2 = replace_terms(b, mp), replace_terms(e, mp)
                        if v in b2.ivs or v in e2.ivs:
                            good = False
                            break
                        nf[b2] = e2
                    ne = []
                    for q in sub_eqs:
                        if inrw and q is inrw[0]:
                            continue
                        a2, b2 = replace_terms(q[0], mp), replace_terms(q[1], mp)
                        if v in a2.ivs or v in b2.ivs:
                            good = False
                        ne.append((a2, b2))
                    if good:
                        p = self.simp([], rest_eqs, {})
                        for a2, b2 in ne:
                            p = self.pmul(p, self.cond(ieq(a2, b2)))
                        for dct in (restf, nf):
                            for b, e in dct.items():
                                p = self.pmul(p, self.basepow(b, e))
                        return self.bind(rest_bound + extra_bound, p)
        # D-fold
        if okc and subf:
            cands = [b for b in restf if b.op == "poly"]
            if cands:
                subp = None
                for b in cands:
                    ms = b.args[0]
                    if len(ms) != 1 or len(ms[0][0].args[0]) != 1:
                        continue
                    if ms[0][0].args[0][0].args[1] is not v.args[1]:
                        continue
                    if subp is None:
                        q = self.simp([], sub_eqs, {})
                        for b2, e2 in subf.items():
                            q = self.pmul(q, self.basepow(b2, e2))
                        subp = self.bind([v], q)
                    bc = self.norm(b)
                    if len(subp) == 1 and len(bc) == 1 and list(subp)[0] is list(bc)[0]:
                        k = list(subp.values())[0] / list(bc.values())[0]
                        nf = dict(restf)
                        nf[b] = self.N(add(nf[b], ONE))
                        if nf[b] is ZERO:
                            del nf[b]
                        return pscale(cont(rest_bound, rest_eqs, nf), k)
        return None

    # ------------------------------------------------------------ canonical labelling
    def canon(self, bound, eqs, fac):
        if not bound:
            return self.mkmono((), eqs, fac)
        h = 1
        items = []
        for b, e in fac.items():
            h = max(h, 1 + b.height, 1 + e.height)
        bl = list(bound)
        # colour refinement
        cls0 = self.classes(eqs) or []
        ph_cls = {}
        items = []
        for cl in cls0:
            cod = irange_len(cl[0]) if cl[0].op in ("iv", "ifn") else None
            p_ = mk("ifn", "#cls", (), cod)
            const = [t for t in cl if not (t.ivs & set(bl))]
            tagc = mk("sig", tuple(sorted(t.key for t in const)))
            for t in cl:
                ph_cls[t] = p_
                items.append(("e", (t, tagc)))
        for b, e in fac.items():
            if ph_cls:
                b2, e2_ = replace_terms(b, ph_cls), replace_terms(e, ph_cls)
                items.append(("f", (self.recanon(b2) if b2 is not b else b, self.recanon(e2_) if e2_ is not e else e)))
            else:
                items.append(("f", (b, e)))
        col = {v: v.args[1].key for v in bl}
        occ = {v: [it for it in items if any(v in x.ivs for x in it[1])] for v in bl}
        for rnd in range(3):
            ph = {}
            for v in bl:
                ph[v] = mk("iv", "#" + col[v], v.args[1])
            ncol = {}
            for v in bl:
                sig = []
                m = dict(ph)
                m[v] = mk("iv", "#*", v.args[1])
                for it in occ[v]:
                    ks = [self.skel(x, m) for x in it[1]]
                    sig.append(it[0] + "".join(ks))
                ncol[v] = mk("sig", col[v], tuple(sorted(sig))).key
            if len(set(ncol.values())) == len(set(col.values())) and rnd:
                col = ncol
                break
            col = ncol
        groups = {}
        for v in bl:
            groups.setdefault(col[v], []).append(v)
        order = [groups[k] for k in sorted(groups)]
        nperm = 1
        for g in order:
            for i in range(2, len(g) + 1):
                nperm *= i
        if nperm > 720:
            raise Unprovable("symmetry too large")
        best = None
        for perm in itertools.product(*[list(itertools.permutations(g)) for g in order]):
            seq = [v for g in perm for v in g]
            m = {v: mk("iv", "$%d.%d" % (h, i), v.args[1]) for i, v in enumerate(seq)}
            e2 = [(subst(x, m), subst(y, m)) for x, y in eqs]
            f2 = {}
            for b, e in fac.items():
                b2, e2_ = self.resub(b, m), self.resub(e, m)
                f2[b2] = e2_
            # canonical class representatives
            cls = self.classes(e2) or []
            cm = {}
            eqc = []
            newb = set(m.values())
            for cl in cls:
                rep = min(cl, key=lambda t: (bool(t.ivs & newb), t.op != "iv", t.key))
                for t in cl:
                    if t is not rep:
                        cm[t] = rep
                        eqc.append((t, rep) if t.key < rep.key else (rep, t))
            if cm:
                f3 = {}
                for b, e in f2.items():
                    b2, e2_ = replace_terms(b, cm), replace_terms(e, cm)
                    if b2 is not b:
                        b2 = self.recanon(b2)
                    if e2_ is not e:
                        e2_ = self.recanon(e2_)
                    f3[b2] = e2_
                f2 = f3
            k = self.mkmono(tuple(m[v] for v in seq), eqc, f2)
            if best is None or k.key < best.key:
                best = k
        return best

    def skel(self, x, m):
        return self.resub(x, m).key

    def resub(self, x, m):
        y = subst(x, m)
        if y is x:
            return x
        return self.recanon(y)

    def recanon(self, y):
        """re-establish canonical form of a base/exponent after renaming"""
        if y.op in ("app", "i2r", "num", "iv", "ifn", "ilin", "dim") or y is E:
            return y
        r = self.cmemo.get(y)
        if r is not None:
            return r
        if y.op == "poly":
            r = self.N(y)
        elif y.op == "log":
            r = mk("log", self.recanon(y.args[0]))
        elif y.op == "rfn":
            r = mk("rfn", y.args[0], tuple(self.recanon(a) for a in y.args[1]), y.args[2])
        elif y.op == "g":
            c = y.args[0]
            if c.op in ("lt0", "eq0"):
                q = self.norm(self.recanon(c.args[0]))
                if c.op == "eq0" and q and q[lead_of(q)] < 0:
                    q = pscale(q, Fraction(-1))
                r = mk("g", mk(c.op, self.toT(q)))
            elif c.op == "forall0":
                r = mk("g", mk("forall0", c.args[0], self.recanon(c.args[1])))
            else:
                r = y
        elif y.op in ("max", "min"):
            p = self.norm(mk(y.op, *y.args))
            if len(p) == 1:
                mm = list(p)[0]
                if not mm.args[0] and not mm.args[1] and len(mm.args[2]) == 1 and p[mm] == 1:
                    r = mm.args[2][0][0]
                else:
                    r = y
            else:
                r = y
        else:
            r = y
        self.cmemo[y] = r
        return r

    def mkmono(self, bound, eqs, fac):
        return mk("mono", tuple(bound),
                  tuple(sorted(set(eqs), key=lambda q: (q[0].key, q[1].key))),
                  tuple(sorted(fac.items(), key=lambda q: q[0].key)))

    # ------------------------------------------------------------ guard lifting
    def free_guard(self, p):
        """a guard (or equality) of p that does not depend on bound variables"""
        best = None
        bk = None
        for m in p:
            bs = set(m.args[0])
            for b, e in m.args[2]:
                if b.op == "g" and not (b.ivs & bs):
                    k = (b.args[0].op != "ilt", b.key)
                    if best is None or k < bk:
                        best, bk = b, k
            for x, y in m.args[1]:
                if not ((x.ivs | y.ivs) & bs):
                    q = mk("ieq", x, y)
                    k = (False, q.key)
                    if best is None or k < bk:
                        best, bk = q, k
        return best

    def split_guard(self, p, g):
        """(p under g, p under not g)"""
        yes, no = {}, {}
        for m, c in p.items():
            if g.op == "ieq":
                pair = (g.args[0], g.args[1])
                pairs = set(m.args[1])
                if pair in pairs:
                    eqs = [q for q in m.args[1] if q != pair]
                    yes = padd(yes, self.simp_keep(m.args[0], eqs, dict(m.args[2])), c)
                else:
                    yes = padd(yes, {m: F1}, c)
                    no = padd(no, {m: F1}, c)
            else:
                f = dict(m.args[2])
                if g in f:
                    del f[g]
                    yes = padd(yes, self.simp_keep(m.args[0], list(m.args[1]), f), c)
                else:
                    og = [b for b in f if b.op == "g" and b.args[0].op in ("lt0", "eq0")]
                    if not (og and g.args[0].op in ("lt0", "eq0") and any(self.contradictory([g, b]) for b in og)):
                        yes = padd(yes, {m: F1}, c)
                    no = padd(no, {m: F1}, c)
        return yes, no

    def simp_keep(self, bound, eqs, fac):
        mm = mk("mono", tuple(bound), tuple(eqs), tuple(sorted(fac.items(), key=lambda q: q[0].key)))
        return self.norm(mm) if bound else self.simp([], eqs, fac)

    def lift(self, p, fn):
        g = self.free_guard(p)
        if g is None:
            return None
        yes, no = self.split_guard(p, g)
        gp = self.gpoly(g)
        ng = padd(pconst(1), gp, Fraction(-1))
        return padd(self.pmul(gp, fn(yes)), self.pmul(ng, fn(no)))

    def iguard(self, c):
        """[L < 0]; a non-strict L - 1 < 0 is written [L < 0] + [L = 0]"""
        k, ps = as_lin(c.args[0])
        if k == -1 and len(ps) == 1 and ps[0][1] == 1:
            x = ps[0][0]
            return padd(self.cond(mk("ilt", isub(x, 0))), self.cond(ieq(x, 0)))
        if k == -1 and len(ps) == 2 and sorted(q for _, q in ps) == [-1, 1]:
            x = [a for a, q in ps if q == 1][0]
            y = [a for a, q in ps if q == -1][0]
            return padd(self.cond(mk("ilt", isub(x, y))), self.cond(ieq(x, y)))
        return self.atom(mk("g", c))

    def gpoly(self, g):
        if g.op == "ieq":
            return self.simp([], [(g.args[0], g.args[1])], {})
        return self.atom(g)

    # ------------------------------------------------------------ functions
    def log_extractable(self, m):
        """m = rest * log(x) with x > 0: exp(c*m) = x^(c*rest)"""
        if m.args[0] or m.args[1]:
            return None
        logs = [b for b, e in m.args[2] if b.op == "log" and e is ONE]
        if len(logs) != 1:
            return None
        if not self.positive(logs[0].args[0]):
            return None
        return logs[0]

    def pexp(self, p):
        if not p:
            return pconst(1)
        r = self.lift(p, self.pexp)
        if r is not None:
            return r
        rest = {}
        out = pconst(1)
        for m, c in p.items():
            lg = self.log_extractable(m)
            if lg is not None:
                f = dict(m.args[2])
                del f[lg]
                ex = pscale(self.simp([], [], f), c)
                out = self.pmul(out, self.ppow(self.norm(lg.args[0]), ex))
            else:
                rest[m] = c
        if rest:
            out = self.pmul(out, self.atom(E, self.toT(rest)))
        return out

    def split_content(self, p):
        """p = c * (common factors) * p'   with canonical p'; returns (c, commonmono factors dict, p')"""
        ms = sorted(p, key=lambda m: m.key)
        # common non-E factors with numeric exponents
        common = None
        for m in ms:
            bs = set(m.args[0])
            d = {b: e.args[0] for b, e in m.args[2] if e.op == "num" and b is not E and b.op != "g" and not (b.ivs & bs)}
            if common is None:
                common = d
            else:
                nc = {}
                for b in common:
                    if b in d:
                        nc[b] = min(common[b], d[b])
                    elif common[b] < 0:
                        nc[b] = common[b]
                for b in d:
                    if b not in common and d[b] < 0:
                        nc[b] = d[b]
                common = nc
        common = {b: e for b, e in (common or {}).items() if e}
        # require base to be provably nonzero, or exponent positive in every monomial
        common = {b: e for b, e in common.items() if e > 0 and all(b in dict(m.args[2]) for m in ms) or (self.nonzero(b))}
        q = p
        if common:
            for b, e in common.items():
                q = self.mulbase(q, b, -e)
        # E shift
        shift = ZERO
        if len(q) > 1 or True:
            cands = set()
            for m in q:
                bs = set(m.args[0])
                f = dict(m.args[2])
                ex = f.get(E, ZERO)
                if ex is ZERO:
                    cands.add(ZERO)
                else:
                    pe = self.norm(ex)
                    cands.add(self.toT({k: v for k, v in pe.items() if not (k.ivs & bs)}))
            if len(cands) > 1 or (len(cands) == 1 and ZERO not in cands):
                best = None
                for c in sorted(cands, key=lambda c: c.key):
                    if c is ZERO:
                        qq = q
                    else:
                        qq = self.pmul(q, self.pexp(pscale(self.norm(c), Fraction(-1))))
                    tq = self.toT(pscale(qq, 1 / content(qq)))
                    kk = (akey(tq), tq.key)
                    if best is None or kk < best[0]:
                        best = (kk, c, qq)
                shift, q = best[1], best[2]
        c = content(q)
        sg = self.sign(q)
        if sg in ("-", "<=0") or (sg not in ("+", ">=0") and q[lead_of(q)] < 0):
            c = -c
        return c, common, shift, q

    def ppow(self, p, e):
        k = is_const(e)
        if k is not None:
            if k == 1:
                return p
            if k == 0:
                return pconst(1)
            if not p:
                return {} if k > 0 else self._inv_zero()
            if k.denominator == 1 and k > 0 and k <= 8:
                r = p
                for _ in range(int(k) - 1):
                    r = self.pmul(r, p)
                return r
        if not p:
            # 0^e
            if self.sign(e) in ("+",):
                return {}
            return self.atom(mk("poly", ()), self.toT(e))
        c = is_const(p)
        if c == 1:
            return pconst(1)
        if c is not None and k is not None and k.denominator == 1:
            return pconst(c ** int(k))
        r = self.lift(p, lambda q: self.ppow(q, e))
        if r is not None:
            return r
        r = self.lift(e, lambda q: self.ppow(p, q))
        if r is not None:
            return r
        integral = k is not None and k.denominator == 1
        eT = self.toT(e)
        if len(p) == 1:
            (m, c), = p.items()
            bound, eqs, fac = m.args
            if not bound and not eqs:
                parts = []
                ok = True
                for b, x in fac:
                    if b is E:
                        parts.append(("E", x))
                    elif integral or self.positive(b):
                        parts.append((b, x))
                    elif x.op == "num" and x.args[0].denominator == 1 and x.args[0] % 2 == 0 and k is not None and k == Fraction(1, 2):
                        # sqrt(b^(2j)) = |b|^j
                        parts.append((mk("rfn", "abs", (self.toT(self.norm(b)),), ()), num(x.args[0])))
                    else:
                        ok = False
                if ok and (c > 0 or integral):
                    out = self.coefpow(c, e, k)
                    for b, x in parts:
                        ne = self.N(mul(x, eT))
                        if b == "E":
                            out = self.pmul(out, self.pexp(self.norm(ne)))
                        elif b.op == "poly":
                            out = self.pmul(out, self.polybase(self.norm(b), ne))
                        else:
                            out = self.pmul(out, self.atombase(b, ne))
                    return out
        # multi-term or bound
        c, common, shift, q = self.split_content(p)
        if common or shift is not ZERO or abs(c) != 1 or (c < 0 and integral):
            if all(self.positive(b) for b in common) or integral:
                cc = abs(c) if not integral else c
                rest = pscale(q, 1 / cc)
                out = self.coefpow(cc, e, k)
                for b, x in common.items():
                    out = self.pmul(out, self.ppow(self.norm(b), self.norm(mul(num(x), eT))))
                if shift is not ZERO:
                    out = self.pmul(out, self.pexp(self.norm(mul(shift, eT))))
                if len(rest) == 1 and not list(rest)[0].args[0]:
                    return self.pmul(out, self.ppow(rest, e))
                return self.pmul(out, self.polybase(rest, eT))
        return self.polybase(p, eT)

    def atombase(self, b, e):
        if e is ZERO:
            return pconst(1)
        if b.op == "g":
            return self.atom(b)
        if b.op == "app" and b.args[0] in self.f.binary and e.op == "num" and e.args[0] > 0:
            return self.atom(b)
        return self.finish([], [], {b: e})

    def polybase(self, p, e):
        if e is ZERO:
            return pconst(1)
        if e.op == "num" and e.args[0].denominator == 1 and e.args[0] > 0:
            return self.ppow(p, pconst(e.args[0]))
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and not m.args[0] and not m.args[1]:
                return self.ppow(p, self.norm(e)) if len(m.args[2]) != 1 or m.args[2][0][1] is not ONE else self.atom(m.args[2][0][0], e)
        return self.atom(self.toT(p), e)

    def coefpow(self, c, e, k):
        if c == 1:
            return pconst(1)
        if k is not None and k.denominator == 1:
            return pconst(c ** int(k))
        if k is not None and c > 0:
            # exact roots when possible
            try:
                r = Fraction(c) ** k
                if isinstance(r, Fraction):
                    return pconst(r)
                n = round(c.numerator ** (1.0 / k.denominator))
                d = round(c.denominator ** (1.0 / k.denominator))
                if n ** k.denominator == c.numerator and d ** k.denominator == c.denominator:
                    return pconst(Fraction(n, d) ** k.numerator)
            except OverflowError:
                pass
        return self.atom(mk("rfn", "const", (num(c),), ()), self.toT(e))

    def _inv_zero(self):
        return self.atom(mk("rfn", "inv0", (), ()))

    def plog(self, p):
        c = is_const(p)
        if c == 1:
            return {}
        r = self.lift(p, self.plog)
        if r is not None:
            return r
        if len(p) == 1 and p:
            (m, c), = p.items()
            bound, eqs, fac = m.args
            if not bound and not eqs and c > 0 and all(b is E or self.positive(b) for b, x in fac):
                out = {}
                if c != 1:
                    out = padd(out, self.atom(mk("log", num(c))))
                for b, x in fac:
                    if b is E:
                        out = padd(out, self.norm(x))
                    else:
                        out = padd(out, self.pmul(self.norm(x), self.logatom(self.norm(b))))
                return out
        if p and self.positive(self.toT(p)):
            c, common, shift, q = self.split_content(p)
            if (common or shift is not ZERO or abs(c) != 1) and all(self.positive(b) for b in common):
                out = {}
                if abs(c) != 1:
                    out = padd(out, self.atom(mk("log", num(abs(c)))))
                for b, x in common.items():
                    out = padd(out, self.plog(self.norm(b)), x)
                out = padd(out, self.norm(shift))
                return padd(out, self.logatom(pscale(q, 1 / abs(c))))
        return self.logatom(p)

    def logatom(self, p):
        if is_const(p) == 1:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and not m.args[0] and not m.args[1] and len(m.args[2]) == 1 and m.args[2][0][1] is ONE and m.args[2][0][0].op == "poly":
                p = self.norm(m.args[2][0][0])
        return self.atom(mk("log", self.toT(p)))

    ODD = frozenset(["erfodd"])

    def prfn(self, name, ps, idx):
        for j, p in enumerate(ps):
            def f(q, j=j):
                qs = list(ps)
                qs[j] = q
                return self.prfn(name, qs, idx)
            r = self.lift(p, f)
            if r is not None:
                return r
        if name == "abs":
            p = ps[0]
            s = self.sign(p)
            if s in ("+", ">=0", "0"):
                return p
            if s in ("-", "<=0"):
                return pscale(p, Fraction(-1))
            if p[lead_of(p)] < 0:
                p = pscale(p, Fraction(-1))
            return self.atom(mk("rfn", "abs", (self.toT(p),), ()))
        if name in ("nodd", "podd"):
            # odd functions (normal cdf minus 1/2; quantile at p + 1/2)
            p = ps[0]
            if not p:
                return {}
            if p[lead_of(p)] < 0:
                return pscale(self.atom(mk("rfn", name, (self.toT(pscale(p, Fraction(-1))),), ())), Fraction(-1))
            return self.atom(mk("rfn", name, (self.toT(p),), ()))
        return self.atom(mk("rfn", name, tuple(self.toT(p) for p in ps), tuple(idx)))

    def onto(self, fv, v):
        """fv is a composition of functions onto their ranges applied to v"""
        if fv.op != "ifn" or len(fv.args[1]) != 1 or fv.args[0] not in self.f.surj:
            return False
        return fv.args[1][0] is v or self.onto(fv.args[1][0], v)

    def pmax(self, op, v, p):
        n = iconst_value(v.args[1])
        if v not in frozenset().union(*[m.ivs for m in p]) if p else True:
            return p
        if op == "max":
            # max_v [f(v)=t]*g  with g>=0 independent of v, f onto its range
            eqset = None
            for m in p:
                q = [e for e in m.args[1] if v in e[0].ivs or v in e[1].ivs]
                if len(q) != 1:
                    eqset = None
                    break
                if eqset is None:
                    eqset = q[0]
                elif eqset != q[0]:
                    eqset = None
                    break
            if eqset is not None:
                x, y = eqset
                fv, t = (x, y) if v in x.ivs else (y, x)
                if v not in t.ivs and self.onto(fv, v):
                    rest = {}
                    ok = True
                    for m, c in p.items():
                        eqs = [e for e in m.args[1] if e != eqset]
                        mm = self.simp_keep(m.args[0], eqs, dict(m.args[2]))
                        for k in mm:
                            if v in k.ivs:
                                ok = False
                        rest = padd(rest, mm, c)
                    if ok and self.sign(rest) in ("+", ">=0", "0"):
                        return rest
        h = 1 + max([m.height for m in p] + [0])
        w = mk("iv", "$%d.m" % h, v.args[1])
        q = {}
        for m, c in p.items():
            q = padd(q, self.norm(subst(m, {v: w})), c)
        return self.atom(mk(op, w, self.toT(q)))

    # ------------------------------------------------------------ conditions
    def cond(self, c):
        """0/1-valued polynomial of a condition"""
        o = c.op
        if o == "true":
            return pconst(1)
        if o == "false":
            return {}
        if o == "not":
            return padd(pconst(1), self.cond(c.args[0]), Fraction(-1))
        if o == "and":
            r = pconst(1)
            for x in c.args[0]:
                r = self.pmul(r, self.cond(x))
            return r
        for hk in self.f.cond_hooks:
            d = hk(self, c)
            if d is not None:
                return pconst(1 if d else 0)
        if o == "ieq":
            a, b = c.args
            d = self.idecide(c)
            if d.op == "true":
                return pconst(1)
            if d.op == "false":
                return {}
            return self.simp([], [(a, b)], {})
        if o == "ilt":
            d = self.idecide(c)
            if d.op == "true":
                return pconst(1)
            if d.op == "false":
                return {}
            lin = c.args[0]
            k, ps = as_lin(lin)
            # canonical orientation: first atom has positive coefficient
            if ps[0][1] < 0:
                # lin<0 <=> not(-lin-1<0 ... ) : lin<0 <=> -lin>0 <=> not(-lin<=0) <=> not(-lin-1<0)
                other = mk("ilt", isub(iscale(-1, lin), 1))
                return padd(pconst(1), self.iguard(other), Fraction(-1))
            return self.iguard(c)
        if o == "lt":
            return self.rlt0(self.norm(sub(c.args[0], c.args[1])))
        if o == "lt0":
            return self.rlt0(self.norm(c.args[0]))
        if o == "eq":
            return self.req0(self.norm(sub(c.args[0], c.args[1])))
        if o == "eq0":
            return self.req0(self.norm(c.args[0]))
        if o == "bapp":
            d = self.assumed(c)
            if d is not None:
                return pconst(1 if d else 0)
            return self.atom(mk("g", c))
        if o == "forall":
            v, body = c.args
            b = self.cond(body)
            k = is_const(b)
            if k is not None:
                return pconst(k)
            d = self.assumed(c)
            if d is not None:
                return pconst(1 if d else 0)
            h = 1 + max([m.height for m in b] + [0])
            w = mk("iv", "$%d.q" % h, v.args[1])
            q = {}
            for m, cc in b.items():
                q = padd(q, self.norm(subst(m, {v: w})), cc)
            return self.atom(mk("g", mk("forall0", w, self.toT(q))))
        if o == "forall0":
            v, body = c.args
            w = fresh_iv(v.args[1])
            b = self.norm(subst(body, {v: w}))
            k = is_const(b)
            if k is not None:
                return pconst(k)
            h = 1 + max([m.height for m in b] + [0])
            w2 = mk("iv", "$%d.q" % h, v.args[1])
            q = {}
            for m, cc in b.items():
                q = padd(q, self.norm(subst(m, {w: w2})), cc)
            return self.atom(mk("g", mk("forall0", w2, self.toT(q))))
        raise Unprovable("condition %s" % o)

    def rlt0(self, p):
        r = self.lift(p, self.rlt0)
        if r is not None:
            return r
        s = self.sign(p)
        if s == "-":
            return pconst(1)
        if s in ("+", ">=0", "0"):
            return {}
        r = self.extreme(p)
        if r is not None:
            return r
        q = pscale(p, 1 / content(p))
        c = mk("lt0", self.toT(q))
        d = self.assumed(c)
        if d is not None:
            return pconst(1 if d else 0)
        return self.atom(mk("g", c))

    def extreme(self, p):
        """idealised arithmetic: a strictly positive quantity lies between 1e-299
        and 1e299 (what the code does outside that range is P29's subject)"""
        k = p.get(ONEM)
        if k is None or len(p) < 2 or not (abs(k) <= TINY or abs(k) >= HUGE):
            return None
        m = dict(p)
        del m[ONEM]
        s = self.sign(m)
        if abs(k) <= TINY:
            return {} if s == "+" else pconst(1) if s == "-" else None
        if s == "+" and k < 0:
            return pconst(1)
        if s == "-" and k > 0:
            return {}
        return None

    def req0(self, p):
        r = self.lift(p, self.req0)
        if r is not None:
            return r
        s = self.sign(p)
        if s in ("+", "-"):
            return {}
        if not p:
            return pconst(1)
        q = pscale(p, 1 / content(p))
        if q[lead_of(q)] < 0:
            q = pscale(q, Fraction(-1))
        if len(q) == 2:
            (m1, c1), (m2, c2) = q.items()
            if c1 == -c2 and all(not m.args[0] and not m.args[1] and len(m.args[2]) == 1 and m.args[2][0][1] is ONE for m in (m1, m2)):
                a, b = m1.args[2][0][0], m2.args[2][0][0]
                if a.op == "app" and b.op == "app" and a.args[0] == b.args[0] and a.args[0].startswith("inj:"):
                    return self.cond(tm.req(a, b))
        c = mk("eq0", self.toT(q))
        d = self.assumed(c)
        if d is not None:
            return pconst(1 if d else 0)
        # a single product of nonzero factors and one factor x: x = 0
        if len(q) == 1:
            (m, _), = q.items()
            if not m.args[0] and not m.args[1]:
                left = [(b, e) for b, e in m.args[2] if not self.nonzero(b)]
                if not left:
                    return {}
                if len(left) == 1 and len(m.args[2]) > 1 or (len(left) == 1 and left[0][1] is not ONE):
                    b, e = left[0]
                    if self.sign(self.norm(e)) == "+":
                        return self.req0(self.norm(b))
        return self.atom(mk("g", c))

    def assumptions(self):
        if self._assumed is None:
            self._assumed = {}
            known = {}
            todo = list(self.f.assume)
            flat = []
            while todo:
                c = todo.pop()
                if c.op == "and":
                    todo.extend(c.args[0])
                else:
                    flat.append(c)
            for c in flat:
                pos = True
                if c.op == "not":
                    c, pos = c.args[0], False
                if c.op in ("ieq", "ilt"):
                    continue
                p = self.cond(c)
                # p must be 1 (or 0)
                if len(p) == 1 and list(p.values())[0] == 1:
                    m = list(p)[0]
                    if not m.args[0] and not m.args[1] and len(m.args[2]) == 1:
                        known[m.args[2][0][0].args[0]] = pos
                elif len(p) == 2 and p.get(ONEM) == 1:
                    m = [k for k in p if k is not ONEM][0]
                    if p[m] == -1 and not m.args[0] and not m.args[1] and len(m.args[2]) == 1:
                        known[m.args[2][0][0].args[0]] = not pos
                self._assumed = dict(known)
            self._assumed = known
            self.memo.clear()
            self.pmemo.clear()
            self.smemo.clear()
        return self._assumed

    def assumed(self, c):
        return self.assumptions().get(c)

    # ------------------------------------------------------------ signs
    def positive(self, t):
        return self.sign(self.norm(t) if t.op != "E" else None) == "+" if t is not E else True

    def nonzero(self, b):
        if b is E:
            return True
        return self.sign(self.norm(b)) in ("+", "-")

    def sign(self, p):
        c = is_const(p)
        if c is not None:
            return "+" if c > 0 else ("-" if c < 0 else "0")
        k = tuple(sorted(((m.key, c) for m, c in p.items())))
        r = self.smemo.get(k)
        if r is None:
            self.smemo[k] = "?"
            r = self._sign(p)
            self.smemo[k] = r
        return None if r == "?" else r

    def _sign(self, p):
        for hk in self.f.sign_hooks:
            r = hk(self, p)
            if r is not None:
                return r
        allpos, allneg, strict = True, True, False
        for m, c in p.items():
            s = self.msign(m)
            if s is None:
                allpos = allneg = False
                break
            if c < 0:
                s = {"+": "-", "-": "+", ">=0": "<=0", "<=0": ">=0", "0": "0"}[s]
            if s == "+":
                allneg = False
                strict = True
            elif s == "-":
                allpos = False
                strict = True
            elif s == ">=0":
                allneg = False
            elif s == "<=0":
                allpos = False
        if allpos:
            return "+" if strict else ">=0"
        if allneg:
            return "-" if strict else "<=0"
        r = self.range_sign(p)
        if r:
            return r
        g = self.free_guard(p)
        if g is not None:
            yes, no = self.split_guard(p, g)
            s1, s2 = self.sign(yes), self.sign(no)
            r = self.join_sign(s1, s2)
            return r or "?"
        r = self.sum_sign(p)
        if r:
            return r
        r = self.pow_minus_one(p)
        if r:
            return r
        r = self.ratio_sign(p)
        if r:
            return r
        r = self.int_sign(p)
        if r:
            return r
        r = self.elem_sign(p)
        if r:
            return r
        r = self.subset_sum(p)
        if r:
            return r
        return "?"

    def int_sign(self, p):
        """linear combination of integers: decided by the integer solver"""
        t = icst(0)
        den = 1
        for m, c in p.items():
            den = den * c.denominator // __import__("math").gcd(den, c.denominator)
        for m, c in p.items():
            k = int(c * den)
            if m is ONEM:
                t = iadd(t, k)
                continue
            if m.args[0] or m.args[1] or len(m.args[2]) != 1:
                return None
            b, e = m.args[2][0]
            if b.op != "i2r" or e is not ONE:
                return None
            t = iadd(t, iscale(k, b.args[0]))
        if self.idecide(ilt(icst(0), t)).op == "true":
            return "+"
        if self.idecide(ilt(t, icst(0))).op == "true":
            return "-"
        if self.idecide(ilt(t, icst(0))).op == "false":
            return ">=0"
        if self.idecide(ilt(icst(0), t)).op == "false":
            return "<=0"
        return None

    def elem_sign(self, p):
        """Sum_w f(w) - f(t) + rest with f >= 0 and t in range of w: at least rest"""
        negs = []
        sums = []
        for m, c in p.items():
            if m.args[0]:
                if len(m.args[0]) == 1 and not m.args[1] and self.msign(m) in ("+", ">=0"):
                    sums.append((m, c))
            elif m is not ONEM and self.msign(m) in ("+", ">=0"):
                negs.append((m, c))
        for m, c in sums:
            for n, d in negs:
                if c * d >= 0 or abs(d) > abs(c):
                    continue
                w = m.args[0][0]
                body = mk("mono", (), (), m.args[2])
                for t in sorted(set(index_args(n)), key=lambda x: x.key):
                    if self.in_range(t, w.args[1]).op != "true":
                        continue
                    if self.norm(subst(body, {w: t})) == {n: F1}:
                        rest = {k: v for k, v in p.items() if k is not m and k is not n}
                        sg = self.sign(rest)
                        ok = ("+", ">=0", "0") if c > 0 else ("-", "<=0", "0")
                        if sg in ok:
                            if sg == "0":
                                return ">=0" if c > 0 else "<=0"
                            return sg
        return None

    def join_sign(self, a, b):
        if a is None or b is None:
            return None
        if a == b:
            return a
        if set((a, b)) <= set(("+", ">=0", "0")):
            return ">=0"
        if set((a, b)) <= set(("-", "<=0", "0")):
            return "<=0"
        return None

    def sum_sign(self, p):
        """Sum_w body(w): sign of the body when every monomial has the one bound variable"""
        w = None
        body = {}
        ceqs = None
        for m, c in p.items():
            bound, eqs, fac = m.args
            if len(bound) != 1:
                return None
            if w is None:
                w = fresh_iv(bound[0].args[1])
            if bound[0].args[1] is not w.args[1]:
                return None
            ren = {bound[0]: w}
            e2 = set((ieq(subst(x, ren), subst(y, ren))) for x, y in eqs)
            if ceqs is None:
                ceqs = e2
            elif ceqs != e2:
                return None
            f2 = pconst(1)
            for b, e in fac:
                f2 = self.pmul(f2, self.basepow(subst(b, ren), subst(e, ren)))
            body = padd(body, f2, c)
        if len(p) < 2:
            return None
        s = self.sign(body)
        if s in ("+", "-"):
            eqs = [c.args for c in ceqs]
            if not self.nonempty([w], eqs, ()):
                s = ">=0" if s == "+" else "<=0"
        return s

    def range_sign(self, p):
        """interval evaluation with single-symbol ranges"""
        lo = hi = Fraction(0)
        for m, c in p.items():
            if m is ONEM:
                l = h = F1
            else:
                bound, eqs, fac = m.args
                if bound:
                    return None
                l, h = F1, F1
                for b, e in fac:
                    if e is not ONE:
                        return None
                    iv_ = self.brange(b)
                    if iv_ is None:
                        return None
                    bl, bh = iv_
                    if bl is None or bh is None or l is None:
                        return None
                    xs = [l * bl, l * bh, h * bl, h * bh]
                    l, h = min(xs), max(xs)
                if eqs:
                    l, h = min(l, 0), max(h, 0)
            a, b2 = (l * c, h * c) if c > 0 else (h * c, l * c)
            lo += a
            hi += b2
        if lo > 0:
            return "+"
        if hi < 0:
            return "-"
        if lo >= 0:
            return ">=0"
        if hi <= 0:
            return "<=0"
        return None

    def brange(self, b):
        if b.op in ("app", "rfn"):
            r = self.f.rng.get(b.args[0])
            if r is not None:
                return r
            if b.op == "app" and b.args[0] in self.f.binary:
                return (Fraction(0), F1)
        if b.op == "g":
            return (Fraction(0), F1)
        return None

    def ratio_sign(self, p):
        """X - Y (X, Y > 0 products): sign of X/Y - 1, with a common exponent pulled out"""
        if len(p) != 2:
            return None
        (m, a), (n, b) = sorted(p.items(), key=lambda q: q[0].key)
        if a != -b or m.args[0] or m.args[1] or n.args[0] or n.args[1]:
            return None
        if self.msign(m) != "+" or self.msign(n) != "+":
            return None
        r = {}
        for x, sgn in ((m, 1), (n, -1)):
            for base, e in x.args[2]:
                e = e if sgn > 0 else neg(e)
                r[base] = self.N(add(r[base], e)) if base in r else self.N(e)
        r = {k: v for k, v in r.items() if v is not ZERO}
        for s in sorted(set(v for k, v in r.items() if k is not E and v.op != "num"), key=lambda t: t.key):
            ss = self.sign(self.norm(s))
            if ss not in ("+", "-"):
                continue
            inner = pconst(1)
            for k, v in r.items():
                x = self.norm(div(v, s))
                inner = self.pmul(inner, self.pexp(x) if k is E else self.ppow(self.norm(k), x))
            g = self.sign(padd(inner, pconst(1), Fraction(-1)))
            if g in ("+", "-"):
                pos = (g == ss)
                return "+" if (pos == (a > 0)) else "-"
        return None

    def pow_minus_one(self, p):
        """B^c - 1 with B > 1 and c > 0 (or its negation); 1 - x/(x+..)"""
        if len(p) == 2 and ONEM in p:
            m = [k for k in p if k is not ONEM][0]
            a, k = p[m], p[ONEM]
            if a == -k and not m.args[0] and not m.args[1]:
                signs = []
                for b, e in m.args[2]:
                    if b is E:
                        se = self.sign(self.norm(e))
                        signs.append({"+": "+", "-": "-"}.get(se))
                        continue
                    bm1 = self.sign(padd(self.norm(b), pconst(1), Fraction(-1)))
                    se = self.sign(self.norm(e))
                    if bm1 == "+" and se in ("+", "-"):
                        signs.append(se)
                    elif bm1 == "-" and se in ("+", "-") and self.positive(b):
                        signs.append("-" if se == "+" else "+")
                    else:
                        signs.append(None)
                if signs and all(s == "+" for s in signs):
                    return "+" if a > 0 else "-"
                if signs and all(s == "-" for s in signs):
                    return "-" if a > 0 else "+"
        return None

    def subset_sum(self, p):
        """1 - part/whole where whole = poly base: clear one denominator"""
        bases = {}
        for m, c in p.items():
            if m.args[0]:
                continue
            for b, e in m.args[2]:
                if b.op == "poly" and e.op == "num" and e.args[0] < 0 and e.args[0].denominator == 1:
                    bases[b] = max(bases.get(b, 0), int(-e.args[0]))
        for b, k in sorted(bases.items(), key=lambda q: q[0].key):
            if self.sign(self.norm(b)) == "+":
                if any(m.args[0] and b in dict(m.args[2]) for m in p):
                    pass
                q = self.mulbase(p, b, k)
                if q is not None and q != p:
                    s = self.sign(q)
                    if s:
                        return s
        return None

    def mulbase(self, p, b, k):
        """p * b^k with exponents of b added before expansion"""
        r = {}
        for m, c in p.items():
            bo, eq, fac = self.open(m)
            e = fac.get(b, ZERO)
            ne = self.N(add(e, num(k)))
            fac = {x: y for x, y in fac.items() if x is not b}
            base = self.simp([], eq, fac) if not bo else None
            if bo:
                q = self.simp([], eq, fac)
                q = self.pmul(q, self.ppow(self.norm(b), self.norm(ne)))
                r = padd(r, self.bind(bo, q), c)
            else:
                r = padd(r, self.pmul(base, self.ppow(self.norm(b), self.norm(ne))), c)
        return r

    def msign(self, m):
        if m is ONEM:
            return "+"
        bound, eqs, fac = m.args
        strict = True
        s = 1
        for b, e in fac:
            x = self.bsign(b, e)
            if x is None:
                return None
            if x == "0":
                return "0"
            if x in (">=0", "<=0"):
                strict = False
            if x in ("-", "<=0"):
                s = -s
        if eqs and not bound:
            strict = False
        if bound and strict:
            strict = self.nonempty(bound, eqs, fac)
        elif len(bound) == 1 and not eqs and s == 1 and self.f.rowfns:
            strict = self.witness(bound[0], fac)
        return {(1, True): "+", (1, False): ">=0", (-1, True): "-", (-1, False): "<=0"}[(s, strict)]

    def witness(self, v, fac):
        """nonnegative body of a sum over v: strictly positive at v = g(w) for
        a row w with f(w) = t, f onto and t the free index of the body"""
        t = mk("mono", (), (), tuple(fac))
        for fn in self.f.surj:
            if fn not in self.f.rowfns:
                continue
            dom, cod = self.f.rowfns[fn]
            frees = [x for x in dict.fromkeys(subterms(t, lambda x: x.op in ("iv", "ifn") and irange_len(x) is cod)) if v not in x.ivs
                     and not any(y.args[0].startswith("$") for y in x.ivs)]
            for x in frees:
                if x.op == "ifn" and x.args[0] == fn:
                    w = x.args[1][0]
                    t2 = t
                else:
                    w = fresh_iv(dom, "w")
                    t2 = replace_terms(t, {x: ifn(fn, [w], cod)})
                for g, (gd, gc) in self.f.rowfns.items():
                    if gd is dom and gc is v.args[1]:
                        t3 = subst(t2, {v: ifn(g, [w], gc)})
                        if self.sign(self.norm(t3)) == "+":
                            return True
        return False

    def nonempty(self, bound, eqs, fac):
        if not eqs:
            return True
        bs = set(bound)
        # single bound variable with one surjective equality, or a witness
        left = list(eqs)
        for v in bound:
            mine = [q for q in left if v in q[0].ivs or v in q[1].ivs]
            if not mine:
                continue
            okv = False
            if len(mine) == 1:
                x, y = mine[0]
                for fv, t in ((x, y), (y, x)):
                    if self.onto(fv, v) and v not in t.ivs and not (t.ivs & bs):
                        okv = True
            if not okv:
                # witness: every equality is f(v) = f(k) for the same k
                ws = None
                good = True
                for x, y in mine:
                    cand = set()
                    for fv, t in ((x, y), (y, x)):
                        if v in fv.ivs and v not in t.ivs:
                            for k in t.ivs:
                                if k.op == "iv" and k.args[1] is v.args[1] and subst(fv, {v: k}) is t:
                                    cand.add(k)
                    ws = cand if ws is None else ws & cand
                    if not ws:
                        good = False
                okv = good and bool(ws)
            if not okv:
                return False
            left = [q for q in left if q not in mine]
        return not left

    def bsign(self, b, e):
        if b is E:
            return "+"
        s = None
        if b.op == "app":
            n = b.args[0]
            if n in self.f.pos:
                s = "+"
            elif n in self.f.nonneg or n in self.f.binary:
                s = ">=0"
            elif n in self.f.rng:
                lo, hi = self.f.rng[n]
                if lo is not None and lo > 0:
                    s = "+"
                elif lo is not None and lo >= 0:
                    s = ">=0"
        elif b.op == "i2r":
            a = b.args[0]
            if a.op == "dim":
                s = "+" if self.f.dimlb.get(a.args[0], 1) > 0 else ">=0"
            else:
                s = ">=0"
        elif b.op == "poly":
            s = self.sign(self.norm(b)) if b.args[0] else "0"
        elif b.op == "g":
            s = ">=0"
        elif b.op == "rfn":
            if b.args[0] in self.f.pos:
                s = "+"
            elif b.args[0] in self.f.nonneg:
                s = ">=0"
            elif b.args[0] == "abs":
                s = ">=0"
            elif b.args[0] == "const":
                s = "+" if b.args[1][0].args[0] > 0 else None
        elif b.op == "log":
            a = self.norm(b.args[0])
            q = self.sign(padd(a, pconst(1), Fraction(-1)))
            if self.sign(a) == "+":
                s = q
        elif b.op in ("max", "min"):
            w, body = b.args
            s = self.sign(self.norm(body))
        if e is ONE:
            return s
        if e.op == "num" and e.args[0].denominator == 1:
            k = int(e.args[0])
            if s == "+":
                return "+"
            if k % 2 == 0:
                if s == "-":
                    return "+"
                return ">=0"
            return s
        if s == "+":
            return "+"
        if s == ">=0":
            return ">=0"
        return None

    # ------------------------------------------------------------ integer reasoning
    def idecide(self, c):
        if c.op in ("true", "false"):
            return c
        r = self.imemo.get(c)
        if r is None and self.trivially_open(c):
            r = self.imemo[c] = c
        if r is None:
            if self.int_unsat([not_(c)]):
                r = TRUE
            elif self.int_unsat([c]):
                r = FALSE
            else:
                r = c
            self.imemo[c] = r
        return r

    def int_assume(self):
        if self._iassume is None:
            self._iassume = [c for c in list(self.f.index_facts) + list(self.f.assume)
                             if c.op in ("ieq", "ilt") or (c.op == "not" and c.args[0].op in ("ieq", "ilt"))]
        return self._iassume

    def trivially_open(self, c):
        """f(i) = f(j) or i = j over a symbolic range: neither true nor false"""
        if c.op != "ieq":
            return False
        for t in c.args:
            if t.op not in ("iv", "ifn"):
                return False
            n = irange_len(t)
            if n is None or n.op != "dim":
                return False
            if self.f.dimlb.get(n.args[0], 1) < 1:
                return False
        cs = self.int_assume()
        if not cs:
            return True
        names = set()
        for t in c.args:
            names |= set(subterms(t, lambda x: x.op in ("iv", "ifn", "dim")))
            names.add(irange_len(t))
        for a in cs:
            if any(x in names for x in subterms(a, lambda x: x.op in ("iv", "ifn", "dim"))):
                return False
        return True

    def ckey(self, conds):
        """key of a set of conditions up to renaming of index variables"""
        ren = {}

        def go(x):
            if isinstance(x, T):
                if x.op == "iv":
                    if x not in ren:
                        ren[x] = len(ren)
                    return ("v", ren[x], x.args[1].key)
                if not x.ivs:
                    return x.key
                return (x.op,) + tuple(go(a) for a in x.args)
            if isinstance(x, tuple):
                return tuple(go(a) for a in x)
            return x
        return tuple(go(c) for c in conds)

    def int_unsat(self, conds):
        k2 = ("k",) + self.ckey(conds)
        if not any(c.ivs for c in self.int_assume()):
            r = self.imemo.get(k2)
            if r is None:
                r = self._int_unsat(conds)
                self.imemo[k2] = r
            return r
        k = ("u", tuple(sorted(c.key for c in conds)))
        r = self.imemo.get(k)
        if r is None:
            r = self._int_unsat(conds)
            self.imemo[k] = r
        return r

    def _int_unsat(self, conds):
        import z3
        s = z3.Solver()
        s.set("timeout", 20000)
        tr = IntTr(self.f)
        for c in conds:
            s.add(tr.b(c))
        for c in self.f.index_facts:
            s.add(tr.b(c))
        for c in self.f.assume:
            if c.op in ("ieq", "ilt") or (c.op == "not" and c.args[0].op in ("ieq", "ilt")):
                s.add(tr.b(c))
        s.add(*tr.side())
        return s.check() == z3.unsat


class IntTr(object):
    """linear-integer translation of index terms to z3"""

    def __init__(self, facts):
        self.f = facts
        self.vars = {}
        self.sidec = []

    def atom(self, t):
        import z3
        v = self.vars.get(t)
        if v is None:
            if t.op == "ifn" and t.args[1] and all(isinstance(x, T) for x in t.args[1]):
                fn = z3.Function("f_%s_%d" % (t.args[0], len(t.args[1])), *([z3.IntSort()] * (len(t.args[1]) + 1)))
                v = fn(*[self.i(x) for x in t.args[1]])
            else:
                v = z3.Int("x%d" % len(self.vars))
            self.vars[t] = v
            if t.op == "iv":
                L = self.i(t.args[1])
                self.sidec.append(v >= 0)
                self.sidec.append(v < L)
            elif t.op == "ifn":
                if t.args[2] is not None:
                    L = self.i(t.args[2])
                    self.sidec.append(v >= 0)
                    self.sidec.append(v < L)
            elif t.op == "dim":
                self.sidec.append(v >= self.f.dimlb.get(t.args[0], 1))
        return v

    def i(self, t):
        if isinstance(t, int):
            return t
        c, ps = as_lin(t)
        r = c
        for a, k in ps:
            r = r + k * self.atom(a)
        return r

    def b(self, c):
        import z3
        o = c.op
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "ieq":
            return self.i(c.args[0]) == self.i(c.args[1])
        if o == "ilt":
            return self.i(c.args[0]) < 0
        if o == "not":
            return z3.Not(self.b(c.args[0]))
        if o == "and":
            return z3.And(*[self.b(x) for x in c.args[0]])
        v = self.vars.get(c)
        if v is None:
            v = z3.Bool("b%d" % len(self.vars))
            self.vars[c] = v
        return v

    def side(self):
        return list(self.sidec)


# ---------------------------------------------------------------- derivative
def diff(t, wrt, facts, memo=None):
    """partial derivative of a raw real term with respect to the scalar
    app(name, idx) -- used to state 'is the true derivative of'."""
    if memo is None:
        memo = {}
    name, widx = wrt.args

    def go(x):
        r = memo.get(x)
        if r is None:
            r = _go(x)
            memo[x] = r
        return r

    def _go(x):
        o, a = x.op, x.args
        if o in ("num", "i2r"):
            return ZERO
        if o == "app":
            if a[0] != name:
                return ZERO
            return iv01(and_(*[ieq(p, q) for p, q in zip(a[1], widx)]))
        if o == "add":
            return add(*[go(y) for y in a[0]])
        if o == "mul":
            out = []
            xs = list(a[0])
            for i, y in enumerate(xs):
                d = go(y)
                if d is not ZERO:
                    out.append(mul(d, *(xs[:i] + xs[i + 1:])))
            return add(*out)
        if o == "pow":
            b, e = a
            db, de = go(b), go(e)
            out = ZERO
            if db is not ZERO:
                out = add(out, mul(e, pow_(b, sub(e, ONE)), db))
            if de is not ZERO:
                out = add(out, mul(x, log(b), de))
            return out
        if o == "exp":
            d = go(a[0])
            return mul(x, d) if d is not ZERO else ZERO
        if o == "log":
            d = go(a[0])
            return mul(d, pow_(a[0], num(-1))) if d is not ZERO else ZERO
        if o == "ite":
            return ite(a[0], go(a[1]), go(a[2]))
        if o == "sum":
            return sum_(a[0], go(a[1]))
        if o == "rfn":
            f = facts.diff.get(a[0])
            ds = [go(y) for y in a[1]]
            if f is None:
                if all(d is ZERO for d in ds):
                    return ZERO
                raise Unprovable("no derivative rule for %s" % a[0])
            return f(x, ds, wrt)
        raise Unprovable("derivative of %s" % o)
    # bound variables of sums must stay distinct from wrt's indices: names are unique
    r = go(t)
    if AUDIT:
        from . import model, shim, fake
        AUDIT_DIFF.append(model.slope(facts, t, wrt, r, shim.SELECT, fake.DISTINCT))
    return r


# ---------------------------------------------------------------- equality prover
AUDIT = os.environ.get("VF_AUDIT", "")
AUDIT_LOG = []
AUDIT_DIFF = []


class Prover(object):
    def __init__(self, facts):
        self.facts = facts

    def prove_eq(self, a, b, extra=(), refute=False):
        """returns (True, info) or (False, residual description)"""
        r = self._prove_eq(a, b, extra)
        return self.evaluated(r, a, b, extra, refute)

    def evaluated(self, r, a, b, extra, refute):
        """a failed equality evaluated in finite models (vf/model.py): refuted, or undecided"""
        if not (AUDIT if r[0] else refute):
            return r
        from . import model, shim, fake
        e = model.evaluate(self.facts, a, b, list(self.facts.assume) + list(self.facts.index_facts) + list(extra),
                           select=shim.SELECT, distinct=fake.DISTINCT)
        if r[0]:
            AUDIT_LOG.append((e, a, b))
            return r
        if e[0] == "agree" and e[1] >= 12:
            e = (e[0], e[1], [x for x in e[2] if not self.settled(x, extra)])
        r[1]["model"] = e if e[0] != "agree" else ("agree", e[1], [show(x) for x in e[2]])
        return r

    def settled(self, c, extra):
        """the condition has the same truth value in every model"""
        for x in (c, not_(c)):
            try:
                if Prover(self.facts)._prove_eq(iv01(x), ONE, extra)[0]:
                    return True
            except Exception:
                pass
        return False

    def _prove_eq(self, a, b, extra=()):
        f = self.facts
        if extra:
            f = f.copy()
            f.assume = list(f.assume) + list(extra)
        n = Norm(f)
        try:
            p = n.norm(sub(a, b))
            if not p:
                return True, {"steps": n.steps}
            return self.finish(n, p, f)
        except Unprovable as e:
            return False, {"steps": n.steps, "why": str(e)}
        except RecursionError:
            return False, {"steps": n.steps, "why": "recursion"}

    def finish(self, n, p, f, depth=0):
        if depth:
            em = entailed_eqs(n, n.toT(p))
            if em:
                p = n.norm(replace_terms(n.toT(p), em))
        q = self.clear(n, p)
        if not q:
            return True, {"steps": n.steps}
        if depth < 6:
            g = n.free_guard(q)
            if g is not None:
                c = g if g.op == "ieq" else g.args[0]
                ok = True
                for val in (True, False):
                    f2 = f.copy()
                    cc = c if val else not_(c)
                    f2.assume = list(f.assume) + [cc]
                    if c.op in ("ieq", "ilt"):
                        chk = Norm(f2)
                        if chk.int_unsat([cc] + [x for x in f.assume if x.op in ("ieq", "ilt", "not") and (x.op != "not" or x.args[0].op in ("ieq", "ilt"))]):
                            continue
                    else:
                        if infeasible(f2):
                            continue
                    if refuted(f2):
                        continue
                    n2 = Norm(f2)
                    yes, no = n.split_guard(q, g)
                    r = n2.norm(n.toT(yes if val else no))
                    if c.op == "ieq" and val:
                        r = n2.norm(replace_eq(n.toT(yes), c))
                    if r:
                        ok2, info = self.finish(n2, r, f2, depth + 1)
                        if not ok2:
                            return False, info
                return True, {"steps": n.steps}
        return False, {"steps": n.steps, "residual": show(n.toT(q))[:2000] + " given " + "; ".join(show(x) for x in f.assume)}

    def clear(self, n, p):
        """multiply by positive polynomial bases with negative integer exponent"""
        for _ in range(12):
            if not p:
                return p
            bases = {}
            for m in p:
                bs = set(m.args[0])
                for b, e in m.args[2]:
                    if b.op == "poly" and e.op == "num" and e.args[0] < 0 and not (b.ivs & bs):
                        bases[b] = max(bases.get(b, 0), -e.args[0])
                    elif b.op == "poly" and e.op == "poly" and not (b.ivs & bs):
                        c = n.norm(e).get(ONEM, 0)
                        if c < 0:
                            bases[b] = max(bases.get(b, 0), -c)
            bases = {b: k for b, k in bases.items() if n.nonzero(b)}
            if not bases:
                return p
            b = min(bases, key=lambda x: (x.height, x.key))
            p2 = n.mulbase(p, b, bases[b])
            if p2 == p:
                return p
            p = p2
        return p

    def prove_sign(self, a, want, extra=()):
        f = self.facts
        if extra:
            f = f.copy()
            f.assume = list(f.assume) + list(extra)
        n = Norm(f)
        try:
            s = n.sign(n.norm(a))
        except Unprovable as e:
            return False, {"steps": n.steps, "why": str(e)}
        ok = s is not None and s in (want if isinstance(want, (tuple, list, set)) else (want,))
        return ok, {"steps": n.steps, "sign": str(s)}

    def prove_cond(self, c, extra=(), refute=False):
        return self.evaluated(self._prove_cond(c, extra), iv01(c), ONE, extra, refute)

    def _prove_cond(self, c, extra=()):
        f = self.facts
        if extra:
            f = f.copy()
            f.assume = list(f.assume) + list(extra)
        n = Norm(f)
        try:
            p = padd(n.cond(c), pconst(1), Fraction(-1))
            if not p:
                return True, {"steps": n.steps}
            return self.finish(n, p, f)
        except Unprovable as e:
            return False, {"steps": n.steps, "why": str(e)}


def index_args(t):
    """index terms occurring as arguments of symbols in t"""
    out = []
    for x in subterms(t, lambda x: x.op in ("app", "rfn", "ifn")):
        ix = x.args[2] if x.op == "rfn" else x.args[1]
        out.extend(a for a in ix if isinstance(a, T))
    return out


def entailed_eqs(n, t):
    """replacement map for index terms of t that the assumptions make equal"""
    cs = n.int_assume()
    if not cs:
        return {}
    xs = [x for x in subterms(t, lambda x: x.op in ("ifn", "iv")) + index_args(t) if not (x.op == "iv" and x.args[0].startswith("$"))]
    xs = [x for x in dict.fromkeys(xs) if not any(y.args[0].startswith("$") for y in x.ivs)]
    m = {}
    for i, a in enumerate(xs):
        if a in m:
            continue
        if a.op in ("iv", "ifn") and n.int_unsat([not_(ieq(a, 0))]):
            m[a] = icst(0)
            continue
        for b in xs[i + 1:]:
            if b in m or a in b.ivs or b in a.ivs or any(y is a for y in subterms(b, lambda y: y is a)) or any(y is b for y in subterms(a, lambda y: y is b)):
                continue
            if n.int_unsat([not_(ieq(a, b))]):
                x, y = (b, a) if (a.op == "iv" or b.op != "iv") else (a, b)
                m[x] = y
    return m


def refuted(f):
    """some real-valued assumption is false given the others"""
    for k, c in enumerate(f.assume):
        d = c.args[0] if c.op == "not" else c
        if d.op not in ("lt0", "eq0", "lt", "eq"):
            continue
        g = f.copy()
        g.assume = f.assume[:k] + f.assume[k + 1:]
        n = Norm(g)
        try:
            r = n.cond(c)
            if r:
                em = entailed_eqs(n, c)
                if em:
                    r = n.cond(replace_terms(c, em))
        except (Unprovable, RecursionError):
            continue
        if not r:
            return True
    return False


def replace_eq(t, c):
    a, b = c.args
    # substitute the more complex side
    if a.op == "iv":
        return replace_terms(t, {a: b}) if a not in b.ivs else t
    if b.op == "iv":
        return replace_terms(t, {b: a}) if b not in a.ivs else t
    if a.op == "ifn":
        return replace_terms(t, {a: b})
    if b.op == "ifn":
        return replace_terms(t, {b: a})
    return t


def infeasible(f):
    """quick real-arithmetic infeasibility of the assumptions (atoms abstracted)"""
    import z3
    n = Norm(f)
    s = z3.Solver()
    s.set("timeout", 20000)
    vars_ = {}

    def atomv(m):
        v = vars_.get(m)
        if v is None:
            v = z3.Real("m%d" % len(vars_))
            vars_[m] = v
            sg = n.msign(m)
            if sg == "+":
                s.add(v > 0)
            elif sg == ">=0":
                s.add(v >= 0)
        return v

    def pol(p):
        r = z3.RealVal(0)
        for m, c in p.items():
            k = z3.RealVal(str(c))
            r = r + (k if m is ONEM else k * atomv(m))
        return r
    g = Facts()
    g.__dict__.update(f.copy().__dict__)
    g.assume = []
    base = Norm(g)
    n = base
    for c in f.assume:
        pos = True
        if c.op == "not":
            c, pos = c.args[0], False
        try:
            if c.op == "lt":
                e = pol(base.norm(sub(c.args[0], c.args[1]))) < 0
            elif c.op == "lt0":
                e = pol(base.norm(c.args[0])) < 0
            elif c.op == "eq":
                e = pol(base.norm(sub(c.args[0], c.args[1]))) == 0
            elif c.op == "eq0":
                e = pol(base.norm(c.args[0])) == 0
            else:
                continue
        except Unprovable:
            continue
        s.add(e if pos else z3.Not(e))
    return s.check() == z3.unsat
