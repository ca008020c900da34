"""Range verification in IEEE double arithmetic (P29).

The code runs on the stand-ins of shim.py, but arithmetic is recorded
operation by operation (f+ f* f/ f^ fexp flog nodes: nothing is reassociated,
cancelled or folded), np.isposinf and friends become conditions on those nodes
and stored entries of sparse matrices are kept apart from computed zeros.
`Ranges` then bounds the resulting terms by intervals of doubles with a NaN
flag, for every input, case by case over the guards of the code:

* + - * / are correctly rounded and monotone, so the bounds of the result are
  the results at the bounds;
* exp, log and pow are within a relative error of 1e-13 of the exact value,
  monotone around exp(0) = 1 and pow(x, 0) = pow(1, y) = 1, and never NaN for
  admissible arguments;
* a sum of doubles x_k >= 0 is at least each x_k (rounding is monotone), and at
  most (number of terms) * (largest term) * (1 + 1e-9);
* x / y <= 1 when x <= y;  e * pow(S, l - 1) <= pow(S, l) * (1 + 1e-11) when
  0 <= e <= S, l in [0, 1].

A bound that is not reached proves nothing about the code: it is reported as
out of reach, and the concrete leg decides.
"""
import contextlib
import math
from .terms import *
from . import fake, loader, shim, terms
from .shim import Arr, Sp, Unsupported, asarr, is_scalar, treal, wbool

MAX = float.fromhex("0x1.fffffffffffffp+1023")
TINY = 5e-324
INF = float("inf")
OPS = ("f+", "f*", "f/", "f^", "fexp", "flog", "flog1p", "fexpm1", "spv", "fcls")


# ------------------------------------------------------------- recording mode
def fl(t):
    return float(t.args[0])


def fadd(*ts):
    r = None
    for t in ts:
        r = t if r is None else fadd2(r, t)
    return ZERO if r is None else r


def dense(t):
    """an entry of a sparse matrix used as a number"""
    return ite(t.args[0], t.args[1], ZERO) if t.op == "spv" else t


def fadd2(a, b):
    a, b = dense(a), dense(b)
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op == "num" and b.op == "num":
        return num(fl(a) + fl(b))
    return mk("f+", a, b)


def index_only(c):
    return not subterms(c, lambda x: x.op in OPS or x.op in ("app", "lt", "eq"))


def fmul(*ts):
    r = None
    for t in ts:
        r = t if r is None else fmul2(r, t)
    return ONE if r is None else r


def fmul2(a, b):
    if a.op == "spv" and b.op == "spv":
        return mk("spv", and_(a.args[0], b.args[0]), fmul2(a.args[1], b.args[1]))
    if a.op == "spv":
        return mk("spv", a.args[0], fmul2(a.args[1], b))
    if b.op == "spv":
        return mk("spv", b.args[0], fmul2(a, b.args[1]))
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.op == "num" and b.op == "num":
        return num(fl(a) * fl(b))
    return mk("f*", a, b)


def fneg(a):
    return fmul2(num(-1), a)


def fsub(a, b):
    if b.op == "num":
        return fadd2(a, num(-b.args[0]))
    return fadd2(a, fneg(dense(b)))


def fdiv(a, b):
    return mk("f/", dense(a), dense(b))


def fpow(a, b):
    return mk("f^", dense(a), dense(b))


def fexp(a):
    return mk("fexp", dense(a))


def flog(a):
    return mk("flog", dense(a))


def cls(kind):
    def g(a):
        if is_scalar(a) and not isinstance(a, Arr):
            return wbool(mk("fcls", kind, treal(a)))
        a = asarr(a)
        s = a.rsnap()
        return Arr.fresh(a.dims, lambda ix: mk("fcls", kind, dense(s(ix))), "b")
    return g


def has_float(c):
    return bool(subterms(c, lambda x: x.op in OPS))


NAMES = {"add": fadd, "mul": fmul, "sub": fsub, "neg": fneg, "div": fdiv, "pow_": fpow, "exp": fexp, "log": flog}


@contextlib.contextmanager
def recording():
    saved = []

    def put(o, n, v):
        saved.append((o, n, getattr(o, n)))
        setattr(o, n, v)
    for m in (shim, fake):
        for n, f in NAMES.items():
            if hasattr(m, n):
                put(m, n, f)
    put(fake, "np_log1p", lambda a: shim.unary(lambda t: mk("flog1p", dense(t)), a, "f"))
    put(fake, "np_expm1", lambda a: shim.unary(lambda t: mk("fexpm1", dense(t)), a, "f"))
    put(fake, "np_isposinf", cls("+inf"))
    put(fake, "np_isneginf", cls("-inf"))
    put(fake, "np_isinf", cls("inf"))
    put(fake, "np_isnan", cls("nan"))
    put(fake, "np_isfinite", lambda a: ~fake.np_isinf(a) & ~fake.np_isnan(a))
    known, facts = shim.Ctx.known, shim.Ctx.facts
    put(shim.Ctx, "known", lambda self, c: None if has_float(c) else known(self, c))

    def clean(self):
        f = facts(self)
        f.assume = [c for c in f.assume if not has_float(c)]
        return f
    put(shim.Ctx, "facts", clean)
    toarray = Sp.toarray
    todense = Sp.todense

    def undo(f):
        def g(self):
            r = f(self)
            s = r.rsnap()
            return type(r).fresh(r.dims, lambda ix: dense(s(ix)), r.kind)
        return g
    put(Sp, "todense", undo(todense))
    put(Sp, "toarray", undo(toarray))

    def multiply(self, o):
        if isinstance(o, Sp):
            g0 = Arr.fresh(o.dims, o.rsnap(), o.kind)
        else:
            g0 = asarr(o)
        if len(g0.dims) != 2:
            raise Unsupported("sparse multiply")
        dims = shim.bcast_dims(self.dims, g0.dims)
        me, g = self.rsnap(), shim.bcast_fn(g0, dims)
        if not all(shim.dimeq(x, y) for x, y in zip(dims, self.dims)):
            raise Unsupported("sparse multiply")
        return Sp(dims, lambda ix: fmul2(me(ix), g(ix)), "f", "coo", self.col)
    put(Sp, "multiply", multiply)

    def set_data(self, v):
        v = asarr(v)
        if self.col is None or len(v.dims) != 1 or not shim.dimeq(v.dims[0], self.dims[0]):
            raise Unsupported(".data of a general sparse matrix")
        g, col = v.rsnap(), self.col
        self.buf.set(lambda ix: mk("spv", ieq(ix[1], col(ix[0])), dense(g((ix[0],)))))

    def get_data(self):
        if self.col is None:
            raise Unsupported(".data of a general sparse matrix")
        f, col = self.rsnap(), self.col
        return Arr.fresh((self.dims[0],), lambda ix: simplify(f((ix[0], col(ix[0])))), self.kind)
    put(Sp, "data", property(get_data, set_data))

    def sum_over(length, body):
        c = iconst_value(length)
        if c is not None and c <= 6:
            return fadd(*[body(icst(i)) for i in range(c)])
        k = shim.fresh_iv(length, "k")
        b = body(k)
        u = shim.unselect(length, k, b) if length in shim.SELECT else None
        return sum_(*u) if u is not None else sum_(k, b)
    for m in (shim, fake):
        if hasattr(m, "sum_over"):
            put(m, "sum_over", sum_over)
    try:
        yield
    finally:
        for o, n, v in reversed(saved):
            setattr(o, n, v)


def onehot(dims, fn, tag=None):
    return Sp(dims, lambda ix: mk("spv", ieq(fn(ix[0]), ix[1]), ONE), "i", "csr", fn, tag)


# ------------------------------------------------------------- simplification
def simplify(t, decide=None):
    """bound names made canonical; sums over the single stored entry of a row resolved"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "sum":
            r = one_entry(go(x.args[0]), go(x.args[1]))
        elif x.op == "spv":
            c, v = go(x.args[0]), go(x.args[1])
            r = v if c.op == "true" else ZERO if c.op == "false" else mk("spv", c, v)
        else:
            r = rebuild(x.op, tuple(go(a) for a in x.args))
            if r.op in ("ieq", "ilt") and decide is not None:
                r = decide(r)
        memo[x] = r
        return r

    def one_entry(k, b):
        if b is ZERO:
            return ZERO
        if b.op == "spv":
            cs = list(b.args[0].args[0]) if b.args[0].op == "and" else [b.args[0]]
            for q, c in enumerate(cs):
                if c.op == "ieq" and k in c.args:
                    o = c.args[0] if c.args[1] is k else c.args[1]
                    if k not in o.ivs:
                        rest = and_(*[subst(d, {k: o}) for d in cs[:q] + cs[q + 1:]])
                        v = subst(b.args[1], {k: o})
                        return simplify(v if rest.op == "true" else mk("spv", rest, v), decide)
        return mk("sum", k, b)
    return canon(go(t))


def canon(t):
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is None:
            if x.op in BINDERS:
                b = go(x.args[1])
                k = mk("iv", "b%d" % height(b), x.args[0].args[1])
                r = mk(x.op, k, subst(b, {x.args[0]: k}))
            else:
                r = ordered(rebuild(x.op, tuple(go(a) for a in x.args)))
            memo[x] = r
        return r
    return go(t)


def ordered(x):
    """+ and * are commutative, and a change of sign is exact"""
    if x.op == "f*":
        a, b = x.args
        sa, a = sign_of(a)
        sb, b = sign_of(b)
        if a is ONE or b is ONE:
            r = b if a is ONE else a
        else:
            r = mk("f*", *sorted((a, b), key=show))
        return r if sa * sb > 0 else num(-r.args[0]) if r.op == "num" else mk("f*", num(-1), r)
    if x.op in ("f+", "eq"):
        return mk(x.op, *sorted(x.args, key=show))
    return x


def sign_of(a):
    if a.op == "num" and a.args[0] < 0:
        return -1, num(-a.args[0])
    if a.op == "f*" and a.args[0].op == "num" and a.args[0].args[0] == -1:
        return -1, a.args[1]
    return 1, a


def height(t):
    hs = [int(x.args[0].args[0][1:]) for x in subterms(t, lambda x: x.op in BINDERS) if x.args[0].args[0].startswith("b")]
    return 1 + max(hs) if hs else 0


# ------------------------------------------------------------------- intervals
class Iv(object):
    __slots__ = ("lo", "hi", "nan")

    def __init__(self, lo, hi, nan=False):
        self.lo, self.hi, self.nan = float(lo), float(hi), nan

    @property
    def empty(self):
        return self.lo > self.hi and not self.nan

    def __repr__(self):
        return "[%.17g, %.17g]%s" % (self.lo, self.hi, " or NaN" if self.nan else "")


NONE = Iv(INF, -INF)


def union(a, b):
    return Iv(min(a.lo, b.lo), max(a.hi, b.hi), a.nan or b.nan)


def cut(a, b):
    return Iv(max(a.lo, b.lo), min(a.hi, b.hi), a.nan and b.nan)


def up(x):
    return math.nextafter(x, INF)


def down(x):
    return math.nextafter(x, -INF)


def wide(x, d):
    """x moved outwards (d = 1 up, -1 down) by the error of the library function"""
    if x in (INF, -INF) or x == 0:
        return x if not (x == INF and d < 0) else MAX * (1 - 1e-13)
    y = x * (1 + d * 1e-13 * (1 if x > 0 else -1))
    return up(y) if d > 0 else down(y)


def corners(f, a, b, special=()):
    lo, hi, nan = INF, -INF, a.nan or b.nan
    for x in (a.lo, a.hi):
        for y in (b.lo, b.hi):
            v = f(x, y)
            if v != v:
                nan = True
            else:
                lo, hi = min(lo, v), max(hi, v)
    return Iv(lo, hi, nan)


def dead(*xs):
    return any(x.lo > x.hi for x in xs)


def i_add(a, b):
    nan = a.nan or b.nan or (a.hi == INF and b.lo == -INF) or (a.lo == -INF and b.hi == INF)
    if dead(a, b):
        return Iv(INF, -INF, a.nan or b.nan)
    lo, hi = a.lo + b.lo, a.hi + b.hi
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    return Iv(lo, hi, nan)


def i_mul(a, b):
    if dead(a, b):
        return Iv(INF, -INF, a.nan or b.nan)
    nan = a.nan or b.nan
    for x, y in ((a, b), (b, a)):
        if x.lo <= 0 <= x.hi and (y.hi == INF or y.lo == -INF):
            nan = True

    def f(x, y):
        v = x * y
        return 0.0 if v != v else v       # 0 * inf: the neighbours give 0
    r = corners(f, a, b)
    lo, hi = r.lo, r.hi
    # 0 < x times inf is inf: a zero bound next to an infinite one reaches it
    for x, y in ((a, b), (b, a)):
        if y.hi == INF and x.hi > 0:
            hi = INF
        if y.lo == -INF and x.lo < 0:
            hi = INF
        if y.hi == INF and x.lo < 0:
            lo = -INF
        if y.lo == -INF and x.hi > 0:
            lo = -INF
    return Iv(lo, hi, nan)


def i_div(a, b):
    if dead(a, b):
        return Iv(INF, -INF, a.nan or b.nan)
    nan = a.nan or b.nan
    ainf = a.hi == INF or a.lo == -INF
    binf = b.hi == INF or b.lo == -INF
    if ainf and binf:
        nan = True
    if b.lo <= 0 <= b.hi:
        if a.lo <= 0 <= a.hi:
            nan = True
        return Iv(-INF, INF, nan)

    def f(x, y):
        v = x / y
        return v
    r = corners(lambda x, y: 0.0 if abs(x) == INF and abs(y) == INF else f(x, y), a, b)
    lo, hi = r.lo, r.hi
    if ainf and binf:
        lo, hi = -INF, INF
    return Iv(lo, hi, nan)


def i_exp(a):
    if dead(a):
        return Iv(INF, -INF, a.nan)

    def e(x):
        if x == -INF:
            return 0.0
        try:
            return math.exp(x)
        except OverflowError:
            return INF
    lo, hi = e(a.lo), e(a.hi)
    lo = max(0.0, wide(lo, -1))
    hi = wide(hi, 1) if hi else TINY * 2 if a.hi > -INF else 0.0
    if a.lo >= 0:
        lo = max(lo, 1.0)
    if a.hi <= 0:
        hi = min(hi, 1.0)
    return Iv(lo, hi, a.nan)


def i_log(a):
    if dead(a):
        return Iv(INF, -INF, a.nan)

    def g(x):
        return -INF if x <= 0 else INF if x == INF else math.log(x)
    lo, hi = g(a.lo), g(a.hi)
    lo = wide(lo, -1)
    hi = wide(hi, 1)
    if a.lo >= 1:
        lo = max(lo, 0.0)
    if a.hi <= 1:
        hi = min(hi, 0.0)
    return Iv(lo, hi, a.nan or a.lo < 0)


def i_log1p(a):
    if dead(a):
        return Iv(INF, -INF, a.nan)

    def g(x):
        return -INF if x <= -1 else INF if x == INF else math.log1p(x)
    lo, hi = wide(g(a.lo), -1), wide(g(a.hi), 1)
    return Iv(max(lo, 0.0) if a.lo >= 0 else lo, min(hi, 0.0) if a.hi <= 0 else hi, a.nan or a.lo < -1)


def i_expm1(a):
    if dead(a):
        return Iv(INF, -INF, a.nan)

    def g(x):
        try:
            return math.expm1(x)
        except OverflowError:
            return INF
    lo, hi = max(-1.0, wide(g(a.lo), -1)), wide(g(a.hi), 1)
    return Iv(max(lo, 0.0) if a.lo >= 0 else lo, min(hi, 0.0) if a.hi <= 0 else hi, a.nan)


def i_pow(a, b):
    if dead(a, b):
        return Iv(INF, -INF, a.nan or b.nan)
    if a.lo < 0:
        return Iv(-INF, INF, True)

    def p(x, y):
        if x == 0 and y < 0:
            return INF
        try:
            return math.pow(x, y)
        except OverflowError:
            return INF
    r = corners(p, a, b)
    lo = max(0.0, wide(r.lo, -1))
    hi = wide(r.hi, 1) if r.hi else TINY * 2
    if b.lo <= 0 <= b.hi or a.lo <= 1 <= a.hi:
        lo, hi = min(lo, 1.0), max(hi, 1.0)
    if (a.lo >= 1 and b.lo >= 0) or (a.hi <= 1 and b.hi <= 0):
        lo = max(lo, 1.0)
    if (a.lo >= 1 and b.hi <= 0) or (a.hi <= 1 and b.lo >= 0):
        hi = min(hi, 1.0)
    return Iv(lo, hi, a.nan or b.nan)


class OutOfReach(Exception):
    pass


class Ranges(object):
    """bounds of the recorded terms; leaf(t) gives the precondition of an input,
    count(sum) the largest number of terms of a sum, dims the range of a size"""

    def __init__(self, leaf, count, size, ground, norm):
        self.leaf, self.count, self.size, self.norm = leaf, count, size, norm
        self.ground = list(ground)
        self.hints = []
        self.memo, self.partmemo = {}, {}
        self.steps = 0

    # ---- case analysis
    def cases(self, c, env, want=True):
        """environments covering `c is want` within env"""
        self.steps += 1
        if self.steps > 400000:
            raise OutOfReach("too many cases")
        if c.op == "true":
            return [env] if want else []
        if c.op == "false":
            return [] if want else [env]
        if c.op == "not":
            return self.cases(c.args[0], env, not want)
        if c.op == "and":
            if want:
                es = [env]
                for x in c.args[0]:
                    es = [e2 for e in es for e2 in self.cases(x, e, True)]
                return es
            out, es = [], [env]
            for x in c.args[0]:
                out += [e2 for e in es for e2 in self.cases(x, e, False)]
                es = [e2 for e in es for e2 in self.cases(x, e, True)]
            return out
        known = env.get(c)
        if isinstance(known, bool):
            return [env] if known == want else []
        if c.op == "fcls":
            return self.classes(c.args[0], c.args[1], env, want)
        if c.op in ("lt", "eq") and not (c.args[0].op == "i2r" and c.args[1].op == "i2r"):
            return self.compare(c, env, want)
        if c.op in ("ieq", "ilt"):
            if self.norm.int_unsat(self.ints(env) + [c if want else not_(c)]):
                return []
        return [extended(env, c, want)]

    def put(self, env, t, iv):
        """environments covering `t in iv` within env; the bound is passed on to the operands"""
        self.steps += 1
        if self.steps > 400000:
            raise OutOfReach("too many cases")
        old = self.range(t, env)
        iv = cut(old, iv)
        if iv.empty:
            return []
        if t.op == "num":
            return [env]
        if t.op == "f+" and (ONE in t.args or num(-1) in t.args) and not iv.nan:
            # y + 1 and y - 1 are zero or at least 2^-53 in magnitude
            if iv.lo > 0:
                iv = Iv(max(iv.lo, 1e-16), iv.hi)
            elif iv.hi < 0:
                iv = Iv(iv.lo, min(iv.hi, -1e-16))
        if (iv.lo, iv.hi, iv.nan) == (old.lo, old.hi, old.nan):
            return [env]
        es = [extended(env, t, iv)]
        if t.op == "ite":
            return [e2 for w, x in ((True, t.args[1]), (False, t.args[2])) for e in self.cases(t.args[0], es[0], w) for e2 in self.put(e, x, iv)]
        if not iv.nan:
            for x, b in self.operands(t, iv, es[0]):
                es = [e2 for e in es for e2 in self.put(e, x, b)]
        return es

    def operands(self, t, iv, env):
        """bounds of the operands implied by t in iv (t is not NaN)"""
        o, out = t.op, []
        if o == "f*":
            a, b = t.args
            if a.op == "num" and a.args[0] == -1:
                return [(b, Iv(-iv.hi, -iv.lo))]
            for x, y in ((a, b), (b, a)):
                r = self.range(x, env)
                if r.nan or not (iv.lo > 0 or iv.hi < 0):
                    continue
                if r.lo >= 0:
                    out.append((y, Iv(TINY, INF) if iv.lo > 0 else Iv(-INF, -TINY)))
                elif r.hi <= 0:
                    out.append((y, Iv(-INF, -TINY) if iv.lo > 0 else Iv(TINY, INF)))
        elif o == "fexp":
            lo = -INF if iv.lo <= 0 else -750.0 if iv.lo < 1e-300 else 709.78 if iv.lo == INF else math.log(iv.lo) - 1e-9
            hi = -740.0 if iv.hi <= 0 else INF if iv.hi == INF else -690.0 if iv.hi < 1e-300 else math.log(iv.hi) + 1e-9
            out.append((t.args[0], Iv(lo, hi)))
        elif o == "flog":
            x = t.args[0]
            lo, hi = 0.0, INF
            if iv.lo == INF:
                lo = INF
            elif iv.lo > 700:
                lo = 1e300
            elif iv.lo > -700:
                lo = math.exp(iv.lo - 1e-9) * (1 - 1e-12)
            elif iv.lo > -INF:
                lo = TINY
            if iv.hi == -INF:
                hi = 0.0
            elif iv.hi < -700:
                hi = 1e-300
            elif iv.hi < 700:
                hi = math.exp(iv.hi + 1e-9) * (1 + 1e-12)
            elif iv.hi < INF:
                hi = MAX
            out.append((x, Iv(lo, hi)))
        elif o == "flog1p":
            out.append((t.args[0], Iv(INF if iv.lo == INF else 1e300 if iv.lo > 700 else 0.0 if iv.lo >= 0 else -1.0,
                                      INF if iv.hi == INF else MAX if iv.hi >= 0 else 0.0)))
        elif o == "f+":
            for x, y in (t.args, t.args[::-1]):
                r = self.range(y, env)
                if r.nan or dead(r):
                    continue
                lo, hi = -INF, INF
                if iv.lo > -INF and r.hi < INF:
                    g = min(iv.lo, MAX)
                    lo = g - r.hi - 1e-15 * (abs(g) + abs(r.hi)) - 1e-300
                if iv.hi < INF and r.lo > -INF:
                    g = max(iv.hi, -MAX)
                    hi = g - r.lo + 1e-15 * (abs(g) + abs(r.lo)) + 1e-300
                if lo == lo and hi == hi:
                    out.append((x, Iv(lo, hi)))
        return out

    def classes(self, kind, t, env, want):
        if kind == "+inf":
            return self.put(env, t, Iv(INF, INF) if want else Iv(-INF, MAX, True))
        if kind == "-inf":
            return self.put(env, t, Iv(-INF, -INF) if want else Iv(-MAX, INF, True))
        if kind == "inf":
            if want:
                return self.put(env, t, Iv(INF, INF)) + self.put(env, t, Iv(-INF, -INF))
            return self.put(env, t, Iv(-MAX, MAX, True))
        if kind == "nan":
            return self.put(env, t, Iv(INF, -INF, True) if want else Iv(-INF, INF))
        raise OutOfReach("class of a number")

    def compare(self, c, env, want):
        a, b = c.args
        x, y = self.range(a, env), self.range(b, env)
        if x.nan or y.nan:
            raise OutOfReach("comparison of a number that may be NaN: %s" % short_term(c))
        if x.empty or y.empty:
            return []
        if c.op == "lt":
            if want:
                p, q = Iv(-INF, down(y.hi)), Iv(up(x.lo), INF)
            else:
                p, q = Iv(y.lo, INF), Iv(-INF, x.hi)
        else:
            if want:
                p, q = Iv(y.lo, y.hi), Iv(x.lo, x.hi)
            else:
                p, q = Iv(-INF, INF), Iv(-INF, INF)
                if y.lo == y.hi:
                    p = Iv(up(x.lo) if x.lo == y.lo else -INF, down(x.hi) if x.hi == y.hi else INF)
                if x.lo == x.hi:
                    q = Iv(up(y.lo) if y.lo == x.lo else -INF, down(y.hi) if y.hi == x.hi else INF)
        return [e2 for e in self.put(env, a, p) for e2 in self.put(e, b, q)]

    # ---- ranges
    def range(self, t, env):
        known = env.get(t)
        r = self.base(t, env)
        return cut(r, known) if isinstance(known, Iv) else r

    def base(self, t, env):
        """the bounds depend on t and on what env says about subterms of t only"""
        e, key = self.restrict(t, env)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.compute(t, e)
        return r

    def restrict(self, t, env):
        if not env:
            return env, (t,)
        sub, cond = self.parts(t)
        e = {k: w for k, w in env.items() if (k in sub and k is not t if isinstance(w, Iv) else cond)}
        return e, (t,) + tuple(sorted((k.key, w if isinstance(w, bool) else (w.lo, w.hi, w.nan)) for k, w in e.items()))

    def parts(self, t):
        r = self.partmemo.get(t)
        if r is None:
            sub, cond = {t}, t.op in ("ite", "sum", "spv")

            def go(x):
                nonlocal sub, cond
                if isinstance(x, tuple):
                    for y in x:
                        go(y)
                elif isinstance(x, T):
                    s, c = self.parts(x)
                    sub |= s
                    cond = cond or c
            for x in t.args:
                go(x)
            r = self.partmemo[t] = (sub, cond)
        return r

    def compute(self, t, env):
        self.steps += 1
        if self.steps > 400000:
            raise OutOfReach("too many steps")
        v = self.leaf(t)
        if v is not None:
            return v
        o = t.op
        if o == "num":
            try:
                q = float(t.args[0])
            except OverflowError:
                raise OutOfReach("constant")
            return Iv(q, q)
        if o == "i2r":
            lo, hi = self.linear(t.args[0])
            return Iv(lo, hi)
        if o == "ite":
            out = NONE
            for e in self.cases(t.args[0], env, True):
                out = union(out, self.range(t.args[1], e))
            for e in self.cases(t.args[0], env, False):
                out = union(out, self.range(t.args[2], e))
            return out
        if o == "spv":
            r = self.range(t.args[1], env)
            return Iv(min(r.lo, 0.0), max(r.hi, 0.0), r.nan)
        if o == "f+":
            return i_add(self.range(t.args[0], env), self.range(t.args[1], env))
        if o == "f*":
            return self.product(t, env)
        if o == "f/":
            out = NONE
            a, b = t.args
            if a.op == "sum" and b.op == "i2r" and b.args[0] is a.args[0].args[1] and a.args[1].op != "spv" and self.linear(b.args[0])[0] >= 1:
                # a mean lies between the smallest and the largest value, up to rounding
                r = self.range(a.args[1], env)
                if not r.nan and r.lo >= 0 and r.hi * self.count(a) < MAX / 2:
                    return Iv(r.lo * (1 - 1e-8), r.hi * (1 + 1e-8))
            self.hints = subterms(t.args[0], lambda x: x.op in ("iv", "ifn", "ilin"))
            for a, e in self.tops(t.args[0], env):
                for b, e2 in self.tops(t.args[1], e):
                    x, y = self.range(a, e2), self.range(b, e2)
                    r = i_div(x, y)
                    if b.op == "f+" and a in b.args and y.lo > 0 and x.lo >= 0 and x.hi < INF and not x.nan and not y.nan:
                        k = b.args[0] if b.args[1] is a else b.args[1]
                        if k.op == "num" and k.args[0] < 0:
                            # x / (x - k) = 1 + k / (x - k)
                            r = Iv(r.lo, min(r.hi, (1 - fl(k) / y.lo) * (1 + 1e-9)), r.nan)
                    if y.lo == 0 and not y.nan and not x.nan and not x.lo <= 0 <= x.hi and self.no_minus_zero(b, e2):
                        # the divisor is +0 or positive: the sign of the quotient is that of the numerator
                        q = i_div(x, Iv(TINY, max(y.hi, TINY)))
                        r = Iv(q.lo, INF, q.nan) if x.lo > 0 else Iv(-INF, q.hi, q.nan)
                    if r.hi > 1 and x.lo >= 0 and y.lo > 0 and not x.nan and not y.nan and x.hi < INF:
                        d = self.below(a, b, e2)
                        if d is not None:
                            r = Iv(r.lo, min(r.hi, 1 + 2 * d), r.nan)
                    out = union(out, r)
            return out
        if o == "f^":
            return i_pow(self.range(t.args[0], env), self.range(t.args[1], env))
        if o == "fexp":
            return i_exp(self.range(t.args[0], env))
        if o == "flog":
            return i_log(self.range(t.args[0], env))
        if o == "rfn" and t.args[0] == "abs":
            r = self.range(t.args[1][0], env)
            return Iv(0.0 if r.lo <= 0 <= r.hi else min(abs(r.lo), abs(r.hi)), max(abs(r.lo), abs(r.hi)), r.nan)
        if o == "max":
            return self.range(t.args[1], env)
        if o == "flog1p":
            return i_log1p(self.range(t.args[0], env))
        if o == "fexpm1":
            return i_expm1(self.range(t.args[0], env))
        if o == "sum":
            return self.total(t, env)
        raise OutOfReach("range of %s" % o)

    def no_minus_zero(self, t, env):
        """t is never the negative zero"""
        o = t.op
        r = self.range(t, env)
        if not r.lo <= 0 <= r.hi or o in ("num", "fexp", "i2r"):
            return True
        if o == "app":
            return r.lo >= 0                 # part of the precondition
        if o == "ite":
            return self.no_minus_zero(t.args[1], env) and self.no_minus_zero(t.args[2], env)
        if o == "f+":
            return any(self.no_minus_zero(x, env) for x in t.args)
        if o in ("f*", "f/"):
            return all(self.range(x, env).lo >= 0 and self.no_minus_zero(x, env) for x in t.args)
        if o == "f^":
            return self.range(t.args[0], env).lo >= 0 and self.no_minus_zero(t.args[0], env)
        return False

    def tops(self, t, env, full=False):
        """t by cases of the conditions at its root"""
        if t.op != "ite" or not full and isinstance(env.get(t), Iv):
            return [(t, env)]
        out = []
        for w, x in ((True, t.args[1]), (False, t.args[2])):
            for e in self.cases(t.args[0], env, w):
                out += self.tops(x, e, full)
        return out

    def product(self, t, env):
        a, b = t.args
        x = i_mul(self.range(a, env), self.range(b, env))
        # a factor chosen by cases: 0 or 1 times the other
        for p, q in ((a, b), (b, a)):
            if p.op == "ite":
                out = NONE
                for s, e in self.tops(p, env):
                    out = union(out, i_mul(self.range(s, e), self.range(q, e)))
                x = cut(x, out)
        # e * S^(l-1) <= S^l
        for p, q in ((a, b), (b, a)):
            S, l = self.power_less_one(q)
            if S is not None and self.range(p, env).lo >= 0:
                L = self.range(l, env)
                if 0 <= L.lo and L.hi <= 1 and self.below(p, S, env) == 0:
                    h = i_pow(self.range(S, env), L).hi * (1 + 1e-11)
                    if h < MAX:
                        x = Iv(x.lo, min(x.hi, h), x.nan and not (self.range(p, env).hi < INF and self.range(S, env).lo > 0))
        return x

    def power_less_one(self, q):
        if q.op == "f^" and q.args[1].op == "f+":
            u, w = q.args[1].args
            for l, k in ((u, w), (w, u)):
                if k.op == "num" and k.args[0] == -1:
                    return q.args[0], l
        return None, None

    def linear(self, i):
        c, ps = as_lin(i)
        lo = hi = c
        for a, q in ps:
            l, h = self.size(a)
            lo += q * (l if q > 0 else h)
            hi += q * (h if q > 0 else l)
        return lo, hi

    def total(self, t, env):
        k, b = t.args
        r = self.range(b, env)
        n = self.count(t)
        if r.nan:
            return Iv(-INF, INF, True)
        x = b.args[1] if b.op == "spv" else b
        hi = r.hi * n * (1 + 1e-9) if r.hi > 0 else 0.0
        lo = r.lo * n * (1 + 1e-9) if r.lo < 0 else 0.0
        if r.lo >= 0:
            if b.op != "spv" and self.linear(k.args[1])[0] >= 1:
                lo = r.lo
            lo = max([lo] + [self.range(g, env).lo for g in self.own(t, self.ground, env)])
        return Iv(lo, hi, r.lo == -INF and r.hi == INF)

    def ints(self, env):
        return [k if w else not_(k) for k, w in env.items() if isinstance(w, bool) and k.op in ("ieq", "ilt")]

    def under(self, env):
        """index conditions decided within env"""
        known = self.ints(env)

        def decide(c):
            if self.norm.int_unsat(known + [not_(c)]):
                return TRUE
            return FALSE if self.norm.int_unsat(known + [c]) else c
        return decide

    def own(self, t, idx, env):
        """the terms of a sum at known indices"""
        k, b = t.args
        out = []
        known = self.ints(env)
        for i in idx:
            if irange_len(i) is not k.args[1]:
                inside = and_(ile(icst(0), i), ilt(i, k.args[1]))
                if not self.norm.int_unsat(known + [not_(inside)]):
                    continue
            g = simplify(subst(b, {k: i}), self.under(env))
            if g.op != "spv" and g is not ZERO:
                out.append(g)
        return out

    def below(self, a, b, env):
        """0: a <= b;  d > 0: a <= b (1 + d);  None: unknown"""
        if a is b:
            return 0
        if b.op == "ite":
            ds = [self.below(a, y, f) for y, f in self.tops(b, env, True)]
            return None if None in ds else max(ds + [0])
        if a.op == "ite":
            ds = [self.below(y, b, f) for y, f in self.tops(a, env, True)]
            if None not in ds:
                return max(ds + [0])
        if self.range(a, env).hi <= self.range(b, env).lo:
            return 0
        if b.op == "f+":
            for x, y in (b.args, b.args[::-1]):
                r = self.range(y, env)
                if r.lo >= 0 and not r.nan:
                    d = self.below(a, x, env)
                    if d is not None:
                        return d
            return None
        if b.op == "sum":
            r = self.range(b.args[1], env)
            if not r.lo >= 0 or r.nan:
                return None
            u = self.under(env)
            idx = subterms(simplify(a, u), lambda x: x.op in ("iv", "ifn", "ilin")) + self.ground + self.hints
            for g in self.own(b, list(dict.fromkeys(idx)), env):
                ds = [self.term_below(a, y, f, u) for y, f in self.tops(g, env, True)]
                if None not in ds:
                    return max(ds + [0])
        return None

    def term_below(self, a, g, env, u):
        a, g = simplify(a, u), simplify(g, u)
        if a is g:
            return 0
        if g.op == "f^" and a.op == "f*":
            for p, q in (a.args, a.args[::-1]):
                S, l = self.power_less_one(q)
                if S is g.args[0] and l is g.args[1]:
                    L = self.range(l, env)
                    if 0 <= L.lo and L.hi <= 1 and self.range(p, env).lo >= 0 and self.below(p, S, env) == 0:
                        return 1e-11
        return None


def extended(env, k, v):
    e = dict(env)
    e[k] = v
    return e


def short_term(t):
    return show(t)[:300]
