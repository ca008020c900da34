"""Symbolic numpy / scipy.sparse values.

The real source of /repo is executed, unmodified, on these values: an array is
a function from symbolic index terms to a symbolic element, with a symbolic
shape.  One execution therefore covers every array length and every content.
"""
import itertools
import re
from fractions import Fraction
from .terms import *
from . import terms as tm
from .norm import Norm, Facts, Prover, Unprovable, infeasible, replace_terms


class Unsupported(BaseException):
    """construct outside the verifier's reach (never swallowed by user code)"""


class PathDead(BaseException):
    pass


# ---------------------------------------------------------------- path context
class Ctx(object):
    def __init__(self, facts, prefix=()):
        self.base = facts
        self.prefix = list(prefix)
        self.taken = []
        self.conds = []
        self.alts = []
        self.writes = []      # buffers written to
        self._n = None
        self.raised = None
        self.calls = []       # stub calls recorded
        self.rng = []         # random number calls
        self.obligations = []  # (name, ok, info) raised inside stubs
        self.loops = []       # symbolic loops being executed
        self.masks = []       # conditions known inside the comprehension being executed
        self.split = 0        # branches taken on data of a symbolic loop

    def facts(self):
        f = self.base.copy()
        f.assume = list(f.assume) + list(self.conds)
        return f

    def norm(self):
        if self._n is None:
            self._n = Norm(self.facts())
        return self._n

    def known(self, c):
        """TRUE/FALSE/None without forking"""
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        n = self.norm()
        p = n.cond(c)
        if not p:
            return False
        from .norm import is_const
        k = is_const(p)
        if k is not None:
            return k == 1
        if c.op == "ieq" or c.op == "ilt":
            d = n.idecide(c)
            if d.op in ("true", "false"):
                return d.op == "true"
        return None

    def decide(self, c):
        k = self.known(c)
        if k is not None:
            return k
        for fr in reversed(self.loops):
            if fr.i in c.ivs:
                return fr.branch(self, c)
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = True
            self.alts.append(self.taken + [False])
        self.taken.append(v)
        self.conds.append(c if v else not_(c))
        self._n = None
        f = self.facts()
        ints = [x for x in f.assume if x.op in ("ieq", "ilt") or (x.op == "not" and x.args[0].op in ("ieq", "ilt"))]
        if (ints and Norm(f).int_unsat(ints)) or infeasible(f):
            raise PathDead()
        return v


CUR = [None]


def ctx():
    if CUR[0] is None:
        raise Unsupported("no verification context")
    return CUR[0]


# ---------------------------------------------------------------- scalars
def tint(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, bool):
        return icst(int(x))
    if isinstance(x, int):
        return icst(x)
    if isinstance(x, SCount):
        return x.d
    if isinstance(x, T):
        return x
    raise Unsupported("index %r" % (x,))


def wint(t):
    v = iconst_value(t)
    return v if v is not None else SInt(t)


def wbool(c):
    if c.op == "true":
        return True
    if c.op == "false":
        return False
    return SBool(c)


def wreal(t):
    if t.op == "num":
        q = t.args[0]
        return float(q)
    return SReal(t)


INF = object()


def treal(x):
    if isinstance(x, SReal):
        return x.t
    if isinstance(x, SInt):
        return i2r(x.t)
    if isinstance(x, SBool):
        return iv01(x.c)
    if isinstance(x, Choice):
        return x.term()
    if isinstance(x, (bool, int, Fraction)):
        return num(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite literal")
        # decimal literals denote their decimal value
        return num(Fraction(repr(x)))
    if isinstance(x, Arr):
        if len(x.dims) == 0:
            return x.rel(())
        if all(iconst_value(d) == 1 for d in x.dims):
            return x.rel(tuple(icst(0) for _ in x.dims))
    raise Unsupported("scalar %r" % (type(x),))


def is_scalar(x):
    return isinstance(x, (SReal, SInt, SBool, bool, int, float, Fraction)) or (isinstance(x, Arr) and not x.dims)


class Sym(object):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("attribute %s of %s" % (name, type(self).__name__))


class SBool(Sym):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return ctx().decide(self.c)

    def __and__(self, o):
        return wbool(and_(self.c, tbool(o)))

    def __or__(self, o):
        return wbool(or_(self.c, tbool(o)))

    def __invert__(self):
        return wbool(not_(self.c))
    __rand__, __ror__ = __and__, __or__

    def __repr__(self):
        return "SBool(%s)" % show(self.c)

    def __mul__(self, o):
        if isinstance(o, (Arr, Sp)):
            return NotImplemented
        return wreal(mul(treal(self), treal(o)))
    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            a, b = self.c, tbool(o)
            return wbool(or_(and_(a, b), and_(not_(a), not_(b))))
        return False

    def __hash__(self):
        raise Unsupported("hash of symbolic bool")


def tbool(x):
    if isinstance(x, SBool):
        return x.c
    if isinstance(x, bool):
        return bconst(x)
    if isinstance(x, (int, float)):
        return bconst(bool(x))
    if isinstance(x, SInt):
        return not_(ieq(x.t, 0))
    if isinstance(x, SReal):
        return not_(req(x.t, ZERO))
    raise Unsupported("truth of %r" % type(x))


class SInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _bin(self, o, fi, fr):
        if isinstance(o, (Arr, Sp)):
            return NotImplemented
        if isinstance(o, (int, SInt)):
            return wint(fi(self.t, tint(o)))
        return wreal(fr(i2r(self.t), treal(o)))

    def _rbin(self, o, fi, fr):
        if isinstance(o, (Arr, Sp)):
            return NotImplemented
        if isinstance(o, (int, SInt)):
            return wint(fi(tint(o), self.t))
        return wreal(fr(treal(o), i2r(self.t)))

    def __add__(self, o):
        return self._bin(o, iadd, add)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, isub, sub)

    def __rsub__(self, o):
        return self._rbin(o, isub, sub)

    def __mul__(self, o):
        return self._bin(o, imul, mul)
    __rmul__ = __mul__

    def __neg__(self):
        return wint(iscale(-1, self.t))

    def __truediv__(self, o):
        if isinstance(o, (Arr, Sp)):
            return NotImplemented
        return wreal(div(i2r(self.t), treal(o)))

    def __rtruediv__(self, o):
        return wreal(div(treal(o), i2r(self.t)))

    def __pow__(self, o):
        return wreal(pow_(i2r(self.t), treal(o)))

    def _cmp(self, o, f, g):
        if isinstance(o, (Arr, Sp)):
            return NotImplemented
        if isinstance(o, (int, SInt)):
            return wbool(f(self.t, tint(o)))
        if isinstance(o, (float, SReal)):
            return wbool(g(i2r(self.t), treal(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, ilt, lt)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: ile(a, b), le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: ilt(b, a), lambda a, b: lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: ile(b, a), lambda a, b: le(b, a))

    def __eq__(self, o):
        r = self._cmp(o, ieq, req)
        return False if r is NotImplemented and not isinstance(o, (Arr, Sp)) else r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return wbool(not_(tbool(r)))

    def __hash__(self):
        raise Unsupported("hash of a symbolic integer")

    def __bool__(self):
        return ctx().decide(not_(ieq(self.t, 0)))

    def __format__(self, spec):
        return token(self.t)

    def __index__(self):
        raise Unsupported("concrete value of symbolic integer %s" % show(self.t))

    def __float__(self):
        raise Unsupported("float of symbolic int")

    def __repr__(self):
        return show(self.t)


class SReal(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _b(self, o, f):
        if isinstance(o, (Arr, Sp)) and not is_scalar(o):
            return NotImplemented
        if isinstance(o, (str, list, tuple, Series)) or o is None:
            return NotImplemented
        return wreal(f(self.t, treal(o)))

    def __add__(self, o):
        return self._b(o, add)
    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, sub)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: sub(b, a))

    def __mul__(self, o):
        return self._b(o, mul)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, div)

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: div(b, a))

    def __pow__(self, o):
        return self._b(o, pow_)

    def __rpow__(self, o):
        return self._b(o, lambda a, b: pow_(b, a))

    def __neg__(self):
        return wreal(neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return wreal(rfn("abs", (self.t,)))

    def __lt__(self, o):
        return wbool(lt(self.t, treal(o)))

    def __le__(self, o):
        return wbool(le(self.t, treal(o)))

    def __gt__(self, o):
        return wbool(lt(treal(o), self.t))

    def __ge__(self, o):
        return wbool(le(treal(o), self.t))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return wbool(req(self.t, treal(o)))

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return wbool(not_(req(self.t, treal(o))))

    def __hash__(self):
        t = self.t
        if t.op == "num":
            return hash(t.args[0])
        if t.op == "app" and t.args[0].startswith("inj:") and all(iconst_value(x) is not None for x in t.args[1]):
            return hash(t)        # distinct such terms are distinct numbers
        raise Unsupported("hash of a symbolic number")

    def __bool__(self):
        return ctx().decide(not_(req(self.t, ZERO)))

    def __format__(self, spec):
        return token(self.t)

    def __float__(self):
        raise Unsupported("float of symbolic real")

    def sum(self, axis=None):
        return self

    def mean(self, axis=None):
        return self

    @property
    def shape(self):
        return ()

    def ravel(self):
        return Arr.fresh((icst(1),), lambda ix: self.t)

    def __repr__(self):
        return token(self.t)



class SIntVal(SReal):
    """an integer known only as a number (an id)"""


class SIntEl(SReal):
    """element of an integer array (a numpy integer, not a Python int)"""


class Key(SReal):
    """the first key of a dictionary: equality with later keys is decided
    before they are stored, so any hash will do"""

    def __hash__(self):
        return hash(self.t)


# ---------------------------------------------------------------- helpers
def dimeq(a, b):
    if a is b:
        return True
    return ctx().decide(ieq(a, b))


def is_one(d):
    v = iconst_value(d)
    if v is not None:
        return v == 1
    return ctx().known(ieq(d, icst(1))) is True


def breakpoints(t, k):
    """all c such that a condition k < c (or k = c) occurs in t"""
    out = []
    if k not in t.ivs:
        return out
    bvs = frozenset(x.args[0] for x in subterms(t, lambda x: x.op in tm.BINDERS))
    for s in subterms(t, lambda x: x.op in ("ilt", "ieq") and k in x.ivs):
        d = s.args[0] if s.op == "ilt" else isub(s.args[0], s.args[1])
        c, ps = as_lin(d)
        co = [q for a, q in ps if a is k]
        if not co or abs(co[0]) != 1 or any(k in a.ivs and a is not k for a, q in ps):
            continue
        rest = ilin(c, [(a, q) for a, q in ps if a is not k])
        if rest.ivs & bvs:
            continue
        if s.op == "ieq" and any(a.op in ("ifn", "iv") and a.ivs for a, q in ps if a is not k):
            continue
        p = iscale(-co[0], rest)
        if s.op == "ilt":
            if co[0] == 1:      # k < -rest
                out.append(p)
            else:               # -k + rest < 0 : k > rest  -> boundary rest+1
                out.append(iadd(p, 1))
        else:
            out.append(p)
            out.append(iadd(p, 1))
    return list(dict.fromkeys(out))


def segments(length, pts, n=None):
    """ordered cut of [0,length) at pts; None when the order is not provable"""
    n = n or ctx().norm()
    cuts = [icst(0), length]
    for p in pts:
        if n.idecide(ile(p, 0)).op == "true" or n.idecide(ile(length, p)).op == "true":
            continue
        pos = None
        ok = True
        for i, c in enumerate(cuts):
            if c is p or n.idecide(ieq(c, p)).op == "true":
                pos = -1
                break
            if n.idecide(ile(c, p)).op == "true":
                continue
            if n.idecide(ile(p, c)).op == "true":
                pos = i
                break
            ok = False
            break
        if not ok or pos is None:
            continue
        if pos >= 0:
            cuts.insert(pos, p)
    segs = []
    for a, b in zip(cuts, cuts[1:]):
        L = isub(b, a)
        if iconst_value(L) == 0:
            continue
        segs.append((a, L))
    return segs


def at(seg, prefix="i"):
    a, L = seg
    if iconst_value(L) == 1:
        return a, None
    v = fresh_iv(L, prefix)
    return iadd(a, v), v


def sum_over(length, body):
    """Sum_{k<length} body(k), cut at the breakpoints of the body"""
    c = iconst_value(length)
    if c is not None and c <= 6:
        return add(*[body(icst(i)) for i in range(c)])
    k = fresh_iv(length, "k")
    b = body(k)
    if b is ZERO:
        return ZERO
    u = unselect(length, k, b) if length in SELECT else None
    if u is not None:
        return sum_(*u)
    pts = breakpoints(b, k)
    if pts:
        segs = segments(length, pts)
        if len(segs) > 1:
            out = []
            for s in segs:
                ix, v = at(s)
                e = subst(b, {k: ix})
                out.append(e if v is None else sum_(v, e))
            return add(*out)
    return sum_(k, b)


# ---------------------------------------------------------------- arrays
class Memo(dict):
    """elements of an array; nothing is kept while a branch condition on the
    data of a symbolic loop is assumed"""

    def __setitem__(self, k, v):
        if CUR[0] is None or not CUR[0].split:
            dict.__setitem__(self, k, v)


class Buf(object):
    """mutable storage: element function over index terms"""
    __slots__ = ("dims", "el", "kind", "tag", "memo", "born")

    def __init__(self, dims, el, kind="f", tag=None):
        self.born = tuple(CUR[0].loops) if CUR[0] is not None else ()
        self.dims = tuple(dims)
        self.el = el
        self.kind = kind
        self.tag = tag
        self.memo = Memo()

    def get(self, ix):
        r = self.memo.get(ix)
        if r is None:
            r = self.el(ix)
            self.memo[ix] = r
        return r

    def set(self, el):
        c = ctx()
        for fr in c.loops:
            if fr not in self.born and self not in fr.saved:
                fr.saved[self] = (self.el, self.memo)
        self.el = el
        self.memo = Memo()
        if self not in c.writes:
            c.writes.append(self)


def kind_join(*ks):
    if "O" in ks:
        return "O"
    if "f" in ks:
        return "f"
    if "i" in ks:
        return "i"
    return "b"


def wrap_el(kind, t):
    if kind == "b":
        return wbool(t)
    if kind == "i" and t.op == "i2r":
        return wint(t.args[0])
    r = wreal(t)
    return SIntEl(t) if kind == "i" and type(r) is SReal else r


TOKENS = {}
_TOK = {}


def token(t):
    """text that stands for a symbolic number inside a string"""
    k = _TOK.get(t)
    if k is None:
        k = _TOK[t] = "\x00%d\x00" % len(_TOK)
        TOKENS[k] = t
    return k


def untoken(text):
    """(pattern, terms) of a string that may contain symbolic numbers"""
    ts = []

    def tok(m):
        ts.append(TOKENS[m.group(0)])
        return "{}"
    return re.sub("\x00\\d+\x00", tok, text), ts


def str_term(text, code):
    pat, ts = untoken(text)
    return ifn("label:" + pat, ts, code)


class SkipList(Sym):
    """list(range(n)) with the element at a symbolic position removed"""

    def __init__(self, n, removed=()):
        self.n = n
        self.removed = list(removed)

    def vf_map(self, fn):
        if self.removed:
            i = fresh_iv(self.slen, "n")
            r = generic(i, lambda: fn(SInt(i)))
            if isinstance(r, SInt) and r.t is i:
                return self.copy()
            raise Unsupported("map over a symbolic range with a gap")
        return map_range(icst(0), self.n, fn)

    def vf_filter(self, cond):
        """[x for x in range(n) if x != r]"""
        if self.removed:
            raise Unsupported("selection from a symbolic range with a gap")
        i = fresh_iv(self.n, "n")
        c = tbool(generic(i, lambda: cond(SInt(i))))
        if c.op == "not" and c.args[0].op == "ieq":
            a, b = c.args[0].args
            k, ps = as_lin(isub(a, b))
            mine = [q for x, q in ps if x is i]
            if mine in ([1], [-1]) and all(i not in x.ivs for x, _ in ps if x is not i):
                r = iscale(-mine[0], ilin(k, [(x, q) for x, q in ps if x is not i]))
                if ctx().decide(and_(not_(ilt(r, 0)), ilt(r, self.n))):
                    return SkipList(self.n, [r])
                return SkipList(self.n)
        raise Unsupported("selection from a symbolic range")

    def arr(self):
        return Arr.fresh((self.slen,), lambda ix: self.sel(i2r, ix[0]), "i")

    def remove(self, r):
        if self.removed:
            raise Unsupported("two removals from a symbolic range")
        rt = tint(r)
        c = ctx()
        if not c.decide(and_(not_(ilt(rt, 0)), ilt(rt, self.n))):
            raise ValueError("list.remove(x): x not in list")
        self.removed.append(rt)

    @property
    def slen(self):
        return isub(self.n, len(self.removed))

    def copy(self):
        return SkipList(self.n, self.removed)

    def sel(self, f, k):
        """f(list[k])"""
        if not self.removed:
            return f(k)
        r = self.removed[0]
        return ite(ilt(k, r), f(k), f(iadd(k, 1)))

    def inv(self, j, inside, outside):
        """element at position j: inside(k) when list[k]=j else outside()"""
        if not self.removed:
            return inside(j)
        r = self.removed[0]
        return ite(ilt(j, r), inside(j), ite(ieq(j, r), outside(), inside(isub(j, 1))))

    def vf_loop(self, info):
        if iconst_value(self.n) is not None:
            return iter(self)
        if self.removed:
            raise Unsupported("loop over a symbolic range with a gap")
        return par_loop(icst(0), self.n, info)

    def __iter__(self):
        v = iconst_value(self.n)
        if v is None:
            raise Unsupported("iteration over a symbolic range")
        rs = [iconst_value(r) for r in self.removed]
        if None in rs:
            raise Unsupported("iteration over a symbolic range")
        return iter([i for i in range(v) if i not in rs])

    def __getitem__(self, k):
        if not self.removed and isinstance(k, (int, SInt)):
            t = tint(k)
            if iconst_value(t) is not None and iconst_value(t) < 0:
                t = iadd(self.n, t)
            return wint(t)
        raise Unsupported("element of symbolic list")


def norm_index(t, n):
    """python index -> non negative index term"""
    t = tint(t)
    v = iconst_value(t)
    if v is not None:
        if v < 0:
            return iadd(n, v)
        return t
    c = ctx()
    if c.decide(ilt(t, 0)):
        return iadd(n, t)
    return t


def norm_slice(s, n):
    if s.step not in (None, 1):
        raise Unsupported("slice step")
    c = ctx()

    def clampt(x, default):
        if x is None:
            return default
        t = tint(x)
        v = iconst_value(t)
        if v is not None and v < 0 or (v is None and c.decide(ilt(t, 0))):
            t = iadd(n, t)
            if c.decide(ilt(t, 0)):
                return icst(0)
            return t
        if c.decide(ilt(n, t)):
            return n
        return t
    a = clampt(s.start, icst(0))
    b = clampt(s.stop, n)
    if iconst_value(a) == 0:
        return a, b
    if c.decide(ilt(b, a)):
        b = a
    return a, isub(b, a)


class Mask(object):
    pass


class Arr(Sym):
    """numpy.ndarray"""
    is_mat = False
    __array_priority__ = 0

    def __init__(self, buf, dims, vmap):
        self.buf = buf
        self.dims = tuple(dims)
        self.vmap = vmap     # per base axis ('ax', viewaxis, offset) / ('fix', term)

    # ---- construction
    @classmethod
    def fresh(cls, dims, el, kind="f", tag=None):
        dims = tuple(dims)
        b = Buf(dims, el, kind, tag)
        return cls(b, dims, [("ax", i, icst(0)) for i in range(len(dims))])

    @property
    def kind(self):
        return self.buf.kind

    @property
    def dtype(self):
        return DType(self.buf.kind)

    @property
    def shape(self):
        return tuple(wint(d) for d in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        r = 1
        for d in self.dims:
            r = wint(d) * r
        return r

    def slen_(self):
        if not self.dims:
            raise TypeError("len() of unsized object")
        return self.dims[0]

    def __iter__(self):
        v = iconst_value(self.dims[0])
        if v is None:
            raise Unsupported("iteration over a symbolic array")
        return iter([self[i] for i in range(v)])

    def vf_map(self, fn):
        n = self.dims[0]
        if iconst_value(n) is not None:
            return [fn(x) for x in self]
        i = fresh_iv(n, "n")
        return mapped(n, i, generic(i, lambda: fn(self.first(i))))

    def vf_filter(self, cond):
        n = self.dims[0]
        if iconst_value(n) is not None:
            return [x for x in self if cond(x)]
        i = fresh_iv(n, "n")
        c = tbool(generic(i, lambda: cond(self.first(i))))
        return compress(self, Arr.fresh((n,), lambda ix: subst(c, {i: ix[0]}), "b"))

    def first(self, i):
        if len(self.dims) == 1:
            return wrap_el(self.kind, self.el((i,)))
        return self[wint(i)]

    def vf_loop(self, info):
        if iconst_value(self.dims[0]) is not None:
            return iter(self)
        return par_loop(icst(0), self.dims[0], info, lambda i: self.first(i))

    def __contains__(self, x):
        if len(self.dims) != 1:
            raise Unsupported("membership in a matrix")
        return bool(wbool(member(treal(x), self)))

    def base_ix(self, ix):
        out = []
        for m in self.vmap:
            if m[0] == "ax":
                out.append(iadd(ix[m[1]], m[2]))
            else:
                out.append(m[1])
        return tuple(out)

    def el(self, ix):
        return self.buf.get(self.base_ix(ix))

    def rel(self, ix):
        t = self.el(ix)
        if self.buf.kind == "b":
            return iv01(t)
        return t

    def cel(self, ix):
        if self.buf.kind == "b":
            return self.el(ix)
        return not_(req(self.el(ix), ZERO))

    def snapshot(self):
        """element function frozen at this moment (values, not storage)"""
        el = self.buf.el
        memo = self.buf.memo
        vm = self

        def f(ix):
            b = vm.base_ix(ix)
            r = memo.get(b)
            if r is None:
                r = el(b)
                memo[b] = r
            return r
        return f

    def rsnap(self):
        f = self.snapshot()
        if self.buf.kind == "b":
            return lambda ix: iv01(f(ix))
        return f

    # ---- writes
    def write(self, new, cond=None):
        """new: function(view ix)->T ; cond: function(view ix)->cond"""
        old = self.buf.el
        omemo = self.buf.memo
        vm = self.vmap
        dims = self.dims
        boolean = self.buf.kind == "b"

        def g(bix):
            conds = []
            vix = [icst(0)] * len(dims)
            for b, m in zip(bix, vm):
                if m[0] == "ax":
                    x = isub(b, m[2])
                    vix[m[1]] = x
                    if not (iconst_value(m[2]) == 0 and irange_ok(b, dims[m[1]])):
                        conds.append(not_(ilt(x, 0)))
                        conds.append(ilt(x, dims[m[1]]))
                else:
                    conds.append(ieq(b, m[1]))
            o = omemo.get(bix)
            if o is None:
                o = old(bix)
                omemo[bix] = o
            vix = tuple(vix)
            if cond is not None:
                conds.append(cond(vix))
            c = and_(*conds)
            if c.op == "false":
                return o
            if boolean:
                nv = new(vix)
                return or_(and_(c, nv), and_(not_(c), o))
            return ite(c, new(vix), o)
        self.buf.set(g)

    def assign(self, value, cond=None):
        k = self.buf.kind
        if k == "b":
            v = asarr(value)
            f = bcast_fn(v, self.dims, boolean=True)
            self.write(f, cond)
            return
        v = asarr(value)
        if k == "i" and v.kind == "f":
            raise Unsupported("float stored into an integer array")
        self.write(bcast_fn(v, self.dims), cond)

    # ---- indexing
    def __getitem__(self, key):
        if isinstance(key, WhereIdx):
            key = key.mask
        if isinstance(key, Arr) and key.kind == "b":
            if len(key.dims) == 1 and len(self.dims) > 1:
                return compress(self, key)
            return Masked(self, key)
        if not isinstance(key, tuple):
            key = (key,)
        key = tuple(k.mask if isinstance(k, WhereVec) else k for k in key)
        if any(k is Ellipsis for k in key):
            n = sum(1 for k in key if k is not None and k is not Ellipsis)
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key = key[:i] + (slice(None),) * (len(self.dims) - n) + key[i + 1:]
        nreal = sum(1 for k in key if k is not None)
        if nreal > len(self.dims):
            raise IndexError("too many indices for array")
        key = key + (slice(None),) * (len(self.dims) - nreal)
        bools = [j for j, k in enumerate(key) if isinstance(k, Arr) and k.kind == "b" and k.dims]
        if len(bools) == 1 and all(k == slice(None) for j, k in enumerate(key) if j != bools[0] and isinstance(k, slice)) and all(isinstance(k, slice) for j, k in enumerate(key) if j != bools[0]):
            return compress(self, key[bools[0]], bools[0])
        fancy = [k for k in key if isinstance(k, (SkipList, list, SList, Arr, Masked)) and not (isinstance(k, Arr) and not k.dims)]
        if fancy:
            return self._fancy(key)
        newdims = []
        amap = []
        ax = 0
        for k in key:
            if k is None:
                newdims.append(icst(1))
                continue
            d = self.dims[ax]
            if isinstance(k, slice):
                a, L = norm_slice(k, d) if (k.start is not None or k.stop is not None or k.step is not None) else (icst(0), d)
                amap.append(("ax", len(newdims), a))
                newdims.append(L)
            else:
                t = norm_index(k, d)
                if not ctx().decide(and_(not_(ilt(t, 0)), ilt(t, d))):
                    raise IndexError("index out of bounds")
                amap.append(("fix", t))
            ax += 1
        vm = []
        for m in self.vmap:
            if m[0] == "fix":
                vm.append(m)
            else:
                a = amap[m[1]]
                if a[0] == "fix":
                    vm.append(("fix", iadd(a[1], m[2])))
                else:
                    vm.append(("ax", a[1], iadd(a[2], m[2])))
        if not newdims:
            ix = tuple(m[1] for m in vm)
            return wrap_el(self.kind, self.buf.get(ix))
        if self.is_mat and len(newdims) == 1:
            # matrices stay two-dimensional
            rowkey = not isinstance(key[0], slice)
            f = Arr(self.buf, newdims, vm)
            if rowkey:
                return Mat.fresh((icst(1), newdims[0]), lambda ix: f.rel((ix[1],)))
            return Mat.fresh((newdims[0], icst(1)), lambda ix: f.rel((ix[0],)))
        return type(self)(self.buf, newdims, vm)

    def _fancy(self, key):
        pos = [i for i, k in enumerate(key) if not isinstance(k, slice) and k is not None]
        if any(k is None for k in key):
            raise Unsupported("newaxis with fancy index")
        fl = [i for i in pos if isinstance(key[i], (SkipList, list, SList, Arr, Masked))]
        if len(fl) != 1 or len(pos) != 1:
            raise Unsupported("several advanced indices")
        i = fl[0]
        seq = as_index_seq(key[i])
        rest = tuple(slice(None) if j == i else k for j, k in enumerate(key))
        view = self[rest]
        f = view.snapshot()
        dims = list(view.dims)
        dims[i] = seq.length
        src_len = view.dims[i]

        def g(ix):
            return seq.sel(lambda t: f(ix[:i] + (t,) + ix[i + 1:]), ix[i], src_len)
        return type(self).fresh(dims, g, self.kind)

    def __setitem__(self, key, value):
        if isinstance(key, WhereIdx):
            key = key.mask
        if isinstance(key, Arr) and key.kind == "b":
            if len(key.dims) > len(self.dims):
                raise IndexError("too many indices for boolean array")
            for a, b in zip(key.dims, self.dims):
                if not dimeq(a, b):
                    raise IndexError("boolean index did not match")
            if len(key.dims) == 1 and len(self.dims) > 1 and isinstance(value, Arr) and len(value.dims) == len(self.dims):
                self[(key,) + (slice(None),) * (len(self.dims) - 1)] = value
                return
            c = key.snapshot()
            nk = len(key.dims)
            cond = (lambda ix: c(ix[:nk]))
            if isinstance(value, Masked):
                if value.mask_same(key):
                    f = value.val
                    self.write(f, cond)
                    return
                raise Unsupported("masked assignment with another mask")
            v = asarr(value)
            if v.dims and not all(is_one(d) for d in v.dims):
                raise Unsupported("masked assignment of an array")
            t = v.rel(tuple(icst(0) for _ in v.dims))
            if self.kind == "b":
                bt = not_(req(t, ZERO))
                self.write(lambda ix: bt, cond)
            else:
                if self.kind == "i" and v.kind == "f":
                    raise Unsupported("float into int array")
                self.write(lambda ix: t, cond)
            return
        if not isinstance(key, tuple):
            key = (key,)
        bools = [j for j, k in enumerate(key) if isinstance(k, Arr) and k.kind == "b" and k.dims]
        if len(bools) == 1 and len(key[bools[0]].dims) == 1 and all(isinstance(k, slice) and k == slice(None) for j, k in enumerate(key) if j != bools[0]):
            ax = bools[0]
            m = key[ax]
            if not dimeq(m.dims[0], self.dims[ax]):
                raise IndexError("boolean index did not match indexed array")
            d, _, rank = selection(m)
            f = bcast_fn(asarr(value), tuple(d if j == ax else x for j, x in enumerate(self.dims)), boolean=self.kind == "b")
            c = m.snapshot()
            self.write(lambda ix: f(ix[:ax] + (rank(ix[ax]),) + ix[ax + 1:]), lambda ix: c((ix[ax],)))
            return
        fl = [i for i, k in enumerate(key) if isinstance(k, (SkipList, list, SList)) or (isinstance(k, Arr) and k.dims)]
        if fl:
            if len(fl) != 1:
                raise Unsupported("several advanced indices in a store")
            i = fl[0]
            seq = as_index_seq(key[i])
            rest = tuple(slice(None) if j == i else k for j, k in enumerate(key))
            view = self[rest]
            dims = list(view.dims)
            dims[i] = seq.length
            v = asarr(value)
            f = bcast_fn(v, tuple(dims), boolean=self.kind == "b")
            src_len = view.dims[i]
            seq.store(view, i, f, src_len)
            return
        view = self[key]
        if not isinstance(view, Arr):
            # scalar position
            k2 = key + (slice(None),) * (len(self.dims) - len(key))
            vm = []
            am = [norm_index(k, d) for k, d in zip(k2, self.dims)]
            for m in self.vmap:
                vm.append(("fix", m[1]) if m[0] == "fix" else ("fix", iadd(am[m[1]], m[2])))
            v = Arr(self.buf, (), vm)
            v.assign(value)
            return
        if isinstance(view, Mat) and view.buf is not self.buf:
            raise Unsupported("store through matrix row")
        view.assign(value)

    # ---- arithmetic
    def _bin(self, o, f, rev=False, kind=None):
        if isinstance(o, Sp):
            return NotImplemented
        if isinstance(o, (str, type(None))):
            return NotImplemented
        if isinstance(o, (Series,)):
            o = o.values
        a, b = (o, self) if rev else (self, o)
        return ewise(f, a, b, kind=kind)

    def __add__(self, o):
        if isinstance(o, Sp):
            return o.__radd__(self)
        return self._bin(o, add)

    def __radd__(self, o):
        return self._bin(o, add, True)

    def __sub__(self, o):
        if isinstance(o, Sp):
            return o.__rsub__(self)
        return self._bin(o, sub)

    def __rsub__(self, o):
        return self._bin(o, sub, True)

    def __mul__(self, o):
        if isinstance(o, Sp):
            return matmul(self, o)
        if isinstance(o, Mat) or self.is_mat:
            if is_scalar(o):
                return self._bin(o, mul)
            return matmul(self, o)
        return self._bin(o, mul)

    def __rmul__(self, o):
        if self.is_mat and not is_scalar(o):
            return matmul(asarr(o), self)
        return self._bin(o, mul, True)

    def __truediv__(self, o):
        return self._bin(o, div, kind="f")

    def __rtruediv__(self, o):
        return self._bin(o, div, True, kind="f")

    def __pow__(self, o):
        if self.is_mat:
            raise Unsupported("matrix power")
        return self._bin(o, pow_)

    def __rpow__(self, o):
        return self._bin(o, pow_, True)

    def __neg__(self):
        return unary(neg, self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return unary(lambda x: rfn("abs", (x,)), self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(asarr(o), self)

    def _iop(self, o, f, truediv=False):
        v = o if isinstance(o, Sp) else asarr(o)
        if isinstance(v, Sp):
            raise Unsupported("in-place with sparse")
        if self.kind in ("i", "b") and (v.kind == "f" or truediv):
            raise TypeError("Cannot cast ufunc output from float64 to int64 with casting rule 'same_kind'")
        g = bcast_fn(v, self.dims)
        s = self.rsnap()
        self.write(lambda ix: f(s(ix), g(ix)))
        return self

    def __iadd__(self, o):
        return self._iop(o, add)

    def __isub__(self, o):
        return self._iop(o, sub)

    def __imul__(self, o):
        if self.is_mat and not is_scalar(o):
            raise Unsupported("in-place matrix product")
        return self._iop(o, mul)

    def __itruediv__(self, o):
        return self._iop(o, div, True)

    # comparisons
    def _cmp(self, o, f):
        if o is None or isinstance(o, str):
            raise Unsupported("array compared with %r" % (o,))
        return ewise(f, self, o, kind="b")

    def __lt__(self, o):
        return self._cmp(o, lt)

    def __le__(self, o):
        return self._cmp(o, le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: le(b, a))

    def __eq__(self, o):
        return self._cmp(o, req)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: not_(req(a, b)))
    __hash__ = object.__hash__

    def __and__(self, o):
        return boolop(and_, self, o)

    def __or__(self, o):
        return boolop(or_, self, o)
    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        if self.kind != "b":
            raise Unsupported("bitwise not")
        f = self.snapshot()
        return type(self).fresh(self.dims, lambda ix: not_(f(ix)), "b")

    def __bool__(self):
        if all(is_one(d) for d in self.dims):
            return bool(wrap_el(self.kind, self.el(tuple(icst(0) for _ in self.dims))))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    # ---- methods
    def dot(self, o):
        return np_dot(self, o)

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        if axes and axes not in ((None,),):
            raise Unsupported("transpose axes")
        n = len(self.dims)
        if n < 2:
            return self
        vm = [m if m[0] == "fix" else ("ax", n - 1 - m[1], m[2]) for m in self.vmap]
        return type(self)(self.buf, tuple(reversed(self.dims)), vm)

    @property
    def A(self):
        if not self.is_mat:
            raise AttributeError("'numpy.ndarray' object has no attribute 'A'")
        return Arr(self.buf, self.dims, self.vmap)

    @property
    def values(self):
        raise AttributeError("'numpy.ndarray' object has no attribute 'values'")

    def tolist(self):
        v = [iconst_value(d) for d in self.dims]
        if None in v or len(v) != 1:
            raise Unsupported("tolist of symbolic array")
        return [self[i] for i in range(v[0])]

    def copy(self, order=None):
        f = self.snapshot()
        return type(self).fresh(self.dims, f, self.kind)

    def astype(self, dt, copy=True):
        k = DType.of(dt).kind
        f = self.snapshot()
        if k == self.kind:
            return type(self).fresh(self.dims, f, k)
        if k in ("f", "i") and self.kind == "b":
            return type(self).fresh(self.dims, lambda ix: iv01(f(ix)), k)
        if k == "f":
            return type(self).fresh(self.dims, f, k)
        if k == "b":
            return type(self).fresh(self.dims, lambda ix: not_(req(f(ix), ZERO)), k)
        raise Unsupported("astype %s" % k)

    def ravel(self, order="C"):
        keep = [i for i, d in enumerate(self.dims) if not is_one(d)]
        if len(keep) <= 1 and not self.is_mat:
            k = keep[0] if keep else (0 if self.dims else None)
            if k is None:
                f = self.rel(())
                return Arr.fresh((icst(1),), lambda ix: f, self.kind)
            vm = []
            for m in self.vmap:
                if m[0] == "fix":
                    vm.append(m)
                elif m[1] == k:
                    vm.append(("ax", 0, m[2]))
                else:
                    vm.append(("fix", m[2]))
            return Arr(self.buf, (self.dims[k],), vm)
        if self.is_mat:
            if len(keep) <= 1:
                k = keep[0] if keep else 1
                f = self.rsnap()
                if k == 1:
                    return Mat.fresh((icst(1), self.dims[1]), lambda ix: f((icst(0), ix[1])))
                return Mat.fresh((icst(1), self.dims[0]), lambda ix: f((ix[1], icst(0))))
            raise Unsupported("ravel of a full matrix")
        if len(self.dims) == 2:
            v = [iconst_value(d) for d in self.dims]
            f = self.snapshot()
            if v[0] is not None and v[0] <= 4:
                # a few rows laid end to end
                n = self.dims[1]

                def g(ix):
                    r = f((icst(v[0] - 1), isub(ix[0], iscale(v[0] - 1, n))))
                    for j in range(v[0] - 2, -1, -1):
                        r = ite(ilt(ix[0], iscale(j + 1, n)), f((icst(j), isub(ix[0], iscale(j, n)))), r)
                    return r
                return Arr.fresh((iscale(v[0], n),), g, self.kind)
            return Rav(self.copy())
        raise Unsupported("ravel of a full matrix")

    def flatten(self):
        return self.ravel().copy()

    def squeeze(self):
        keep = [i for i, d in enumerate(self.dims) if not is_one(d)]
        if len(keep) == 1:
            return self.ravel()
        raise Unsupported("squeeze")

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        if len(shape) == 1 and shape[0] == -1:
            return self.ravel()
        if len(shape) == 2 and len(self.dims) == 1 and any(isinstance(x, int) and x == 1 for x in shape):
            a, b = shape
            if b == 1 and (a == -1 or tint(a) is self.dims[0]):
                return self[:, None]
            if a == 1 and (b == -1 or tint(b) is self.dims[0]):
                return self[None, :]
        if len(shape) == 2 and len([d for d in self.dims if not is_one(d)]) <= 1:
            r = self.ravel()
            if shape[1] == 1 and (shape[0] == -1 or dimeq(tint(shape[0]), r.dims[0])):
                return r[:, None]
            if shape[0] == 1 and (shape[1] == -1 or dimeq(tint(shape[1]), r.dims[0])):
                return r[None, :]
        if len(shape) == len(self.dims) and all(dimeq(tint(a), b) for a, b in zip(shape, self.dims)):
            return self
        raise Unsupported("reshape")

    def sum(self, axis=None, keepdims=False, dtype=None):
        r = reduce_sum(self, axis)
        if keepdims:
            if axis is None:
                raise Unsupported("keepdims")
            ax = axis % len(self.dims)
            return r[tuple([slice(None)] * ax + [None])]
        return r

    def mean(self, axis=None):
        if axis is None:
            n = ONE
            for d in self.dims:
                n = mul(n, i2r(d))
            return wreal(div(treal(reduce_sum(self, None)), n))
        ax = axis % len(self.dims)
        return reduce_sum(self, axis) / wint(self.dims[ax])

    def max(self, axis=None):
        return reduce_max(self, axis, "max")

    def min(self, axis=None):
        return reduce_max(self, axis, "min")

    def all(self, axis=None):
        return np_all(self, axis)

    def any(self, axis=None):
        return np_any(self, axis)

    def __repr__(self):
        return "Arr%s" % (self.shape,)

    def fill(self, v):
        self.assign(v)

    def sort(self, axis=-1):
        from . import fake
        self.assign(fake.np_sort(self, axis).copy())


def member(t, arr):
    """condition: the number t is an element of the vector arr"""
    n = arr.dims[0]
    f = arr.rsnap()
    v = iconst_value(n)
    if v is not None:
        return or_(*[req(t, f((icst(k),))) for k in range(v)]) if v else FALSE
    k = fresh_iv(n, "k")
    c = req(t, f((k,)))
    if solve(k, c) is not None:
        return TRUE
    from .fake import id_form
    q = id_form(arr)
    if q is not None and q[2] in ("rows", "appearance") and t.op == "app" and t.args[0] == "inj:" + q[0] and irange_len(t.args[1][0]) is q[1]:
        return TRUE          # every distinct id occurs in some row
    return exists(k, c)


def irange_ok(b, d):
    n = irange_len(b) if b.op in ("iv", "ifn") else None
    if n is d:
        return True
    n = ctx().norm()
    return n.idecide(not_(ilt(b, 0))).op == "true" and n.idecide(ilt(b, d)).op == "true"


class Mat(Arr):
    """numpy.matrix"""
    is_mat = True


class Series(Sym):
    """placeholder for pandas Series (see shim_pd)"""


class SymRange(Sym):
    """range(a, b) with symbolic bounds: usable in a comprehension only"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def vf_map(self, fn):
        if ctx().decide(ilt(self.b, self.a)):
            return []
        return map_range(self.a, isub(self.b, self.a), fn)

    def __slen__(self):
        if ctx().decide(ilt(self.b, self.a)):
            return 0
        return wint(isub(self.b, self.a))

    def vf_loop(self, info):
        if ctx().decide(ilt(self.b, self.a)):
            return iter(())
        return par_loop(self.a, isub(self.b, self.a), info)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range")


class LoopFrame(object):
    """one symbolic iteration.  A branch on the data of iteration i splits
    the iteration: the body is run once for each outcome and what the runs
    store or append is put together by cases"""

    def __init__(self, i):
        self.i = i
        self.saved = {}
        self.prefix, self.taken, self.alts, self.conds = [], [], [], []
        self.todo = [[]]
        self.stored = []          # [(condition, {buffer: elements})]

    def branch(self, c, cond):
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = True
            self.todo.append(self.taken + [False])
        self.taken.append(v)
        t = cond if v else not_(cond)
        self.conds.append(t)
        c.conds.append(t)
        c.split += 1
        c._n = None
        return v

    def runs(self, c):
        """one round for each combination of outcomes"""
        k = 0
        while self.todo:
            k += 1
            if k > 16:
                raise Unsupported("symbolic loop with many branches")
            self.prefix, self.taken, self.conds = self.todo.pop(), [], []
            before = set(self.saved)
            c.loops.append(self)
            yield
            c.loops.remove(self)
            for t in self.conds:
                c.conds = [x for x in c.conds if x is not t]
                c.split -= 1
            c._n = None
            done = {}
            for b, (el, memo) in self.saved.items():
                done[b] = b.el
                b.el, b.memo = el, memo
            self.stored.append((and_(*self.conds), done))
        for b, (el, memo) in self.saved.items():
            vals = [(t, d.get(b, el)) for t, d in self.stored]
            b.el, b.memo = by_cases(vals, b.kind), Memo()

    @property
    def cond(self):
        return and_(*self.conds)


def by_cases(vals, kind):
    if len(vals) == 1:
        return vals[0][1]

    def f(ix):
        r = vals[-1][1](ix)
        for t, g in reversed(vals[:-1]):
            r = or_(and_(t, g(ix)), and_(not_(t), r)) if kind == "b" else ite(t, g(ix), r)
        return r
    return f


def merge(vals):
    """one value by cases"""
    v0 = vals[0][1]
    if len(vals) == 1 or all(v is v0 for _, v in vals):
        return v0
    vs = [v for _, v in vals]
    if all(isinstance(v, (bool, str)) or v is None for v in vs) and all(type(v) is type(v0) and v == v0 for v in vs):
        return v0
    if all(type(v) is Arr for v in vs):
        if not all(len(v.dims) == len(v0.dims) and all(dimeq(x, y) for x, y in zip(v.dims, v0.dims)) for v in vs):
            raise Unsupported("symbolic loop: branches with arrays of different shapes")
        kind = kind_join(*[v.kind for v in vs])
        return Arr.fresh(v0.dims, by_cases([(t, v.snapshot() if kind == "b" else v.rsnap()) for t, v in vals], kind), kind)
    if all(isinstance(v, tuple) and len(v) == len(v0) for v in vs):
        return tuple(merge([(t, v[q]) for t, v in vals]) for q in range(len(v0)))
    if all(isinstance(v, (SBool, bool)) for v in vs):
        return wbool(by_cases([(t, lambda ix, v=v: tbool(v)) for t, v in vals], "b")(()))
    if all(isinstance(v, (int, float, SInt, SReal, Choice)) and not isinstance(v, bool) for v in vs):
        return Choice(vals)
    raise Unsupported("symbolic loop: branches with different values")


def par_loop(lo, n, info, elem=None):
    """for i in range(lo, lo+n): body -- rule for loops whose iterations are
    independent.  The body is executed for one arbitrary i; it may write only
    the i-th slices (along one axis) of existing arrays and may read no other
    slice of an array it writes; no variable is carried from one iteration to
    the next or out of the loop (checked on the syntax tree, see loader.py).
    Then after the loop slice k holds what iteration k stored."""
    why, apps, bases = info
    if why:
        raise Unsupported("symbolic loop: " + why)
    lists = []
    for b in apps:
        x = b()
        if type(x) not in (list, VList):
            raise Unsupported("symbolic loop appending to a %s" % type(x).__name__)
        lists.append((x, list.__len__(x)))
    tables = []
    for b in bases:
        try:
            x = b()
        except NameError:
            continue
        if isinstance(x, VDict) and not dict.__len__(x) and x.sym is None:
            tables.append(x)
            x.busy = True
        elif not isinstance(x, Arr):
            raise Unsupported("symbolic loop storing into a %s" % type(x).__name__)
    c = ctx()
    i = fresh_iv(n, "l")

    fr = LoopFrame(i)
    added = [[] for _ in lists]
    entries = [[] for _ in tables]
    for _ in fr.runs(c):
        x = (elem or (lambda q: wint(iadd(lo, q))))(i)
        if x is not NOTHING:
            yield x
        for (x, k), vs in zip(lists, added):
            g = list.__len__(x) - k
            if g > 1 or g < 0:
                raise Unsupported("symbolic loop appending %d elements" % g)
            vs.append((fr.cond, list.pop(x) if g else NOTHING))
        for x, es in zip(tables, entries):
            if dict.__len__(x) != 1:
                raise Unsupported("symbolic loop storing %d entries" % dict.__len__(x))
            es.append((fr.cond, dict.popitem(x)))
    for (x, k), vs in zip(lists, added):
        some = [(t, v) for t, v in vs if v is not NOTHING]
        if len(some) == len(vs):
            x.append(Block(n, i, merge(vs)))
        elif some:
            if type(x) is not VList:
                raise Unsupported("symbolic loop appending to some list under a condition")
            x.picked = True
            x.append(Picked(n, i, or_(*[t for t, _ in some]), [v for _, v in some]))
    for x, es in zip(tables, entries):
        x.busy = False
        k0 = es[0][1][0]
        if any(treal(e[0]) is not treal(k0) for _, e in es):
            raise Unsupported("symbolic loop storing under different keys")
        x.fill(n, i, k0, merge([(t, e[1]) for t, e in es]))
    if not fr.saved:
        return
    if lists or tables:
        raise Unsupported("symbolic loop that appends and stores")
    pre = {}
    olds = {}
    for k, (b, (el, memo)) in enumerate(fr.saved.items()):
        nm = "pre!%d" % next(_loopcnt)
        pre[b] = nm
        olds[b] = el
        b.el = (lambda ix, nm=nm: bapp(nm, *ix)) if b.kind == "b" else (lambda ix, nm=nm: app(nm, *ix))
        b.memo = Memo()
    fr2 = LoopFrame(i)
    for _ in fr2.runs(c):
        x = (elem or (lambda q: wint(iadd(lo, q))))(i)
        if x is not NOTHING:
            yield x
    if set(fr2.saved) != set(pre):
        raise Unsupported("symbolic loop: different arrays written")
    names = {nm: b for b, nm in pre.items()}
    final = {}
    for b, nm in pre.items():
        final[b] = loop_result(c, b, nm, names, olds, i, lo, n, pre)
    for b, f in final.items():
        b.set(f)


_loopcnt = itertools.count()


def loop_result(c, b, nm, names, olds, i, lo, n, pre):
    el = b.el
    me = iadd(lo, i)
    ix = tuple(fresh_iv(d, "x") for d in b.dims)
    t = el(ix)
    isb = b.kind == "b"
    old0 = bapp(nm, *ix) if isb else app(nm, *ix)
    axis = None
    for a in range(len(ix)):
        off = not_(ieq(ix[a], me))
        g = (iv01(t), iv01(old0)) if isb else (t, old0)
        if Prover(c.facts()).prove_eq(ite(off, g[0], ZERO), ite(off, g[1], ZERO))[0]:
            axis = a
            break
    if axis is None:
        raise Unsupported("symbolic loop: an iteration writes outside its own slice")
    gen = ix[:axis] + (me,) + ix[axis + 1:]
    v = el(gen)
    reads = subterms(v, lambda x: x.op in ("app", "bapp") and x.args[0] in names)
    m = {}
    axes = {}
    for r in reads:
        ob = names[r.args[0]]
        if axis >= len(r.args[1]) or r.args[1][axis] is not me:
            raise Unsupported("symbolic loop: an iteration reads what another may have written")
        m[r] = olds[ob](r.args[1])
    if m:
        v = replace_terms(v, m)
    old = olds[b]
    cover = iconst_value(lo) == 0 and dimeq(n, b.dims[axis])

    def f(jx):
        j = jx[axis]
        w = subst(v, dict([(i, isub(j, lo))] + [(ix[q], jx[q]) for q in range(len(ix)) if q != axis]))
        if cover:
            return w
        inside = and_(not_(ilt(j, lo)), ilt(j, iadd(lo, n)))
        if isb:
            return or_(and_(inside, w), and_(not_(inside), old(jx)))
        return ite(inside, w, old(jx))
    return f


def map_range(a, n, fn):
    from . import pdshim
    i = fresh_iv(n, "n")
    r = generic(i, lambda: fn(SInt(iadd(a, i))))
    if isinstance(r, SInt) and r.t is i:
        return SkipList(n)
    return mapped(n, i, r)


def generic(i, run):
    """run the body of a comprehension for an arbitrary index i: it may not
    write to existing arrays"""
    c = ctx()
    fr = LoopFrame(i)
    rs = []
    for _ in fr.runs(c):
        r = run()
        rs.append((fr.cond, r))
    if fr.saved:
        raise Unsupported("comprehension writes to an array")
    return merge(rs)


def mapped(n, i, r):
    """the list of the values r(i), i < n"""
    from . import pdshim
    if isinstance(r, str):
        t = str_term(r, pdshim.LAB)
        return pdshim.SNames(n, lambda k: subst(t, {i: k}))
    if isinstance(r, pdshim.SName):
        return pdshim.SNames(n, lambda k: subst(r.t, {i: k}))
    if isinstance(r, bool):
        return [r]             # the same constant n >= 1 times: enough for any()/all()
    if isinstance(r, (int, float, SInt, SReal, SBool, Choice)):
        return SymSeq(n, i, r)
    if type(r) is Arr:
        return VList([Block(n, i, r)])
    raise Unsupported("comprehension of %s" % type(r).__name__)


class SymSeq(Sym):
    """list of numbers r(i), i < n"""

    def __init__(self, n, i, r):
        self.n, self.i, self.r = n, i, r

    def arr(self):
        kind = "i" if isinstance(self.r, (int, SInt)) else "f"
        if isinstance(self.r, Choice):
            kind = "i" if all(isinstance(x, (int, SInt)) for _, x in self.r.alts) else "f"
        t = iv01(self.r.c) if isinstance(self.r, SBool) else treal(self.r)
        return Arr.fresh((self.n,), lambda ix: subst(t, {self.i: ix[0]}), kind)

    def __slen__(self):
        return wint(self.n)


class Choice(Sym):
    """one of several values, by condition (the last one otherwise)"""

    def __init__(self, alts):
        self.alts = alts          # [(condition, value)]

    def fmap(self, f):
        return Choice([(c, f(v)) for c, v in self.alts])

    def term(self):
        r = treal(self.alts[-1][1])
        for c, v in reversed(self.alts[:-1]):
            r = ite(c, treal(v), r)
        return r


def sub_value(v, m):
    """the value with index variables replaced"""
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if type(v) is SInt:
        return wint(subst(v.t, m))
    if type(v) in (SReal, SIntEl):
        r = wreal(subst(v.t, m))
        return type(v)(r.t) if type(r) is SReal else r
    if hasattr(v, "at"):
        return v.at(m)
    if isinstance(v, tuple):
        return tuple(sub_value(x, m) for x in v)
    raise Unsupported("table of %s" % type(v).__name__)


class VDict(dict):
    """dict whose keys or lookups may be symbolic numbers; after a symbolic
    loop that stores one entry per iteration it holds key(i) -> value(i),
    i < n (sym), the keys being pairwise distinct"""

    sym = None
    busy = False        # being filled by a symbolic loop: may not be read

    def check(self):
        if self.busy:
            raise Unsupported("symbolic loop reading the dictionary it fills")

    def fill(self, n, i, k, v):
        t = treal(k)
        j = fresh_iv(n, "k")
        if req(t, subst(t, {i: j})) not in (ieq(i, j), ieq(j, i)):
            raise Unsupported("dictionary keys that may coincide")
        self.sym = (n, i, t, v)

    def sym_find(self, x):
        n, i, key, v = self.sym
        k = fresh_iv(n, "k")
        t = treal(x)
        c = req(t, subst(key, {i: k}))
        sol = solve(k, c)
        if sol is None:
            if not must(exists(k, c)):
                raise KeyError(x)
            sol = lookup(n, lambda j: subst(key, {i: j}), t)
        return sub_value(v, {i: sol})

    def keys_arr(self):
        n, i, key, v = self.sym
        return Arr.fresh((n,), lambda ix: subst(key, {i: ix[0]}), "f")

    def vf_loop(self, info):
        return iter(self) if self.sym is None else self.keys_arr().vf_loop(info)

    def __len__(self):
        self.check()
        return dict.__len__(self)

    def __iter__(self):
        self.check()
        if self.sym is not None:
            raise Unsupported("iteration over a symbolic dictionary")
        return dict.__iter__(self)

    def __slen__(self):
        return dict.__len__(self) if self.sym is None else wint(self.sym[0])

    def keys(self):
        return dict.keys(self) if self.sym is None else self.keys_arr()

    def items(self):
        if self.sym is not None:
            raise Unsupported("items of a symbolic dictionary")
        return dict.items(self)

    def values(self):
        if self.sym is not None:
            raise Unsupported("values of a symbolic dictionary")
        return dict.values(self)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    @staticmethod
    def key_eq(a, b):
        num_ = (int, float, SInt, SReal)
        if isinstance(a, num_) and isinstance(b, num_):
            return req(treal(a), treal(b))
        if isinstance(a, (Sym,)) or isinstance(b, (Sym,)):
            raise Unsupported("dictionary key %s" % type(a).__name__)
        return TRUE if a == b else FALSE

    def __setitem__(self, k, v):
        if self.sym is not None:
            raise Unsupported("store into a symbolic dictionary")
        if isinstance(k, SReal) and not dict.__len__(self):
            try:
                hash(k)
            except Unsupported:
                k = Key(k.t)
        if isinstance(k, Sym) or any(isinstance(q, Sym) for q in dict.__iter__(self)):
            for q in list(dict.__iter__(self)):
                d = ctx().known(self.key_eq(k, q))
                if d is None:
                    raise Unsupported("dictionary keys that may coincide")
                if d:
                    dict.__setitem__(self, q, v)
                    return
        dict.__setitem__(self, k, v)

    def find(self, k):
        self.check()
        if self.sym is not None:
            return self.sym_find(k)
        if isinstance(k, Choice):
            return k.fmap(self.find1)
        return self.find1(k)

    def find1(self, k):
        if not isinstance(k, Sym) and not any(isinstance(q, Sym) for q in self):
            return dict.__getitem__(self, k)
        alts = []
        for q in self:
            c = self.key_eq(k, q)
            d = ctx().known(c)
            if d is False:
                continue
            alts.append((c, dict.__getitem__(self, q)))
            if d is True:
                return alts[-1][1]
        if not alts or not must(or_(*[c for c, _ in alts])):
            raise KeyError(k)
        if len(alts) == 1:
            return alts[0][1]
        return Choice(alts)

    def __getitem__(self, k):
        return self.find(k)

    def __contains__(self, k):
        self.check()
        if self.sym is not None:
            return bool(wbool(member(treal(k), self.keys_arr())))
        if not isinstance(k, Sym) and not any(isinstance(q, Sym) for q in self):
            return dict.__contains__(self, k)
        return bool(wbool(or_(*[self.key_eq(k, q) for q in self])))


def must(c):
    """c holds, if need be by the assumed mask of the comprehension"""
    for m in ctx().masks:
        if alpha(m) is alpha(c):
            return True
    k = ctx().known(c)
    if k is None and c.op == "not" and c.args[0].op == "and":
        # exhaustive case distinction over a concrete range
        parts = c.args[0].args[0]
        if all(p.op == "not" and p.args[0].op == "ieq" for p in parts) and ctx().norm().int_unsat(list(parts)):
            return True
    if k is not None:
        return k
    return ctx().decide(c)


def alpha(c):
    """existential conditions with a canonical bound variable"""
    if c.op == "not" and c.args[0].op == "forall":
        v, body = c.args[0].args
        w = mk("iv", "@x", v.args[1])
        return mk("not", mk("forall", w, subst(body, {v: w})))
    return c


class SymZip(Sym):
    def __init__(self, parts):
        self.parts = parts


def solve(v, c):
    """index term x with c <=> v = x, or None"""
    if c.op == "ieq":
        for a, b in (c.args, c.args[::-1]):
            if a is v and v not in b.ivs and irange_len(b) is v.args[1]:
                return b
    return None


class SymDict(Sym):
    """dict(zip(keys, values)) with pairwise distinct keys of symbolic number"""

    def __init__(self, keys, vals):
        self.keys_, self.vals = keys, vals
        a, b = fresh_iv(keys.dims[0], "k"), fresh_iv(keys.dims[0], "k")
        f = keys.rsnap()
        c = req(f((a,)), f((b,)))
        if c is not ieq(a, b):
            raise Unsupported("dictionary keys that may coincide")
        self.kf, self.vf = f, vals.rsnap()

    def __getitem__(self, x):
        t = treal(x)
        n = self.keys_.dims[0]
        k = fresh_iv(n, "k")
        c = req(t, self.kf((k,)))
        sol = solve(k, c)
        if sol is not None:
            return wrap_el(self.vals.kind, self.vf((sol,)))
        if not must(exists(k, c)):
            raise KeyError(x)
        return wrap_el(self.vals.kind, self.vf((lookup(n, lambda j: self.kf((j,)), t),)))


def lookup(n, key, t):
    """the position at which t is among the pairwise distinct key(0..n-1)"""
    z = fresh_iv(n, "z")
    kt = key(z)
    ivs = [v for v in iv_order(t)] + [v for v in iv_order(kt) if v is not z and v not in t.ivs]
    can = {v: mk("iv", "@%d" % k, v.args[1]) for k, v in enumerate(ivs)}
    name = "at:%s:%s" % (subst(kt, {**can, z: mk("iv", "@z", n)}).key, subst(t, can).key)
    if kt.ivs - {z} - t.ivs:
        raise Unsupported("lookup in a dictionary depending on a loop variable")
    LOOKUPS[name] = lambda args, j: req(subst(t, dict(zip(ivs, args))), key(j))
    return ifn(name, ivs, n)


def iv_order(t):
    """free index variables in order of occurrence"""
    order = []

    def go(x):
        if isinstance(x, T):
            if x.op == "iv":
                if x not in order:
                    order.append(x)
                return
            if x.ivs:
                for a in x.args:
                    go(a)
        elif isinstance(x, tuple):
            for a in x:
                go(a)
    go(t)
    return [v for v in order if v in t.ivs]


def akey_(t):
    """key of a term up to renaming of its free index variables"""
    return subst(t, {v: mk("iv", "@%d" % k, v.args[1]) for k, v in enumerate(iv_order(t))}).key


class SCount(SReal):
    """number of true entries of a boolean vector"""

    def __init__(self, t, d):
        self.t, self.d = t, d


def count_dim(mask):
    """number of true entries of a vector, as an array length"""
    i = fresh_iv(mask.dims[0], "c")
    c = alpha(mask.snapshot()((i,)))
    if c.op == "true":
        return mask.dims[0]
    if c.ivs - {i}:
        raise Unsupported("number of true entries depending on a loop variable")
    return dim("count(%s)" % akey_(sum_(mk("iv", "@c", i.args[1]), iv01(subst(c, {i: mk("iv", "@c", i.args[1])})))))


SELECT = {}


def selection(mask):
    """(length, k -> position of the k-th true entry, position -> its number
    among the true entries) of a boolean vector"""
    d = count_dim(mask)
    n = mask.dims[0]
    if d is n:
        return d, (lambda k: k), (lambda i: i)
    f = mask.snapshot()
    key = d.args[0][6:-1]
    i = fresh_iv(n, "c")
    if f((i,)).ivs - {i}:
        raise Unsupported("mask depending on a loop variable")
    SELECT[d] = (key, n, lambda j: f((j,)))
    return d, (lambda k: ifn("sel:" + key, [k], n)), (lambda j: ifn("rank:" + key, [j], d))


def compress(a, mask, axis=0):
    """the entries of a along the axis at which mask holds"""
    if len(mask.dims) != 1:
        raise Unsupported("mask of several dimensions")
    if not dimeq(mask.dims[0], a.dims[axis]):
        raise IndexError("boolean index did not match indexed array")
    d, sel, _ = selection(mask)
    f = a.snapshot()
    dims = list(a.dims)
    dims[axis] = d
    return type(a).fresh(tuple(dims), lambda ix: f(ix[:axis] + (sel(ix[axis]),) + ix[axis + 1:]), a.kind)


def unselect(length, k, b):
    """sum over the selected entries as a sum over all entries, or None"""
    if length not in SELECT:
        return None
    key, n, mask = SELECT[length]
    i = fresh_iv(n, "k")
    s = ifn("sel:" + key, [k], n)
    t = replace_terms(b, {s: i})
    if k in t.ivs:
        return None
    return i, mul(iv01(mask(i)), t)


NOTHING = object()


class Picked(Sym):
    """list elements appended by a loop in the iterations i < n with cond(i)"""

    def __init__(self, n, i, cond, vals):
        self.n, self.i, self.cond, self.vals = n, i, cond, vals

    def __str__(self):
        return "<values>"
    __repr__ = __str__

    def __format__(self, f):
        return "<values>"


def extend(x, it):
    """x.extend(it)"""
    h = getattr(type(it), "vf_loop", None) if type(x) in (list, VList) and isinstance(it, Sym) else None
    if h is None:
        return x.extend(it)
    for y in h(it, (None, (lambda: x,), ())):
        x.append(y)


class VList(list):
    """a list started as [] in the code; elements may be Picked"""

    picked = False

    def empty(self):
        if not self.picked:
            return not list.__len__(self)
        if any(not isinstance(x, Picked) for x in self.raw()):
            return False
        for x in self.raw():
            k = fresh_iv(x.n, "k")
            if bool(wbool(exists(k, subst(x.cond, {x.i: k})))):
                return False
        return True

    def raw(self):
        return list.__iter__(self)

    def __bool__(self):
        return not self.empty()

    def __eq__(self, o):
        if self.picked:
            if isinstance(o, list) and not list.__len__(o):
                return self.empty()
            raise Unsupported("list filled under a condition")
        return list.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __slen__(self):
        if self.picked:
            if self.empty():
                return 0
            return SInt(iadd(icst(1), ifn("picked!%d" % next(_loopcnt), [], dim("huge"))))
        return blocklen(self)

    def __iter__(self):
        if self.picked:
            raise Unsupported("list filled under a condition")
        return list.__iter__(self)

    def __getitem__(self, k):
        if self.picked:
            raise Unsupported("list filled under a condition")
        if any(isinstance(x, Block) for x in self.raw()):
            raise Unsupported("element of a list filled by a loop")
        return list.__getitem__(self, k)

    def __add__(self, o):
        if self.picked:
            raise Unsupported("list filled under a condition")
        if isinstance(o, Sym):
            return NotImplemented
        return list(self) + list(o)

    def __iadd__(self, o):
        extend(self, o)
        return self

    def __contains__(self, x):
        if self.picked:
            raise Unsupported("list filled under a condition")
        return list.__contains__(self, x)

    def __repr__(self):
        return "<values>" if self.picked else list.__repr__(self)
    __str__ = __repr__

    def __format__(self, f):
        return str(self)


def blocklen(x):
    bs = [y.n for y in list.__iter__(x) if isinstance(y, Block)]
    k = list.__len__(x) - len(bs)
    return wint(iadd(icst(k), *bs)) if bs else k


class Block(Sym):
    """n list elements v(i), i < n, appended by a loop"""

    def __init__(self, n, i, v):
        self.n, self.i, self.v = n, i, v

    def vf_each(self, fn):
        return Block(self.n, self.i, generic(self.i, lambda: fn(self.v)))

    def columns(self):
        """(N, 1) arrays side by side"""
        a = asarr(self.v)
        if len(a.dims) != 2 or not is_one(a.dims[1]):
            raise Unsupported("block of arrays")
        f = a.snapshot()
        return Arr.fresh((a.dims[0], self.n), lambda ix: subst(f((ix[0], icst(0))), {self.i: ix[1]}), a.kind)


class Rav(Sym):
    """a matrix laid out row by row"""

    def __init__(self, a):
        self.a = a
        self.kind = a.kind

    @property
    def dims(self):
        return (imul(*self.a.dims),)

    @property
    def shape(self):
        return (wint(imul(*self.a.dims)),)

    @property
    def size(self):
        return wint(imul(*self.a.dims))

    ndim = 1

    def __slen__(self):
        return self.size

    def astype(self, t, **k):
        return Rav(self.a.astype(t))

    def copy(self):
        return Rav(self.a.copy())

    ravel = flatten = copy

    def other(self, o):
        if isinstance(o, Rav):
            if not all(x is y for x, y in zip(self.a.dims, o.a.dims)):
                raise Unsupported("flattened matrices of different shapes")
            return o.a
        if is_scalar(o):
            return o
        raise Unsupported("flattened matrix with %s" % type(o).__name__)

    def __getitem__(self, k):
        if isinstance(k, WhereIdx) and isinstance(k.mask, Rav):
            k = k.mask
        if isinstance(k, Rav) and k.kind == "b":
            return Masked(self.a, self.other(k))
        raise Unsupported("index into a flattened matrix")

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if len(shape) == 2 and all(tint(x) is y for x, y in zip(shape, self.a.dims)):
            return self.a.copy()
        raise Unsupported("reshape of a flattened matrix")

    def sum(self, axis=None):
        return self.a.sum()

    def any(self):
        return self.a.any()

    def all(self):
        return self.a.all()

    def __invert__(self):
        return Rav(~self.a)

    def __neg__(self):
        return Rav(-self.a)
    __hash__ = None


def _rav_ops():
    def two(n):
        def f(self, o):
            return Rav(getattr(self.a, n)(self.other(o)))
        return f
    for n in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__add__", "__radd__", "__sub__", "__rsub__", "__mul__",
              "__rmul__", "__truediv__", "__and__", "__or__"):
        setattr(Rav, n, two(n))


_rav_ops()


class Flat(Sym):
    """vector of the given length of which only the reshaped form is used;
    grid(a, b) is the element function of its (a, b) form"""

    kind = "i"

    def __init__(self, size, grid, kind):
        self.size_, self.grid, self.kind = size, grid, kind
        self.dims = (size,)

    @property
    def shape(self):
        return (wint(self.size_),)

    def __slen__(self):
        return wint(self.size_)

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if len(shape) != 2 or kw or any(isinstance(x, int) and x < 0 for x in shape):
            raise Unsupported("reshape")
        a, b = tint(shape[0]), tint(shape[1])
        if ctx().norm().idecide(ieq(imul(a, b), self.size_)).op != "true":
            raise Unsupported("reshape to a size not known to agree")
        f = self.grid(a, b)
        return Arr.fresh((a, b), lambda ix: f(ix[0], ix[1]), self.kind)

    def astype(self, t):
        return Flat(self.size_, self.grid, DType.of(t).kind)

    def copy(self):
        return self


class SList(Sym):
    """list of symbolic length with element function"""

    def __init__(self, length, fn):
        self.length = length
        self.fn = fn


class Masked(Sym):
    """x[mask]: kept together with its mask so that y[mask] = f(x[mask]) works"""

    def __init__(self, arr, mask, f=None):
        self.mask = mask
        self.mf = mask.snapshot()
        self.dims = arr.dims if arr is not None else mask.dims
        self.val = f if f is not None else arr.rsnap()

    def vf_map(self, fn):
        if len(self.dims) != 1:
            raise Unsupported("comprehension over a masked matrix")
        i = fresh_iv(self.dims[0], "n")
        m = self.mf((i,))
        ctx().masks.append(m)
        try:
            r = generic(i, lambda: fn(wreal(self.val((i,)))))
        finally:
            ctx().masks.pop()
        t = treal(r)
        q = Masked.__new__(Masked)
        q.mask, q.mf, q.dims, q.val = self.mask, self.mf, self.dims, (lambda ix: subst(t, {i: ix[0]}))
        return q

    def tolist(self):
        return Text()

    def packed(self):
        """the same vector as an array of the length of the selection"""
        if len(self.dims) != 1:
            raise Unsupported("selection from a matrix")
        return compress(Arr.fresh(self.dims, self.val, "f"), self.mask)

    @property
    def shape(self):
        return self.packed().shape

    @property
    def size(self):
        return self.packed().size

    def __slen__(self):
        return self.packed().size

    def reshape(self, *a, **k):
        return self.packed().reshape(*a, **k)

    def __getitem__(self, k):
        return self.packed()[k]

    def mask_same(self, other):
        if other is self.mask:
            return True
        ix = tuple(fresh_iv(d) for d in self.mask.dims)
        return self.mf(ix) is other.snapshot()(ix)

    def _b(self, o, f, rev=False):
        if isinstance(o, Masked):
            if not self.mask_same(o.mask):
                raise Unsupported("operands with different masks")
            g = o.val
        else:
            t = treal(o)
            g = lambda ix: t
        s = self.val
        h = (lambda ix: f(g(ix), s(ix))) if rev else (lambda ix: f(s(ix), g(ix)))
        r = Masked.__new__(Masked)
        r.mask, r.mf, r.dims, r.val = self.mask, self.mf, self.dims, h
        return r

    def map(self, f):
        s = self.val
        r = Masked.__new__(Masked)
        r.mask, r.mf, r.dims, r.val = self.mask, self.mf, self.dims, (lambda ix: f(s(ix)))
        return r

    def __add__(self, o):
        return self._b(o, add)
    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, sub)

    def __rsub__(self, o):
        return self._b(o, sub, True)

    def __mul__(self, o):
        return self._b(o, mul)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, div)

    def __rtruediv__(self, o):
        return self._b(o, div, True)

    def __pow__(self, o):
        return self._b(o, pow_)

    def __neg__(self):
        return self.map(neg)

    def copy(self):
        return self


class Text(Sym):
    """values of which only the printed form may be used"""

    def __str__(self):
        return "<values>"
    __repr__ = __str__

    def __format__(self, f):
        return "<values>"


class WhereIdx(Sym):
    """np.where(mask)"""

    def __init__(self, mask):
        self.mask = mask

    def __getitem__(self, i):
        if i == 0 and len(self.mask.dims) == 1:
            return WhereVec(self.mask)
        raise Unsupported("np.where component")


class WhereVec(WhereIdx):
    """np.where(mask)[0]: the positions of the true entries"""

    def vf_map(self, fn):
        d, sel, _ = selection(self.mask)
        i = fresh_iv(d, "n")
        return mapped(d, i, generic(i, lambda: fn(SInt(sel(i)))))

    def vf_loop(self, info):
        d, sel, _ = selection(self.mask)
        return par_loop(icst(0), d, info, lambda i: SInt(sel(i)))

    def __iter__(self):
        raise Unsupported("iteration over symbolic positions")

    @property
    def dims(self):
        return (count_dim(self.mask),)

    def __getitem__(self, i):
        """the first position, where there is provably at most one"""
        if not isinstance(i, int) or i != 0:
            raise Unsupported("position in np.where")
        n = self.mask.dims[0]
        f = self.mask.snapshot()
        a, b = fresh_iv(n, "k"), fresh_iv(n, "k")
        ca, cb = f((a,)), f((b,))
        if ca.op != "eq" or cb.op != "eq":
            raise Unsupported("first true position")
        for x, y in (ca.args, ca.args[::-1]):
            if a not in x.ivs and req(y, subst(y, {a: b})) is ieq(a, b):
                break
        else:
            raise Unsupported("first true position")
        if not must(exists(a, ca)):
            raise IndexError("index 0 is out of bounds for axis 0 with size 0")
        at = mk("iv", "@at", n)
        ivs = [v for v in iv_order(ca) if v is not a]
        name = "at:%s" % subst(ca, {**{v: mk("iv", "@%d" % k, v.args[1]) for k, v in enumerate(ivs)}, a: at}).key
        LOOKUPS[name] = lambda args, j: subst(ca, dict(list(zip(ivs, args)) + [(a, j)]))
        return wint(ifn(name, ivs, n))


class IndexSeq(object):
    def __init__(self, length, sel, store):
        self.length = length
        self.sel = sel
        self.store = store


def as_index_seq(k):
    if isinstance(k, SkipList):
        def sel(f, j, n):
            return k.sel(f, j)

        def store(view, axis, f, n):
            r = k.removed[0] if k.removed else None

            def new(ix):
                return k.inv(ix[axis], lambda j: f(ix[:axis] + (j,) + ix[axis + 1:]), lambda: ZERO)
            cond = None if r is None else (lambda ix: not_(ieq(ix[axis], r)))
            view.write(new, cond)
        return IndexSeq(k.slen, sel, store)
    if isinstance(k, Masked) and len(k.dims) == 1:
        d, pos, _ = selection(k.mask)

        def sel(g, j, n):
            t = k.val((pos(j),))
            if t.op == "i2r" and irange_len(t.args[0]) is n:
                return g(t.args[0])
            raise Unsupported("array index %s" % show(t)[:100])

        def store(view, axis, g, n):
            raise Unsupported("store through an index array")
        return IndexSeq(d, sel, store)
    if isinstance(k, Arr) and len(k.dims) == 1 and k.kind == "i":
        f = k.rsnap()

        def sel(g, j, n):
            t = f((j,))
            if t.op == "i2r" and (irange_len(t.args[0]) is n):
                return g(t.args[0])
            if t.op == "num":
                return g(icst(int(t.args[0])))
            raise Unsupported("array index %s" % show(t)[:100])

        def store(view, axis, g, n):
            raise Unsupported("store through an index array")
        return IndexSeq(k.dims[0], sel, store)
    if isinstance(k, SList):
        # pairwise distinctness is not assumed: reading only
        def sel(f, j, n):
            return f(tint(k.fn(j)))

        def store(view, axis, f, n):
            raise Unsupported("store through a symbolic index list")
        return IndexSeq(k.length, sel, store)
    if isinstance(k, (list, tuple)):
        items = [x for x in k]
        if items and all(isinstance(x, bool) for x in items):
            items = [i for i, b in enumerate(items) if b]

        def idx(x, n):
            return norm_index(x, n)

        def sel(f, j, n):
            c = iconst_value(j)
            if c is not None:
                return f(idx(items[c], n))
            r = f(idx(items[-1], n))
            for q in range(len(items) - 2, -1, -1):
                r = ite(ieq(j, icst(q)), f(idx(items[q], n)), r)
            return r

        def store(view, axis, f, n):
            for q, x in enumerate(items):
                t = idx(x, n)
                view.write(lambda ix, q=q: f(ix[:axis] + (icst(q),) + ix[axis + 1:]),
                           lambda ix, t=t: ieq(ix[axis], t))
        return IndexSeq(icst(len(items)), sel, store)
    raise Unsupported("index of type %s" % type(k).__name__)


class DType(object):
    def __init__(self, kind):
        self.kind = kind

    @staticmethod
    def of(x):
        if isinstance(x, DType):
            return x
        if x is None or x is float or x in ("float", "float64"):
            return DType("f")
        if x is int or x in ("int", "int64"):
            return DType("i")
        if x is bool or x == "bool":
            return DType("b")
        if isinstance(x, type) and x.__name__ in ("s_float", "np_float"):
            return DType("f")
        if isinstance(x, type) and x.__name__ in ("s_int", "np_int"):
            return DType("i")
        if isinstance(x, type) and x.__name__ in ("s_bool", "np_bool"):
            return DType("b")
        raise Unsupported("dtype %r" % (x,))

    def __eq__(self, o):
        try:
            return DType.of(o).kind == self.kind
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.kind)


def asarr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, bool) or isinstance(x, SBool):
        c = tbool(x)
        return Arr.fresh((), lambda ix: c, "b")
    if isinstance(x, (int, SInt)):
        t = treal(x)
        return Arr.fresh((), lambda ix: t, "i")
    if isinstance(x, (float, SReal, Fraction)):
        t = treal(x)
        return Arr.fresh((), lambda ix: t, "f")
    if isinstance(x, Series):
        return asarr(x.values)
    if isinstance(x, (SymSeq, SkipList)):
        return x.arr()
    if isinstance(x, Choice):
        return asarr(SReal(x.term()))
    if isinstance(x, (list, tuple)):
        items = [asarr(i) for i in x]
        if not items:
            return Arr.fresh((icst(0),), lambda ix: ZERO, "f")
        k = kind_join(*[i.kind for i in items])
        d = items[0].dims
        for i in items[1:]:
            if len(i.dims) != len(d) or not all(dimeq(a, b) for a, b in zip(i.dims, d)):
                raise Unsupported("ragged list to array")
        fs = [i.snapshot() if k == "b" else i.rsnap() for i in items]

        def g(ix):
            c = iconst_value(ix[0])
            if c is not None:
                return fs[c](ix[1:])
            r = fs[-1](ix[1:])
            for q in range(len(fs) - 2, -1, -1):
                a = fs[q](ix[1:])
                e = ieq(ix[0], icst(q))
                r = or_(and_(e, a), and_(not_(e), r)) if k == "b" else ite(e, a, r)
            return r
        return Arr.fresh((icst(len(items)),) + d, g, k)
    raise Unsupported("as array: %s" % type(x).__name__)


def bcast_dims(a, b):
    n = max(len(a), len(b))
    A = (icst(1),) * (n - len(a)) + tuple(a)
    B = (icst(1),) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(A, B):
        if x is y:
            out.append(x)
        elif is_one(x):
            out.append(y)
        elif is_one(y):
            out.append(x)
        elif dimeq(x, y):
            out.append(x)
        elif ctx().decide(ieq(x, icst(1))):
            out.append(y)
        elif ctx().decide(ieq(y, icst(1))):
            out.append(x)
        else:
            raise ValueError("operands could not be broadcast together")
    return tuple(out)


def bcast_fn(v, dims, boolean=False):
    """element function of v broadcast to dims"""
    if len(v.dims) > len(dims):
        # leading ones may be dropped by numpy on assignment
        extra = len(v.dims) - len(dims)
        if not all(is_one(d) for d in v.dims[:extra]):
            raise ValueError("could not broadcast input array into shape")
        f0 = v.snapshot() if boolean and v.kind == "b" else v.rsnap()
        lead = (icst(0),) * extra
        vd = v.dims[extra:]
        f = lambda ix: f0(lead + ix)
    else:
        vd = v.dims
        f = v.snapshot() if boolean and v.kind == "b" else v.rsnap()
    off = len(dims) - len(vd)
    one = []
    for i, d in enumerate(vd):
        D = dims[off + i]
        if d is D:
            one.append(False)
        elif is_one(d):
            one.append(True)
        elif dimeq(d, D):
            one.append(False)
        elif ctx().decide(ieq(d, icst(1))):
            one.append(True)
        else:
            raise ValueError("operands could not be broadcast together with shapes")
    if boolean and v.kind != "b":
        return lambda ix: not_(req(f(tuple(icst(0) if o else ix[off + i] for i, o in enumerate(one))), ZERO))
    return lambda ix: f(tuple(icst(0) if o else ix[off + i] for i, o in enumerate(one)))


def ewise(f, a, b, kind=None):
    if isinstance(a, Masked) or isinstance(b, Masked):
        if isinstance(a, Masked):
            return a._b(b, f)
        return b._b(a, f, True)
    a, b = asarr(a), asarr(b)
    dims = bcast_dims(a.dims, b.dims)
    fa, fb = bcast_fn(a, dims), bcast_fn(b, dims)
    if kind is None:
        k = kind_join(a.kind, b.kind)
        if k == "b":
            k = "i" if f is not mul else "b"
        if k == "b":
            ga, gb = bcast_fn(a, dims, True), bcast_fn(b, dims, True)
            cls = Mat if (a.is_mat or b.is_mat) else Arr
            return cls.fresh(dims, lambda ix: and_(ga(ix), gb(ix)), "b")
        kind = k
    cls = Mat if (a.is_mat or b.is_mat) else Arr
    if not dims:
        return wrap_el(kind, f(fa(()), fb(())))
    return cls.fresh(dims, lambda ix: f(fa(ix), fb(ix)), kind)


def boolop(f, a, b):
    a, b = asarr(a), asarr(b)
    if a.kind != "b" or b.kind != "b":
        raise Unsupported("bitwise operation on numbers")
    dims = bcast_dims(a.dims, b.dims)
    fa, fb = bcast_fn(a, dims, True), bcast_fn(b, dims, True)
    return Arr.fresh(dims, lambda ix: f(fa(ix), fb(ix)), "b")


def unary(f, a, kind=None):
    if isinstance(a, Masked):
        return a.map(f)
    if isinstance(a, (SReal, SInt, int, float)):
        return wreal(f(treal(a)))
    if isinstance(a, Sp):
        raise Unsupported("ufunc on sparse")
    a = asarr(a)
    g = a.rsnap()
    k = kind or a.kind
    if not a.dims:
        return wrap_el(k, f(g(())))
    return type(a).fresh(a.dims, lambda ix: f(g(ix)), k)


def reduce_sum(a, axis):
    f = a.rsnap()
    kind = "i" if a.kind in ("b", "i") else "f"
    if a.kind == "b" and len(a.dims) == 1 and axis in (None, 0, -1):
        return SCount(sum_over(a.dims[0], lambda k: f((k,))), count_dim(a))
    if axis is None:
        def go(ds, ix):
            if not ds:
                return f(ix)
            return sum_over(ds[0], lambda k: go(ds[1:], ix + (k,)))
        return wreal(go(a.dims, ()))
    ax = axis % len(a.dims)
    dims = a.dims[:ax] + a.dims[ax + 1:]
    L = a.dims[ax]
    if a.is_mat:
        if ax == 0:
            return Mat.fresh((icst(1), a.dims[1]), lambda ix: sum_over(L, lambda k: f((k, ix[1]))), kind)
        return Mat.fresh((a.dims[0], icst(1)), lambda ix: sum_over(L, lambda k: f((ix[0], k))), kind)
    if not dims:
        return wreal(sum_over(L, lambda k: f((k,))))
    return Arr.fresh(dims, lambda ix: sum_over(L, lambda k: f(ix[:ax] + (k,) + ix[ax:])), kind)


def reduce_max(a, axis, op):
    f = a.rsnap()
    if axis is None:
        if len(a.dims) != 1:
            raise Unsupported("max of a full array")
        axis = 0
    ax = axis % len(a.dims)
    dims = a.dims[:ax] + a.dims[ax + 1:]
    L = a.dims[ax]

    def g(ix):
        k = fresh_iv(L, "m")
        return mk(op, k, f(ix[:ax] + (k,) + ix[ax:]))
    if not dims:
        return wreal(g(()))
    return Arr.fresh(dims, g, a.kind)


def along(a, axis, neg):
    """boolean array: neg(element) for every element along the axis"""
    f = a.snapshot()
    g = f if a.kind == "b" else (lambda ix: not_(req(f(ix), ZERO)))
    ax = axis % len(a.dims)
    dims = a.dims[:ax] + a.dims[ax + 1:]
    if not dims or a.is_mat:
        raise Unsupported("all(axis)")

    def h(ix):
        k = fresh_iv(a.dims[ax], "q")
        return forall(k, neg(g(ix[:ax] + (k,) + ix[ax:])))
    return Arr.fresh(dims, h, "b")


def np_all(a, axis=None):
    if isinstance(a, (bool, SBool)):
        return a
    a = asarr(a) if not isinstance(a, Arr) else a
    if axis is not None:
        return along(a, axis, lambda c: c)

    def go(ds, ix):
        if not ds:
            return a.cel(ix)
        v = iconst_value(ds[0])
        if v is not None and v <= 6:
            return and_(*[go(ds[1:], ix + (icst(i),)) for i in range(v)])
        k = fresh_iv(ds[0], "q")
        return forall(k, go(ds[1:], ix + (k,)))
    return wbool(go(a.dims, ()))


def np_any(a, axis=None):
    if isinstance(a, (bool, SBool)):
        return a
    a = asarr(a) if not isinstance(a, Arr) else a
    if axis is not None:
        return ~along(a, axis, not_)

    def go(ds, ix):
        if not ds:
            return not_(a.cel(ix))
        k = fresh_iv(ds[0], "q")
        return forall(k, go(ds[1:], ix + (k,)))
    return wbool(not_(go(a.dims, ())))


def matmul(a, b):
    """a . b for 1-d, 2-d (and n-d . 1-d / 2-d)"""
    if isinstance(a, Sp) or isinstance(b, Sp):
        return sp_matmul(a, b)
    a, b = asarr(a), asarr(b)
    return np_dot(a, b)


def np_dot(a, b):
    if isinstance(a, Sp):
        return a.dot(b)
    a = asarr(a)
    if isinstance(b, Sp):
        raise Unsupported("ndarray.dot(sparse)")
    b = asarr(b)
    if not a.dims or not b.dims:
        return ewise(mul, a, b)
    fa, fb = a.rsnap(), b.rsnap()
    L = a.dims[-1]
    Lb = b.dims[-2] if len(b.dims) > 1 else b.dims[0]
    if not dimeq(L, Lb):
        raise ValueError("shapes not aligned")
    kind = kind_join(a.kind, b.kind)
    na = len(a.dims) - 1
    cls = Mat if (a.is_mat or b.is_mat) else Arr
    if len(b.dims) == 1:
        dims = a.dims[:-1]
        if not dims:
            return wreal(sum_over(L, lambda k: mul(fa((k,)), fb((k,)))))
        return cls.fresh(dims, lambda ix: sum_over(L, lambda k: mul(fa(ix + (k,)), fb((k,)))), kind)
    if len(b.dims) == 2:
        dims = a.dims[:-1] + (b.dims[1],)
        return cls.fresh(dims, lambda ix: sum_over(L, lambda k: mul(fa(ix[:na] + (k,)), fb((k, ix[na])))), kind)
    raise Unsupported("dot with 3-d right operand")


# ---------------------------------------------------------------- sparse
class Sp(Sym):
    """scipy.sparse matrix.  `one` holds, for matrices with exactly one stored
    entry per row, the column function, so that `.data` is indexed by row."""
    __array_priority__ = 10.1

    def __init__(self, dims, el, kind="f", fmt="csr", col=None, tag=None):
        self.buf = Buf(dims, el, kind, tag)
        self.dims = tuple(dims)
        self.fmt = fmt
        self.col = col            # row index term -> column index term

    @property
    def kind(self):
        return self.buf.kind

    @property
    def dtype(self):
        return DType(self.buf.kind)

    @property
    def shape(self):
        return tuple(wint(d) for d in self.dims)

    @property
    def ndim(self):
        return 2

    def rel(self, ix):
        return self.buf.get(ix)

    def rsnap(self):
        el, memo = self.buf.el, self.buf.memo

        def f(ix):
            r = memo.get(ix)
            if r is None:
                r = el(ix)
                memo[ix] = r
            return r
        return f

    # data of one-per-row matrices
    @property
    def data(self):
        if self.col is None:
            raise Unsupported(".data of a general sparse matrix")
        f, col = self.rsnap(), self.col
        return Arr.fresh((self.dims[0],), lambda ix: f((ix[0], col(ix[0]))), self.kind)

    @data.setter
    def data(self, v):
        if self.col is None:
            raise Unsupported(".data of a general sparse matrix")
        v = asarr(v)
        if len(v.dims) != 1:
            raise Unsupported("2-d .data")
        if not dimeq(v.dims[0], self.dims[0]):
            raise Unsupported(".data of another length")
        g, col = v.rsnap(), self.col
        self.buf.set(lambda ix: mul(iv01(ieq(ix[1], col(ix[0]))), g((ix[0],))))

    @property
    def T(self):
        return self.transpose()

    def transpose(self):
        f = self.rsnap()
        return Sp((self.dims[1], self.dims[0]), lambda ix: f((ix[1], ix[0])), self.kind, "csc")

    def copy(self):
        return Sp(self.dims, self.rsnap(), self.kind, self.fmt, self.col)

    def tocsr(self):
        return Sp(self.dims, self.rsnap(), self.kind, "csr", self.col)

    def tocsc(self):
        return Sp(self.dims, self.rsnap(), self.kind, "csc", self.col)

    def toarray(self):
        return Arr.fresh(self.dims, self.rsnap(), self.kind)

    def todense(self):
        return Mat.fresh(self.dims, self.rsnap(), self.kind)

    @property
    def A(self):
        return self.toarray()

    def dot(self, o):
        return sp_matmul(self, o)

    def __mul__(self, o):
        if is_scalar(o):
            t = treal(o)
            f = self.rsnap()
            return Sp(self.dims, lambda ix: mul(t, f(ix)), "f", self.fmt, self.col)
        return sp_matmul(self, o)

    def __rmul__(self, o):
        if is_scalar(o):
            return self * o
        return sp_matmul(o, self)

    __matmul__ = dot

    def __neg__(self):
        return self * -1

    def __radd__(self, o):
        return Mat.fresh(self.dims, ewise(add, asarr(o), self.toarray()).rsnap())
    __add__ = __radd__

    def __rsub__(self, o):
        return Mat.fresh(self.dims, ewise(sub, asarr(o), self.toarray()).rsnap())

    def __sub__(self, o):
        if isinstance(o, Sp):
            f, g = self.rsnap(), o.rsnap()
            return Sp(self.dims, lambda ix: sub(f(ix), g(ix)))
        return Mat.fresh(self.dims, ewise(sub, self.toarray(), asarr(o)).rsnap())

    def multiply(self, o):
        f = self.rsnap()
        if isinstance(o, Sp):
            g0 = o.toarray()
        else:
            g0 = asarr(o)
        if not g0.dims:
            return self * o
        dims = bcast_dims(self.dims, g0.dims)
        if len(g0.dims) > 2:
            raise Unsupported("multiply by 3-d")
        me = bcast_fn(self.toarray(), dims)
        g = bcast_fn(g0, dims)
        return Sp(dims, lambda ix: mul(me(ix), g(ix)), "f", "coo", self.col)

    def sum(self, axis=None):
        f = self.rsnap()
        if axis is None:
            return reduce_sum(self.toarray(), None)
        return reduce_sum(Mat.fresh(self.dims, f, self.kind), axis)

    def max(self, axis=None):
        raise Unsupported("sparse max")

    def __getitem__(self, key):
        if self.fmt == "coo":
            raise TypeError("'coo_matrix' object is not subscriptable")
        if not isinstance(key, tuple):
            key = (key, slice(None))
        ks = []
        for k in key:
            if isinstance(k, (int, SInt)):
                raise Unsupported("sparse row index")
            ks.append(k)
        d = Arr.fresh(self.dims, self.rsnap(), self.kind)[tuple(ks)]
        if not isinstance(d, Arr):
            raise Unsupported("sparse mask index")
        return Sp(d.dims, d.rsnap(), self.kind, self.fmt)

    def __len__(self):
        raise TypeError("sparse matrix length is ambiguous")

    def __eq__(self, o):
        raise Unsupported("sparse comparison")
    __hash__ = object.__hash__


def sp_matmul(a, b):
    sa, sb = isinstance(a, Sp), isinstance(b, Sp)
    if not sa:
        a = asarr(a)
    if not sb:
        b = asarr(b)
    fa, fb = a.rsnap(), b.rsnap()
    ad, bd = a.dims, b.dims
    if not sb and len(bd) == 1:
        if not dimeq(ad[1], bd[0]):
            raise ValueError("dimension mismatch")
        return Arr.fresh((ad[0],), lambda ix: sum_over(bd[0], lambda k: mul(fa((ix[0], k)), fb((k,)))))
    if not sa and len(ad) == 1:
        if not dimeq(ad[0], bd[0]):
            raise ValueError("dimension mismatch")
        return Arr.fresh((bd[1],), lambda ix: sum_over(ad[0], lambda k: mul(fa((k,)), fb((k, ix[0])))))
    if len(ad) != 2 or len(bd) != 2:
        raise Unsupported("sparse product with n-d array")
    if not dimeq(ad[1], bd[0]):
        raise ValueError("dimension mismatch")
    el = lambda ix: sum_over(bd[0], lambda k: mul(fa((ix[0], k)), fb((k, ix[1]))))
    dims = (ad[0], bd[1])
    if sa and sb:
        return Sp(dims, el)
    if (not sa and a.is_mat) or (not sb and b.is_mat):
        return Mat.fresh(dims, el)
    return Arr.fresh(dims, el)


def onehot(dims, fn, kind="i", tag=None):
    """sparse 0/1 matrix with a single 1 per row at column fn(row)"""
    return Sp(dims, lambda ix: iv01(ieq(fn(ix[0]), ix[1])), kind, "csr", fn, tag)
