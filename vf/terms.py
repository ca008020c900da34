"""Hash-consed term language of the verifier.

Three sorts:
  int   index terms        iv / ifn / dim / ilin
  real  value terms        num / app / add / mul / pow / exp / log / rfn / ite / iv01 / sum / max / i2r
  bool  conditions         true / false / lt / eq / ilt / ieq / and / or / not / bapp / forall / exists

Every quantity is a mathematical integer or real: machine arithmetic is treated
as mathematical (recorded as an assumption by every check).
"""
import os
from fractions import Fraction
from hashlib import blake2b
import itertools

_table = {}


class T(object):
    __slots__ = ("op", "args", "key", "ivs", "height", "h")

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o


    def __repr__(self):
        return show(self)

    # identity equality / hash through interning
    def __reduce__(self):
        raise TypeError("terms are not picklable")


def _akey(a):
    if isinstance(a, T):
        return a.key
    if isinstance(a, tuple):
        return "(" + ",".join(_akey(x) for x in a) + ")"
    return repr(a)


def _aivs(a, acc):
    if isinstance(a, T):
        acc |= a.ivs
    elif isinstance(a, tuple):
        for x in a:
            acc = _aivs(x, acc)
    return acc


def _aheight(a):
    if isinstance(a, T):
        return a.height
    if isinstance(a, tuple):
        m = 0
        for x in a:
            h = _aheight(x)
            if h > m:
                m = h
        return m
    return 0


# canonical choices follow the hash of a term; a failed proof is retried under other orders
SALT = os.environ.get("VF_SALT", "")
BINDERS = ("sum", "max", "min", "forall", "exists")


def mk(op, *args):
    k = (op,) + args
    t = _table.get(k)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op = op
    t.args = args
    t.key = blake2b((SALT + op + "|" + ",".join(_akey(a) for a in args)).encode(), digest_size=12).hexdigest()
    t.h = int(t.key[:14], 16)
    if op == "iv":
        t.ivs = frozenset([t]) | t.args[1].ivs
        t.height = 0
    else:
        s = frozenset()
        for a in args:
            s = _aivs(a, s)
        h = 0
        for a in args:
            hh = _aheight(a)
            if hh > h:
                h = hh
        if op in BINDERS:
            s = s - frozenset([args[0]])
            h += 1
        elif op == "mono":
            s = s - frozenset(args[0])
            if args[0]:
                h += 1
        t.ivs = s
        t.height = h
    _table[k] = t
    return t


_cnt = itertools.count()


def fresh_name(prefix="v"):
    return "%s!%d" % (prefix, next(_cnt))


# ---------------------------------------------------------------- index terms
def ilin(const, pairs):
    d = {}
    for a, c in pairs:
        if c:
            d[a] = d.get(a, 0) + c
    items = tuple(sorted(((a, c) for a, c in d.items() if c), key=lambda p: p[0].key))
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("ilin", const, items)


def as_lin(t):
    if isinstance(t, int) and not isinstance(t, bool):
        return t, ()
    if t.op == "ilin":
        return t.args[0], t.args[1]
    return 0, ((t, 1),)


def icst(n):
    return mk("ilin", int(n), ())


def iadd(*ts):
    c = 0
    ps = []
    for t in ts:
        a, p = as_lin(t)
        c += a
        ps.extend(p)
    return ilin(c, ps)


def iscale(k, t):
    a, p = as_lin(t)
    return ilin(a * k, [(x, c * k) for x, c in p])


def isub(a, b):
    return iadd(a, iscale(-1, b))


def imul(a, b):
    ca, pa = as_lin(a)
    cb, pb = as_lin(b)
    if not pa:
        return iscale(ca, b)
    if not pb:
        return iscale(cb, a)
    out = [iscale(ca, b)]
    for x, c in pa:
        out.append(iscale(c * cb, x))
        for y, d in pb:
            l, r = (x, y) if x.key <= y.key else (y, x)
            out.append(iscale(c * d, mk("imul", l, r)))
    return iadd(*out)


def iconst_value(t):
    if isinstance(t, int):
        return t
    if t.op == "ilin" and not t.args[1]:
        return t.args[0]
    return None


def dim(name):
    return mk("dim", name)


def iv(name, length, parts=None):
    """index variable ranging over 0..length-1"""
    return mk("iv", name, length)


def fresh_iv(length, prefix="i"):
    return mk("iv", fresh_name(prefix), length)


INV = {"perm:": "iperm:", "iperm:": "perm:"}


def ifn(name, args, codim):
    """index function.  Names with a prefix of INV are mutually inverse
    bijections; rk:X is the rank of a row's id in the id vector X, first:X and
    sfirst:X its first occurrences in sorted and in row order"""
    if len(args) == 1 and args[0].op == "ifn" and ":" in name:
        p, x = name.split(":", 1)
        q = args[0].args[0]
        if INV.get(p + ":") and q == INV[p + ":"] + x:
            return args[0].args[1][0]
        if p == "sel" and q == "rank:" + x or p == "rank" and q == "sel:" + x:
            return args[0].args[1][0]
        if p == "rk":
            if q.startswith("row:") and x in q[4:].split("|"):
                return args[0].args[1][q[4:].split("|").index(x)]
            if q == "sfirst:" + x:
                return ifn("perm:" + x, args[0].args[1], codim)
            if q == "first:" + x:
                return args[0].args[1][0]
    if name.startswith("row:"):
        i = pair_row(name[4:], args)
        if i is not None:
            return i
    return mk("ifn", name, tuple(args), codim)


def pair_row(xy, args):
    """row:X|Y(a, b) is the row with ranks (a, b) in the id vectors X and Y,
    avail:X|Y(a, b) says that there is one; this returns i for (rk:X(i), rk:Y(i))"""
    x, y = xy.split("|")
    a, b = args
    if a.op == "ifn" and b.op == "ifn" and a.args[0] == "rk:" + x and b.args[0] == "rk:" + y and a.args[1] == b.args[1]:
        return a.args[1][0]
    return None


def unperm(a, b):
    """perm(x) = b  as  x = iperm(b)"""
    if a.op == "ifn" and len(a.args[1]) == 1:
        n = a.args[0]
        if n.startswith("perm:") or n.startswith("iperm:") and b.op == "ifn" and b.args[0] == n:
            p, x = n.split(":", 1)
            return a.args[1][0], ifn(INV[p + ":"] + x, [b], a.args[2])
    return None


LOOKUPS = {}    # name of a lookup index function -> (arguments, j) -> condition that it equals j


def irange_len(t):
    """length of the natural range of an index term, if known"""
    if t.op == "iv":
        return t.args[1]
    if t.op == "ifn":
        return t.args[2]
    return None


# ---------------------------------------------------------------- real terms
def num(q):
    if isinstance(q, bool):
        q = int(q)
    if isinstance(q, float):
        q = Fraction(q)
    return mk("num", Fraction(q))


ZERO = num(0)
ONE = num(1)


def app(name, *idx):
    return mk("app", name, tuple(idx))


def add(*ts):
    out = []
    c = Fraction(0)
    for t in ts:
        if t.op == "num":
            c += t.args[0]
        elif t.op == "add":
            for x in t.args[0]:
                if x.op == "num":
                    c += x.args[0]
                else:
                    out.append(x)
        else:
            out.append(t)
    if c:
        out.append(num(c))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return mk("add", tuple(out))


def mul(*ts):
    out = []
    c = Fraction(1)
    for t in ts:
        if t.op == "num":
            c *= t.args[0]
        elif t.op == "mul":
            for x in t.args[0]:
                if x.op == "num":
                    c *= x.args[0]
                else:
                    out.append(x)
        else:
            out.append(t)
    if c == 0:
        return ZERO
    if c != 1:
        out.insert(0, num(c))
    if not out:
        return ONE
    if len(out) == 1:
        return out[0]
    return mk("mul", tuple(out))


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def pow_(b, e):
    if e.op == "num":
        q = e.args[0]
        if q == 1:
            return b
        if q == 0:
            return ONE
        if b.op == "num" and q.denominator == 1 and abs(q) <= 64 and not (b.args[0] == 0 and q < 0):
            return num(b.args[0] ** int(q))
    if b is ONE:
        return ONE
    return mk("pow", b, e)


def div(a, b):
    return mul(a, pow_(b, num(-1)))


def exp(a):
    if a is ZERO:
        return ONE
    return mk("exp", a)


def log(a):
    if a is ONE:
        return ZERO
    return mk("log", a)


def rfn(name, reals=(), idx=()):
    return mk("rfn", name, tuple(reals), tuple(idx))


def ite(c, a, b):
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if a is b:
        return a
    return mk("ite", c, a, b)


def iv01(c):
    """Iverson bracket"""
    return ite(c, ONE, ZERO)


def i2r(t):
    v = iconst_value(t)
    if v is not None:
        return num(v)
    return mk("i2r", t)


def sum_(v, body):
    if body is ZERO:
        return ZERO
    return mk("sum", v, body)


def max_(v, body):
    return mk("max", v, body)


# ---------------------------------------------------------------- conditions
TRUE = mk("true")
FALSE = mk("false")


def bconst(b):
    return TRUE if b else FALSE


def lt(a, b):
    if a.op == "num" and b.op == "num":
        return bconst(a.args[0] < b.args[0])
    if a is b:
        return FALSE
    return mk("lt", a, b)


def le(a, b):
    return not_(lt(b, a))


def req(a, b):
    if a.op == "num" and b.op == "num":
        return bconst(a.args[0] == b.args[0])
    if a is b:
        return TRUE
    if a.op == "app" and b.op == "app" and a.args[0] == b.args[0] and a.args[0].startswith("inj:") and len(a.args[1]) == len(b.args[1]):
        return and_(*[ieq(x, y) for x, y in zip(a.args[1], b.args[1])])
    if a.op == "i2r" and b.op == "i2r":
        return ieq(a.args[0], b.args[0])
    for x, y in ((a, b), (b, a)):
        if x.op == "i2r" and y.op == "num":
            q = y.args[0]
            return ieq(x.args[0], icst(int(q))) if q == int(q) else FALSE
    if a.key > b.key:
        a, b = b, a
    return mk("eq", a, b)


def ieq(a, b):
    if isinstance(a, int):
        a = icst(a)
    if isinstance(b, int):
        b = icst(b)
    if a is b:
        return TRUE
    u = unperm(a, b) or unperm(b, a)
    if u is not None:
        return ieq(*u)
    for x, y in ((a, b), (b, a)):
        if x.op == "ifn" and x.args[0] in LOOKUPS:
            return LOOKUPS[x.args[0]](x.args[1], y)
    d = isub(a, b)
    v = iconst_value(d)
    if v is not None:
        return bconst(v == 0)
    if a.op == "ilin" or b.op == "ilin":
        c, ps = as_lin(d)
        if len(ps) < len(as_lin(a)[1]) + len(as_lin(b)[1]):
            # common atoms cancel
            a = ilin(c if c > 0 else 0, [(x, k) for x, k in ps if k > 0])
            b = ilin(-c if c < 0 else 0, [(x, -k) for x, k in ps if k < 0])
    if a.key > b.key:
        a, b = b, a
    return mk("ieq", a, b)


def ilt(a, b):
    d = isub(a, b)
    v = iconst_value(d)
    if v is not None:
        return bconst(v < 0)
    return mk("ilt", d)      # d < 0


def ile(a, b):
    return ilt(a, iadd(b, 1))


def not_(c):
    if c.op == "true":
        return FALSE
    if c.op == "false":
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "ilt":        # not(d<0)  <=>  -d-1<0
        return ilt(iscale(-1, c.args[0]), 1)
    return mk("not", c)


def and_(*cs):
    out = []
    for c in cs:
        if c.op == "true":
            continue
        if c.op == "false":
            return FALSE
        if c.op == "and":
            out.extend(c.args[0])
        else:
            out.append(c)
    out = list(dict.fromkeys(out))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out))


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


def bapp(name, *idx):
    if name.startswith("avail:"):
        if pair_row(name[6:], idx) is not None:
            return TRUE
        if idx[1].op == "ifn" and idx[1].args[0] == "chosen:" + name[6:] and idx[1].args[1] == (idx[0],):
            return TRUE         # chosen:X|Y(a): an available partner of a
    return mk("bapp", name, tuple(idx))


def forall(v, c):
    if c.op in ("true", "false"):
        return c
    return mk("forall", v, c)


def exists(v, c):
    return not_(forall(v, not_(c)))


# ---------------------------------------------------------------- traversal
_REBUILD = {
    "add": lambda a: add(*a[0]), "mul": lambda a: mul(*a[0]),
    "pow": lambda a: pow_(*a), "exp": lambda a: exp(*a), "log": lambda a: log(*a),
    "ite": lambda a: ite(*a), "lt": lambda a: lt(*a), "eq": lambda a: req(*a),
    "ieq": lambda a: ieq(*a), "not": lambda a: not_(*a), "and": lambda a: and_(*a[0]),
    "i2r": lambda a: i2r(*a), "ifn": lambda a: ifn(*a), "bapp": lambda a: bapp(a[0], *a[1]), "sum": lambda a: sum_(*a), "forall": lambda a: forall(*a),
}


def rebuild(op, args):
    if op == "ilin":
        return iadd(args[0], *[iscale(c, x) for x, c in args[1]])
    if op == "imul":
        return imul(*args)
    if op == "ilt":
        v = iconst_value(args[0])
        if v is not None:
            return bconst(v < 0)
        return mk("ilt", args[0])
    f = _REBUILD.get(op)
    if f is not None:
        return f(args)
    return mk(op, *args)


def subst(t, m, _memo=None):
    """capture-free substitution of index variables (bound names are unique)"""
    if not m:
        return t
    if _memo is None:
        _memo = {}
    ks = frozenset(m)

    def go(x):
        if isinstance(x, T):
            if x in ks:
                return m[x]
            if not (x.ivs & ks):
                return x
            r = _memo.get(x)
            if r is not None:
                return r
            if x.op in BINDERS and x.args[0] in ks:
                raise AssertionError("capture")
            r = rebuild(x.op, tuple(go(a) for a in x.args))
            _memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(a) for a in x)
        return x
    return go(t)


def subterms(t, pred, acc=None):
    if acc is None:
        acc = []
    seen = set()

    def go(x):
        if isinstance(x, T):
            if x in seen:
                return
            seen.add(x)
            if pred(x):
                acc.append(x)
            for a in x.args:
                go(a)
        elif isinstance(x, tuple):
            for a in x:
                go(a)
    go(t)
    return acc


# ---------------------------------------------------------------- printing
def short(q):
    try:
        return "%.6g" % float(q)
    except OverflowError:
        return "%se%d" % ("-" if q < 0 else "", len(str(abs(int(q)))) - 1)


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x) for x in t) + ")"
        return str(t)
    o, a = t.op, t.args
    if o == "num":
        q = a[0]
        if q.denominator == 1 and abs(q) < 10 ** 9:
            return str(q)
        return short(q)
    if o == "iv":
        return a[0]
    if o == "dim":
        return a[0]
    if o == "ifn":
        return "%s(%s)" % (a[0], ",".join(show(x) for x in a[1]))
    if o == "ilin":
        s = ["%s%s" % ("" if c == 1 else "%d*" % c, show(x)) for x, c in a[1]]
        if a[0] or not s:
            s.append(str(a[0]))
        return "(" + "+".join(s) + ")"
    if o == "app":
        return "%s[%s]" % (a[0], ",".join(show(x) for x in a[1]))
    if o == "bapp":
        return "%s?[%s]" % (a[0], ",".join(show(x) for x in a[1]))
    if o == "add":
        return "(" + " + ".join(show(x) for x in a[0]) + ")"
    if o == "mul":
        return "*".join(show(x) for x in a[0])
    if o == "pow":
        return "%s^{%s}" % (show(a[0]), show(a[1]))
    if o in ("exp", "log"):
        return "%s(%s)" % (o, show(a[0]))
    if o == "rfn":
        return "%s(%s;%s)" % (a[0], ",".join(show(x) for x in a[1]), ",".join(show(x) for x in a[2]))
    if o == "ite":
        if a[1] is ONE and a[2] is ZERO:
            return "[%s]" % show(a[0])
        return "if(%s, %s, %s)" % tuple(show(x) for x in a)
    if o in ("sum", "max", "forall"):
        return "%s_{%s<%s}(%s)" % (o, show(a[0]), show(a[0].args[1]), show(a[1]))
    if o == "i2r":
        return show(a[0])
    if o == "lt":
        return "%s < %s" % (show(a[0]), show(a[1]))
    if o in ("eq", "ieq"):
        return "%s = %s" % (show(a[0]), show(a[1]))
    if o == "ilt":
        return "%s < 0" % show(a[0])
    if o == "not":
        return "!(%s)" % show(a[0])
    if o == "and":
        return "(" + " & ".join(show(x) for x in a[0]) + ")"
    if o == "mono":
        fs = ["[%s=%s]" % (show(x), show(y)) for x, y in a[1]]
        for b, e in a[2]:
            if b.op == "E":
                fs.append("exp(%s)" % show(e))
            elif e is ONE:
                fs.append(show(b))
            else:
                fs.append("%s^{%s}" % (show(b), show(e)))
        body = "*".join(fs) or "1"
        return "".join("S_{%s<%s}" % (show(v), show(v.args[1])) for v in a[0]) + body
    if o == "poly":
        out = []
        for m, c in a[0]:
            k = "" if c == 1 else "-" if c == -1 else (str(c) if abs(c) < 10 ** 9 and c.denominator < 10 ** 6 else short(c)) + "*"
            out.append(k + show(m))
        return "(" + " + ".join(out).replace("+ -", "- ") + ")" if len(out) != 1 else out[0]
    if o == "g":
        return "[%s]" % show(a[0])
    if o in ("lt0", "eq0"):
        return "%s%s0" % (show(a[0]), "<" if o == "lt0" else "=")
    return "%s%s" % (o, show(a))
