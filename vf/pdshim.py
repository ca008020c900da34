"""Stand-in for the part of pandas used to hold results: labelled vectors and
matrices.  Labels are terms; a list of labels may have symbolic length.
Arithmetic between two labelled vectors requires provably identical labels
(pandas aligns on labels; with identical labels it is positional)."""
import numbers
from collections import OrderedDict
from .fake import *
from . import shim

numbers.Number.register(SReal)
numbers.Number.register(SInt)

NAN = app("NaN")


class SName(Sym):
    """one label of a symbolic list of labels"""

    def __init__(self, t):
        self.t = t

    def __contains__(self, s):
        t = self.t
        while t.op == "ifn" and str(t.args[0]).startswith("label:"):
            if s in t.args[0][6:].strip("+"):
                return True
            sub_ = [x for x in t.args[1] if getattr(x, "op", None) == "ifn"]
            if len(sub_) != 1:
                raise Unsupported("text of a symbolic label")
            t = sub_[0]
        if s != "Sigma ":
            raise Unsupported("text of a symbolic label")
        return False      # precondition of the contracts: user labels do not contain 'Sigma '

    def __radd__(self, s):
        return SName(ifn("label:%s+" % s, [self.t], LAB))

    def __add__(self, s):
        return SName(ifn("label:+%s" % s, [self.t], LAB))

    def __str__(self):
        raise Unsupported("text of a symbolic label")

    def __format__(self, f):
        raise Unsupported("text of a symbolic label")


LAB = dim("labels")
class SNames(shim.SList):
    """list of labels of symbolic length"""

    _parts = None
    items = None

    def __init__(self, length, fn):
        self.length = length
        self.fn = fn           # index term -> label term

    @staticmethod
    def of(x):
        if isinstance(x, SNames):
            return x
        if isinstance(x, (list, tuple)) and any(isinstance(y, shim.Block) for y in x):
            ps = []
            for y in x:
                if isinstance(y, shim.Block):
                    t = label(y.v)
                    ps.append((y.n, lambda k, t=t, y=y: subst(t, {y.i: k})))
                else:
                    ps.append((icst(1), lambda k, t=label(y): t))
            r = SNames(iadd(*[n for n, _ in ps]), None)
            r._parts = ps
            return r
        if isinstance(x, (list, tuple)):
            ts = [label(y) for y in x]

            def fn(i):
                c = iconst_value(i)
                if c is not None:
                    return ts[c]
                raise Unsupported("symbolic position in a concrete list of labels")
            r = SNames(icst(len(ts)), fn)
            r.items = ts
            return r
        raise Unsupported("labels of type %s" % type(x).__name__)

    def copy(self):
        r = SNames(self.length, self.fn)
        r._parts, r.items = self._parts, self.items
        return r

    def __slen__(self):
        return wint(self.length)

    def parts(self):
        return self._parts or [(self.length, self.fn)]

    def __add__(self, o):
        if isinstance(o, list) and not o:
            return self
        o = SNames.of(o)
        ps = self.parts() + o.parts()
        tot = iadd(self.length, o.length)
        r = SNames(tot, None)
        r._parts = ps
        return r

    def __iadd__(self, o):
        r = self + o
        self.length, self.fn = r.length, r.fn
        self._parts = r.parts()
        return self

    def __radd__(self, o):
        if isinstance(o, list) and not o:
            return self
        return SNames.of(o) + self

    def vf_map(self, fn):
        out = []
        for n, f in self.parts():
            i = fresh_iv(n, "n")
            r = fn(SName(f(i)))
            out.append((n, i, r))
        if all(isinstance(r, bool) for _, _, r in out):
            return [r for _, _, r in out]          # enough for any()/all()
        if all(isinstance(r, SName) for _, _, r in out):
            ps = [(n, (lambda k, i=i, r=r: subst(r.t, {i: k}))) for n, i, r in out]
            q = SNames(iadd(*[n for n, _ in ps]), ps[0][1] if len(ps) == 1 else None)
            q._parts = ps
            return q
        raise Unsupported("map over labels")

    def __contains__(self, x):
        raise Unsupported("membership in symbolic labels")

    def __getitem__(self, k):
        ps = self.parts()
        if not isinstance(k, (int, SInt)) or len(ps) != 1:
            raise Unsupported("element of symbolic labels")
        n, f = ps[0]
        t = shim.norm_index(k, n)
        if not ctx().known(and_(not_(ilt(t, 0)), ilt(t, n))):
            raise Unsupported("position in symbolic labels")
        return SName(f(t))

    def __iter__(self):
        raise Unsupported("iteration over symbolic labels")

    def vf_loop(self, info):
        ps = self.parts()
        if len(ps) != 1:
            raise Unsupported("loop over several symbolic lists")
        n, f = ps[0]
        return shim.par_loop(icst(0), n, info, lambda i: SName(f(i)))

    def tolist(self):
        return self


def label(x):
    if isinstance(x, SName):
        return x.t
    if isinstance(x, str):
        return shim.str_term(x, LAB)
    if isinstance(x, (int, SInt)):
        return ifn("label#", [tint(x)], LAB)
    raise Unsupported("label %r" % (x,))


def same_parts(a, b):
    """provably the same list of labels"""
    a, b = SNames.of(a), SNames.of(b)
    pa, pb = a.parts(), b.parts()
    n = ctx().norm()
    if a.items is not None and b.items is not None:
        return len(a.items) == len(b.items) and all(x is y for x, y in zip(a.items, b.items))
    if len(pa) != len(pb):
        return False
    for (la, fa), (lb, fb) in zip(pa, pb):
        if n.idecide(ieq(la, lb)).op != "true":
            return False
        i = fresh_iv(la, "n")
        if fa(i) is not fb(i) and n.idecide(ieq(fa(i), fb(i))).op != "true":
            return False
    return True


class Pos(object):
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        return self.s.values[k]

    def __setitem__(self, k, v):
        if isinstance(v, float) and v != v:
            v = SReal(NAN)
        self.s.values[k] = v


class ByLabel(object):
    """lookup by label (labels are distinct)"""

    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if not isinstance(k, (list, SNames)):
            raise Unsupported("lookup of one label")
        want = SNames.of(k)
        n = ctx().norm()
        have, off = [], icst(0)
        for ln, f in self.s.index.names.parts():
            have.append((ln, f, off))
            off = iadd(off, ln)
        out = []
        v = self.s.values
        for ln, f in want.parts():
            i = fresh_iv(ln, "n")
            hit = [o for l2, g, o in have if n.idecide(ieq(ln, l2)).op == "true" and f(i) is g(i)]
            if len(hit) != 1:
                raise Unsupported("lookup of these labels")
            out.append(v[slice(wint(hit[0]), wint(iadd(hit[0], ln)))])
        r = out[0] if len(out) == 1 else np_concatenate(out)
        return PSeries(r.copy(), want)


class PSeries(shim.Series):
    def __init__(self, data=None, index=None, name=None):
        self.values = data if isinstance(data, Arr) else asarr(data)
        if len(self.values.dims) != 1:
            raise ValueError("Data must be 1-dimensional")
        self.index = Labels(index if index is not None else SNames(self.values.dims[0], lambda i: ifn("label#", [i], LAB)))
        self.name = name
        if index is not None and ctx().norm().idecide(ieq(self.index.names.length, self.values.dims[0])).op == "false":
            raise ValueError("Length of values does not match length of index")

    @property
    def iloc(self):
        return Pos(self)

    @property
    def loc(self):
        return ByLabel(self)

    def __getitem__(self, k):
        return ByLabel(self)[k]

    @property
    def size(self):
        return wint(self.values.dims[0])

    @property
    def shape(self):
        return self.values.shape

    @property
    def dims(self):
        return self.values.dims

    @property
    def ndim(self):
        return 1

    def copy(self, deep=True):
        return PSeries(self.values.copy(), self.index.names, self.name)

    def _b(self, o, f):
        if isinstance(o, PSeries):
            if not same_parts(self.index.names, o.index.names):
                raise Unsupported("alignment of different labels")
            o = o.values
        elif isinstance(o, PFrame):
            raise Unsupported("series with frame")
        r = f(self.values, o)
        return PSeries(r, self.index.names, None)

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: b / a)

    def __neg__(self):
        return PSeries(-self.values, self.index.names, self.name)

    def __abs__(self):
        return PSeries(abs(self.values), self.index.names, self.name)

    def abs(self):
        return abs(self)

    def sum(self, axis=None):
        return self.values.sum()

    def __slen__(self):
        return self.size


class Labels(Sym):
    def __init__(self, names):
        self.raw = list(names) if isinstance(names, (list, tuple)) and all(isinstance(x, str) for x in names) else names.__dict__.get("raw") if isinstance(names, Labels) else None
        if isinstance(names, Labels):
            names = names.names
        self.names = SNames.of(names)

    def tolist(self):
        return self.names

    @property
    def values(self):
        return self

    def __slen__(self):
        return wint(self.names.length)


class PFrame(shim.Series):
    def __init__(self, data=None, index=None, columns=None):
        self.values = data if isinstance(data, Arr) else asarr(data)
        if len(self.values.dims) != 2:
            raise Unsupported("frame of %d dimensions" % len(self.values.dims))
        none = lambda n: SNames(n, lambda i: ifn("label#", [i], LAB))
        self.plain_rows = index is None
        self.index = Labels(index if index is not None else none(self.values.dims[0]))
        self.columns = Labels(columns if columns is not None else none(self.values.dims[1]))

    @property
    def shape(self):
        return self.values.shape

    @property
    def dims(self):
        return self.values.dims

    @property
    def ndim(self):
        return 2

    def copy(self, deep=True):
        return PFrame(self.values.copy(), self.index.names, self.columns.names)

    @property
    def iloc(self):
        return Pos(self)

    def sum(self, axis=0):
        if axis not in (0, 1):
            raise Unsupported("sum of a frame")
        return DCol(None, self.values.sum(axis=axis), None)

    def to_numpy(self):
        return self.values


class PTable(Sym):
    """pd.concat(series, axis=1): the series side by side"""

    def __init__(self, cols):
        self.cols = cols

    @property
    def values(self):
        fs = [c.values.rsnap() for c in self.cols]
        n = self.cols[0].values.dims[0]

        def g(ix):
            k = iconst_value(ix[1])
            if k is not None:
                return fs[k]((ix[0],))
            r = fs[-1]((ix[0],))
            for q in range(len(fs) - 2, -1, -1):
                r = ite(ieq(ix[1], icst(q)), fs[q]((ix[0],)), r)
            return r
        return Arr.fresh((n, icst(len(fs))), g, "f")


class Multi(Sym):
    """column labels of several levels"""

    def __init__(self, tuples):
        self.tuples = [tuple(t) for t in tuples]

    @staticmethod
    def from_tuples(tuples, names=None):
        return Multi(list(tuples))

    @staticmethod
    def from_product(iterables, names=None):
        import itertools
        return Multi(itertools.product(*iterables))

    def __iter__(self):
        return iter(self.tuples)

    def __len__(self):
        return len(self.tuples)

    def tolist(self):
        return list(self.tuples)


def side_by_side(objs, ignore_index=False, keys=None):
    """frames with the same row labels and a concrete number of columns"""
    widths = [iconst_value(o.values.dims[1]) for o in objs]
    if None in widths or any(not same_parts(o.index.names, objs[0].index.names) for o in objs[1:]):
        raise Unsupported("pd.concat of these frames")
    fs = [(o.values.rsnap(), j) for o, w in zip(objs, widths) for j in range(w)]

    def el(ix):
        r = fs[-1][0]((ix[0], icst(fs[-1][1])))
        for k in range(len(fs) - 2, -1, -1):
            r = ite(ieq(ix[1], icst(k)), fs[k][0]((ix[0], icst(fs[k][1]))), r)
        return r
    r = PFrame(Arr.fresh((objs[0].values.dims[0], icst(len(fs))), el, "f"), objs[0].index, None)
    if keys is not None and not ignore_index:
        raw = [o.columns.raw if isinstance(o.columns, Labels) else None for o in objs]
        if any(x is None for x in raw):
            raise Unsupported("pd.concat with keys")
        r.columns = Multi((k, c) for k, cs in zip(keys, raw) for c in cs)
    return r


def concat(objs, axis=0, **k):
    objs = list(objs)
    if axis == 0 and len(objs) == 1 and isinstance(objs[0], shim.Block) and isinstance(objs[0].v, DSel) and set(k) <= {"ignore_index"}:
        b = objs[0]
        return DCat(b.n, b.i, b.v, bool(k.get("ignore_index")))
    if axis == 1 and objs and k and set(k) <= {"ignore_index", "keys"} and all(isinstance(o, PFrame) for o in objs):
        return side_by_side(objs, **k)
    if axis == 1 and objs and not k and all(isinstance(o, (DF, PFrame, Joined)) for o in objs):
        return Joined(objs)
    if axis != 1 or not all(isinstance(o, PSeries) for o in objs) or k:
        raise Unsupported("pd.concat")
    for o in objs[1:]:
        if not same_parts(o.index.names, objs[0].index.names):
            raise Unsupported("pd.concat of differently labelled series")
    return PTable(objs)


class _SeriesMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, PSeries)

    def __call__(cls, data=None, index=None, name=None, dtype=None):
        if isinstance(data, list) and isinstance(index, list):
            r = PTableRow(data, index)
            return r
        return PSeries(data, index, name)


class SeriesType(object, metaclass=_SeriesMeta):
    pass


class PTableRow(Sym):
    """series of a concrete number of arbitrary objects"""

    def __init__(self, data, index):
        self.data = dict(zip(index, data))
        if len(data) != len(index):
            raise ValueError("Length of values does not match length of index")

    def __getitem__(self, k):
        return self.data[k]


class DCol(shim.Series):
    """one column of a data frame"""

    def __init__(self, frame, arr, name):
        self.frame, self.values, self.name = frame, arr, name

    @property
    def dims(self):
        return self.values.dims

    @property
    def shape(self):
        return self.values.shape

    @property
    def size(self):
        return self.values.size

    @property
    def dtype(self):
        return self.values.dtype

    def __slen__(self):
        return wint(self.values.dims[0])

    def _w(self, a):
        return DCol(self.frame, a, None)

    def unique(self):
        q = id_form(self.values)
        if q is None or q[2] != "rows":
            raise Unsupported("unique values of a column")
        x, n, _ = q
        return Arr.fresh((n,), lambda ix: app("inj:" + x, ifn("perm:" + x, [ix[0]], n)), self.values.kind)

    def nunique(self):
        return wint(self.unique().dims[0])

    def isin(self, vals):
        f = self.values.rsnap()
        if isinstance(vals, Arr):
            return self._w(Arr.fresh(self.values.dims, lambda ix: shim.member(f(ix), vals), "b"))
        ts = [treal(x) for x in list(vals)]
        return self._w(Arr.fresh(self.values.dims, lambda ix: or_(*[req(f(ix), t) for t in ts]) if ts else FALSE, "b"))

    def __eq__(self, o):
        return self._w(self.values == (o.values if isinstance(o, DCol) else o))

    def __ne__(self, o):
        return self._w(self.values != (o.values if isinstance(o, DCol) else o))
    __hash__ = None

    def __mul__(self, o):
        return self._w(self.values * (o.values if isinstance(o, DCol) else o))
    __rmul__ = __mul__

    def __add__(self, o):
        return self._w(self.values + (o.values if isinstance(o, DCol) else o))
    __radd__ = __add__

    def __invert__(self):
        return self._w(~self.values)

    def astype(self, t):
        return self._w(self.values.astype(t))

    def to_numpy(self):
        return self.values

    def isnull(self):
        return self._w(np_isnan(self.values))
    isna = isnull

    def copy(self, deep=True):
        return self._w(self.values.copy())

    def sum(self, axis=None):
        return self.values.sum()

    def all(self):
        return self.values.all()

    def any(self):
        return self.values.any()

    def max(self):
        return self.values.max()


class Cols(Sym):
    def __init__(self, names):
        self.names = names

    def __contains__(self, x):
        return x in self.names

    def __iter__(self):
        return iter(self.names)

    def tolist(self):
        return list(self.names)

    @property
    def values(self):
        return list(self.names)


class DLoc(object):
    def __init__(self, df):
        self.df = df

    def __getitem__(self, k):
        if isinstance(k, tuple):
            if len(k) == 2 and isinstance(k[1], slice) and k[1] == slice(None):
                k = k[0]
            elif len(k) == 2 and isinstance(k[1], (str, list)):
                return self.df.select(k[0])[k[1]]
            else:
                raise Unsupported("data frame .loc with columns")
        return self.df.select(k)

    def __setitem__(self, k, v):
        raise Unsupported("data frame .loc store")


class DSel(Sym):
    """the rows of a data frame (values at the time of selection) for which
    mask holds, in their order, with constant columns added"""

    def __init__(self, df, mask, added=None, fs=None):
        self.df, self.mask = df, mask
        self.fs = fs if fs is not None else OrderedDict((k, a.rsnap()) for k, a in df.cols.items())
        self.kinds = {k: a.kind for k, a in df.cols.items()}
        self.add = dict(added or {})

    def copy(self, deep=True):
        return DSel(self.df, self.mask, self.add, self.fs)

    @property
    def columns(self):
        return Cols(list(self.fs) + list(self.add))

    def __setitem__(self, k, v):
        if not isinstance(k, str) or k in self.fs or not is_scalar(v):
            raise Unsupported("store into selected rows")
        fr = ctx().loops
        self.add[k] = treal(v)

    def __getitem__(self, k):
        if self.add:
            raise Unsupported("column of extended rows")
        for c in [k] if isinstance(k, str) else k:
            if c not in self.fs:
                raise KeyError(c)
        if isinstance(k, str):
            return DSelCol(self, k)
        if isinstance(k, list):
            return DSel(self.df, self.mask, {}, OrderedDict((c, self.fs[c]) for c in k))
        raise Unsupported("selection from selected rows")

    def iterrows(self):
        return DRows(self)

    def set_index(self, k):
        if not isinstance(k, str) or k not in self.fs or self.add:
            raise Unsupported("set_index")
        return DKeyed(self, k)

    def at(self, m):
        """the selection with loop variables replaced"""
        return DSel(self.df, lambda ix: subst(self.mask(ix), m), {k: subst(t, m) for k, t in self.add.items()},
                    OrderedDict((k, (lambda ix, f=f: subst(f(ix), m))) for k, f in self.fs.items()))


class DRows(Sym):
    """the rows of a frame, one after the other"""

    def __init__(self, sel):
        self.sel = sel

    def vf_loop(self, info):
        q = self.sel

        def elem(i):
            c = q.mask((i,))
            if c.op != "true" and not ctx().decide(c):
                return shim.NOTHING
            return (Opaq(), DRow(q, i))
        return shim.par_loop(icst(0), q.df.n, info, elem)


class DRow(Sym):
    def __init__(self, sel, i):
        self.sel, self.i = sel, i

    @property
    def at(self):
        return self

    loc = at

    def __getitem__(self, k):
        if isinstance(k, SName) and isinstance(self.sel.df, WDF):
            a, j = self.sel.df.col(k.t)
            return wreal(a.rel((self.i, j)))
        if not isinstance(k, str) or self.sel.add:
            raise Unsupported("entry of a row")
        if k not in self.sel.fs:
            raise KeyError(k)
        return wreal(self.sel.fs[k]((self.i,)))


class DSelCol(Sym):
    """one column of selected rows"""

    def __init__(self, sel, k):
        self.sel, self.k = sel, k
        self.index = Opaq()

    @property
    def values(self):
        n = self.sel.df.n
        return shim.compress(Arr.fresh((n,), self.sel.fs[self.k], self.sel.kinds[self.k]), Arr.fresh((n,), self.sel.mask, "b"))


class Opaq(Sym):
    """something of which nothing is known"""


class DKeyed(Sym):
    """selected rows labelled by one of their columns"""

    def __init__(self, sel, key):
        self.sel, self.key = sel, key

    def __getitem__(self, k):
        if not isinstance(k, str):
            raise Unsupported("columns of labelled rows")
        if k == self.key or k not in self.sel.fs:
            raise KeyError(k)
        return DLookup(self.sel, self.key, k)


class DLookup(Sym):
    """series: label (column key of the selected rows) -> column k"""

    def __init__(self, sel, key, k):
        self.sel, self.key, self.k = sel, key, k

    @property
    def loc(self):
        return self

    def find(self, q):
        """value at label q, of which there is provably exactly one"""
        sel = self.sel
        i = fresh_iv(sel.df.n, "l")
        c = and_(sel.mask((i,)), req(sel.fs[self.key]((i,)), q))
        if not ctx().known(req(sum_(i, iv01(c)), ONE)):
            raise Unsupported("label not known to occur exactly once")
        return sum_(i, mul(iv01(c), sel.fs[self.k]((i,))))

    def __getitem__(self, keys):
        if isinstance(keys, DCol):
            keys = keys.values
        if not isinstance(keys, Arr) or len(keys.dims) != 1 or keys.kind == "b":
            raise Unsupported("lookup by %s" % type(keys).__name__)
        f = keys.rsnap()
        i = fresh_iv(keys.dims[0], "l")
        t = self.find(f((i,)))
        return DCol(None, Arr.fresh(keys.dims, lambda ix: subst(t, {i: ix[0]}), self.sel.kinds[self.k]), None)

    reindex = __getitem__


class DRec(Sym):
    """record array: equally long masked columns"""

    def __init__(self, names, cols):
        self.names, self.cols = names, cols


def fromarrays(arrays, names=None, **k):
    arrays = list(arrays)
    if k or not isinstance(names, (list, tuple)) or not all(isinstance(a, shim.Masked) for a in arrays):
        raise Unsupported("record array")
    if len(names) != len(arrays):
        raise ValueError("mismatch between the number of fields and the number of arrays")
    if len(set(names)) != len(names):
        raise ValueError("Duplicate field names")
    for a in arrays[1:]:
        if not a.mask_same(arrays[0].mask):
            raise Unsupported("record array of different selections")
    return DRec(list(names), arrays)


class DFlat(Sym):
    """data frame whose columns are selections x[mask] of matrices with the
    same mask (row by row)"""

    def __init__(self, cols):
        self.cols = OrderedDict(cols)

    @property
    def columns(self):
        return Cols(list(self.cols))

    @property
    def shape(self):
        m = next(iter(self.cols.values())).mask
        return (shim.asarr(m).astype(int).sum(), len(self.cols))

    def __getitem__(self, k):
        if k not in self.cols:
            raise KeyError(k)
        return self.cols[k]


class Joined(Sym):
    """frames with the same default row labels side by side"""

    def __init__(self, objs):
        self.parts = []
        for o in objs:
            self.parts += o.parts if isinstance(o, Joined) else [o]
        for o in self.parts:
            if not default_rows(o):
                raise Unsupported("pd.concat of frames with other row labels")
            if not dimeq(rows_of(o), rows_of(self.parts[0])):
                raise Unsupported("pd.concat of frames of different length")

    @property
    def shape(self):
        n = 0
        for o in self.parts:
            n = n + o.shape[1]
        return (wint(rows_of(self.parts[0])), n)

    def columns_named(self, k):
        return [o.cols[k] for o in self.parts if isinstance(o, DF) and k in o.cols]


def default_rows(o):
    return o.plain_rows if isinstance(o, (PFrame, DF)) else True


def rows_of(o):
    return o.n if isinstance(o, DF) else o.values.dims[0]


class DCat(Sym):
    """selections stacked: sel(0), sel(1), ... sel(n-1)"""

    def __init__(self, n, i, sel, ignore_index):
        self.n, self.i, self.sel, self.ignore_index = n, i, sel, ignore_index


class DF(Sym):
    """data frame with n rows and the given columns"""

    plain_rows = True       # row labels 0, 1, ..., n-1

    def __init__(self, n, cols):
        self.n = n
        self.cols = dict(cols)
        self.added = []

    @property
    def columns(self):
        return Cols(list(self.cols))

    @property
    def shape(self):
        return (wint(self.n), len(self.cols))

    def __slen__(self):
        return wint(self.n)

    @property
    def loc(self):
        return DLoc(self)

    def iterrows(self):
        return DRows(DSel(self, lambda ix: TRUE))

    def select(self, k):
        a = k.values if isinstance(k, DCol) else k
        if not isinstance(a, Arr) or a.kind != "b" or len(a.dims) != 1:
            raise Unsupported("data frame selection by %s" % type(k).__name__)
        if not dimeq(a.dims[0], self.n):
            raise IndexError("Boolean index has wrong length")
        return DSel(self, a.snapshot())

    def copy(self, deep=True):
        r = DF(self.n, OrderedDict((k, a.copy()) for k, a in self.cols.items()))
        r.plain_rows = self.plain_rows
        r.origin = self
        return r

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise KeyError(k)
            return DCol(self, self.cols[k], k)
        if isinstance(k, (Arr, DCol)):
            return self.select(k)
        if isinstance(k, list) and all(isinstance(c, str) for c in k):
            for c in k:
                if c not in self.cols:
                    raise KeyError(c)
            if len(set(k)) != len(k):
                raise Unsupported("repeated column")
            r = DF(self.n, OrderedDict((c, self.cols[c].copy()) for c in k))
            r.plain_rows = self.plain_rows
            return r
        raise Unsupported("data frame selection by %s" % type(k).__name__)

    @property
    def values(self):
        """the columns side by side"""
        fs = [a.rsnap() for a in self.cols.values()]

        def g(ix):
            c = iconst_value(ix[1])
            if c is not None:
                return fs[c]((ix[0],))
            r = fs[-1]((ix[0],))
            for q in range(len(fs) - 2, -1, -1):
                r = ite(ieq(ix[1], icst(q)), fs[q]((ix[0],)), r)
            return r
        kinds = [a.kind for a in self.cols.values()]
        return Arr.fresh((self.n, icst(len(fs))), g, "f" if "f" in kinds else "i" if "i" in kinds else "b")

    def to_numpy(self):
        return self.values

    def sum(self, axis=0):
        return self.values.sum(axis=axis)

    def drop_duplicates(self, subset=None, keep="first", **k):
        """one row per distinct id, where one column holds ids and the others
        depend on the row through its id only"""
        if subset is not None or keep != "first" or k:
            raise Unsupported("drop_duplicates")
        for a in self.cols.values():
            q = id_form(a)
            if q is None or q[2] != "rows":
                continue
            x, u, _ = q
            i, o = fresh_iv(self.n, "i"), fresh_iv(u, "o")
            m = {ifn("rk:" + x, [i], u): ifn("perm:" + x, [o], u)}
            ts = [replace_terms(b.rel((i,)), m) for b in self.cols.values()]
            if any(i in t.ivs for t in ts):
                continue
            r = DF(u, OrderedDict((c, Arr.fresh((u,), lambda ix, t=t: subst(t, {o: ix[0]}), b.kind))
                                  for (c, b), t in zip(self.cols.items(), ts)))
            r.plain_rows = False
            return r
        raise Unsupported("drop_duplicates")

    def reset_index(self, inplace=False, drop=False):
        r = self if inplace else self.copy()
        if not drop:
            if "index" in r.cols:
                raise Unsupported("reset_index twice")
            n = self.n
            old = OrderedDict(r.cols)
            was = r.plain_rows
            r.cols = OrderedDict([("index", Arr.fresh((n,), lambda ix: i2r(ix[0]) if was else app("rowlabel", ix[0]), "i"))])
            r.cols.update(old)
        r.plain_rows = True
        return None if inplace else r

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Unsupported("data frame store")
        self.added.append(k)
        a = asarr(v.values if isinstance(v, DCol) else v)
        self.cols[k] = Arr.fresh((self.n,), bcast_fn(a, (self.n,)), a.kind)

    def __contains__(self, k):
        return k in self.cols

    def keys(self):
        return list(self.cols)

    def duplicated(self, subset=None, keep="first"):
        """row i repeats the entries of an earlier row (keep='first'), a later
        row ('last') or any other row (False)"""
        names = list(self.cols) if subset is None else [subset] if isinstance(subset, str) else list(subset)
        fs = [self[k].values.rsnap() for k in names]

        def el(ix):
            j = fresh_iv(self.n, "d")
            same = [req(f((j,)), f(ix)) for f in fs]
            where = {"first": ilt(j, ix[0]), "last": ilt(ix[0], j), False: not_(ieq(j, ix[0]))}[keep]
            return exists(j, and_(where, *same))
        return DCol(self, Arr.fresh((self.n,), el, "b"), None)

    def bufs(self):
        return [a.buf for a in self.cols.values()]


def idcol(x, n, u, kind="i"):
    """column of ids: every id vector is rank -> id composed with the row's
    rank among its distinct ids; inj:x is increasing, perm:x gives the ranks
    in order of first appearance"""
    return Arr.fresh((n,), lambda ix: app("inj:" + x, ifn("rk:" + x, [ix[0]], u)), kind, tag=x)


class SMap(Sym):
    """dict from ids inj:x(j) to labels value(j), for the j < u with has(j),
    listed in some arbitrary order"""

    def __init__(self, x, u, value, has=None):
        self.x, self.u, self.value, self.has = x, u, value, has
        if has is None:
            self.n, self.nth = u, lambda k: ifn("perm:listed" + x, [k], u)
        else:
            d, sel, _ = shim.selection(Arr.fresh((u,), lambda ix: has(ix[0]), "b"))
            self.n, self.nth = d, sel

    def where(self, k):
        t = treal(k)
        if t.op == "app" and t.args[0] == "inj:" + self.x and irange_len(t.args[1][0]) is self.u:
            return t.args[1][0]
        raise Unsupported("key of a symbolic mapping")

    def holds(self, j):
        if self.has is None:
            return True
        for key, n, mask in shim.SELECT.values():
            if j.op == "ifn" and j.args[0] == "sel:" + key and mask(j) is self.has(j):
                return True
        return ctx().decide(self.has(j))

    def __contains__(self, k):
        return self.holds(self.where(k))

    def __getitem__(self, k):
        j = self.where(k)
        if not self.holds(j):
            raise KeyError(k)
        return SName(self.value(j))

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __slen__(self):
        return wint(self.n)

    def keys(self):
        return Arr.fresh((self.n,), lambda ix: app("inj:" + self.x, self.nth(ix[0])), "i")

    vf_list = keys

    def vf_loop(self, info):
        return self.keys().vf_loop(info)

    def vf_map(self, fn):
        return self.keys().vf_map(fn)

    def values(self):
        return SNames(self.n, lambda k: self.value(self.nth(k)))

    def items(self):
        return SItems(self)


class SItems(Sym):
    def __init__(self, m):
        self.m = m

    def vf_loop(self, info):
        m = self.m
        return shim.par_loop(icst(0), m.n, info, lambda i: (SIntEl(app("inj:" + m.x, m.nth(i))), SName(m.value(m.nth(i)))))

    def vf_map(self, fn):
        m = self.m
        i = fresh_iv(m.n, "n")
        return shim.mapped(m.n, i, shim.generic(i, lambda: fn((SIntEl(app("inj:" + m.x, m.nth(i))), SName(m.value(m.nth(i)))))))


class WDF(DF):
    """data frame that also has families of columns: the column labelled
    col:f(j), j < u, holds matrix f (n, u) at (., j)"""

    def __init__(self, n, cols, fams):
        DF.__init__(self, n, cols)
        self.fams = fams           # name -> Arr (n, u)

    def col(self, t):
        if t.op == "ifn" and t.args[0].startswith("col:") and t.args[0][4:] in self.fams:
            return self.fams[t.args[0][4:]], t.args[1][0]
        raise Unsupported("column label")

    @property
    def columns(self):
        raise Unsupported("column labels of a wide frame")

    @property
    def shape(self):
        return (wint(self.n), wint(iadd(icst(len(self.cols)), *[a.dims[1] for a in self.fams.values()])))

    def copy(self, deep=True):
        r = WDF(self.n, OrderedDict((k, a.copy()) for k, a in self.cols.items()), {k: a.copy() for k, a in self.fams.items()})
        r.origin = self
        return r

    def __contains__(self, k):
        raise Unsupported("column labels of a wide frame")

    def __getitem__(self, k):
        if isinstance(k, SName):
            a, j = self.col(k.t)
            f = a.rsnap()
            return DCol(self, Arr.fresh((self.n,), lambda ix: f((ix[0], j)), a.kind), None)
        if isinstance(k, SNames) or isinstance(k, list) and any(isinstance(y, (shim.Block, SName)) for y in k):
            names = SNames.of(k)
            ps = names.parts()
            if len(ps) != 1:
                raise Unsupported("several families of columns")
            n, g = ps[0]
            a = self.col(g(fresh_iv(n, "k")))[0]
            f = a.rsnap()
            r = PFrame(Arr.fresh((self.n, n), lambda ix: f((ix[0], self.col(g(ix[1]))[1])), a.kind), None, names)
            r.plain_rows = self.plain_rows
            return r
        return DF.__getitem__(self, k)

    @property
    def values(self):
        raise Unsupported("values of a wide frame")

    def bufs(self):
        return DF.bufs(self) + [a.buf for a in self.fams.values()]


class _FrameMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (PFrame, DF, DFlat, Joined))

    def from_records(cls, rec, **k):
        if k or not isinstance(rec, DRec):
            raise Unsupported("DataFrame.from_records")
        return DFlat(zip(rec.names, rec.cols))

    def __call__(cls, data=None, index=None, columns=None, dtype=None):
        if isinstance(data, dict) and index is None and data and all(isinstance(a, shim.Masked) for a in data.values()):
            r = fromarrays(list(data.values()), list(data))
            return DFlat((c, data[c]) for c in (columns or data))
        return PFrame(data, index, columns)


class FrameType(object, metaclass=_FrameMeta):
    pass


def make_pandas():
    return Mod("pandas", Series=SeriesType, DataFrame=FrameType, concat=concat, MultiIndex=Multi)
