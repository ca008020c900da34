"""Stand-ins for numpy / scipy / pandas / past ... used while the real source
of /repo is executed symbolically.  Each stand-in is an assumed contract of the
external library (listed in the evidence as trusted)."""
import builtins
import functools
import itertools
import types
import warnings
from collections import OrderedDict
from . import shim
from .shim import *
from .terms import *


class Missing(object):
    def __init__(self, name):
        self._name = name

    def __call__(self, *a, **k):
        raise Unsupported("call of %s" % self._name)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(self._name + "." + n)


class Mod(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(self.__name__ + "." + n)


# ---------------------------------------------------------------- numpy
def np_exp(x):
    return unary(exp, x, "f")


def np_log(x):
    return unary(log, x, "f")


def dims_of(shape):
    if isinstance(shape, (int, SInt, SCount)):
        shape = (shape,)
    return tuple(tint(s) for s in shape)


def const_arr(v):
    def f(shape, dtype=None, order="C"):
        k = DType.of(dtype).kind
        if k == "b":
            t = bconst(bool(v))
        else:
            t = num(v)
        return Arr.fresh(dims_of(shape), lambda ix: t, k)
    return f


def like(v):
    def f(a, dtype=None):
        a = asarr(a)
        k = DType.of(dtype).kind if dtype is not None else a.kind
        return const_arr(v)(tuple(wint(d) for d in a.dims), DType(k))
    return f


def np_full(shape, v, dtype=None):
    a = asarr(v)
    t = a.rel(())
    return Arr.fresh(dims_of(shape), lambda ix: t, a.kind)


def np_concatenate(seq, axis=0):
    items = [x.columns() if isinstance(x, Block) and axis == 1 else asarr(x) for x in seq]
    if not items:
        raise ValueError("need at least one array to concatenate")
    n = len(items[0].dims)
    if n == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    for x in items:
        if len(x.dims) != n:
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    ax = axis % n if axis < 0 else axis
    if ax >= n:
        raise ValueError("axis out of bounds")
    for x in items[1:]:
        for i in range(n):
            if i != ax and not dimeq(x.dims[i], items[0].dims[i]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    kind = kind_join(*[x.kind for x in items])
    fs = [x.snapshot() if kind == "b" else x.rsnap() for x in items]
    offs = [icst(0)]
    for x in items:
        offs.append(iadd(offs[-1], x.dims[ax]))
    dims = items[0].dims[:ax] + (offs[-1],) + items[0].dims[ax + 1:]
    cls = Mat if any(x.is_mat for x in items) else Arr

    def g(ix):
        k = ix[ax]
        out = None
        for j in range(len(fs) - 1, -1, -1):
            kk = isub(k, offs[j])
            if out is None:
                out = fs[j](ix[:ax] + (kk,) + ix[ax + 1:])
                continue
            c = ilt(k, offs[j + 1])
            c = ctx().norm().idecide(c)
            if c.op == "true":
                out = fs[j](ix[:ax] + (kk,) + ix[ax + 1:])
            elif c.op == "false":
                pass
            else:
                a = fs[j](ix[:ax] + (kk,) + ix[ax + 1:])
                out = or_(and_(c, a), and_(not_(c), out)) if kind == "b" else ite(c, a, out)
        return out
    return cls.fresh(dims, g, kind)


def np_hstack(seq):
    items = [x.columns() if isinstance(x, Block) else asarr(x) for x in seq]
    return np_concatenate(items, axis=0 if len(items[0].dims) == 1 else 1)


def np_vstack(seq):
    items = [asarr(x) for x in seq]
    items = [x[None, :] if len(x.dims) == 1 else x for x in items]
    return np_concatenate(items, axis=0)


def np_column_stack(seq):
    col = lambda x: asarr(x)[:, None] if len(asarr(x).dims) == 1 else asarr(x)
    return np_concatenate([x.vf_each(col).columns() if isinstance(x, Block) else col(x) for x in seq], axis=1)


def np_diag(a, k=0):
    a = asarr(a)
    if k != 0:
        raise Unsupported("off-diagonal")
    f = a.rsnap()
    if len(a.dims) == 1:
        return Arr.fresh((a.dims[0], a.dims[0]), lambda ix: mul(iv01(ieq(ix[0], ix[1])), f((ix[0],))), a.kind)
    if len(a.dims) == 2:
        return Arr.fresh((a.dims[0],), lambda ix: f((ix[0], ix[0])), a.kind)
    raise Unsupported("diag")


def np_outer(a, b):
    a, b = asarr(a).ravel(), asarr(b).ravel()
    f, g = a.rsnap(), b.rsnap()
    return Arr.fresh((a.dims[0], b.dims[0]), lambda ix: mul(f((ix[0],)), g((ix[1],))), kind_join(a.kind, b.kind))


def np_identity(n, dtype=None):
    d = tint(n)
    return Arr.fresh((d, d), lambda ix: iv01(ieq(ix[0], ix[1])), "f")


def np_eye(n, m=None, k=0, dtype=None):
    if m is not None or k != 0:
        raise Unsupported("eye")
    return np_identity(n)


def np_repeat(a, repeats, axis=None):
    a = asarr(a)
    r = tint(repeats) if isinstance(repeats, (int, SInt)) else None
    if r is None:
        raise Unsupported("repeat by array")
    if axis is None:
        if len(a.dims) > 1:
            raise Unsupported("repeat flat")
        axis = 0
        a = a if a.dims else a.ravel()
    ax = axis % len(a.dims)
    f = a.snapshot()
    if is_one(a.dims[ax]):
        dims = a.dims[:ax] + (r,) + a.dims[ax + 1:]
        return Arr.fresh(dims, lambda ix: f(ix[:ax] + (icst(0),) + ix[ax + 1:]), a.kind)
    raise Unsupported("repeat of a long axis")


def np_tile(a, reps):
    a = asarr(a)
    if isinstance(reps, tuple) and len(reps) == 2 and len(a.dims) == 2:
        r0, r1 = [tint(x) for x in reps]
        f = a.snapshot()
        if is_one(a.dims[0]) and iconst_value(r1) == 1:
            return Arr.fresh((r0, a.dims[1]), lambda ix: f((icst(0), ix[1])), a.kind)
        if is_one(a.dims[1]) and iconst_value(r0) == 1:
            return Arr.fresh((a.dims[0], r1), lambda ix: f((ix[0], icst(0))), a.kind)
    if len(a.dims) == 1 and isinstance(reps, (int, SInt)):
        n, r, f = a.dims[0], tint(reps), a.snapshot()

        def grid(p, q):
            if ctx().norm().idecide(ieq(q, n)).op != "true":
                raise Unsupported("tile")
            return lambda i, j: f((j,))
        return Flat(imul(r, n), grid, a.kind)
    if len(a.dims) == 1 and isinstance(reps, tuple) and len(reps) == 2 and iconst_value(tint(reps[1])) == 1:
        f = a.snapshot()
        return Arr.fresh((tint(reps[0]), a.dims[0]), lambda ix: f((ix[1],)), a.kind)
    raise Unsupported("tile")


def neginf_cond(t):
    if t.op == "log":
        return req(t.args[0], ZERO)
    if t.op == "ite":
        return or_(and_(t.args[0], neginf_cond(t.args[1])), and_(not_(t.args[0]), neginf_cond(t.args[2])))
    if t.op == "mul":
        xs = [x for x in t.args[0] if x.op != "num"]
        k = [x for x in t.args[0] if x.op == "num"]
        if len(xs) == 1 and (not k or k[0].args[0] > 0):
            return neginf_cond(xs[0])
    return FALSE


def inf_like(f):
    def g(a):
        if is_scalar(a) and not isinstance(a, Arr):
            return wbool(f(treal(a)))
        a = asarr(a)
        s = a.rsnap()
        if not a.dims:
            return wbool(f(s(())))
        return Arr.fresh(a.dims, lambda ix: f(s(ix)), "b")
    return g


np_isneginf = inf_like(neginf_cond)


def wild(what, t):
    """numbers named wild:x may be NaN or infinite; all others are finite"""
    if t.op == "app" and t.args[0].startswith("wild:"):
        return mk("bapp", what + t.args[0][5:], t.args[1])
    return FALSE


np_isposinf = inf_like(lambda t: FALSE)
np_isinf = inf_like(lambda t: or_(neginf_cond(t), wild("isinf:", t)))
np_isnan = inf_like(lambda t: wild("isnan:", t))
np_isfinite = inf_like(lambda t: not_(or_(neginf_cond(t), wild("isinf:", t), wild("isnan:", t))))


def np_where(c, *ab):
    if not ab:
        if not isinstance(c, Arr) or c.kind != "b":
            raise Unsupported("where")
        return WhereIdx(c)
    a, b = asarr(ab[0]), asarr(ab[1])
    c = asarr(c)
    dims = bcast_dims(bcast_dims(a.dims, b.dims), c.dims)
    fa, fb = bcast_fn(a, dims), bcast_fn(b, dims)
    fc = bcast_fn(c, dims, True)
    return Arr.fresh(dims, lambda ix: ite(fc(ix), fa(ix), fb(ix)), kind_join(a.kind, b.kind))


def np_clip(a, lo, hi, out=None):
    if out is not None:
        raise Unsupported("clip out")
    L = None if lo is None else treal(lo)
    H = None if hi is None else treal(hi)

    def f(x):
        if L is not None:
            x = ite(lt(x, L), L, x)
        if H is not None:
            x = ite(lt(H, x), H, x)
        return x
    return unary(f, a)


def np_maximum(a, b):
    return ewise(lambda x, y: ite(lt(x, y), y, x), a, b)


def np_minimum(a, b):
    return ewise(lambda x, y: ite(lt(y, x), y, x), a, b)


def np_asarray(x, dtype=None, order=None):
    if isinstance(x, Masked):
        return x
    if isinstance(x, Sp):
        raise Unsupported("asarray of sparse (object array)")
    if isinstance(x, Mat):
        return Arr(x.buf, x.dims, x.vmap)
    a = asarr(x)
    if dtype is not None:
        return a.astype(dtype)
    return a


def np_array(x, dtype=None, copy=True, ndmin=0):
    return np_asarray(x, dtype).copy()


def np_matrix(x, dtype=None, copy=True):
    a = asarr(x)
    if len(a.dims) == 1:
        a = a[None, :]
    return Mat.fresh(a.dims, a.snapshot(), a.kind)


def meth(name):
    def f(a, *args, **kw):
        if isinstance(a, (list, tuple)):
            a = asarr(a)
        return getattr(a, name)(*args, **kw)
    return f


def np_sum(a, axis=None):
    if isinstance(a, (list, tuple, int, float, SInt, SReal)):
        a = asarr(a)
    return a.sum(axis=axis)


def np_arange(*a):
    if len(a) == 1:
        n = tint(a[0])
        return Arr.fresh((n,), lambda ix: i2r(ix[0]), "i")
    if len(a) == 2:
        s, e = tint(a[0]), tint(a[1])
        return Arr.fresh((isub(e, s),), lambda ix: i2r(iadd(ix[0], s)), "i")
    raise Unsupported("arange")


def np_einsum(spec, *ops):
    ops = [asarr(o) if not isinstance(o, Sp) else o for o in ops]
    spec = spec.replace(" ", "")
    if "->" not in spec:
        raise Unsupported("einsum implicit")
    ins, out = spec.split("->")
    ins = ins.split(",")
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != len(o.dims):
            raise ValueError("einsum")
        for ch, d in zip(s, o.dims):
            if ch in dims:
                if not dimeq(dims[ch], d):
                    raise ValueError("einsum dims")
            dims[ch] = d
    fs = [o.rsnap() for o in ops]
    summed = [c for c in dims if c not in out]

    def el(ix):
        env = dict(zip(out, ix))

        def go(cs):
            if not cs:
                return mul(*[f(tuple(env[c] for c in s)) for f, s in zip(fs, ins)])

            def body(k):
                env[cs[0]] = k
                return go(cs[1:])
            return sum_over(dims[cs[0]], body)
        return go(summed)
    if not out:
        return wreal(el(()))
    return Arr.fresh(tuple(dims[c] for c in out), el)


class np_float(float):
    pass


class np_int(int):
    pass


class np_bool(int):
    pass


class np_integer(object):
    pass


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    """|a-b| <= atol + rtol*|b|"""
    def close(x, y):
        tol = add(num(atol), mul(num(rtol), rfn("abs", (y,)))) if rtol else num(atol)
        d = sub(x, y)
        return and_(le(d, tol), le(neg(d), tol))
    a, b = asarr(a), asarr(b)
    dims = bcast_dims(a.dims, b.dims)
    fa, fb = bcast_fn(a, dims), bcast_fn(b, dims)
    r = Arr.fresh(dims, lambda ix: close(fa(ix), fb(ix)), "b")
    return r if dims else wbool(r.cel(()))


def np_empty(shape, dtype=None, order="C"):
    """uninitialised: unknown contents"""
    nm = "uninitialised!%d" % next(_undef)
    d = dims_of(shape)
    return Arr.fresh(d, lambda ix: app(nm, *ix), "f")


_undef = itertools.count()


def np_broadcast_to(a, shape, subok=False):
    a = asarr(a)
    d = dims_of(shape)
    f = bcast_fn(a, d)
    return Arr.fresh(d, f, a.kind)


def id_form(a):
    """(name, count, kind) of a vector made of the ids of an id vector:
    'rows' - the id vector itself, 'sorted' - its distinct ids in increasing
    order, 'appearance' - its distinct ids in order of first appearance,
    'first' / 'sfirst' - rows of first occurrence in id order / in row order"""
    if not isinstance(a, Arr) or len(a.dims) != 1:
        return None
    i = fresh_iv(a.dims[0], "u")
    t = a.rel((i,))
    if t.op == "app" and t.args[0].startswith("inj:") and len(t.args[1]) == 1:
        x, k = t.args[0][4:], t.args[1][0]
        if k.op == "ifn" and k.args[0] == "rk:" + x and k.args[1][0] is i:
            return x, k.args[2], "rows"
        if k is i:
            return x, a.dims[0], "sorted"
        if k.op == "ifn" and k.args[0] == "perm:" + x and k.args[1][0] is i:
            return x, a.dims[0], "appearance"
        if k.op == "ifn" and k.args[0].startswith("pick:") and k.args[1][0] is i:
            return x, a.dims[0], "picked"
    if t.op == "i2r" and t.args[0].op == "ifn" and t.args[0].args[1] == (i,):
        p, _, x = t.args[0].args[0].partition(":")
        if p in ("first", "sfirst"):
            return x, t.args[0].args[2], p
    return None


DISTINCT = {}


def distinct(x, n, mask, of):
    """the distinct ids of the id vector x among the rows where mask holds, in
    increasing order: inj:x(pick(k)), pick increasing and onto the ranks of
    those rows"""
    i = mk("iv", "@d", of)
    key = akey_(ifn("pick", [mk("ifn", "rk:" + x, (i,), n)], n)) + "|" + akey_(iv01(mask(i)))
    if mask(i).ivs - {i}:
        raise Unsupported("selection depending on a loop variable")
    DISTINCT[key] = (x, n, mask, of)
    d = dim("distinct(%s)" % key)
    return Arr.fresh((d,), lambda ix: app("inj:" + x, ifn("pick:" + key, [ix[0]], n)), "i")


def np_unique(a, return_index=False, return_counts=False, return_inverse=False):
    if isinstance(a, Masked) and len(a.dims) == 1 and not (return_index or return_counts or return_inverse):
        q = id_form(Arr.fresh(a.dims, a.val, "i"))
        if q is not None and q[2] == "rows":
            return distinct(q[0], q[1], lambda i: a.mf((i,)), a.dims[0])
        raise Unsupported("np.unique")
    q = id_form(a)
    if q is None or return_counts or return_inverse or q[2] in ("first", "sfirst"):
        raise Unsupported("np.unique")
    x, n, kind = q
    if kind == "picked":
        if return_index:
            raise Unsupported("np.unique of distinct values")
        return a.copy()
    u = Arr.fresh((n,), lambda ix: app("inj:" + x, ix[0]), a.kind)
    if not return_index:
        return u
    if kind != "rows":
        raise Unsupported("np.unique of distinct values")
    return u, Arr.fresh((n,), lambda ix: i2r(ifn("first:" + x, [ix[0]], a.dims[0])), "i")


def np_sort(a, axis=-1):
    if isinstance(a, Series):
        a = a.values
    q = id_form(a)
    if q is None or q[2] == "rows":
        raise Unsupported("np.sort")
    x, n, kind = q
    if kind == "picked":
        return a.copy()
    if kind in ("first", "sfirst"):
        return Arr.fresh(a.dims, lambda ix: i2r(ifn("sfirst:" + x, [ix[0]], n)), "i")
    return Arr.fresh(a.dims, lambda ix: app("inj:" + x, ix[0]), a.kind)


def np_in1d(a, b):
    a, b = asarr(a), asarr(b)
    f = a.rsnap()
    return Arr.fresh(a.dims, lambda ix: member(f(ix), b), "b")


def s_zip(*a):
    if any(isinstance(x, Arr) and iconst_value(x.dims[0]) is None for x in a):
        return SymZip(a)
    if any(isinstance(x, (SList, SkipList, SymRange, SymSeq)) for x in a):
        raise Unsupported("zip of symbolic lists")
    return builtins.zip(*a)


class SymEnum(Sym):
    """enumerate(x) for a vector of symbolic length"""

    def __init__(self, x, start):
        self.x, self.start = asarr(x), tint(start)

    def vf_loop(self, info):
        return shim.par_loop(icst(0), self.x.dims[0], info, lambda i: (wint(iadd(i, self.start)), self.x.first(i)))

    def __iter__(self):
        raise Unsupported("iteration over a symbolic enumeration")


def s_enumerate(x, start=0):
    if isinstance(x, Arr) and iconst_value(x.dims[0]) is None:
        return SymEnum(x, start)
    if isinstance(x, (SList, SkipList, SymRange, SymSeq)):
        raise Unsupported("enumerate of a symbolic list")
    return builtins.enumerate(x, start)


class _DictMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, (dict, SymDict))

    def __call__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], SymZip):
            if k or len(a[0].parts) != 2:
                raise Unsupported("dict of a symbolic zip")
            x, y = [asarr(p) for p in a[0].parts]
            return SymDict(x, y)
        d = VDict()
        for q in a:
            for key, v in (q.items() if builtins.isinstance(q, dict) else q):
                d[key] = v
        for key, v in k.items():
            d[key] = v
        return d


class s_dict(object, metaclass=_DictMeta):
    pass


def np_all_(a, axis=None):
    return np_all(a, axis)


def np_any_(a, axis=None):
    return np_any(a, axis)


def np_sqrt(x):
    return unary(lambda t: pow_(t, num(Fraction(1, 2))), x, "f")


class Rng(Sym):
    """a source of random numbers: an unknown function of the seed and of the
    number of the call"""

    def __init__(self, *seed):
        ctx().rng.append(("seed", seed[0] if seed else None, self))

    def normal(self, loc=0, scale=1, size=None):
        return normals(self, size, loc, scale)

    def standard_normal(self, size=None):
        return normals(self, size)

    def randn(self, *size):
        return normals(self, size)

    def choice(self, a, size=None, replace=True, p=None):
        a = asarr(a)
        if len(a.dims) != 1 or p is not None or size is None:
            raise Unsupported("random choice")
        log = ctx().rng
        nm = "draw:%d" % sum(1 for e in log if e[0] == "choice")
        log.append(("choice", a, bool(replace), nm, self))
        f, n = a.snapshot(), a.dims[0]
        el = lambda r, c: f((ifn(nm, [r, c], n),))
        if isinstance(size, (tuple, list)):
            if len(size) != 2:
                raise Unsupported("random choice")
            return Arr.fresh(dims_of(tuple(size)), lambda ix: el(*ix), a.kind)
        return Flat(tint(size), lambda p_, q: el, a.kind)


def normals(gen, size, loc=0, scale=1):
    """normal variates: an unknown function of the seed in force and of the
    number of the call since then; the array is filled at once"""
    if size is None:
        raise Unsupported("a single random number")
    log = ctx().rng
    seed, calls = "start", 0
    for e in log:
        if e[0] == "seed" and e[2] is gen:
            s = e[1]
            seed = "fresh%d" % calls if s is None else "%s:%s" % ("g" if gen is None else "r", show(tint(s)))
            calls = 0
        elif e[0] in ("normal", "choice") and e[-1] is gen:
            calls += 1
    nm = "normal:%s:%s" % (seed, calls)
    log.append(("normal", nm, gen))
    ds = dims_of(size)
    return Arr.fresh(ds, lambda ix: add(treal(loc), mul(treal(scale), app(nm, *ix))), "f")


class Frozen(Sym):
    """a normal distribution with given mean and standard deviation"""

    def __init__(self, loc=0, scale=1):
        self.loc, self.scale = loc, scale

    def rvs(self, size=None, random_state=None):
        gen = random_state
        if gen is not None and not isinstance(gen, Rng):
            gen = Rng(gen)
        return normals(gen, size, self.loc, self.scale)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = getattr(NORMAL, n)
        return lambda *a: f(*a, loc=self.loc, scale=self.scale)


class NormalDist(Mod):
    def __call__(self, loc=0, scale=1):
        return Frozen(loc, scale)

    def rvs(self, loc=0, scale=1, size=None, random_state=None):
        return Frozen(loc, scale).rvs(size, random_state)


class NpRandom(Mod):
    """the global random numbers"""

    def normal(self, loc=0, scale=1, size=None):
        return normals(None, size, loc, scale)

    def standard_normal(self, size=None):
        return normals(None, size)

    def randn(self, *size):
        return normals(None, size)

    def seed(self, s=None):
        ctx().rng.append(("seed", s, None))

    def choice(self, *a, **k):
        return Rng.choice(None, *a, **k)


def make_numpy():
    defm = Mod("numpy.matrixlib.defmatrix", matrix=MatType)
    ml = Mod("numpy.matrixlib", defmatrix=defm)
    la = Mod("numpy.linalg", inv=lin_inv, LinAlgError=LinAlgError, norm=lin_norm)
    rnd = NpRandom("numpy.random", RandomState=Rng)
    m = Mod("numpy", ndarray=Arr, matrix=MatType, matrixlib=ml, newaxis=None, exp=np_exp, log=np_log,
            zeros=const_arr(0), ones=const_arr(1), empty=np_empty, broadcast_to=np_broadcast_to, zeros_like=like(0), ones_like=like(1), full=np_full,
            concatenate=np_concatenate, hstack=np_hstack, vstack=np_vstack, column_stack=np_column_stack,
            diag=np_diag, outer=np_outer, identity=np_identity, eye=np_eye, repeat=np_repeat, tile=np_tile,
            isposinf=np_isposinf, isneginf=np_isneginf, isinf=np_isinf, isnan=np_isnan, isfinite=np_isfinite,
            where=np_where, clip=np_clip, maximum=np_maximum, minimum=np_minimum,
            asarray=np_asarray, array=np_array, asmatrix=np_matrix, ravel=meth("ravel"), transpose=meth("transpose"),
            sum=np_sum, mean=meth("mean"), max=meth("max"), amax=meth("max"), min=meth("min"), dot=np_dot, matmul=matmul,
            multiply=lambda a, b: (b.multiply(a) if isinstance(b, Sp) else a.multiply(b) if isinstance(a, Sp) else ewise(mul, a, b)),
            add=lambda a, b: ewise(add, a, b), subtract=lambda a, b: ewise(sub, a, b),
            divide=lambda a, b: ewise(div, a, b, kind="f"), true_divide=lambda a, b: ewise(div, a, b, kind="f"),
            power=lambda a, b: ewise(pow_, a, b), square=lambda a: ewise(mul, a, a),
            sqrt=np_sqrt, abs=lambda a: abs(a), absolute=lambda a: abs(a), negative=lambda a: -a,
            all=np_all_, any=np_any_, arange=np_arange, einsum=np_einsum,
            float64=np_float, int64=np_int, bool_=np_bool, integer=np_integer, number=np_integer,
            logical_and=lambda a, b: boolop(and_, a, b), logical_or=lambda a, b: boolop(or_, a, b),
            logical_not=lambda a: ~a,
            greater=lambda a, b: a > b, less=lambda a, b: a < b, equal=lambda a, b: a == b,
            inner=lambda a, b: np_dot(a, b), copy=lambda a: a.copy(),
            log1p=lambda a: np_log1p(a), expm1=lambda a: np_expm1(a),
            unique=np_unique, sort=np_sort, in1d=np_in1d, isin=np_in1d, linalg=la, random=rnd, pi=3.141592653589793,
            inf=float("inf"), nan=float("nan"), expand_dims=lambda a, axis: expand_dims(a, axis),
            seterr=lambda **k: {}, errstate=lambda **k: NullCtx(), squeeze=meth("squeeze"), sign=np_sign, isclose=np_isclose,
            finfo=np_finfo, newaxis_=None)
    return m


def np_finfo(dtype=None):
    import sys
    if dtype not in (None, float, s_float, np_float, "float", "float64", "f8"):
        raise Unsupported("finfo of %r" % (dtype,))
    i = sys.float_info
    return Mod("numpy.finfo", eps=i.epsilon, max=i.max, min=-i.max, tiny=i.min, smallest_normal=i.min)


def np_log1p(a):
    return unary(lambda t: log(add(ONE, t)), a, "f")


def np_expm1(a):
    return unary(lambda t: sub(exp(t), ONE), a, "f")


def np_sign(a):
    return unary(lambda t: sub(iv01(lt(ZERO, t)), iv01(lt(t, ZERO))), a)


class NullCtx(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def expand_dims(a, axis):
    a = asarr(a)
    n = len(a.dims) + 1
    ax = axis % n
    return a[tuple([slice(None)] * ax + [None])]


class LinAlgError(Exception):
    pass


def lin_inv(a):
    """abstract inverse: a function symbol of the matrix; the matrix must be
    (a constant multiple of) a named one, possibly transposed"""
    a = asarr(a)
    if len(a.dims) != 2 or not dimeq(a.dims[0], a.dims[1]):
        raise LinAlgError("square")
    i, j = fresh_iv(a.dims[0], "i"), fresh_iv(a.dims[1], "j")
    t = a.rel((i, j))
    c = num(1)
    if t.op == "mul" and len(t.args[0]) == 2 and any(x.op == "num" for x in t.args[0]):
        c = [x for x in t.args[0] if x.op == "num"][0]
        t = [x for x in t.args[0] if x is not c][0]
    if t.op != "app" or set(t.args[1]) != {i, j}:
        raise Unsupported("inverse of an unnamed matrix")
    nm, tr = t.args[0], t.args[1] == (j, i)
    if nm.startswith("inv:"):
        raise Unsupported("inverse of an inverse")
    return Arr.fresh(a.dims, lambda ix: div(app("inv:" + nm, *(ix[::-1] if tr else ix)), c), "f")


def lin_norm(a, ord=None):
    """Euclidean norm of a vector"""
    a = asarr(a)
    if len(a.dims) != 1 or ord not in (None, 2):
        raise Unsupported("norm")
    return np_sqrt((a * a).sum())


class _MatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, Mat)

    def __call__(cls, x, dtype=None, copy=True):
        return np_matrix(x, dtype, copy)


class MatType(object, metaclass=_MatMeta):
    pass


# ---------------------------------------------------------------- scipy
def sp_hstack(blocks, format=None, dtype=None):
    bs = []
    for b in blocks:
        bs.append(b if isinstance(b, Sp) else Sp(asarr(b).dims, asarr(b).rsnap()))
    d = np_concatenate([b.toarray() for b in bs], axis=1)
    return Sp(d.dims, d.rsnap(), "f", format or "coo")


def sp_diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if isinstance(diagonals, (list, tuple)):
        if len(diagonals) != 1:
            raise Unsupported("several diagonals")
        diagonals = diagonals[0]
    if isinstance(offsets, (list, tuple)):
        offsets = offsets[0]
    a = asarr(diagonals)
    if offsets != 0 or len(a.dims) != 1:
        raise Unsupported("diags")
    f = a.rsnap()
    d = a.dims[0]
    return Sp((d, d), lambda ix: mul(iv01(ieq(ix[0], ix[1])), f((ix[0],))), "f", format or "dia", col=lambda i: i)


def is_at(t, j):
    """condition: the number t equals the index j"""
    return ieq(t.args[0], j) if t.op == "i2r" else req(t, i2r(j))


def with_mask(m, c):
    """m and c; an existence mask implied by c is dropped"""
    if m.op == "not" and m.args[0].op == "forall":
        v, body = m.args[0].args
        x = c
        if body.op == "not":
            for s in [q for q in subterms(c, lambda t: t.op == "iv" and t.args[1] is v.args[1])] + [None]:
                if s is not None and subst(body.args[0], {v: s}) is x:
                    return c
    return and_(m, c)


def csr_coo(data, rows, cols, dims):
    """sum over the listed entries"""
    parts = [data, rows, cols]
    ms = [p for p in parts if isinstance(p, Masked)]
    if ms:
        m = ms[0]
        if any(not m.mask_same(p.mask) for p in ms[1:]):
            raise Unsupported("entries with different masks")
        n, mask = m.dims[0], (lambda i: m.mf((i,)))
        cnt = count_dim(m.mask)
    else:
        arrs = [asarr(p) for p in parts]
        n, mask, cnt = arrs[1].dims[0], (lambda i: TRUE), None
    fs = []
    for p in parts:
        if isinstance(p, Masked):
            fs.append(lambda i, p=p: p.val((i,)))
            continue
        a = asarr(p)
        f = a.rsnap()
        if ms:
            k = fresh_iv(a.dims[0], "e")
            t = f((k,))
            if k in t.ivs or not dimeq(a.dims[0], cnt):
                raise Unsupported("entries of different length")
            fs.append(lambda i, t=t: t)
        else:
            if not dimeq(a.dims[0], n):
                raise ValueError("row, column, and data array must all be the same length")
            fs.append(lambda i, f=f: f((i,)))

    def el(ix):
        i = fresh_iv(n, "e")
        r = fs[1](i)
        if r.op == "i2r" and r.args[0] is i and dimeq(n, dims[0]):
            i = ix[0]
            return mul(fs[0](i), iv01(with_mask(mask(i), is_at(fs[2](i), ix[1]))))
        return sum_(i, mul(fs[0](i), iv01(and_(mask(i), is_at(r, ix[0]), is_at(fs[2](i), ix[1])))))
    return Sp(dims, el, "f" if isinstance(data, Masked) else asarr(data).kind)


class _CsrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, Sp)

    def __call__(cls, arg, shape=None, dtype=None):
        if isinstance(arg, Sp):
            return arg.tocsr()
        if isinstance(arg, Arr):
            a = arg if len(arg.dims) == 2 else arg[None, :]
            return Sp(a.dims, a.rsnap(), a.kind)
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple) and shape is not None:
            return csr_coo(arg[0], arg[1][0], arg[1][1], dims_of(shape))
        raise Unsupported("csr_matrix constructor")


class CsrType(object, metaclass=_CsrMeta):
    pass


def std(x, loc, scale):
    return unary(lambda t: div(sub(t, treal(loc)), treal(scale)), x, "f")


HALF = num(Fraction(1, 2))
NORMAL = NormalDist("scipy.stats.norm",
             cdf=lambda x, loc=0, scale=1: unary(lambda t: add(HALF, rfn("nodd", (t,))), std(x, loc, scale), "f"),
             sf=lambda x, loc=0, scale=1: unary(lambda t: sub(HALF, rfn("nodd", (t,))), std(x, loc, scale), "f"),
             ppf=lambda q, loc=0, scale=1: unary(lambda t: add(treal(loc), mul(treal(scale), rfn("podd", (sub(t, HALF),)))), q, "f"),
             isf=lambda q, loc=0, scale=1: unary(lambda t: add(treal(loc), mul(treal(scale), rfn("podd", (sub(HALF, t),)))), q, "f"))


def make_scipy():
    sparse = Mod("scipy.sparse", isspmatrix_csr=lambda x: isinstance(x, Sp) and x.fmt == "csr", hstack=sp_hstack, issparse=lambda x: isinstance(x, Sp), isspmatrix=lambda x: isinstance(x, Sp),
                 diags=sp_diags, csr_matrix=CsrType, csc_matrix=CsrType, eye=lambda n, format=None: sp_diags(const_arr(1)(n), 0, format=format))
    linalg = Mod("scipy.linalg", inv=lin_inv, LinAlgError=LinAlgError)
    stats = Mod("scipy.stats", norm=NORMAL)
    optimize = Mod("scipy.optimize")
    sp = Mod("scipy", sparse=sparse, linalg=linalg, stats=stats, optimize=optimize)
    return {"scipy": sp, "scipy.sparse": sparse, "scipy.linalg": linalg, "scipy.stats": stats, "scipy.optimize": optimize}


# ---------------------------------------------------------------- builtins
class s_range(object):
    """range over possibly symbolic bounds; .remove as in past.builtins"""
    def __new__(cls, *a):
        if all(isinstance(x, int) and not isinstance(x, SInt) for x in a):
            return list(builtins.range(*a))
        if len(a) == 2 and isinstance(a[0], int) and a[0] == 0:
            a = (a[1],)
        if len(a) == 2:
            return SymRange(tint(a[0]), tint(a[1]))
        if len(a) != 1:
            raise Unsupported("range with symbolic bounds")
        return SkipList(tint(a[0]))


class _ListMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, (list, SkipList, SList))

    def __call__(cls, x=()):
        if isinstance(x, SkipList):
            return x.copy()
        if isinstance(x, SList):
            return x.copy() if hasattr(x, "copy") else x
        if isinstance(x, Arr):
            return x.tolist()
        h = getattr(x, "vf_list", None)
        if h is not None:
            return h()
        return builtins.list(x)


class s_list(object, metaclass=_ListMeta):
    pass


class SSet(Sym):
    """set of labels of symbolic number; the labels are pairwise distinct"""

    def __init__(self, n):
        self.n = n

    def __slen__(self):
        return wint(self.n)


class _SetMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, (builtins.set, SSet))

    def __call__(cls, x=()):
        from . import pdshim
        if isinstance(x, pdshim.SNames) or isinstance(x, builtins.list) and any(isinstance(y, (Block, pdshim.SName)) for y in x):
            return SSet(pdshim.SNames.of(x).length)
        return builtins.set(x)


class s_set(object, metaclass=_SetMeta):
    pass


def s_len(x):
    if isinstance(x, SkipList):
        return wint(x.slen)
    if isinstance(x, SList):
        return wint(x.length)
    if isinstance(x, Arr):
        return wint(x.slen_())
    f = getattr(x, "__slen__", None)
    if f is not None:
        return f()
    if type(x) is builtins.list:
        return shim.blocklen(x)
    return builtins.len(x)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, (float, SReal))

    def __call__(cls, x=0.0):
        if isinstance(x, (SInt, SReal, SBool)):
            return wreal(treal(x))
        return builtins.float(x)


class s_float(object, metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, (int, SInt, shim.SIntVal))

    def __call__(cls, x=0, *a):
        if isinstance(x, (SInt, shim.SIntVal)):
            return x
        if isinstance(x, shim.SIntEl):
            return shim.SIntVal(x.t)
        if isinstance(x, SReal):
            if x.t.op == "i2r":
                return wint(x.t.args[0])
            raise Unsupported("int() of a symbolic real")
        return builtins.int(x, *a)


class s_int(object, metaclass=_IntMeta):
    pass


def s_isinstance(o, t):
    if t is builtins.float:
        t = s_float
    if t is builtins.int:
        t = s_int
    if t is builtins.list:
        t = s_list
    if t is builtins.dict:
        t = s_dict
    if t is builtins.set:
        t = s_set
    if builtins.isinstance(t, tuple):
        return any(s_isinstance(o, x) for x in t)
    if t is np_integer:
        return builtins.isinstance(o, (int, SInt, shim.SIntVal)) and not builtins.isinstance(o, bool)
    if builtins.isinstance(t, Missing):
        return False
    return builtins.isinstance(o, t)


def s_all(xs):
    if isinstance(xs, Arr):
        return np_all(xs)
    for x in xs:
        if not x:
            return False
    return True


def s_any(xs):
    if isinstance(xs, Arr):
        return np_any(xs)
    for x in xs:
        if x:
            return True
    return False


def s_sum(xs, start=0):
    if isinstance(xs, Arr):
        return xs.sum(axis=0)
    r = start
    for x in xs:
        r = r + x
    return r


def s_abs(x):
    return abs(x)


def s_max(*a, **k):
    if len(a) == 1 and isinstance(a[0], Arr):
        return a[0].max()
    if any(isinstance(x, (SReal, SInt)) for x in a):
        r = a[0]
        for x in a[1:]:
            r = x if bool(x > r) else r
        return r
    return builtins.max(*a, **k)


def s_min(*a, **k):
    if len(a) == 1 and isinstance(a[0], Arr):
        return a[0].min()
    if any(isinstance(x, (SReal, SInt)) for x in a):
        r = a[0]
        for x in a[1:]:
            r = x if bool(x < r) else r
        return r
    return builtins.min(*a, **k)


def make_builtins(importer):
    d = dict(vars(builtins))
    d.update(range=s_range, list=s_list, set=s_set, len=s_len, float=s_float, int=s_int, isinstance=s_isinstance,
             all=s_all, any=s_any, zip=s_zip, enumerate=s_enumerate, dict=s_dict, sum=s_sum, max=s_max, min=s_min, __import__=importer, print=lambda *a, **k: None)
    return d
