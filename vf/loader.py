"""Load the real modules of /repo against the symbolic stand-ins.

The source text is read from the working tree on every run and compiled
unmodified except for rewritings that keep the meaning and let an iterable
of symbolic length apply its own rule:
  * list/dict comprehensions and generator expressions with one generator become
    calls (`__vf_comp__`, `__vf_compif__`, `__vf_dictcomp__`);
  * `for x in it` iterates over `__vf_loop__(it, ...)`, which is `it` itself for a
    Python sequence and one symbolic iteration for an iterable of symbolic length;
    the syntax tree is checked for values carried between iterations, and a loop
    that carries one is out of reach unless it is a counter;
  * a counter (`v += constant`, the only assignment to v in the loop) is replaced
    at the top of iteration k by its closed form v0 + constant*k;
  * a branch on the data of a symbolic iteration runs the body once for each
    outcome, what is stored or appended being put together by cases;
  * dictionary displays, `x = []` and `.extend` become calls, so that keys, the
    number of elements and the extension may be symbolic.
Nothing is dropped from function bodies."""
import ast
import builtins
import hashlib
import os
import re
import sys
import traceback
import types
from .fake import *
from .pdshim import make_pandas, fromarrays
from . import fake, shim

SRC = os.environ.get("VF_SRC", "/repo/src/pylogit")


DIGESTS = {}


def keeps(x):
    """what a function, class or container of a module holds between calls"""
    if isinstance(x, dict):
        return ("dict", tuple((k if isinstance(k, (str, int, float)) else id(k), id(v)) for k, v in x.items()))
    if isinstance(x, (list, set)):
        return (type(x).__name__, tuple(id(v) for v in x))
    if isinstance(x, types.FunctionType):
        return ("fn", keeps(x.__dict__), tuple(keeps(v) for v in (x.__defaults__ or ())), tuple(keeps(v) for v in (x.__kwdefaults__ or {}).values()),
                tuple(keeps(q.cell_contents) for q in (x.__closure__ or ()) if isinstance(cell(q), (dict, list, set))))
    if isinstance(x, types.ModuleType):
        return None
    if hasattr(type(x), "cache_info"):
        return ("cache", x.cache_info()[3])
    if isinstance(x, Arr):
        return ("array", x.buf.version if hasattr(x.buf, "version") else None)
    return None


def cell(q):
    try:
        return q.cell_contents
    except ValueError:
        return None


def state(mod):
    d = {}
    for n, x in vars(mod).items():
        if n.startswith("__"):
            continue
        k = keeps(x)
        if k is not None:
            d[n] = (id(x), k)
        if isinstance(x, type) and x.__module__ == mod.__name__:
            for a, y in vars(x).items():
                if a.startswith("__") and a.endswith("__") and not isinstance(y, types.FunctionType):
                    continue
                y = y.__func__ if isinstance(y, (staticmethod, classmethod)) else y
                k = keeps(y)
                if k is not None:
                    d[n + "." + a] = (id(y), k)
    return d


def noted(self, name, value):
    World.sets.add(name)
    object.__setattr__(self, name, value)


class World(object):
    """one set of freshly loaded modules"""

    sets = set()          # names of attributes stored on objects

    live = []

    def remembers(self):
        """names of what the modules' code changed since they were loaded: state
        kept between calls, of which the contract of one call says nothing"""
        out = []
        for n, before in self.before.items():
            now = state(self.mods[n])
            for k, (i, v) in before.items():
                if k in now and now[k][0] == i and now[k][1] != v:
                    out.append("%s.%s" % (n, k))
            if n in self.globals_:
                out.append("%s: global statement" % n)
        return out

    def __init__(self, src=None, extra=None):
        self.src = src or SRC
        self.mods = {}
        self.before, self.globals_ = {}, set()
        World.live.append(self)
        self.np = make_numpy()
        self.ext = {"numpy": self.np}
        self.ext.update(make_scipy())
        self.ext["pandas"] = make_pandas()
        self.np.rec = Mod("numpy.rec", fromarrays=fromarrays)
        self.ext["tqdm"] = Mod("tqdm", tqdm=lambda x, **k: x, tqdm_notebook=lambda x, **k: x)
        past = Mod("past.builtins", range=s_range, xrange=s_range, basestring=str)
        self.ext["past"] = Mod("past", builtins=past)
        self.ext["past.builtins"] = past
        self.ext["statsmodels"] = Mod("statsmodels")
        self.ext["future.utils"] = Mod("future.utils", viewitems=lambda d: d.items())
        self.ext["future"] = Mod("future", utils=self.ext["future.utils"])
        if extra:
            self.ext.update(extra)
        self.builtins = make_builtins(self._import)
        self.digests = {}

    STD = ("__future__", "functools", "itertools", "collections", "copy", "warnings", "time", "sys", "os", "numbers",
           "datetime", "pickle", "math", "operator", "types", "re", "abc", "typing", "string", "textwrap", "contextlib", "logging")

    def _import(self, name, globs=None, locs=None, fromlist=(), level=0):
        if level:
            if name:
                m = self.load(name)
                return m
            pkg = Mod("pylogit")
            for n in fromlist or ():
                setattr(pkg, n, self.load(n))
            return pkg
        if name == "pylogit" or name.startswith("pylogit."):
            return self.load(name.split(".", 1)[1])
        if name in self.ext:
            if fromlist:
                return self.ext[name]
            return self.ext[name.split(".")[0]]
        top = name.split(".")[0]
        if top in self.ext:
            return self.ext[top] if not fromlist else self.ext.setdefault(name, Mod(name))
        if top in self.STD:
            if top == "collections":
                real = builtins.__import__(name, None, None, fromlist, 0)
                import collections.abc as cabc
                m = Mod("collections")
                m.__dict__.update({k: v for k, v in vars(real).items()})
                for k in ("Iterable", "Mapping", "Sequence"):
                    m.__dict__.setdefault(k, getattr(cabc, k))
                return m
            if name == "copy":
                return Mod("copy", copy=sym_copy, deepcopy=sym_deepcopy)
            if name == "warnings":
                return Mod("warnings", warn=lambda *a, **k: None, filterwarnings=lambda *a, **k: None,
                           simplefilter=lambda *a, **k: None)
            return builtins.__import__(name, None, None, fromlist, 0)
        raise ImportError(name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.src, name.replace(".", "/") + ".py")
        if not os.path.exists(path):
            raise ImportError("no module %s" % name)
        text = open(path).read()
        DIGESTS[name] = self.digests[name] = hashlib.sha256(text.encode()).hexdigest()[:16]
        tree = ast.parse(text, path)
        tree = Loops().run(tree)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType("pylogit." + name)
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__package__"] = "pylogit"
        m.__dict__["__file__"] = path
        m.__dict__["__vf_comp__"] = comp
        m.__dict__["__vf_compif__"] = compif
        m.__dict__["__vf_loop__"] = loop
        m.__dict__["__vf_list__"] = shim.VList
        m.__dict__["__vf_dict__"] = mkdict
        m.__dict__["__vf_dictcomp__"] = dictcomp
        m.__dict__["__vf_extend__"] = extend
        m.__dict__["__vf_number__"] = number
        m.__dict__["__vf_enum__"] = self.builtins["enumerate"]
        self.mods[name] = m
        exec(compile(tree, path, "exec", dont_inherit=True), m.__dict__)
        for x in list(vars(m).values()):
            if isinstance(x, type) and x.__module__ == m.__name__ and not issubclass(x, BaseException) and "__setattr__" not in vars(x):
                x.__setattr__ = noted
        self.before[name] = state(m)
        if any(isinstance(x, ast.Global) for x in ast.walk(tree)):
            self.globals_.add(name)
        return m


def sym_copy(x):
    if isinstance(x, (Arr, Sp)):
        return x.copy()
    import copy
    return copy.copy(x)


def sym_deepcopy(x):
    if isinstance(x, (Arr, Sp)):
        return x.copy()
    if isinstance(x, (SInt, SReal, SBool)):
        return x
    if hasattr(type(x), "copy") and isinstance(x, SList):
        return x.copy()
    if isinstance(x, dict):
        return type(x)((k, sym_deepcopy(v)) for k, v in x.items())
    if isinstance(x, list):
        return [sym_deepcopy(v) for v in x]
    if isinstance(x, tuple):
        return tuple(sym_deepcopy(v) for v in x)
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    raise Unsupported("deepcopy of %s" % type(x).__name__)


def comp(it, fn):
    """[fn(x) for x in it]"""
    h = getattr(type(it), "vf_map", None) if isinstance(it, Sym) else None
    if h is not None:
        return h(it, fn)
    if isinstance(it, Sym) and hasattr(type(it), "vf_loop"):
        return comploop(it, None, fn)
    return [x.vf_each(fn) if isinstance(x, Block) else fn(x) for x in it]


def comploop(it, cond, fn):
    """out = []; for x in it: (if cond(x):) out.append(fn(x))"""
    out = shim.VList()
    for x in loop(it, None, (lambda: out,)):
        if cond is None or cond(x):
            out.append(fn(x))
    return out


def compif(it, cond, fn):
    """[fn(x) for x in it if cond(x)]"""
    h = getattr(type(it), "vf_filter", None) if isinstance(it, Sym) else None
    if h is not None:
        return comp(h(it, cond), fn)
    if isinstance(it, Sym) and hasattr(type(it), "vf_loop"):
        return comploop(it, cond, fn)
    return [fn(x) for x in it if cond(x)]


def loop(it, why, apps, *bases):
    """the iterable of a for statement"""
    h = getattr(type(it), "vf_loop", None) if isinstance(it, (Sym, VDict)) else None
    if h is not None:
        return h(it, (why, apps, bases))
    return it


def mkdict(items):
    d = VDict()
    for k, v in items:
        d[k] = v
    return d


def number(v):
    """the start value of a loop counter: immutable, so its closed form is sound"""
    if not isinstance(v, (int, float, SInt, SReal)):
        raise Unsupported("loop counter that is not a number")
    return v


extend = shim.extend


def dictcomp(it, fn):
    """{k: v for x in it}, fn(x) = (k, v)"""
    d = VDict()
    for x in loop(it, None, (), lambda: d):
        k, v = fn(x)
        d[k] = v
    return d


MUTATORS = ("append", "extend", "insert", "pop", "remove", "update", "add", "setdefault", "sort", "clear", "popitem", "reverse", "discard")


def loads(node):
    return [x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)]


def stores(node):
    return [x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))]


def flow(stmts, sure, watch, hits):
    """names definitely assigned after stmts; loads of watched names that may
    happen before the assignment go to hits"""
    sure = set(sure)
    for s in stmts:
        if isinstance(s, ast.If):
            hits.update(n for n in loads(s.test) if n in watch and n not in sure)
            a = flow(s.body, sure, watch, hits)
            b = flow(s.orelse, sure, watch, hits)
            sure = a & b
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                hits.update(n for n in loads(s.iter) if n in watch and n not in sure)
                inner = sure | set(stores(s.target))
            else:
                hits.update(n for n in loads(s.test) if n in watch and n not in sure)
                inner = sure
            flow(s.body, inner, watch, hits)
            flow(s.orelse, sure, watch, hits)
        elif isinstance(s, ast.With):
            for it in s.items:
                hits.update(n for n in loads(it.context_expr) if n in watch and n not in sure)
                if it.optional_vars is not None:
                    sure |= set(stores(it.optional_vars))
            sure = flow(s.body, sure, watch, hits)
        elif isinstance(s, ast.Try):
            flow(s.body, sure, watch, hits)
            for h in s.handlers:
                flow(h.body, sure, watch, hits)
            flow(s.orelse, sure, watch, hits)
            flow(s.finalbody, sure, watch, hits)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            hits.update(n for n in loads(s) if n in watch and n not in sure)
            sure.add(s.name)
        else:
            inner = [x for x in ast.walk(s) if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp))]
            bound = set()
            for x in inner:
                for g in x.generators:
                    bound |= set(stores(g.target))
            hits.update(n for n in loads(s) if n in watch and n not in sure and n not in bound)
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in watch and s.target.id not in sure:
                hits.add(s.target.id)
            sure |= set(stores(s)) - bound
    return sure


class Loops(object):
    """for statements: iterables of symbolic length get the loop rule; here
    the syntax tree is checked for values carried between iterations"""

    def run(self, tree):
        for fn in ast.walk(tree):
            if isinstance(fn, (ast.FunctionDef, ast.Module)):
                self.block(fn.body, [], [])
        ast.fix_missing_locations(tree)
        return tree

    def counters(self, s):
        """names whose only assignment in the loop is one unconditional
        `v += constant`: their value in iteration k is v0 + constant*k"""
        if s.orelse or any(isinstance(x, (ast.Continue, ast.Break, ast.Return, ast.Try)) for b in s.body for x in ast.walk(b)):
            return {}
        out = {}
        every = stores(s.target) + [n for b in s.body for n in stores(b)]
        for b in s.body:
            v = c = None
            if isinstance(b, ast.AugAssign) and isinstance(b.op, ast.Add) and isinstance(b.target, ast.Name):
                v, c = b.target.id, b.value
            elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and \
                    isinstance(b.value, ast.BinOp) and isinstance(b.value.op, ast.Add):
                v = b.targets[0].id
                l, r = b.value.left, b.value.right
                c = r if isinstance(l, ast.Name) and l.id == v else l if isinstance(r, ast.Name) and r.id == v else None
            if isinstance(c, ast.Constant) and type(c.value) is int and every.count(v) == 1:
                out[v] = c.value
        return out

    def induct(self, stmts):
        """rewrite loops with a counter to enumerate() form"""
        new = []
        for s in stmts:
            cs = self.counters(s) if isinstance(s, ast.For) else {}
            if cs:
                self.n = getattr(self, "n", 0) + 1
                k = "__vf_k%d" % self.n
                name = lambda i, ctx: ast.Name(id=i, ctx=ctx)
                pre = []
                for v, c in sorted(cs.items()):
                    v0 = "__vf_%s%d" % (v, self.n)
                    new.append(ast.copy_location(ast.Assign(targets=[name(v0, ast.Store())], value=ast.Call(
                        func=name("__vf_number__", ast.Load()), args=[name(v, ast.Load())], keywords=[])), s))
                    prod = ast.BinOp(left=name(k, ast.Load()), op=ast.Mult(), right=ast.Constant(value=c))
                    pre.append(ast.copy_location(ast.Assign(targets=[name(v, ast.Store())], value=ast.BinOp(
                        left=name(v0, ast.Load()), op=ast.Add(), right=prod)), s))
                s.target = ast.copy_location(ast.Tuple(elts=[name(k, ast.Store()), s.target], ctx=ast.Store()), s)
                s.iter = ast.copy_location(ast.Call(func=name("__vf_enum__", ast.Load()), args=[s.iter], keywords=[]), s.iter)
                s.body = pre + s.body
            new.append(s)
        stmts[:] = new

    def block(self, stmts, after, outer):
        self.induct(stmts)
        ast.fix_missing_locations(ast.Module(body=stmts, type_ignores=[]))
        for k, s in enumerate(stmts):
            rest = [stmts[k + 1:]] + after
            if isinstance(s, ast.For):
                why, apps, bases = self.check(s, rest, outer)

                def lam(b):
                    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                      body=ast.Name(id=b, ctx=ast.Load()))
                s.iter = ast.copy_location(ast.Call(func=ast.Name(id="__vf_loop__", ctx=ast.Load()),
                                                    args=[s.iter, ast.Constant(value=why), ast.Tuple(elts=[lam(b) for b in apps], ctx=ast.Load())] + [lam(b) for b in bases],
                                                    keywords=[]), s.iter)
            if isinstance(s, (ast.For, ast.While)):
                self.block(s.body, rest, outer + [s])
                self.block(s.orelse, rest, outer)
            elif isinstance(s, ast.If):
                self.block(s.body, rest, outer)
                self.block(s.orelse, rest, outer)
            elif isinstance(s, ast.With):
                self.block(s.body, rest, outer)
            elif isinstance(s, ast.Try):
                for b in [s.body, s.orelse, s.finalbody] + [h.body for h in s.handlers]:
                    self.block(b, rest, outer)

    def check(self, s, after, outer):
        comp_bound = set()
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for g in x.generators:
                        comp_bound |= set(stores(g.target))
        mine = set(stores(s.target))
        st = set(mine)
        for b in s.body:
            st |= set(stores(b))
        why = None
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)):
                    why = "leaves the loop early"
        if s.orelse:
            why = "else clause"
        hits = set()
        sure = flow(s.body, mine, st, hits)
        if hits:
            why = "carried from one iteration to the next: %s" % ", ".join(sorted(hits))
        late = set()
        known = set()
        for blk in after:
            known = flow(blk, known, st - comp_bound | mine, late)
        if late:
            why = "used after the loop: %s" % ", ".join(sorted(late))
        for o in outer:
            for b in o.body:
                if b.lineno < s.lineno and (set(loads(b)) & st) - set(stores(b)):
                    why = "used in the enclosing loop"
        bases = []
        apps = []
        nuse, napp = {}, {}
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    nuse[x.id] = nuse.get(x.id, 0) + 1
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append" and isinstance(x.func.value, ast.Name):
                    napp[x.func.value.id] = napp.get(x.func.value.id, 0) + 1
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    base = x.func.value
                    if x.func.attr == "append" and isinstance(base, ast.Name) and base.id not in st and nuse[base.id] == napp[base.id]:
                        if base.id not in apps:
                            apps.append(base.id)
                    elif not (isinstance(base, ast.Name) and base.id in sure and base.id not in hits):
                        why = "modifies a container: .%s" % x.func.attr
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    base = x.value
                    if not (isinstance(base, ast.Name) and base.id in sure):
                        why = "sets an attribute"
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    base = x.value
                    if isinstance(base, ast.Name):
                        if base.id not in st and base.id not in bases:
                            bases.append(base.id)
                    else:
                        why = "stores into a container"
        return why, apps, bases


class Rewriter(ast.NodeTransformer):
    """[e for x in it] with a single generator and no condition; dictionary
    displays, so that symbolic keys are possible; lists started as []"""

    def visit_Assign(self, node):
        self.generic_visit(node)
        if isinstance(node.value, ast.List) and not node.value.elts and all(isinstance(t, ast.Name) for t in node.targets):
            node.value = ast.copy_location(ast.Call(func=ast.Name(id="__vf_list__", ctx=ast.Load()), args=[], keywords=[]), node.value)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            return node
        pairs = [ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.copy_location(ast.Call(func=ast.Name(id="__vf_dict__", ctx=ast.Load()), args=[ast.List(elts=pairs, ctx=ast.Load())], keywords=[]), node)

    def binder(self, g, body):
        """lambda x: body, for the target of a comprehension"""
        if g.is_async:
            return None

        def lam(names, body):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
        if isinstance(g.target, ast.Name):
            return lam([g.target.id], body)
        if isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts):
            call = ast.Call(func=lam([x.id for x in g.target.elts], body),
                            args=[ast.Starred(value=ast.Name(id="__vf_x", ctx=ast.Load()), ctx=ast.Load())], keywords=[])
            return lam(["__vf_x"], call)
        return None

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "extend" and len(node.args) == 1 and not node.keywords and \
                not isinstance(node.args[0], ast.Starred):
            return ast.copy_location(ast.Call(func=ast.Name(id="__vf_extend__", ctx=ast.Load()), args=[f.value, node.args[0]], keywords=[]), node)
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if len(node.generators) != 1:
            return node
        g = node.generators[0]
        if g.ifs:
            return node
        lam = self.binder(g, ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()))
        if lam is None:
            return node
        return ast.copy_location(ast.Call(func=ast.Name(id="__vf_dictcomp__", ctx=ast.Load()), args=[g.iter, lam], keywords=[]), node)

    def visit_GeneratorExp(self, node):
        return self.visit_ListComp(node)

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) != 1:
            return node
        g = node.generators[0]
        lam = self.binder(g, node.elt)
        if lam is None:
            return node
        if g.ifs:
            test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
            return ast.copy_location(ast.Call(func=ast.Name(id="__vf_compif__", ctx=ast.Load()), args=[g.iter, self.binder(g, test), lam], keywords=[]), node)
        return ast.copy_location(ast.Call(func=ast.Name(id="__vf_comp__", ctx=ast.Load()), args=[g.iter, lam], keywords=[]), node)


SHIM_DIR = os.path.dirname(os.path.abspath(__file__))
SHIM_NAMES = re.compile(r"\b(SInt|SReal|SBool|Arr|Sp|Mat|Missing|Mod|Sym|SList|SStr|SRange)\b|'(T|Facts)'")


def shim_artifact(e):
    """Does this exception come from a gap in the symbolic library stand-ins
    rather than from the code (or from an error the real library raises)?"""
    tb = traceback.extract_tb(e.__traceback__)
    if not tb:
        return None
    last = tb[-1]
    if os.path.dirname(os.path.abspath(last.filename)) == SHIM_DIR:
        if last.line and last.line.lstrip().startswith("raise "):
            return None
        return "stand-in gap: %r at %s:%s" % (e, os.path.basename(last.filename), last.lineno)
    if isinstance(e, (TypeError, AttributeError)) and not (last.line or "").lstrip().startswith("raise "):
        msg = str(e)
        if SHIM_NAMES.search(msg):
            return "stand-in gap: %r" % e
        m = re.match(r"(?:[\w.<>]*\.)?(\w+|<lambda>)\(\) (got an unexpected|takes|missing|got multiple)", msg)
        if m:
            try:
                text = open(last.filename).read()
            except OSError:
                text = ""
            if ("def %s(" % m.group(1)) not in text:
                allsrc = "".join(open(os.path.join(SRC, f)).read() for f in os.listdir(SRC) if f.endswith(".py"))
                if ("def %s(" % m.group(1)) not in allsrc and m.group(1) != "__init__":
                    return "stand-in gap: %r" % e
    return None


def explore(facts, run, max_paths=64):
    """all feasible paths of run(); yields (ctx, ('ret', value) | ('exc', e))"""
    todo = [[]]
    n = 0
    while todo:
        pre = todo.pop()
        n += 1
        if n > max_paths:
            raise Unsupported("too many paths")
        c = Ctx(facts, pre)
        CUR[0] = c
        try:
            try:
                out = ("ret", run())
                if c.loops:
                    raise Unsupported("exception inside a symbolic loop, handled outside")
            except PathDead:
                todo.extend(c.alts)
                continue
            except Unprovable as e:
                raise Unsupported("normaliser: %s" % e)
            except (Unsupported, RecursionError):
                raise
            except Exception as e:
                why = shim_artifact(e)
                if why:
                    raise Unsupported(why)
                if c.split:
                    raise Unsupported("exception in a branch on data of a symbolic loop: %r" % e)
                out = ("exc", e)
            todo.extend(c.alts)
            yield c, out
        finally:
            CUR[0] = None
