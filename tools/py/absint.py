"""Abstract interpreter for the Python client.

The source is read as a syntax tree and never imported or run.  Values that
are constants in the source stay constants; arguments, replies of the server
and everything that comes from other packages are symbols.  A condition that
is not decided by what the path knows splits the path: the interpreter is
started again for every sequence of such decisions, so that each path has its
own heap.  Integer arguments carry the set of intervals the path has left for
them.
"""
import ast
import builtins
import os

INF = float("inf")


class Unsupported(Exception):
    """The construct is outside of what the analysis understands."""


class Infeasible(Exception):
    """The decisions taken so far contradict each other."""


# ---------------------------------------------------------------- values

class Sym:
    """An unknown value; two symbols with the same name are the same value."""

    def __init__(self, name, kind="obj"):
        self.name, self.kind = name, kind

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, Sym) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Lin:
    """a*sym + b for an integer symbol."""

    def __init__(self, sym, a, b):
        self.sym, self.a, self.b = sym, a, b

    def __repr__(self):
        return f"({self.a}*{self.sym}+{self.b})"


def lin(v):
    if isinstance(v, Lin):
        return v
    if isinstance(v, Sym) and v.kind == "int":
        return Lin(v, 1, 0)
    return None


def mklin(s, a, b):
    if a == 0:
        return b
    if a == 1 and b == 0:
        return s
    return Lin(s, a, b)


class Fmt:
    """A text put together from constant and unknown parts."""

    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, Fmt):
                ps = p.parts
            else:
                ps = [p]
            for q in ps:
                if isinstance(q, str) and self.parts and isinstance(self.parts[-1], str):
                    self.parts[-1] += q
                elif not (isinstance(q, str) and q == ""):
                    self.parts.append(q)

    def __repr__(self):
        return "f" + repr("".join(p if isinstance(p, str) else "{%s}" % key(p) for p in self.parts))


def mkfmt(parts):
    f = Fmt(parts)
    if not f.parts:
        return ""
    if len(f.parts) == 1 and isinstance(f.parts[0], str):
        return f.parts[0]
    return f


class Ext:
    """Something another package provides, named by where it comes from."""

    def __init__(self, path, args=None):
        self.path, self.args = path, args

    def __repr__(self):
        return self.path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class ListV:
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return repr(self.items)


class SetV:
    def __init__(self, items, frozen=False):
        self.items = []
        self.frozen = frozen
        for i in items:
            if not any(same(i, j) for j in self.items):
                self.items.append(i)


class DictV:
    def __init__(self, items=()):
        self.items = [list(i) for i in items]  # [key, value]

    def find(self, k):
        for i in self.items:
            if same(i[0], k):
                return i
        return None

    def set(self, k, v):
        i = self.find(k)
        if i:
            i[1] = v
        else:
            self.items.append([k, v])

    def __repr__(self):
        return "{" + ", ".join(f"{a!r}: {b!r}" for a, b in self.items) + "}"


class ModuleV:
    def __init__(self, name, file=None):
        self.name, self.file, self.dict = name, file, {}
        self.futures = set()

    def __repr__(self):
        return "module " + self.name


class ClassV:
    def __init__(self, name, bases, d, module=None):
        self.name, self.bases, self.dict, self.module = name, bases, d, module
        self.fields = None  # of a dataclass
        self.enum = None

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, ClassV) else [b]):
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def __repr__(self):
        return "class " + self.name


class ObjV:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}
        self.base = None  # arguments given to the external base class

    def __repr__(self):
        return f"<{self.cls.name}>"


class FuncV:
    def __init__(self, node, module, env, defaults, kwdefaults, qual, cls=None):
        self.node, self.module, self.env = node, module, env
        self.defaults, self.kwdefaults, self.qual, self.cls = defaults, kwdefaults, qual, cls
        self.attrs = {}

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    def __repr__(self):
        return "function " + self.qual


class BoundV:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func

    def __repr__(self):
        return f"bound {self.func!r}"


class ExtMethod:
    def __init__(self, obj, name, base):
        self.obj, self.name, self.base = obj, name, base


class PartialV:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class StaticV:
    def __init__(self, func):
        self.func = func


class ClassMethodV:
    def __init__(self, func):
        self.func = func


class PropertyV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class CachedPropertyV(PropertyV):
    pass


class CacheV:
    """A function that remembers its results."""

    def __init__(self, func):
        self.func, self.memo = func, []


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class BuiltinV:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "builtin " + self.name


class CoroV:
    def __init__(self, func, env):
        self.func, self.env = func, env


class FutureV:
    """Outcome of something started elsewhere: a value or an exception."""

    def __init__(self, value=None, exc=None, what=""):
        self.value, self.exc, self.what = value, exc, what


class MsgClass:
    def __init__(self, full, fields):
        self.full, self.fields = full, fields  # name -> kind
        self.name = full.split(".")[-1]

    def __repr__(self):
        return self.full


class MsgV:
    def __init__(self, cls, fields, origin=None):
        self.cls, self.fields, self.origin = cls, fields, origin

    def __repr__(self):
        return f"{self.cls.name}({', '.join(f'{k}={v!r}' for k, v in self.fields.items())})"


class CMV:
    """A context manager made of a generator function."""

    def __init__(self, func, env):
        self.func, self.env = func, env


class GenFn:
    def __init__(self, func):
        self.func = func


class BinV:
    """An operation on values that are not known."""

    def __init__(self, op, args):
        self.op, self.args = op, args

    def __repr__(self):
        return f"{self.op}({', '.join(key(a) for a in self.args)})"


# signals
class PyRaise(Exception):
    def __init__(self, value):
        self.value = value


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


def key(v):
    """A canonical text for a value."""
    if isinstance(v, (Sym, Lin, Fmt, Ext, BinV)):
        return repr(v)
    if isinstance(v, MsgV):
        return v.origin or repr(v)
    if isinstance(v, ObjV):
        a = ", ".join(f"{k}={key(x)}" for k, x in sorted(v.attrs.items()))
        return f"{v.cls.name}[{a}]"
    if isinstance(v, tuple):
        return "(" + ", ".join(map(key, v)) + ")"
    if isinstance(v, ListV):
        return "[" + ", ".join(map(key, v.items)) + "]"
    if isinstance(v, DictV):
        return "{" + ", ".join(f"{key(a)}: {key(b)}" for a, b in v.items) + "}"
    if isinstance(v, ClassV):
        return "class " + v.name
    return repr(v)


def isconst(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes)) or v is Ellipsis


def same(a, b):
    """Structurally the same value, as far as that is known."""
    if isconst(a) and isconst(b):
        return type(a) == type(b) and a == b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (Sym, Ext)):
        return a == b
    if isinstance(a, (Lin, Fmt, BinV)) and type(a) is type(b):
        return key(a) == key(b)
    return a is b


# ---------------------------------------------------------------- paths

class Path:
    """One sequence of decisions, and what is known on it."""

    def __init__(self, decisions):
        self.decisions, self.pos, self.alts = decisions, 0, []
        self.dom = {}     # integer symbol -> list of (lo, hi)
        self.facts = {}   # condition -> bool
        self.events = []
        self.uniq = 0
        self.lines = []

    def choose(self, n, what):
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = 0
            self.decisions.append(0)
        if len(self.alts) <= self.pos:
            self.alts.append(n)
        self.pos += 1
        return d

    def domain(self, s):
        return self.dom.setdefault(s.name, [(-INF, INF)])


def meet(dom, other):
    out = []
    for a, b in dom:
        for c, d in other:
            lo, hi = max(a, c), min(b, d)
            if lo <= hi:
                out.append((lo, hi))
    return sorted(out)


def minus(dom, other):
    out = list(dom)
    for c, d in other:
        n = []
        for a, b in out:
            if d < a or c > b:
                n.append((a, b))
                continue
            if a < c:
                n.append((a, c - 1))
            if b > d:
                n.append((d + 1, b))
        out = n
    return sorted(out)


def explore(run, limit=4000):
    """All paths of run(path)."""
    decisions, done = [], []
    while True:
        p = Path(list(decisions))
        try:
            r = run(p)
            done.append((p, r))
        except Infeasible:
            pass
        if len(done) > limit:
            raise Unsupported("too many paths")
        d, alts = p.decisions[:p.pos], p.alts
        while d and d[-1] + 1 >= alts[len(d) - 1]:
            d.pop()
        if not d:
            return done
        d[-1] += 1
        decisions = d


# ---------------------------------------------------------------- builtin exceptions

_exc = {}


def excclass(host):
    if host not in _exc:
        bases = [excclass(b) for b in host.__bases__ if issubclass(b, BaseException)]
        _exc[host] = ClassV(host.__name__, bases, {}, "builtins")
    return _exc[host]


def builtin_exceptions():
    import builtins
    d = {}
    for n in dir(builtins):
        v = getattr(builtins, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            d[n] = excclass(v)
    return d


TYPES = {"int": int, "float": float, "str": str, "bytes": bytes, "bool": bool}


_trees = {}


class Env:
    def __init__(self, parent=None, cls=None):
        self.vars, self.parent, self.cls = {}, parent, cls
        self.globals_, self.nonlocals = set(), set()


class Interp:
    def __init__(self, path, pkgdir, pkgname, world):
        self.path, self.pkgdir, self.pkgname, self.world = path, pkgdir, pkgname, world
        self.modules = {}
        self.steps = 0
        self.depth = 0
        self.funcs = set()
        self.yields = []
        self.excstack = []
        self.frames = []
        self.builtins = self.mkbuiltins()
        self.writes = []  # changes of objects that existed before `mark`
        self.old = None

    # ---- helpers

    def fail(self, node, msg):
        raise Unsupported(f"{self.where(node)}: {msg}")

    def where(self, node):
        f = self.frames[-1].module.file if self.frames else "?"
        return f"{os.path.relpath(f, os.path.dirname(os.path.dirname(self.pkgdir))) if f else '?'}:{getattr(node, 'lineno', 0)}"

    def throw(self, host, *args):
        o = ObjV(excclass(host))
        o.attrs["args"] = tuple(args)
        raise PyRaise(o)

    def fresh(self, name, kind="obj"):
        self.path.uniq += 1
        return Sym(f"{name}#{self.path.uniq}", kind)

    def event(self, kind, **kw):
        e = dict(kind=kind, **kw)
        e["where"] = self.where(self.frames[-1].node) if self.frames else "?"
        self.path.events.append(e)
        return e

    # ---- modules

    def load(self, name):
        """A module of the package, e.g. comfo.client; None if it has none."""
        if name in self.modules:
            return self.modules[name]
        rel = name.split(".")[1:]
        base = os.path.join(self.pkgdir, *rel)
        f = os.path.join(base, "__init__.py")
        if rel and os.path.isfile(base + ".py"):
            f = base + ".py"
        if not os.path.isfile(f):
            return None
        if rel:
            self.load(".".join([self.pkgname] + rel[:-1]))
        if f not in _trees:
            with open(f, encoding="utf-8") as h:
                _trees[f] = ast.parse(h.read(), f)
        tree = _trees[f]
        m = ModuleV(name, f)
        m.dict["__name__"] = name
        m.dict["__file__"] = f
        m.dict["__doc__"] = None
        m.dict["__package__"] = name if f.endswith("__init__.py") else name.rsplit(".", 1)[0]
        self.modules[name] = m
        fr = Frame(m, None)
        self.frames.append(fr)
        try:
            self.block(tree.body, fr)
        finally:
            self.frames.pop()
        if rel:
            parent = self.load(".".join([self.pkgname] + rel[:-1]))
            parent.dict.setdefault(rel[-1], m)
        return m

    def resolve(self, name):
        """Any module by absolute name."""
        if name == self.pkgname or name.startswith(self.pkgname + "."):
            m = self.load(name)
            if m is None:
                self.throw(ModuleNotFoundError, name)
            return m
        return Ext(name)

    # ---- statements

    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > 60000:
            self.fail(s, "the path is too long")
        fr.node = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.fail(s, "statement " + type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            m = self.resolve(a.name)
            if a.asname:
                self.store_name(a.asname, m, fr)
            else:
                self.store_name(a.name.split(".")[0], self.resolve(a.name.split(".")[0]), fr)

    def s_ImportFrom(self, s, fr):
        base = s.module or ""
        if s.level:
            pk = fr.module.dict["__package__"].split(".")
            pk = pk[:len(pk) - (s.level - 1)]
            base = ".".join(pk + ([s.module] if s.module else []))
        if base == "__future__":
            fr.module.futures |= {a.name for a in s.names}
            return
        m = self.resolve(base)
        for a in s.names:
            if a.name == "*":
                if not isinstance(m, ModuleV):
                    self.fail(s, "import * from another package")
                for k, v in list(m.dict.items()):
                    if not k.startswith("_"):
                        self.store_name(k, v, fr)
                continue
            if isinstance(m, ModuleV):
                sub = self.load(base + "." + a.name) if a.name not in m.dict else None
                if sub is not None:
                    v = sub
                elif a.name in m.dict:
                    v = m.dict[a.name]
                else:
                    self.throw(ImportError, a.name)
            else:
                v = self.extattr(m, a.name)
            self.store_name(a.asname or a.name, v, fr)

    def s_FunctionDef(self, s, fr):
        f = self.mkfunc(s, fr)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), [f], {}, s)
        self.store_name(s.name, f, fr)

    s_AsyncFunctionDef = s_FunctionDef

    def annotation(self, e, fr):
        """Names in annotations are looked up when the definition is reached."""
        if e is None or "annotations" in fr.module.futures:
            return
        if isinstance(e, ast.Name) and not hasattr(builtins, e.id):
            self.name(e.id, fr, e)
        for x in ast.iter_child_nodes(e):
            if not isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp)):
                self.annotation(x, fr)

    def mkfunc(self, s, fr):
        if not isinstance(s, ast.Lambda):
            a = s.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
                self.annotation(x and x.annotation, fr)
            self.annotation(s.returns, fr)
        defaults = [self.ev(d, fr) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        name = getattr(s, "name", "<lambda>")
        env = fr.env
        cls = None
        if env is not None and env.cls is not None:
            cls = env.cls
            q = cls.name + "." + name
            env = env.parent
        else:
            q = name
        return FuncV(s, fr.module, env, defaults, kwd, fr.module.name + "." + q, cls)

    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        kws = {k.arg: self.ev(k.value, fr) for k in s.keywords if k.arg != "metaclass"}
        bases = [b for b in bases if not (isinstance(b, BuiltinV) and b.name == "object")]
        for b in bases:
            if not isinstance(b, (ClassV, Ext)):
                self.fail(s, f"base class {b!r}")
        c = ClassV(s.name, bases, {}, fr.module)
        env = Env(fr.env, c)
        f2 = Frame(fr.module, env)
        f2.classbody = True
        self.frames.append(f2)
        try:
            self.block(s.body, f2)
        finally:
            self.frames.pop()
        c.dict = env.vars
        c.ann = [(t.target.id, t.value is not None) for t in s.body if isinstance(t, ast.AnnAssign) and isinstance(t.target, ast.Name)]
        for b in c.mro():
            if isinstance(b, Ext) and b.path in ("enum.IntEnum", "enum.Enum"):
                c.enum = b.path
        for n, v in list(c.dict.items()):
            if isinstance(v, ObjV):
                h = self.classattr(v.cls, "__set_name__")
                if isinstance(h, FuncV):
                    self.call(BoundV(v, h), [c, n], {}, s)
        h = None
        for b in c.mro()[1:]:
            if isinstance(b, ClassV) and "__init_subclass__" in b.dict:
                h = b.dict["__init_subclass__"]
                break
        r = c
        if h is not None:
            if isinstance(h, ClassMethodV):
                h = h.func
            self.call(h, [c], kws, s)
        for d in reversed(s.decorator_list):
            r = self.call(self.ev(d, fr), [r], {}, s)
        self.store_name(s.name, r, fr)

    def s_Return(self, s, fr):
        raise ReturnEx(self.ev(s.value, fr) if s.value is not None else None)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)
        if isinstance(s.target, ast.Name) and (fr.env is None or fr.env.cls is not None):
            self.annotation(s.annotation, fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
        elif isinstance(t, ast.Attribute):
            cur = self.getattr(self.ev(t.value, fr), t.attr, t)
        else:
            cur = self.getitem(self.ev(t.value, fr), self.ev(t.slice, fr), t)
        v = self.ev(s.value, fr)
        if isinstance(cur, ListV) and isinstance(s.op, ast.Add):
            cur.items.extend(self.iterate(v, s))
            self.note(cur)
            self.assign(t, cur, fr)
            return
        self.assign(t, self.binop(s.op, cur, v, s), fr)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.scope().pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, ObjV):
                    o.attrs.pop(t.attr, None)
                    self.note(o)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, fr), self.ev(t.slice, fr)
                if isinstance(o, DictV):
                    i = o.find(k)
                    if i is None:
                        self.throw(KeyError, k)
                    o.items.remove(i)
                    self.note(o)
                else:
                    self.fail(s, "del")

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr), s):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_For(self, s, fr):
        for v in self.iterate(self.ev(s.iter, fr), s):
            self.assign(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                pass
        self.block(s.orelse, fr)

    s_AsyncFor = s_For

    def s_While(self, s, fr):
        n = 0
        while self.truth(self.ev(s.test, fr), s):
            n += 1
            if n > 300:
                self.fail(s, "the loop is not bounded")
            try:
                self.block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                pass
        self.block(s.orelse, fr)

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Global(self, s, fr):
        if fr.env is not None:
            fr.env.globals_.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.env.nonlocals.update(s.names)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr), s):
            self.throw(AssertionError)

    def s_Raise(self, s, fr):
        if s.exc is None:
            if not self.excstack:
                self.throw(RuntimeError, "No active exception to reraise")
            raise PyRaise(self.excstack[-1])
        v = self.ev(s.exc, fr)
        if isinstance(v, (ClassV, Ext)):
            v = self.call(v, [], {}, s)
        if s.cause is not None:
            self.ev(s.cause, fr)
        if isinstance(v, Sym) or isinstance(v, ObjV):
            raise PyRaise(v)
        self.fail(s, f"raise {v!r}")

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.matches(e.value, self.ev(h.type, fr), h):
                        if h.name:
                            self.store_name(h.name, e.value, fr)
                        self.excstack.append(e.value)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.excstack.pop()
                            if h.name:
                                fr.scope().pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            import sys
            if not isinstance(sys.exc_info()[1], (Unsupported, Infeasible)):
                self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        self.with_items(list(s.items), s, fr)

    s_AsyncWith = s_With

    def with_items(self, items, s, fr):
        if not items:
            self.block(s.body, fr)
            return
        it = items[0]
        cm = self.ev(it.context_expr, fr)
        if isinstance(cm, CMV):
            sig = []

            def body(v):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
                try:
                    self.with_items(items[1:], s, fr)
                except (ReturnEx, BreakEx, ContinueEx) as e:
                    sig.append(e)
                return None
            self.yields.append(body)
            try:
                self.runbody(cm.func, cm.env)
            finally:
                self.yields.pop()
            if sig:
                raise sig[0]
            return
        if isinstance(cm, Ext) and cm.args is not None and cm.path.split("(")[0] == "contextlib.suppress":
            try:
                self.with_items(items[1:], s, fr)
            except PyRaise as e:
                if not any(self.matches(e.value, a, s) for a in cm.args):
                    raise
            return
        if isinstance(cm, ObjV):
            a = "__aenter__" if isinstance(s, ast.AsyncWith) else "__enter__"
            v = self.call(self.getattr(cm, a, s), [], {}, s)
            if isinstance(s, ast.AsyncWith):
                v = self.await_(v, s)
            ex = self.getattr(cm, a.replace("enter", "exit"), s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            try:
                self.with_items(items[1:], s, fr)
            except PyRaise as e:
                c = e.value.cls if isinstance(e.value, ObjV) else None
                r = self.call(ex, [c, e.value, None], {}, s)
                if isinstance(s, ast.AsyncWith):
                    r = self.await_(r, s)
                if not self.truth(r, s):
                    raise
                return
            except (ReturnEx, BreakEx, ContinueEx):
                self.call(ex, [None, None, None], {}, s)
                raise
            r = self.call(ex, [None, None, None], {}, s)
            if isinstance(s, ast.AsyncWith):
                self.await_(r, s)
            return
        # something of another package, e.g. a lock: it passes exceptions on
        if isinstance(cm, (Ext, Sym)):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.extattr(cm, "__enter__()"), fr)
            self.with_items(items[1:], s, fr)
            return
        self.fail(s, f"with {cm!r}")

    def s_Match(self, s, fr):
        v = self.ev(s.subject, fr)
        for c in s.cases:
            binds = {}
            if self.pattern(c.pattern, v, fr, binds):
                for k, x in binds.items():
                    self.store_name(k, x, fr)
                if c.guard is None or self.truth(self.ev(c.guard, fr), s):
                    self.block(c.body, fr)
                    return

    def pattern(self, p, v, fr, binds):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, fr), p)
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value, p)
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, fr, binds) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, fr, binds):
                return False
            if p.name:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns:
            if not self.isinstance(v, self.ev(p.cls, fr), p):
                return False
            return all(self.pattern(q, self.getattr(v, a, p), fr, binds) for a, q in zip(p.kwd_attrs, p.kwd_patterns))
        if isinstance(p, ast.MatchClass) and len(p.patterns) == 1 and not p.kwd_attrs:
            c = self.ev(p.cls, fr)
            return self.isinstance(v, c, p) and self.pattern(p.patterns[0], v, fr, binds)
        if isinstance(p, ast.MatchSequence) and isinstance(v, (tuple, ListV)):
            it = list(v) if isinstance(v, tuple) else v.items
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                self.fail(p, "pattern")
            return len(it) == len(p.patterns) and all(self.pattern(q, x, fr, binds) for q, x in zip(p.patterns, it))
        self.fail(p, "pattern")

    # ---- names and assignment

    def store_name(self, n, v, fr):
        if fr.env is None or n in fr.env.globals_:
            if fr.env is not None:
                self.note(fr.module)
            fr.module.dict[n] = v
            return
        if n in fr.env.nonlocals:
            e = fr.env.parent
            while e is not None:
                if n in e.vars and e.cls is None:
                    e.vars[n] = v
                    self.note(e)
                    return
                e = e.parent
        fr.env.vars[n] = v

    def name(self, n, fr, node):
        e = fr.env
        first = True
        if e is not None and n in e.globals_:
            e = None
        while e is not None:
            if n in e.vars and (first or e.cls is None):
                return e.vars[n]
            first = False
            e = e.parent
        if n in fr.module.dict:
            return fr.module.dict[n]
        if n in self.builtins:
            return self.builtins[n]
        self.throw(NameError, n)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev(t.slice, fr), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(v, t)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i, n = st[0], len(items) - len(t.elts) + 1
                if n < 0:
                    self.throw(ValueError)
                items = items[:i] + [ListV(items[i:i + n])] + items[i + n:]
            if len(items) != len(t.elts):
                self.throw(ValueError)
            for x, y in zip(t.elts, items):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
        else:
            self.fail(t, "assignment")

    def note(self, o):
        """An object was changed."""
        if self.old is not None and id(o) in self.old:
            self.writes.append((o, self.where(self.frames[-1].node) if self.frames else "?"))

    def setitem(self, o, k, v, node):
        if isinstance(o, DictV):
            for i in o.items:
                if self.eq(i[0], k, node):
                    i[1] = v
                    break
            else:
                o.items.append([k, v])
            self.note(o)
        elif isinstance(o, ListV) and isinstance(k, int):
            try:
                o.items[k] = v
            except IndexError:
                self.throw(IndexError)
            self.note(o)
        elif isinstance(o, GlobalsV):
            o.mod.dict[k] = v
        elif isinstance(o, AttrsV):
            o.obj.attrs[k] = v
            self.note(o.obj)
        elif isinstance(o, (Ext, Sym)):
            self.event("extset", obj=o, name=("item", k), value=v)
        else:
            self.fail(node, f"assignment to an item of {o!r}")

    # ---- conditions

    def truth(self, v, node):
        if isconst(v):
            return bool(v)
        if isinstance(v, (tuple, range)):
            return len(v) > 0
        if isinstance(v, (ListV, SetV, DictV)):
            return len(v.items) > 0
        if isinstance(v, (FuncV, BoundV, ClassV, ModuleV, BuiltinV, PartialV, MsgClass, CoroV, FutureV, ExtMethod, CMV, CacheV, GenFn)):
            return True
        if isinstance(v, ObjV):
            f = self.classattr(v.cls, "__bool__")
            if f is not None:
                return self.truth(self.call(BoundV(v, f), [], {}, node), node)
            f = self.classattr(v.cls, "__len__")
            if f is not None:
                return self.truth(self.call(BoundV(v, f), [], {}, node), node)
            return True
        if isinstance(v, MsgV):
            return True
        if lin(v):
            return not self.cmpint(lin(v), "==", 0)
        if isinstance(v, Sym) and v.kind in ("loop", "msg", "truthy"):
            return True
        if isinstance(v, Fmt) and any(isinstance(p, str) for p in v.parts):
            return True
        if isinstance(v, (Sym, Ext, Fmt, BinV)):
            return self.ask("bool " + key(v))
        self.fail(node, f"truth of {v!r}")

    def ask(self, cond):
        """An undecided condition; a path gives the same answer every time."""
        if cond not in self.path.facts:
            self.path.facts[cond] = self.path.choose(2, cond) == 0
        return self.path.facts[cond]

    def cmpint(self, x, op, c):
        """x op c for x = a*s+b and a constant c."""
        if isinstance(c, bool):
            c = int(c)
        if not isinstance(c, (int, float)):
            return None
        a, b = x.a, x.b
        import math
        q = (c - b) / a
        if a < 0:
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if op in ("==", "!="):
            t = [(int(q), int(q))] if q == q and abs(q) != INF and q == int(q) else []
        elif q != q:
            t = []
        elif op == "<":
            t = [(-INF, INF if q == INF else -INF if q == -INF else math.ceil(q) - 1)]
        elif op == "<=":
            t = [(-INF, q if abs(q) == INF else math.floor(q))]
        elif op == ">":
            t = [(q if abs(q) == INF else math.floor(q) + 1, INF)]
        else:
            t = [(q if abs(q) == INF else math.ceil(q), INF)]
        d = self.path.domain(x.sym)
        yes, no = meet(d, t), minus(d, t)
        if op == "!=":
            yes, no = no, yes
        if not yes and not no:
            raise Infeasible()
        if not no:
            return True
        if not yes:
            return False
        r = self.path.choose(2, f"{x} {op} {c}") == 0
        self.path.dom[x.sym.name] = yes if r else no
        return r

    def known(self, v):
        """The constant a symbol is known to be."""
        x = lin(v)
        if x:
            d = self.path.domain(x.sym)
            if len(d) == 1 and d[0][0] == d[0][1]:
                return x.a * d[0][0] + x.b
        return v

    def eq(self, a, b, node):
        if isinstance(a, ObjV) and isinstance(a.cls, ClassV) and not a.cls.enum:
            f = self.classattr(a.cls, "__eq__")
            if isinstance(f, FuncV):
                return self.truth(self.call(BoundV(a, f), [b], {}, node), node)
        if isinstance(a, EnumV) and a.cls.enum == "enum.IntEnum":
            a = a.value
        if isinstance(b, EnumV) and b.cls.enum == "enum.IntEnum":
            b = b.value
        if same(a, b):
            if isinstance(a, float) and a != a:
                return False
            return True
        r = self.boolsym(a, b, node)
        if r is not None:
            return r
        if isconst(a) and isconst(b):
            return a == b
        la, lb = lin(a), lin(b)
        if la and lb:
            if la.sym == lb.sym:
                if la.a == lb.a:
                    return la.b == lb.b
                return bool(self.cmpint(Lin(la.sym, la.a - lb.a, la.b), "==", lb.b))
            ka, kb = self.known(a), self.known(b)
            if isconst(ka) or isconst(kb):
                return self.eq(ka, kb, node)
            return self.ask(" == ".join(sorted([key(a), key(b)])))
        for x, y in ((la, b), (lb, a)):
            if x:
                if isinstance(y, (int, float, bool)):
                    return self.cmpint(x, "==", y)
                if y is None or isinstance(y, (str, bytes, tuple, ListV, DictV, SetV, ClassV, FuncV, MsgV, EnumV, ObjV)):
                    return False
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, ListV) and isinstance(b, ListV):
            x = a if isinstance(a, tuple) else a.items
            y = b if isinstance(b, tuple) else b.items
            return len(x) == len(y) and all(self.eq(p, q, node) for p, q in zip(x, y))
        if isinstance(a, Ext) and isinstance(b, Ext):
            d = self.world.distinct(a, b)
            if d is not None:
                return not d
        if isinstance(a, (Sym, Ext, Fmt, BinV)) or isinstance(b, (Sym, Ext, Fmt, BinV)):
            for x, y in ((a, b), (b, a)):
                if y is None and (isinstance(x, (Fmt, BinV)) or isinstance(x, Sym) and x.kind != "obj" or isinstance(x, Ext) and x.args is None):
                    return False
            k = self.world.eqcode(self, a, b)
            if k is not None:
                return k
            return self.ask(" == ".join(sorted([key(a), key(b)])))
        return False

    def boolsym(self, a, b, node):
        """Comparison of an unknown bool with a constant."""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.kind == "bool" and isinstance(y, (bool, int)) and y in (0, 1):
                return self.truth(x, node) == bool(y)
        return None

    def is_(self, a, b, node):
        r = self.boolsym(a, b, node)
        if r is not None:
            return r
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, (Sym, Ext)) or isinstance(b, (Sym, Ext)):
                x = a if isinstance(a, (Sym, Ext)) else b
                y = b if x is a else a
                if isinstance(x, Sym) and x.kind in ("int", "loop", "str", "msg", "truthy", "float", "bytes", "code") or isinstance(x, Ext) and (x.args is None or x.args == "obj"):
                    return False
                if isinstance(x, Sym) and x.kind in ("bool", "code") and y is None:
                    return False
                return self.ask(" is ".join(sorted([key(x), key(y)])))
            return a is b
        if isinstance(a, (Sym, Ext)) or isinstance(b, (Sym, Ext)):
            return self.eq(a, b, node)
        if isconst(a) and isconst(b):
            return a == b and type(a) == type(b)
        return a is b

    def compare(self, op, a, b, node):
        n = type(op).__name__
        if n == "Eq":
            return self.eq(a, b, node)
        if n == "NotEq":
            return not self.eq(a, b, node)
        if n == "Is":
            return self.is_(a, b, node)
        if n == "IsNot":
            return not self.is_(a, b, node)
        if n in ("In", "NotIn"):
            r = self.contains(b, a, node)
            return r if n == "In" else not r
        o = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[n]
        if isinstance(a, EnumV):
            a = a.value
        if isinstance(b, EnumV):
            b = b.value
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
        la, lb = lin(a), lin(b)
        if la and isinstance(b, (int, float)):
            return self.cmpint(la, o, b)
        if lb and isinstance(a, (int, float)):
            return self.cmpint(lb, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[o], a)
        if la and lb:
            if la.sym == lb.sym:
                if la.a == lb.a:
                    return self.compare(op, la.b, lb.b, node)
                return self.cmpint(Lin(la.sym, la.a - lb.a, la.b), o, lb.b)
            ka, kb = self.known(a), self.known(b)
            if isconst(ka) or isconst(kb):
                return self.compare(op, ka, kb, node)
            return self.ask(f"{key(a)} {o} {key(b)}")
        for x in (a, b):
            if x is None or isinstance(x, (ListV, DictV, ClassV, FuncV, ObjV, MsgV)) or isinstance(x, str) and (la or lb):
                self.throw(TypeError, "not supported between instances")
        if isinstance(a, SetV) and isinstance(b, SetV):
            sub = all(any(self.eq(x, y, node) for y in b.items) for x in a.items)
            if o == "<=":
                return sub
            if o == "<":
                return sub and len(a.items) < len(b.items)
            return self.compare({">=": ast.LtE(), ">": ast.Lt()}[o], b, a, node)
        if isinstance(a, (Sym, Ext, BinV, Fmt, int, float, str)) and isinstance(b, (Sym, Ext, BinV, Fmt, int, float, str)):
            return self.ask(f"{key(a)} {o} {key(b)}")
        self.fail(node, f"comparison of {a!r} and {b!r}")

    def contains(self, c, x, node):
        if isinstance(c, range):
            lx = lin(x)
            if isinstance(x, int):
                return x in c
            if isinstance(x, EnumV) and isinstance(x.value, int):
                return x.value in c
            if lx:
                if len(c) == 0:
                    return False
                if c.step == 1:
                    return self.cmpint(lx, ">=", c.start) and self.cmpint(lx, "<", c.stop)
                if len(c) <= 300:
                    return any(self.cmpint(lx, "==", i) for i in c)
            if x is None or isinstance(x, str):
                return False
            return self.ask(f"{key(x)} in {c}")
        if isinstance(c, (tuple, ListV, SetV)):
            return any(self.eq(i, x, node) for i in (c if isinstance(c, tuple) else c.items))
        if isinstance(c, DictV):
            return any(self.eq(i[0], x, node) for i in c.items)
        if isinstance(c, ClassV) and c.enum:
            return any(self.eq(i.value, x, node) or same(i, x) for i in self.members(c))
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, ObjV):
            f = self.classattr(c.cls, "__contains__")
            if isinstance(f, FuncV):
                return self.truth(self.call(BoundV(c, f), [x], {}, node), node)
        if isinstance(c, GlobalsV):
            return x in c.mod.dict
        if isinstance(c, AttrsV):
            return x in c.obj.attrs
        if isinstance(c, (Sym, Ext, Fmt, BinV)) or isinstance(x, (Sym, Ext, Fmt, BinV)):
            return self.ask(f"{key(x)} in {key(c)}")
        if c is None or isinstance(c, (int, float)):
            self.throw(TypeError)
        return any(self.eq(i, x, node) for i in self.iterate(c, node))

    def matches(self, exc, typ, node):
        """except clause"""
        if isinstance(typ, tuple):
            return any(self.matches(exc, t, node) for t in typ)
        if isinstance(exc, ObjV):
            m = exc.cls.mro()
        else:
            m = [exc]
        if typ in m:
            return True
        if isinstance(typ, ClassV) and isinstance(exc, ObjV):
            if any(isinstance(x, Ext) for x in m):
                # a foreign exception: a subclass of Exception
                return typ.name in ("Exception", "BaseException") or \
                    self.world.excmatch(self, exc, typ)
            return False
        if isinstance(typ, Ext):
            return self.world.excmatch(self, exc, typ)
        if isinstance(typ, BuiltinV):
            self.throw(TypeError)
        self.fail(node, f"except {typ!r}")

    def isinstance(self, v, t, node):
        if isinstance(t, tuple):
            return any(self.isinstance(v, x, node) for x in t)
        n = t.name if isinstance(t, BuiltinV) else None
        if n == "object":
            return True
        if n in TYPES or n in ("list", "dict", "tuple", "set", "type", "frozenset", "range"):
            if isinstance(v, EnumV):
                return v.cls.enum == "enum.IntEnum" and n == "int"
            if isconst(v):
                return n in TYPES and isinstance(v, TYPES[n])
            if lin(v):
                return n == "int"
            if isinstance(v, Sym) and v.kind in ("bool", "str", "float", "bytes"):
                return n == v.kind or v.kind == "bool" and n == "int"
            if isinstance(v, (Sym, Ext, BinV)):
                if isinstance(v, Sym) and v.kind in ("loop", "msg"):
                    return False
                return self.ask(f"isinstance {key(v)} {n}")
            if isinstance(v, Fmt):
                return n == "str"
            h = {"list": ListV, "dict": DictV, "tuple": tuple, "set": SetV, "frozenset": SetV, "type": ClassV, "range": range}.get(n)
            return h is not None and isinstance(v, h)
        if isinstance(t, ClassV):
            if isinstance(v, (ObjV, EnumV)):
                return t in v.cls.mro() or isinstance(v, ObjV) and any(isinstance(b, Ext) for b in v.cls.mro()) and t.name in ("Exception", "BaseException") and v.cls.module == "ext"
            if isinstance(v, (Sym, Ext)) and not (isinstance(v, Sym) and v.kind != "obj"):
                return self.ask(f"isinstance {key(v)} {t.name}")
            return False
        if isinstance(t, MsgClass):
            if isinstance(v, MsgV):
                return v.cls is t or v.cls.full == t.full
            return False
        if isinstance(t, Ext):
            if isinstance(v, ObjV) and t in v.cls.mro():
                return True
            if isinstance(v, ObjV) and v.cls.module == "ext" and getattr(v.cls, "bases", None):
                return self.world.excmatch(self, v, t)
            if t.path in ("numbers.Integral", "numbers.Number", "numbers.Real", "typing.SupportsInt", "typing.SupportsIndex") and (lin(v) or isinstance(v, int)):
                return True
            if isconst(v) or lin(v):
                return False
            if isinstance(v, ObjV) and not any(isinstance(b, Ext) for b in v.cls.mro()):
                return False
            return self.ask(f"isinstance {key(v)} {t.path}")
        self.fail(node, f"isinstance {t!r}")

    # ---- expressions

    def ev(self, e, fr):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.fail(e, "expression " + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.name(e.id, fr, e)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr, e)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, fr)
                    if isconst(x) and isinstance(spec, str):
                        parts.append(format(x, spec))
                        continue
                    parts.append(BinV("format", (x, spec)))
                    continue
                parts.append(self.tostr(x, v.conversion, e))
        return mkfmt(parts)

    def tostr(self, x, conv, node):
        if conv == ord("r"):
            return repr(x) if isconst(x) else BinV("repr", (x,))
        if isinstance(x, EnumV) and x.cls.enum == "enum.IntEnum":
            x = x.value
        if isconst(x):
            return str(x)
        if isinstance(x, (Fmt,)):
            return x
        if isinstance(x, ObjV):
            f = self.classattr(x.cls, "__str__") or self.classattr(x.cls, "__repr__")
            if isinstance(f, FuncV):
                return self.call(BoundV(x, f), [], {}, node)
        return x

    def e_FormattedValue(self, e, fr):
        return self.tostr(self.ev(e.value, fr), e.conversion, e)

    def elems(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, fr), x))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Tuple(self, e, fr):
        return tuple(self.elems(e.elts, fr))

    def e_List(self, e, fr):
        return ListV(self.elems(e.elts, fr))

    def e_Set(self, e, fr):
        return SetV(self.elems(e.elts, fr))

    def e_Dict(self, e, fr):
        d = DictV()
        for k, v in zip(e.keys, e.values):
            if k is None:
                for a, b in self.dictitems(self.ev(v, fr), e):
                    d.set(a, b)
            else:
                a = self.ev(k, fr)
                d.set(a, self.ev(v, fr))
        return d

    def dictitems(self, v, node, pairs=False):
        if isinstance(v, DictV):
            return [tuple(i) for i in v.items]
        if isinstance(v, AttrsV):
            return list(v.obj.attrs.items())
        if pairs and (isinstance(v, (list, tuple)) or type(v).__name__ in ("ListV", "LazyV", "GenV")):
            return [tuple(self.iterate(i, node)) for i in self.iterate(v, node)]
        self.fail(node, f"** of {v!r}")

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr)

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr), e) else e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.store_name(e.target.id, v, fr)
        return v

    def e_BoolOp(self, e, fr):
        v = None
        for x in e.values:
            v = self.ev(x, fr)
            t = self.truth(v, e)
            if isinstance(e.op, ast.And) and not t or isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not self.truth(v, e)
        if isinstance(v, EnumV):
            v = v.value
        if isinstance(v, (int, float)):
            return {"USub": lambda: -v, "UAdd": lambda: +v, "Invert": lambda: ~v}[type(e.op).__name__]()
        x = lin(v)
        if x:
            n = type(e.op).__name__
            if n == "USub":
                return mklin(x.sym, -x.a, -x.b)
            if n == "Invert":
                return mklin(x.sym, -x.a, -x.b - 1)
            return v
        if v is None or isinstance(v, (str, ListV, DictV)):
            self.throw(TypeError)
        return BinV(type(e.op).__name__, (v,))

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        return self.binop(e.op, a, self.ev(e.right, fr), e)

    def binop(self, op, a, b, node):
        n = type(op).__name__
        if isinstance(a, EnumV) and a.cls.enum == "enum.IntEnum":
            a = a.value
        if isinstance(b, EnumV) and b.cls.enum == "enum.IntEnum":
            b = b.value
        if isconst(a) and isconst(b):
            import operator
            f = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "FloorDiv": operator.floordiv, "Mod": operator.mod, "Pow": operator.pow, "LShift": operator.lshift, "RShift": operator.rshift, "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor}.get(n)
            if f is None:
                self.fail(node, "operator")
            try:
                return f(a, b)
            except Exception as x:
                self.throw(type(x) if type(x) in _hosts else TypeError, str(x))
        if n == "Mod" and isinstance(a, str):
            return self.percent(a, b, node)
        if n == "Add" and (isinstance(a, (str, Fmt)) or isinstance(b, (str, Fmt))):
            for x in (a, b):
                if x is None or isinstance(x, (int, float, ListV, DictV)) or lin(x):
                    self.throw(TypeError)
            return mkfmt([a, b])
        if isinstance(a, ListV) and isinstance(b, ListV) and n == "Add":
            return ListV(a.items + b.items)
        if isinstance(a, tuple) and isinstance(b, tuple) and n == "Add":
            return a + b
        if isinstance(a, DictV) and isinstance(b, DictV) and n == "BitOr":
            d = DictV(a.items)
            for k, v in b.items:
                d.set(k, v)
            return d
        if isinstance(a, SetV) and isinstance(b, SetV):
            if n == "BitOr":
                return SetV(a.items + b.items)
            if n == "BitAnd":
                return SetV([x for x in a.items if self.contains(b, x, node)])
            if n == "Sub":
                return SetV([x for x in a.items if not self.contains(b, x, node)])
        if n == "BitOr" and isinstance(a, (ClassV, BuiltinV, Ext, tuple)) and (b is None or isinstance(b, (ClassV, BuiltinV, Ext))):
            return (a if isinstance(a, tuple) else (a,)) + (b,)
        la, lb = lin(a), lin(b)
        if la and isinstance(b, int):
            if n == "Add":
                return mklin(la.sym, la.a, la.b + b)
            if n == "Sub":
                return mklin(la.sym, la.a, la.b - b)
            if n == "Mult":
                return mklin(la.sym, la.a * b, la.b * b)
        if lb and isinstance(a, int):
            if n == "Add":
                return mklin(lb.sym, lb.a, a + lb.b)
            if n == "Sub":
                return mklin(lb.sym, -lb.a, a - lb.b)
            if n == "Mult":
                return mklin(lb.sym, lb.a * a, lb.b * a)
        if la and lb and la.sym == lb.sym and n in ("Add", "Sub"):
            s = 1 if n == "Add" else -1
            return mklin(la.sym, la.a + s * lb.a, la.b + s * lb.b)
        if a is None or b is None:
            self.throw(TypeError)
        return BinV(n, (a, b))

    def percent(self, f, b, node):
        import re
        args = list(b) if isinstance(b, tuple) else [b]
        parts = []
        for p in re.split(r"(%%|%[sd])", f):
            if p == "%%":
                parts.append("%")
            elif p in ("%s", "%d"):
                if not args:
                    self.throw(TypeError)
                parts.append(self.tostr(args.pop(0), -1, node))
            elif "%" in p:
                return BinV("%", (f, b))
            else:
                parts.append(p)
        return mkfmt(parts)

    def e_Compare(self, e, fr):
        a = self.ev(e.left, fr)
        for op, c in zip(e.ops, e.comparators):
            b = self.ev(c, fr)
            if not self.compare(op, a, b, e):
                return False
            a = b
        return True

    def e_Subscript(self, e, fr):
        v = self.ev(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            lo, hi, st = [self.ev(x, fr) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                s = slice(lo, hi, st)
                if isinstance(v, ListV):
                    return ListV(v.items[s])
                if isinstance(v, (tuple, str, bytes, range)):
                    return v[s]
            return BinV("slice", (v, lo, hi, st))
        return self.getitem(v, self.ev(e.slice, fr), e)

    def getitem(self, v, k, node):
        if isinstance(v, DictV):
            for i in v.items:
                if self.eq(i[0], k, node):
                    return i[1]
            self.throw(KeyError, k)
        if isinstance(v, (ListV, tuple, str, bytes, range)):
            seq = v.items if isinstance(v, ListV) else v
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                try:
                    return seq[k]
                except IndexError:
                    self.throw(IndexError)
            x = lin(k)
            if x and len(seq) <= 300:
                for i in range(-len(seq), len(seq)):
                    if self.cmpint(x, "==", i):
                        return seq[i]
                self.throw(IndexError)
            if k is None or isinstance(k, str):
                self.throw(TypeError)
        if isinstance(v, GlobalsV):
            if k in v.mod.dict:
                return v.mod.dict[k]
            return self.world.missing_global(self, v.mod, k)
        if isinstance(v, AttrsV):
            if k in v.obj.attrs:
                return v.obj.attrs[k]
            self.throw(KeyError, k)
        if isinstance(v, ClassV) and v.enum:
            for m in self.members(v):
                if m.name == k:
                    return m
            self.throw(KeyError, k)
        if isinstance(v, (ClassV, BuiltinV)):
            return v  # a generic type
        if isinstance(v, Ext) and v.args is None:
            return v
        if isinstance(v, ObjV):
            f = self.classattr(v.cls, "__getitem__")
            if isinstance(f, FuncV):
                return self.call(BoundV(v, f), [k], {}, node)
        if isinstance(v, (Sym, Ext, BinV)):
            return BinV("item", (v, k))
        if v is None or isinstance(v, (int, float, ObjV)):
            self.throw(TypeError)
        self.fail(node, f"item of {v!r}")

    def comp(self, gens, fr, emit):
        env = Env(fr.env, None)
        f2 = Frame(fr.module, env)
        f2.node = fr.node

        def rec(i):
            if i == len(gens):
                emit(f2)
                return
            g = gens[i]
            for v in self.iterate(self.ev(g.iter, f2 if i else fr), g.iter):
                self.assign(g.target, v, f2)
                if all(self.truth(self.ev(c, f2), c) for c in g.ifs):
                    rec(i + 1)
        # the class body's names are visible in the first iterable only
        self.frames.append(f2)
        try:
            rec(0)
        finally:
            self.frames.pop()

    def e_ListComp(self, e, fr):
        out = []
        self.comp(e.generators, fr, lambda f: out.append(self.ev(e.elt, f)))
        return ListV(out)

    def e_GeneratorExp(self, e, fr):
        # evaluated lazily by any() and all(): see there
        return LazyV(e, fr)

    def e_SetComp(self, e, fr):
        out = []
        self.comp(e.generators, fr, lambda f: out.append(self.ev(e.elt, f)))
        return SetV(out)

    def e_DictComp(self, e, fr):
        d = DictV()
        self.comp(e.generators, fr, lambda f: d.set(self.ev(e.key, f), self.ev(e.value, f)))
        return d

    def e_Starred(self, e, fr):
        self.fail(e, "*")

    def e_Await(self, e, fr):
        return self.await_(self.ev(e.value, fr), e)

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        if not self.yields:
            self.fail(e, "yield")
        return self.yields[-1](v)

    def e_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        if not self.yields:
            self.fail(e, "yield from")
        for x in self.iterate(v, e):
            self.yields[-1](x)
        return None

    def await_(self, v, node):
        if isinstance(v, CoroV):
            return self.runbody(v.func, v.env)
        if isinstance(v, FutureV):
            if v.exc is not None:
                raise PyRaise(v.exc)
            return v.value
        if isinstance(v, (Sym, Ext)):
            return self.world.await_(self, v, node)
        if isinstance(v, ObjV):
            f = self.classattr(v.cls, "__await__")
            if f is not None:
                self.fail(node, "__await__")
        self.throw(TypeError, "object can't be used in 'await' expression")

    def iterate(self, v, node):
        if isinstance(v, LazyV):
            out = []
            self.comp(v.node.generators, v.fr, lambda f: out.append(self.ev(v.node.elt, f)))
            return out
        if isinstance(v, (ListV, SetV)):
            return list(v.items)
        if isinstance(v, (tuple, str)):
            return list(v)
        if isinstance(v, range):
            if len(v) > 1000:
                self.fail(node, "the loop is too long")
            return list(v)
        if isinstance(v, DictV):
            return [i[0] for i in v.items]
        if isinstance(v, AttrsV):
            return list(v.obj.attrs)
        if isinstance(v, ClassV) and v.enum:
            return self.members(v)
        if isinstance(v, GenV):
            return v.items
        if isinstance(v, bytes):
            return list(v)
        if isinstance(v, ObjV):
            f = self.classattr(v.cls, "__iter__")
            if isinstance(f, FuncV):
                return self.iterate(self.call(BoundV(v, f), [], {}, node), node)
            self.throw(TypeError)
        if v is None or isinstance(v, (int, float)) or lin(v):
            self.throw(TypeError)
        self.fail(node, f"iteration over {v!r}")

    # ---- attributes

    def classattr(self, cls, n):
        for c in cls.mro():
            if isinstance(c, ClassV) and n in c.dict:
                return c.dict[n]
        return None

    def extbase(self, cls):
        for c in cls.mro():
            if isinstance(c, Ext):
                return c
        return None

    def members(self, cls):
        out = []
        for c in cls.mro():
            if isinstance(c, ClassV):
                for k, v in c.dict.items():
                    if not k.startswith("_") and isconst(v):
                        out.append(EnumV(cls, k, v))
        return out

    def bind(self, v, obj, cls):
        if isinstance(v, StaticV):
            return v.func
        if isinstance(v, ClassMethodV):
            return BoundV(cls, v.func)
        if obj is None:
            return v
        if isinstance(v, (FuncV, GenFn, CacheV)):
            return BoundV(obj, v)
        if isinstance(v, PartialMethodV):
            return PartialV(BoundV(obj, v.func), v.args, v.kwargs)
        return v

    def getattr(self, o, n, node, default=None):
        if isinstance(o, ObjV):
            if n == "__dict__":
                return AttrsV(o)
            if n == "__class__":
                return o.cls
            v = self.classattr(o.cls, n)
            if isinstance(v, PropertyV) and not (isinstance(v, CachedPropertyV) and n in o.attrs):
                r = self.call(v.fget, [o], {}, node)
                if isinstance(v, CachedPropertyV):
                    o.attrs[n] = r
                    self.note(o)
                return r
            if n in o.attrs:
                return o.attrs[n]
            if isinstance(v, ObjV) and isinstance(self.classattr(v.cls, "__get__"), FuncV):
                return self.call(BoundV(v, self.classattr(v.cls, "__get__")), [o, o.cls], {}, node)
            if v is not None or any(isinstance(c, ClassV) and n in c.dict for c in o.cls.mro()):
                return self.bind(v, o, o.cls)
            b = self.extbase(o.cls)
            if b is not None:
                r = self.world.objattr(self, o, b, n)
                if r is not NotImplemented:
                    return r
            f = self.classattr(o.cls, "__getattr__")
            if isinstance(f, FuncV):
                return self.call(BoundV(o, f), [n], {}, node)
            if b is not None:
                return ExtMethod(o, n, b)
            if excclass(BaseException) in o.cls.mro() and n in ("args", "__cause__", "__traceback__", "__context__", "with_traceback"):
                return BinV("attr", (o, n))
            self.throw(AttributeError, n)
        if isinstance(o, ClassV):
            if n == "__name__" or n == "__qualname__":
                return o.name
            if n == "__dict__":
                return DictV(o.dict.items())
            if n == "__members__" and o.enum:
                return DictV((m.name, m) for m in self.members(o))
            for c in o.mro():
                if isinstance(c, ClassV) and n in c.dict:
                    v = c.dict[n]
                    if o.enum and isconst(v) and not n.startswith("_"):
                        return EnumV(o, n, v)
                    return self.bind(v, None, o)
            b = self.extbase(o)
            if b is not None:
                return self.extattr(b, n)
            if n in ("__doc__", "__module__"):
                return None
            if n == "__setattr__":
                return BuiltinV("object.__setattr__", lambda i, a, k, nd: self.setattr(a[0], a[1], a[2], nd))
            self.throw(AttributeError, n)
        if isinstance(o, EnumV):
            if n in ("value", "_value_"):
                return o.value
            if n == "name":
                return o.name
            v = self.classattr(o.cls, n)
            if isinstance(v, PropertyV):
                return self.call(v.fget, [o], {}, node)
            return self.bind(v, o, o.cls)
        if isinstance(o, ModuleV):
            if n in o.dict:
                return o.dict[n]
            m = self.load(o.name + "." + n) if o.file and o.file.endswith("__init__.py") else None
            if m is not None:
                return m
            if n == "__dict__":
                return GlobalsV(o)
            f = o.dict.get("__getattr__")
            if isinstance(f, FuncV):
                return self.call(f, [n], {}, node)
            self.throw(AttributeError, n)
        if isinstance(o, MsgV):
            if n in o.fields:
                return o.fields[n]
            if n == "DESCRIPTOR":
                return Ext("descriptor of " + o.cls.full, o.cls)
            if n in ("HasField", "CopyFrom", "MergeFrom", "SerializeToString", "ListFields", "WhichOneof", "ByteSize", "IsInitialized", "Clear", "SetInParent", "ClearField"):
                return ExtMethod(o, n, Ext("google.protobuf.message.Message"))
            self.throw(AttributeError, n)
        if isinstance(o, MsgClass):
            if n == "DESCRIPTOR":
                return Ext("descriptor of " + o.full, o)
            if n == "__name__":
                return o.name
            return Ext(o.full + "." + n)
        if isinstance(o, Ext) and isinstance(o.args, MsgClass):
            if n == "fields":
                return ListV([ObjLike({"name": f}) for f in o.args.fields])
            if n in ("fields_by_name",):
                return DictV((f, ObjLike({"name": f})) for f in o.args.fields)
            if n in ("name", "full_name"):
                return o.args.name if n == "name" else o.args.full
        if isinstance(o, ObjLike):
            if n in o.attrs:
                return o.attrs[n]
            self.throw(AttributeError, n)
        if isinstance(o, SuperV):
            m = (o.obj.cls if isinstance(o.obj, ObjV) else o.obj).mro()
            m = m[m.index(o.cls) + 1:]
            for c in m:
                if isinstance(c, ClassV) and n in c.dict:
                    return self.bind(c.dict[n], o.obj if isinstance(o.obj, ObjV) else None, o.obj.cls if isinstance(o.obj, ObjV) else o.obj)
                if isinstance(c, Ext):
                    return ExtMethod(o.obj, n, c)
            if n == "__init__" or n == "__init_subclass__":
                return BuiltinV("object." + n, lambda i, a, k, nd: None)
            if n in ("__setattr__",):
                return BuiltinV(n, lambda i, a, k, nd: self.rawset(o.obj, a[0], a[1]))
            if n in ("__getattribute__", "__getattr__"):
                return BuiltinV(n, lambda i, a, k, nd: self.getattr(o.obj, a[0], nd))
            if n == "__new__":
                return BuiltinV(n, lambda i, a, k, nd: ObjV(a[0]))
            self.throw(AttributeError, n)
        if isinstance(o, (FuncV, GenFn)):
            f = o.func if isinstance(o, GenFn) else o
            if n in f.attrs:
                return f.attrs[n]
            if n in ("__name__", "__qualname__"):
                return f.name
            if n in ("__doc__", "__module__"):
                return None
            if n == "__code__":
                a = f.node.args
                c = ObjV(ClassV("code", [], {}))
                names = [p.arg for p in a.posonlyargs + a.args]
                c.attrs = {"co_varnames": tuple(names + [p.arg for p in a.kwonlyargs]), "co_argcount": len(names), "co_name": f.name, "co_kwonlyargcount": len(a.kwonlyargs)}
                return c
            if n == "__defaults__":
                return tuple(f.defaults) or None
            if n == "__kwdefaults__":
                return DictV(f.kwdefaults.items()) if f.kwdefaults else None
            self.throw(AttributeError, n)
        if isinstance(o, BoundV):
            if n == "__self__":
                return o.obj
            if n == "__func__":
                return o.func
            return self.getattr(o.func, n, node)
        if isinstance(o, PartialV):
            if n in ("func",):
                return o.func
            self.throw(AttributeError, n)
        if isinstance(o, PropertyV):
            if n in ("setter", "getter"):
                return BuiltinV("property." + n, lambda i, a, k, nd: PropertyV(o.fget, a[0]) if n == "setter" else PropertyV(a[0], o.fset))
        if isinstance(o, (Ext, Sym, BinV)):
            if isinstance(o, Sym) and o.kind in ("int", "bool"):
                if n in ("real", "numerator"):
                    return o
                if n in ("__index__", "__int__"):
                    return BuiltinV(n, lambda i, a, k, nd: o)
                if n not in dir(int):
                    self.throw(AttributeError, n)
            return self.extattr(o, n)
        if isinstance(o, (CoroV, FutureV)):
            return BuiltinV("awaitable." + n, lambda i, a, k, nd: self.fail(nd, "method of an awaitable"))
        h = {ListV: "list", DictV: "dict", SetV: "set", str: "str", tuple: "tuple", bytes: "bytes", Fmt: "str", AttrsV: "dict", GlobalsV: "dict"}.get(type(o))
        if h:
            return MethodV(o, n)
        if isconst(o):
            if o is not None and hasattr(o, n) and not callable(getattr(o, n)):
                return getattr(o, n)
            if o is not None and hasattr(o, n):
                return MethodV(o, n)
            self.throw(AttributeError, n)
        if isinstance(o, BuiltinV):
            if o.name == "object" and n == "__setattr__":
                return BuiltinV("object.__setattr__", lambda i, a, k, nd: self.rawset(a[0], a[1], a[2]))
            if o.name == "object" and n == "__new__":
                return BuiltinV("object.__new__", lambda i, a, k, nd: ObjV(a[0]))
            if o.name == "dict" and n == "fromkeys":
                return BuiltinV("dict.fromkeys", lambda i, a, k, nd: DictV((x, a[1] if len(a) > 1 else None) for x in self.iterate(a[0], nd)))
            if n == "__name__":
                return o.name
        self.fail(node, f"attribute {n} of {o!r}")

    def extattr(self, o, n):
        if isinstance(o, Ext) and o.args is None:
            return Ext(o.path + "." + n)
        return Ext(f"{key(o)}.{n}", "obj")

    def rawset(self, o, n, v):
        o.attrs[n] = v
        self.note(o)

    def setattr(self, o, n, v, node):
        if isinstance(o, ObjV):
            p = self.classattr(o.cls, n)
            if isinstance(p, PropertyV) and not isinstance(p, CachedPropertyV):
                if p.fset is None:
                    self.throw(AttributeError, n)
                self.call(p.fset, [o, v], {}, node)
                return
            f = self.classattr(o.cls, "__setattr__")
            if isinstance(f, FuncV):
                self.call(BoundV(o, f), [n, v], {}, node)
                return
            if o.cls.fields is not None and getattr(o.cls, "frozen", False):
                self.throw(AttributeError, n)
            o.attrs[n] = v
            self.note(o)
        elif isinstance(o, ClassV):
            o.dict[n] = v
            self.note(o)
        elif isinstance(o, ModuleV):
            o.dict[n] = v
            self.note(o)
        elif isinstance(o, MsgV):
            if n not in o.fields:
                self.throw(AttributeError, n)
            o.fields[n] = v
            if o.origin is not None:
                o.origin = f"{o.origin} with {n}={key(v)}"
            self.note(o)
        elif isinstance(o, FuncV):
            o.attrs[n] = v
        elif isinstance(o, (Ext, Sym)):
            self.event("extset", obj=o, name=n, value=v)
        elif isinstance(o, BoundV):
            self.throw(AttributeError, n)
        else:
            self.fail(node, f"attribute assignment to {o!r}")

    # ---- calls

    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, fr), a))
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                for a, b in self.dictitems(self.ev(k.value, fr), e):
                    kw[a] = b
            else:
                kw[k.arg] = self.ev(k.value, fr)
        if isinstance(f, BuiltinV) and f.name == "super" and not args:
            if fr.env is None:
                self.throw(RuntimeError)
            fn, slf = fr.func, fr.first
            if fn is None or fn.cls is None:
                self.fail(e, "super()")
            return SuperV(fn.cls, slf)
        if isinstance(f, BuiltinV) and f.name in ("locals", "vars") and not args:
            return DictV((fr.env.vars if fr.env else fr.module.dict).items())
        if isinstance(f, BuiltinV) and f.name == "globals":
            return GlobalsV(fr.module)
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, node):
        self.depth += 1
        if self.depth > 120:
            self.throw(RecursionError)
        try:
            return self.call1(f, args, kw, node)
        finally:
            self.depth -= 1

    def call1(self, f, args, kw, node):
        if isinstance(f, FuncV):
            env = self.bindargs(f, args, kw, node)
            if isinstance(f.node, ast.AsyncFunctionDef):
                return CoroV(f, env)
            if isgen(f.node):
                out = []
                self.yields.append(lambda v: out.append(v))
                try:
                    self.runbody(f, env)
                finally:
                    self.yields.pop()
                return GenV(out)
            return self.runbody(f, env)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.obj] + list(args), kw, node)
        if isinstance(f, GenFn):
            return CMV(f.func, self.bindargs(f.func, args, kw, node))
        if isinstance(f, PartialV):
            k = dict(f.kwargs)
            k.update(kw)
            return self.call(f.func, list(f.args) + list(args), k, node)
        if isinstance(f, CacheV):
            k = (tuple(args), tuple(sorted(kw.items(), key=lambda i: i[0])))
            for a, v in f.memo:
                if len(a[0]) == len(k[0]) and all(self.eq(x, y, node) for x, y in zip(a[0], k[0])) and \
                        [n for n, _ in a[1]] == [n for n, _ in k[1]] and all(self.eq(x[1], y[1], node) for x, y in zip(a[1], k[1])):
                    return v
            v = self.call(f.func, args, kw, node)
            f.memo.append((k, v))
            self.note(f)
            return v
        if isinstance(f, BuiltinV):
            return f.fn(self, args, kw, node)
        if isinstance(f, MethodV):
            return self.method(f.obj, f.name, args, kw, node)
        if isinstance(f, ClassV):
            return self.construct(f, args, kw, node)
        if isinstance(f, MsgClass):
            if args:
                self.throw(TypeError)
            fields = {}
            for n, (default, kind) in f.fields.items():
                fields[n] = default
            for n, v in kw.items():
                if n not in f.fields:
                    self.throw(ValueError, n)
                if v is None:
                    continue
                if f.fields[n][1] == "int" and isinstance(v, str):
                    self.throw(TypeError)
                if f.fields[n][1] == "bool" and isinstance(v, int):
                    v = bool(v)
                if isinstance(v, EnumV):
                    v = v.value
                fields[n] = v
            return MsgV(f, fields)
        if isinstance(f, ExtMethod):
            return self.world.extmethod(self, f, args, kw, node)
        if isinstance(f, ObjV):
            m = self.classattr(f.cls, "__call__")
            if m is not None:
                return self.call(BoundV(f, m), args, kw, node)
            self.throw(TypeError)
        if isinstance(f, Ext):
            return self.world.extcall(self, f, args, kw, node)
        if isinstance(f, Sym) or isinstance(f, BinV):
            return self.world.extcall(self, Ext(key(f), "obj"), args, kw, node)
        if f is None or isconst(f) or isinstance(f, (StaticV, ListV, DictV, tuple, MsgV)):
            self.throw(TypeError, "not callable")
        self.fail(node, f"call of {f!r}")

    def construct(self, c, args, kw, node):
        if c.enum:
            for m in self.members(c):
                if self.eq(m.value, args[0], node):
                    return m
            self.throw(ValueError)
        nw = self.classattr(c, "__new__")
        if nw is not None:
            f = nw.func if isinstance(nw, StaticV) else nw
            o = self.call(f, [c] + list(args), kw, node)
            if not (isinstance(o, ObjV) and c in o.cls.mro()):
                return o
        else:
            o = ObjV(c)
        for b in c.mro():
            if isinstance(b, ClassV) and "__init__" in b.dict:
                i = b.dict["__init__"]
                self.call(BoundV(o, i) if isinstance(i, (FuncV, GenFn)) else i, args, kw, node)
                return o
            if isinstance(b, ClassV) and b.fields is not None:
                names = list(b.fields)
                if len(args) > len(names):
                    self.throw(TypeError)
                vals = dict(zip(names, args))
                for k, v in kw.items():
                    if k in vals or k not in names:
                        self.throw(TypeError)
                    vals[k] = v
                for n in names:
                    if n not in vals:
                        d = self.classattr(b, n)
                        if not any(isinstance(x, ClassV) and n in x.dict for x in b.mro()):
                            self.throw(TypeError)
                        vals[n] = d
                    o.attrs[n] = vals[n]
                p = self.classattr(c, "__post_init__")
                if isinstance(p, FuncV):
                    self.call(BoundV(o, p), [], {}, node)
                return o
            if isinstance(b, Ext):
                o.base = (b.path, list(args), dict(kw))
                return o
        if excclass(BaseException) in c.mro():
            o.attrs["args"] = tuple(args)
            return o
        if args or kw:
            self.throw(TypeError, "takes no arguments")
        return o

    def bindargs(self, f, args, kw, node):
        a = f.node.args
        env = Env(f.env)
        pos = a.posonlyargs + a.args
        vals, kw = {}, dict(kw)
        args = list(args)
        for p in pos:
            if args:
                if p.arg in kw and p not in a.posonlyargs:
                    self.throw(TypeError, f"multiple values for {p.arg}")
                vals[p.arg] = args.pop(0)
        if args and a.vararg is None:
            self.throw(TypeError, f"{f.name}() takes fewer positional arguments")
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args)
        for p in a.args + a.kwonlyargs:
            if p.arg not in vals and p.arg in kw:
                vals[p.arg] = kw.pop(p.arg)
        if kw and a.kwarg is None:
            self.throw(TypeError, f"{f.name}() got an unexpected keyword argument {next(iter(kw))}")
        if a.kwarg is not None:
            vals[a.kwarg.arg] = DictV(kw.items())
        for p, d in zip(pos[len(pos) - len(f.defaults):], f.defaults):
            vals.setdefault(p.arg, d)
        for k, d in f.kwdefaults.items():
            vals.setdefault(k, d)
        for p in pos + a.kwonlyargs:
            if p.arg not in vals:
                self.throw(TypeError, f"{f.name}() missing argument {p.arg}")
        env.vars = vals
        env.first = vals[pos[0].arg] if pos else None
        return env

    def runbody(self, f, env):
        self.funcs.add(f.qual)
        fr = Frame(f.module, env)
        fr.func, fr.first = f, getattr(env, "first", None)
        fr.node = f.node
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            self.block(f.node.body, fr)
        except ReturnEx as r:
            return r.value
        finally:
            self.frames.pop()
        return None

    # ---- methods of builtin values

    def method(self, o, n, args, kw, node):
        if isinstance(o, (AttrsV, GlobalsV)):
            o = DictV((o.obj.attrs if isinstance(o, AttrsV) else o.mod.dict).items()) if n in ("items", "keys", "values", "get", "copy") else o
            if isinstance(o, AttrsV) and n == "update":
                for a in args:
                    for k, v in self.dictitems(a, node, True):
                        o.obj.attrs[k] = v
                o.obj.attrs.update(kw)
                self.note(o.obj)
                return None
        if isinstance(o, DictV):
            if n == "items":
                return ListV(tuple(i) for i in o.items)
            if n == "keys":
                return ListV(i[0] for i in o.items)
            if n == "values":
                return ListV(i[1] for i in o.items)
            if n == "copy":
                return DictV(o.items)
            if n in ("get", "pop", "setdefault"):
                for i in o.items:
                    if self.eq(i[0], args[0], node):
                        if n == "pop":
                            o.items.remove(i)
                            self.note(o)
                        return i[1]
                if n == "setdefault":
                    o.items.append([args[0], args[1] if len(args) > 1 else None])
                    self.note(o)
                    return o.items[-1][1]
                if n == "pop" and len(args) < 2:
                    self.throw(KeyError, args[0])
                return args[1] if len(args) > 1 else None
            if n == "update":
                for a in args:
                    for k, v in self.dictitems(a, node, True):
                        o.set(k, v)
                for k, v in kw.items():
                    o.set(k, v)
                self.note(o)
                return None
            if n == "clear":
                o.items.clear()
                self.note(o)
                return None
        if isinstance(o, ListV):
            if n in ("append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse"):
                self.note(o)
            if n == "append":
                o.items.append(args[0])
                return None
            if n == "extend":
                o.items.extend(self.iterate(args[0], node))
                return None
            if n == "insert" and isinstance(args[0], int):
                o.items.insert(args[0], args[1])
                return None
            if n == "copy":
                return ListV(o.items)
            if n == "clear":
                o.items.clear()
                return None
            if n == "reverse":
                o.items.reverse()
                return None
            if n == "pop":
                try:
                    return o.items.pop(*args)
                except IndexError:
                    self.throw(IndexError)
            if n in ("index", "remove"):
                for i, x in enumerate(o.items):
                    if self.eq(x, args[0], node):
                        if n == "index":
                            return i
                        del o.items[i]
                        return None
                self.throw(ValueError)
        if isinstance(o, tuple) and n == "index":
            for i, x in enumerate(o):
                if self.eq(x, args[0], node):
                    return i
            self.throw(ValueError)
        if isinstance(o, SetV):
            if n == "add":
                if not any(self.eq(x, args[0], node) for x in o.items):
                    o.items.append(args[0])
                self.note(o)
                return None
            if n in ("discard", "remove"):
                o.items = [x for x in o.items if not self.eq(x, args[0], node)]
                self.note(o)
                return None
            if n in ("union",):
                return SetV(o.items + [x for a in args for x in self.iterate(a, node)])
        if isinstance(o, str) and n == "format":
            return self.strformat(o, args, kw, node)
        if isinstance(o, str) and n == "join":
            it = self.iterate(args[0], node)
            parts = []
            for i, x in enumerate(it):
                if i:
                    parts.append(o)
                parts.append(x)
            return mkfmt(parts)
        if isconst(o) and all(isconst(a) or isinstance(a, tuple) and all(map(isconst, a)) for a in args) and not kw:
            try:
                r = getattr(o, n)(*args)
            except Exception as x:
                self.throw(type(x) if type(x) in _hosts else TypeError, str(x))
            if isinstance(r, list):
                return ListV(r)
            return r
        if isinstance(o, (str, Fmt)):
            return BinV("str." + n, (o,) + tuple(args))
        self.fail(node, f"method {n} of {o!r}")

    def strformat(self, s, args, kw, node):
        import string
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            parts.append(lit)
            if field is None:
                continue
            if field == "":
                field, auto = str(auto), auto + 1
            if spec or conv or "." in field or "[" in field:
                parts.append(BinV("format", (field,) + tuple(args)))
                continue
            v = args[int(field)] if field.isdigit() else kw[field]
            parts.append(self.tostr(v, -1, node))
        return mkfmt(parts)

    # ---- builtins

    def mkbuiltins(self):
        d = dict(builtin_exceptions())

        def b(name):
            def reg(f):
                d[name] = BuiltinV(name, f)
                return f
            return reg

        @b("isinstance")
        def _(i, a, k, nd):
            return i.isinstance(a[0], a[1], nd)

        @b("issubclass")
        def _(i, a, k, nd):
            return isinstance(a[0], ClassV) and any(a[0] is not None and t in a[0].mro() for t in (a[1] if isinstance(a[1], tuple) else (a[1],)))

        @b("callable")
        def _(i, a, k, nd):
            return isinstance(a[0], (FuncV, BoundV, ClassV, PartialV, BuiltinV, MsgClass, ExtMethod, CacheV))

        @b("len")
        def _(i, a, k, nd):
            v = a[0]
            if isinstance(v, (ListV, SetV, DictV)):
                return len(v.items)
            if isinstance(v, (tuple, str, bytes, range)):
                return len(v)
            if isinstance(v, (Sym, Fmt, Ext, BinV)):
                return BinV("len", (v,))
            if isinstance(v, ClassV) and v.enum:
                return len(i.members(v))
            i.throw(TypeError)

        @b("range")
        def _(i, a, k, nd):
            a = [i.known(x.value if isinstance(x, EnumV) else x) for x in a]
            if all(isinstance(x, int) for x in a):
                return range(*a)
            i.fail(nd, "range")

        @b("getattr")
        def _(i, a, k, nd):
            if not isinstance(a[1], str):
                i.fail(nd, "getattr")
            if len(a) > 2:
                try:
                    return i.getattr(a[0], a[1], nd)
                except PyRaise as e:
                    if isinstance(e.value, ObjV) and excclass(AttributeError) in e.value.cls.mro():
                        return a[2]
                    raise
            return i.getattr(a[0], a[1], nd)

        @b("setattr")
        def _(i, a, k, nd):
            if not isinstance(a[1], str):
                i.fail(nd, "setattr")
            i.setattr(a[0], a[1], a[2], nd)

        @b("hasattr")
        def _(i, a, k, nd):
            try:
                i.getattr(a[0], a[1], nd)
                return True
            except PyRaise:
                return False

        @b("vars")
        def _(i, a, k, nd):
            return i.getattr(a[0], "__dict__", nd)

        @b("dir")
        def _(i, a, k, nd):
            if isinstance(a[0], MsgV):
                return ListV(a[0].fields)
            i.fail(nd, "dir")

        @b("type")
        def _(i, a, k, nd):
            if len(a) == 3:
                c = ClassV(a[0], list(a[1]), {x: y for x, y in i.dictitems(a[2], nd)}, None)
                return c
            v = a[0]
            if isinstance(v, ObjV):
                return v.cls
            if isinstance(v, MsgV):
                return v.cls
            if lin(v):
                return d["int"]
            if isinstance(v, Sym) and v.kind in d:
                return d[v.kind]
            if isconst(v) and v is not None:
                return d[type(v).__name__]
            for h, n in ((ListV, "list"), (DictV, "dict"), (tuple, "tuple"), (SetV, "set"), (Fmt, "str")):
                if isinstance(v, h):
                    return d[n]
            return Ext("type of " + key(v), "obj")

        @b("int")
        def _(i, a, k, nd):
            if not a:
                return 0
            v = a[0]
            if lin(v):
                return v
            if isinstance(v, EnumV):
                return v.value
            if isinstance(v, (int, float)) or isinstance(v, str):
                try:
                    return int(v, *a[1:])
                except ValueError:
                    i.throw(ValueError)
            if v is None or isinstance(v, (ListV, DictV, tuple)):
                i.throw(TypeError)
            return BinV("int", (v,))

        @b("float")
        def _(i, a, k, nd):
            v = a[0] if a else 0
            if lin(v):
                return v  # equal to it
            if isinstance(v, (int, float)):
                return float(v)
            if v is None:
                i.throw(TypeError)
            if isinstance(v, Sym) and v.kind == "float":
                return v
            return BinV("float", (v,))

        @b("bool")
        def _(i, a, k, nd):
            if a and isinstance(a[0], Sym) and a[0].kind == "bool":
                return a[0]
            return i.truth(a[0], nd) if a else False

        @b("str")
        def _(i, a, k, nd):
            if not a:
                return ""
            if isinstance(a[0], Sym) and a[0].kind == "str":
                return a[0]
            v = i.tostr(a[0], -1, nd)
            return v if isinstance(v, (str, Fmt)) else mkfmt([v])

        @b("repr")
        def _(i, a, k, nd):
            return repr(a[0]) if isconst(a[0]) else BinV("repr", (a[0],))

        @b("format")
        def _(i, a, k, nd):
            return BinV("format", tuple(a))

        @b("round")
        def _(i, a, k, nd):
            if lin(a[0]) or isinstance(a[0], int):
                return a[0]
            return BinV("round", tuple(a))

        @b("abs")
        def _(i, a, k, nd):
            x = lin(a[0])
            if x:
                return a[0] if i.cmpint(x, ">=", 0) else mklin(x.sym, -x.a, -x.b)
            if isinstance(a[0], (int, float)):
                return abs(a[0])
            return BinV("abs", tuple(a))

        def extreme(op):
            def f(i, a, k, nd):
                it = i.iterate(a[0], nd) if len(a) == 1 else list(a)
                if "key" in k:
                    i.fail(nd, "key=")
                r = it[0]
                for x in it[1:]:
                    if i.compare(op, x, r, nd):
                        r = x
                return r
            return f
        d["min"] = BuiltinV("min", extreme(ast.Lt()))
        d["max"] = BuiltinV("max", extreme(ast.Gt()))

        @b("sum")
        def _(i, a, k, nd):
            r = a[1] if len(a) > 1 else 0
            for x in i.iterate(a[0], nd):
                r = i.binop(ast.Add(), r, x, nd)
            return r

        def quant(want):
            def f(i, a, k, nd):
                v = a[0]
                if isinstance(v, LazyV):
                    class Stop(Exception):
                        pass

                    def emit(fr):
                        if i.truth(i.ev(v.node.elt, fr), nd) == want:
                            raise Stop()
                    try:
                        i.comp(v.node.generators, v.fr, emit)
                    except Stop:
                        return want
                    return not want
                for x in i.iterate(v, nd):
                    if i.truth(x, nd) == want:
                        return want
                return not want
            return f
        d["any"] = BuiltinV("any", quant(True))
        d["all"] = BuiltinV("all", quant(False))

        d["list"] = BuiltinV("list", lambda i, a, k, nd: ListV(i.iterate(a[0], nd) if a else []))
        d["tuple"] = BuiltinV("tuple", lambda i, a, k, nd: tuple(i.iterate(a[0], nd) if a else []))
        d["set"] = BuiltinV("set", lambda i, a, k, nd: SetV(i.iterate(a[0], nd) if a else []))
        d["frozenset"] = BuiltinV("frozenset", lambda i, a, k, nd: SetV(i.iterate(a[0], nd) if a else [], True))
        d["iter"] = BuiltinV("iter", lambda i, a, k, nd: GenV(i.iterate(a[0], nd)))
        d["reversed"] = BuiltinV("reversed", lambda i, a, k, nd: ListV(list(reversed(i.iterate(a[0], nd)))))
        d["enumerate"] = BuiltinV("enumerate", lambda i, a, k, nd: ListV(enumerate(i.iterate(a[0], nd), a[1] if len(a) > 1 else k.get("start", 0))))
        d["zip"] = BuiltinV("zip", lambda i, a, k, nd: ListV(zip(*[i.iterate(x, nd) for x in a])))
        d["map"] = BuiltinV("map", lambda i, a, k, nd: ListV([i.call(a[0], list(x), {}, nd) for x in zip(*[i.iterate(y, nd) for y in a[1:]])]))
        d["filter"] = BuiltinV("filter", lambda i, a, k, nd: ListV([x for x in i.iterate(a[1], nd) if i.truth(i.call(a[0], [x], {}, nd) if a[0] is not None else x, nd)]))

        @b("next")
        def _(i, a, k, nd):
            it = i.iterate(a[0], nd)
            if it:
                if isinstance(a[0], GenV):
                    a[0].items.pop(0)
                return it[0]
            if len(a) > 1:
                return a[1]
            i.throw(StopIteration)

        @b("sorted")
        def _(i, a, k, nd):
            it = i.iterate(a[0], nd)
            if all(isinstance(x, (int, float)) for x in it) or all(isinstance(x, str) for x in it):
                return ListV(sorted(it, reverse=bool(k.get("reverse", False))))
            i.fail(nd, "sorted")

        @b("dict")
        def _(i, a, k, nd):
            r = DictV()
            if a:
                if isinstance(a[0], (DictV, AttrsV)):
                    for x, y in i.dictitems(a[0], nd):
                        r.set(x, y)
                else:
                    for p in i.iterate(a[0], nd):
                        x, y = i.iterate(p, nd)
                        r.set(x, y)
            for x, y in k.items():
                r.set(x, y)
            return r

        d["staticmethod"] = BuiltinV("staticmethod", lambda i, a, k, nd: StaticV(a[0]))
        d["classmethod"] = BuiltinV("classmethod", lambda i, a, k, nd: ClassMethodV(a[0]))
        d["property"] = BuiltinV("property", lambda i, a, k, nd: PropertyV(a[0], a[1] if len(a) > 1 else None))
        d["super"] = BuiltinV("super", lambda i, a, k, nd: SuperV(a[0], a[1]))
        d["object"] = BuiltinV("object", lambda i, a, k, nd: ObjV(ClassV("object", [], {})))
        d["print"] = BuiltinV("print", lambda i, a, k, nd: None)
        d["id"] = BuiltinV("id", lambda i, a, k, nd: BinV("id", tuple(a)))
        d["hash"] = BuiltinV("hash", lambda i, a, k, nd: BinV("hash", tuple(a)))
        d["globals"] = BuiltinV("globals", None)
        d["locals"] = BuiltinV("locals", None)
        d["bytes"] = BuiltinV("bytes", lambda i, a, k, nd: b"" if not a else bytes(a[0]) if isinstance(a[0], (bytes, int)) else i.fail(nd, "bytes"))
        d["divmod"] = BuiltinV("divmod", lambda i, a, k, nd: (i.binop(ast.FloorDiv(), a[0], a[1], nd), i.binop(ast.Mod(), a[0], a[1], nd)))
        d["NotImplemented"] = Ext("NotImplemented")
        d["__debug__"] = True
        d["__import__"] = BuiltinV("__import__", lambda i, a, k, nd: i.resolve(a[0]))
        return d


_hosts = {v for v in vars(__import__("builtins")).values() if isinstance(v, type) and issubclass(v, BaseException)}


def isgen(node):
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Frame:
    def __init__(self, module, env):
        self.module, self.env, self.node = module, env, None
        self.func, self.first = None, None
        self.classbody = False

    def scope(self):
        return self.module.dict if self.env is None else self.env.vars


class GlobalsV:
    def __init__(self, mod):
        self.mod = mod


class AttrsV:
    def __init__(self, obj):
        self.obj = obj


class ObjLike:
    def __init__(self, attrs):
        self.attrs = attrs


class MethodV:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class LazyV:
    def __init__(self, node, fr):
        self.node, self.fr = node, fr


class GenV:
    def __init__(self, items):
        self.items = items


class PartialMethodV:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class EnumV:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"

    def __eq__(self, o):
        return isinstance(o, EnumV) and o.cls is self.cls and o.name == self.name

    def __hash__(self):
        return hash((id(self.cls), self.name))
