"""What the Python client meets outside of its package: asyncio, protobuf,
twirp.  Each is modelled by what its documentation promises."""
import schema
from absint import *  # noqa: F403
from absint import GlobalsV, AttrsV, PartialMethodV, CachedPropertyV, GenFn, ExtMethod, BuiltinV, excclass, isgen

CODES = {"NoError": "", "Canceled": "canceled", "Unknown": "unknown", "InvalidArgument": "invalid_argument", "Malformed": "malformed", "DeadlineExceeded": "deadline_exceeded", "NotFound": "not_found", "BadRoute": "bad_route", "AlreadyExists": "already_exists", "PermissionDenied": "permission_denied", "Unauthenticated": "unauthenticated", "ResourceExhausted": "resource_exhausted", "FailedPrecondition": "failed_precondition", "Aborted": "aborted", "OutOfRange": "out_of_range", "Unimplemented": "unimplemented", "Internal": "internal", "Unavailable": "unavailable", "DataLoss": "data_loss"}
ERRORS = "twirp.errors.Errors."
TWEXC = "twirp.exceptions.TwirpServerException"
KINDS = {"bool": ("bool", False), "string": ("str", ""), "bytes": ("bytes", b""), "float": ("float", 0.0), "double": ("float", 0.0)}

_ext = {}


def extclass(path):
    """The class of an exception that another package raises."""
    if path not in _ext:
        c = ClassV(path.split(".")[-1], [Ext(path)], {}, "ext")
        _ext[path] = c
    return _ext[path]


class World:
    def __init__(self, path, given=True, running=True, cdesc=True):
        self.path, self.given, self.running, self.cdesc = path, given, running, cdesc
        self.phase = "init"
        self.off = []       # loops whose executor the call runs on
        self.file = None    # descriptor of the Python package
        self.raw = None
        self.codes = {}     # code symbol -> possible codes
        self.classes = {}
        self.rpcs = 0
        self.problems = []

    # ---- names and comparisons

    def codeof(self, v):
        """(code symbol, accessor) of a value derived from an error's code."""
        if isinstance(v, Sym) and v.kind == "code":
            return v, ""
        if isinstance(v, Ext) and v.path.startswith("code#"):
            n, _, a = v.path.partition(".")
            if a in ("value", "name", "_value_", "_name_"):
                return Sym(n, "code"), a.strip("_")
        return None, None

    def constof(self, v, acc):
        """The code a constant stands for."""
        if isinstance(v, Ext) and v.args is None and v.path.startswith(ERRORS):
            n, _, a = v.path[len(ERRORS):].partition(".")
            if a.strip("_") == acc:
                return n
            return None
        if isinstance(v, str) and acc:
            for n, s in CODES.items():
                if (s if acc == "value" else n) == v:
                    return n
        return None

    def distinct(self, a, b):
        if a.args is None and b.args is None and a.path.startswith(ERRORS) and b.path.startswith(ERRORS):
            return a.path != b.path
        return None

    def eqcode(self, interp, a, b):
        for x, y in ((a, b), (b, a)):
            s, acc = self.codeof(x)
            if s is not None:
                if self.codeof(y)[0] is not None:
                    return None
                c = self.constof(y, acc)
                if c is None:
                    return False if y is None or isinstance(y, (str, int, Ext)) else None
                poss = self.codes.setdefault(s.name, set(CODES))
                if c not in poss:
                    return False
                if len(poss) == 1:
                    return True
                if self.path.choose(2, f"{s.name} is {c}") == 0:
                    self.codes[s.name] = {c}
                    return True
                self.codes[s.name] = poss - {c}
                return False
            if isinstance(x, Ext) and x.path.endswith("._USE_C_DESCRIPTORS"):
                return self.cdesc == y if isinstance(y, bool) else None
            if isinstance(x, Ext) and isinstance(y, str) and x.args is None and x.path.startswith(ERRORS):
                n, _, acc = x.path[len(ERRORS):].partition(".")
                if acc in ("value", "name"):
                    return y == (CODES.get(n) if acc == "value" else n)
        return None

    def excmatch(self, interp, exc, typ):
        if not isinstance(exc, ObjV):
            return interp.ask(f"{key(exc)} is a {key(typ)}")
        if exc.cls.module != "ext":
            # one of the package or a builtin
            if isinstance(typ, Ext) and any(isinstance(b, Ext) for b in exc.cls.mro()):
                return interp.ask(f"{exc.cls.name} is a {typ.path}")
            return False
        path = exc.cls.bases[0].path
        if isinstance(typ, Ext) and typ.path == path:
            return True
        if path == TWEXC:
            return False if isinstance(typ, ClassV) else typ.path in ("twirp.exceptions.TwirpException",)
        if isinstance(typ, Ext) and typ.path == TWEXC:
            return False
        if isinstance(typ, ClassV) and typ.module != "builtins":
            return False
        return interp.ask(f"{path} is a {typ.name if isinstance(typ, ClassV) else typ.path}")

    # ---- asyncio

    def getloop(self, interp):
        if self.off:
            interp.throw(RuntimeError, "no running event loop")
        if self.phase == "init":
            if self.running:
                return Sym("loop:running", "loop")
            interp.throw(RuntimeError, "no running event loop")
        if self.phase == "sync":
            interp.throw(RuntimeError, "no running event loop")
        return Sym("loop:call", "loop")

    def offload(self, interp, loop, f, args, kw, node):
        self.off.append(loop)
        try:
            return FutureV(value=interp.call(f, args, kw, node))
        except PyRaise as e:
            return FutureV(exc=e.value)
        finally:
            self.off.pop()

    def await_(self, interp, v, node):
        interp.fail(node, f"await {key(v)}")

    # ---- objects of other packages

    def msgclass(self, full):
        if self.file is None or full not in self.file["messages"]:
            return None
        if full not in self.classes:
            d = {}
            for n, f in self.file["messages"][full].items():
                kind, default = KINDS.get(f["type"], ("int", 0))
                if f["repeated"] or f["type"] in self.file["messages"]:
                    kind, default = "obj", None
                d[n] = (default, kind)
            self.classes[full] = MsgClass(full, d)
        return self.classes[full]

    def symbol(self, interp, full):
        if not isinstance(full, str):
            raise Unsupported("a message is looked up by a name that is not constant")
        c = self.msgclass(full)
        if c is None:
            interp.throw(KeyError, full)
        return c

    def missing_global(self, interp, mod, k):
        interp.throw(KeyError, k)

    def objattr(self, interp, obj, base, n):
        if obj.cls.module == "ext":
            if n in ("code", "_code") and base.path == TWEXC:
                return obj.attrs["code"]
            return Ext(f"{key(obj)}.{n}", "obj")
        if base.path.endswith("TwirpClient"):
            if n == "_address":
                return self.address(interp, obj)
            if n == "_timeout":
                return Ext("timeout of the client", "obj")
        return NotImplemented

    def address(self, interp, obj):
        if obj.base is None:
            raise Unsupported("the RPC client's base class is not initialised")
        _, args, kw = obj.base
        if args:
            return args[0]
        if "address" in kw:
            return kw["address"]
        interp.throw(TypeError, "address")

    def extmethod(self, interp, m, args, kw, node):
        o = m.obj
        if isinstance(o, MsgV):
            if m.name in ("CopyFrom", "MergeFrom") and args and isinstance(args[0], MsgV) and m.name == "CopyFrom":
                o.fields = dict(args[0].fields)
                o.origin = None
                interp.note(o)
                return None
            if m.name == "Clear":
                for n, (d, _) in o.cls.fields.items():
                    o.fields[n] = d
                o.origin = None
                interp.note(o)
                return None
            interp.fail(node, f"method {m.name} of a message")
        if m.name == "__init__":
            o.base = (m.base.path, list(args), dict(kw))
            return None
        if m.name == "__init_subclass__":
            return None
        if isinstance(o, ObjV) and m.base.path.endswith("TwirpClient") and m.name == "_make_request":
            return self.rpc(interp, o, kw, node)
        if isinstance(o, ObjV) and m.base.path.endswith("TwirpServer"):
            return Ext(f"{key(o)}.{m.name}()", "obj")
        interp.fail(node, f"method {m.name} of {m.base.path}")

    def rpc(self, interp, o, kw, node):
        for n in ("url", "ctx", "request", "response_obj"):
            if n not in kw:
                interp.throw(TypeError, n)
        req, rc = kw["request"], kw["response_obj"]
        self.rpcs += 1
        n = self.rpcs
        if not isinstance(req, MsgV):
            interp.fail(node, f"request {key(req)}")
        if not isinstance(rc, MsgClass):
            interp.fail(node, f"response class {key(rc)}")
        url = mkfmt([self.address(interp, o), kw["url"]])
        e = interp.event("rpc", n=n, url=url, type=req.cls.full, req=dict(req.fields), resp=rc.full, off=self.off[-1] if self.off else None)
        e["outcome"] = self.path.choose(3, "answer")
        if e["outcome"] == 0:
            return MsgV(rc, {f: Sym(f"resp#{n}.{f}", k) for f, (_, k) in rc.fields.items()}, f"resp#{n}")
        if e["outcome"] == 1:
            x = ObjV(extclass(TWEXC))
            x.attrs["code"] = Sym(f"code#{n}", "code")
        else:
            x = ObjV(extclass("requests.exceptions.OtherError"))
        e["exc"] = x
        raise PyRaise(x)

    CALLABLE = (FuncV, BoundV, PartialV, CoroV, GenFn)

    def extcall(self, interp, f, args, kw, node):
        p = f.path
        if p == "functools.partial":
            return PartialV(args[0], list(args[1:]), dict(kw))
        if p == "functools.partialmethod":
            return PartialMethodV(args[0], list(args[1:]), dict(kw))
        if p == "functools.wraps":
            return BuiltinV("wraps", lambda i, a, k, nd: wrap(interp, a[0], args[0]))
        if p == "functools.update_wrapper":
            return wrap(interp, args[0], args[1])
        if p == "inspect.signature":
            return signature(interp, args[0], node)
        if p in ("functools.lru_cache", "functools.cache"):
            if args and isinstance(args[0], (FuncV, BoundV)):
                return CacheV(args[0])
            return BuiltinV("lru_cache", lambda i, a, k, nd: CacheV(a[0]))
        if p in ("functools.cached_property", "cached_property.cached_property"):
            return CachedPropertyV(args[0])
        if p == "functools.reduce":
            it = interp.iterate(args[1], node)
            acc = [args[2]] if len(args) > 2 else []
            for x in it:
                acc = [x] if not acc else [interp.call(args[0], [acc[0], x], {}, node)]
            return acc[0]
        if p in ("contextlib.contextmanager", "contextlib.asynccontextmanager"):
            return GenFn(args[0])
        if p == "contextlib.suppress":
            return Ext("contextlib.suppress(", list(args))
        if p == "contextlib.nullcontext":
            return Ext("contextlib.nullcontext()", "obj")
        if p == "abc.abstractmethod" or p in ("typing.cast",):
            return args[-1]
        if p in ("typing.overload", "typing.final", "typing.no_type_check", "typing_extensions.override"):
            return args[0]
        if p in ("copy.copy", "copy.deepcopy") and args:
            v = args[0]
            if isinstance(v, MsgV):
                return MsgV(v.cls, dict(v.fields), v.origin)
            if isinstance(v, ListV):
                return ListV(v.items)
            if isinstance(v, DictV):
                return DictV(v.items)
            if isinstance(v, (Sym, Ext)) or isconst(v):
                return v
        if p == "dataclasses.dataclass":
            def deco(i, a, k, nd):
                c = a[0]
                names = []
                for b in reversed([x for x in c.mro() if isinstance(x, ClassV)]):
                    for n, _ in getattr(b, "ann", []):
                        if n not in names:
                            names.append(n)
                c.fields = names
                c.frozen = kw.get("frozen") is True
                return c
            if args:
                return deco(interp, args, {}, node)
            return BuiltinV("dataclass", deco)
        if p == "operator.attrgetter" and all(isinstance(a, str) for a in args):
            def getter(i, a, k, nd):
                out = []
                for n in args:
                    v = a[0]
                    for part in n.split("."):
                        v = i.getattr(v, part, nd)
                    out.append(v)
                return out[0] if len(out) == 1 else tuple(out)
            return BuiltinV("attrgetter", getter)
        if p == "operator.methodcaller":
            return BuiltinV("methodcaller", lambda i, a, k, nd: i.call(i.getattr(a[0], args[0], nd), list(args[1:]), kw, nd))
        if p == "types.MappingProxyType" and isinstance(args[0], DictV):
            return args[0]
        # asyncio
        if p in ("asyncio.get_running_loop", "asyncio.events.get_running_loop"):
            return self.getloop(interp)
        if p in ("asyncio.get_event_loop", "asyncio.events.get_event_loop"):
            try:
                return self.getloop(interp)
            except PyRaise:
                return Sym("loop:default", "loop")
        if p == "asyncio.new_event_loop":
            return Sym("loop:new", "loop")
        if p in ("asyncio._get_running_loop",):
            try:
                return self.getloop(interp)
            except PyRaise:
                return None
        if p == "asyncio.to_thread":
            loop = self.getloop(interp)
            return self.offload(interp, loop, args[0], list(args[1:]), dict(kw), node)
        if p in ("asyncio.create_task", "asyncio.ensure_future"):
            return self.task(interp, args[0], node)
        if p in ("asyncio.shield",):
            return args[0] if isinstance(args[0], FutureV) else self.task(interp, args[0], node)
        if p == "asyncio.wait_for" and (len(args) > 1 and args[1] is None or kw.get("timeout", 0) is None):
            return args[0] if isinstance(args[0], FutureV) else self.task(interp, args[0], node)
        if p in ("asyncio.iscoroutinefunction", "inspect.iscoroutinefunction"):
            import ast
            g = args[0].func if isinstance(args[0], BoundV) else args[0]
            return isinstance(g, FuncV) and isinstance(g.node, ast.AsyncFunctionDef)
        if p in ("inspect.isawaitable", "inspect.iscoroutine", "asyncio.iscoroutine"):
            return isinstance(args[0], (CoroV, FutureV))
        if p == "asyncio.sleep":
            return FutureV(value=args[1] if len(args) > 1 else None)
        if p.startswith("loop:"):
            name, _, meth = p.partition(".")
            if meth == "run_in_executor":
                if len(args) < 2:
                    interp.throw(TypeError)
                return self.offload(interp, Sym(name, "loop"), args[1], list(args[2:]), dict(kw), node)
            if meth == "create_task":
                return self.task(interp, args[0], node)
            if meth in ("is_running", "is_closed", "time"):
                return Ext(f"{p}()", "obj")
            interp.fail(node, f"method {meth} of the event loop")
        # protobuf
        last = p.split(".")[-1]
        if last == "AddSerializedFile" and "descriptor_pool" in p:
            if not isinstance(args[0], bytes):
                interp.fail(node, "the descriptor is not constant")
            try:
                self.file = schema.parse_file(args[0])
            except (schema.Bad, UnicodeDecodeError) as x:
                interp.fail(node, f"the descriptor cannot be read: {x}")
            self.raw = args[0]
            return Ext("file descriptor", None)
        if last in ("BuildMessageAndEnumDescriptors", "BuildTopDescriptorsAndMessages") and "builder" in p:
            d = args[-1]
            if not isinstance(d, GlobalsV) or self.file is None:
                interp.fail(node, last)
            pk = self.file["package"] + "."
            short = lambda n: n[len(pk):]
            if last == "BuildMessageAndEnumDescriptors":
                for n in list(self.file["messages"]) + list(self.file["enums"]):
                    d.mod.dict["_" + short(n).replace(".", "_").upper()] = Ext("descriptor " + n)
            else:
                for n in self.file["messages"]:
                    if "." not in short(n):
                        d.mod.dict[short(n)] = self.msgclass(n)
                for n, vals in self.file["enums"].items():
                    if "." not in short(n):
                        d.mod.dict.update(vals)
                for n in self.file["services"]:
                    d.mod.dict["_" + short(n).upper()] = Ext("descriptor " + n)
            return None
        if last in ("GetSymbol", "GetPrototype", "GetMessageClass") and args:
            if isinstance(args[0], Ext) and isinstance(args[0].args, MsgClass):
                return args[0].args
            return self.symbol(interp, args[0])
        for a in list(args) + list(kw.values()):
            if isinstance(a, self.CALLABLE) and not p.startswith(("logging.", "twirp.base.Endpoint")):
                interp.fail(node, f"call of {p} with a function")
        if f.args is None and (last.endswith("Exception") or last.endswith("Error") or last.endswith("Warning")):
            x = ObjV(extclass(p))
            x.attrs["code"] = kw.get("code", args[0] if args else None)
            return x
        if f.args is None and p == "twirp.base.Endpoint":
            return Ext("endpoint", dict(kw))
        if p.endswith("Errors") and args:  # a code by value
            if isinstance(args[0], str) and args[0] in CODES.values():
                return Ext(ERRORS + [n for n, v in CODES.items() if v == args[0]][0])
        det = ("google.protobuf.symbol_database.Default", "google.protobuf.descriptor_pool.Default", "typing.", "logging.")
        if p.startswith(det):
            return Ext(p + "()", None)
        self.path.uniq += 1
        return Ext(f"{p}()#{self.path.uniq}", "obj")

    def task(self, interp, v, node):
        if isinstance(v, FutureV):
            return v
        try:
            return FutureV(value=interp.await_(v, node))
        except PyRaise as e:
            return FutureV(exc=e.value)


def wrap(interp, f, g):
    """f after functools.update_wrapper(f, g)."""
    if isinstance(f, FuncV):
        h = g
        while isinstance(h, (BoundV, CacheV, PartialV)):
            h = h.func
        if isinstance(h, FuncV):
            f.attrs.setdefault("__name__", h.attrs.get("__name__", h.name))
        f.attrs["__wrapped__"] = g
        f.attrs["__doc__"] = None
    return f


def signature(interp, f, node):
    obj = ()
    while True:
        if isinstance(f, BoundV):
            obj, f = (f.obj,), f.func
        elif isinstance(f, CacheV):
            f = f.func
        elif isinstance(f, FuncV) and "__wrapped__" in f.attrs:
            f = f.attrs["__wrapped__"]
        else:
            break
    if not isinstance(f, FuncV):
        interp.fail(node, "signature")
    a = f.node.args
    names = [p.arg for p in a.posonlyargs + a.args]
    every = names + ([a.vararg.arg] if a.vararg else []) + [p.arg for p in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])

    def bind(i, args, kw, nd):
        g = FuncV(f.node, f.module, f.env, [UNSET] * len(f.defaults), {k: UNSET for k in f.kwdefaults}, f.qual, f.cls)
        env = i.bindargs(g, list(obj) + list(args), kw, nd)
        o = ObjV(ClassV("BoundArguments", [], {}))
        vals = {k: env.vars[k] for k in every[len(obj):] if env.vars.get(k, UNSET) is not UNSET}
        o.attrs["arguments"] = DictV(vals.items())
        dflt = dict(zip(names[len(names) - len(f.defaults):], f.defaults))
        dflt.update(f.kwdefaults)

        def fill(i2, a2, k2, n2):
            now = dict(o.attrs["arguments"].items)
            o.attrs["arguments"] = DictV([(k, now.get(k, dflt.get(k))) for k in every[len(obj):] if k in now or k in dflt])
        o.attrs["apply_defaults"] = BuiltinV("apply_defaults", fill)
        o.attrs["args"] = tuple(vals[k] for k in names[len(obj):] if k in vals)
        o.attrs["kwargs"] = DictV((k, v) for k, v in vals.items() if k not in names)
        return o
    s = ObjV(ClassV("Signature", [], {}))
    s.attrs["bind"] = BuiltinV("bind", bind)
    s.attrs["parameters"] = DictV((k, Ext("parameter " + k, "obj")) for k in every[len(obj):])
    return s


UNSET = Ext("unset", "obj")
