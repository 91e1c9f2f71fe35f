#!/usr/bin/env python3
"""Decides the properties of the Python client (C28 to C32) from its source.

The package is interpreted abstractly (py/absint.py) in a model of what it
imports (py/world.py); nothing of it is run.  The Go side's facts come from
the Go analyser (comfocheck -facts)."""
import argparse
import json
import os
import re
import subprocess
import sys
import time
import zlib

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "py"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import schema  # noqa: E402
from absint import *  # noqa: E402,F403
from absint import CacheV, EnumV, AttrsV, GlobalsV, GenFn, BuiltinV, Env, PartialMethodV, StaticV, ClassMethodV  # noqa: E402
from world import World, CODES, TWEXC  # noqa: E402

PORT_RULE = "default port"


# ---------------------------------------------------------------- report

class Rep:
    def __init__(self, id):
        self.id = id
        self.rules, self.order, self.findings = {}, [], {}
        self.funcs, self.paths, self.roots, self.samples = set(), 0, set(), []

    def rule(self, name, text):
        self.rules[name] = dict(text=text, obligations=0, discharged=0, sites={})

    def check(self, rule, construct, where, ok, msg, path=None):
        r = self.rules[rule]
        r["obligations"] += 1
        r["sites"][construct] = True
        if ok:
            r["discharged"] += 1
            if len(self.samples) < 12 and r["obligations"] <= 2:
                self.samples.append(f"{rule}: {construct} at {where}")
            return True
        self.add(rule, construct, where, msg, path)
        return False

    def add(self, rule, construct, where, msg, path=None):
        k = rule + "|" + construct
        if k not in self.findings:
            self.findings[k] = dict(rule=rule, construct=construct, where=where, message=msg)
            if path:
                self.findings[k]["path"] = path

    def undecided(self, construct, msg):
        self.add("undecided", construct, "-", msg)

    def atleast(self, rule, n):
        have = len(self.rules[rule]["sites"])
        if have < n:
            self.add("instances", rule, "-", f"rule {rule} applied to {have} constructs, at least {n} expected: an anchor is missing")

    def finish(self, verif, tier, seed, wall, explain):
        known = {}
        try:
            for l in open(os.path.join(verif, "known-findings.txt")):
                m = re.match(r'known: property=%s key="([^"]*)"(.*)' % self.id, l.strip())
                if m:
                    known[m.group(1)] = m.group(2).strip()
        except OSError:
            pass
        viol = [f for k, f in self.findings.items() if k not in known]
        kn = [(k, f) for k, f in self.findings.items() if k in known]
        rules = [dict(rule=n, text=r["text"], obligations=r["obligations"], discharged=r["discharged"], constructs=len(r["sites"]), examples=sorted(r["sites"])[:30]) for n, r in self.rules.items()]
        obl, dis = sum(r["obligations"] for r in rules), sum(r["discharged"] for r in rules)
        cov = dict(explanation=explain, rules=rules, obligations=obl, discharged=dis, roots=sorted(self.roots), functions_analysed=sorted(self.funcs), paths=self.paths, samples=self.samples, violations=viol, known_findings=[f for _, f in kn])
        d = os.path.join(verif, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.id + ".json"), "w") as f:
            json.dump(dict(property=self.id, tier=tier, seed=seed, level="other", coverage=cov, wall_s=wall), f, indent=1)
            f.write("\n")
        print(f"{self.id}: {len(rules)} rules, {obl} obligations ({dis} discharged) on {len(self.roots)} roots, {len(self.funcs)} functions, {self.paths} paths")
        for k, f in kn:
            print(f"KNOWN-FINDING: property={self.id} {f['rule']} {f['construct']} at {f['where']}: {known[k]}")
        if not viol:
            return 0
        rf = os.path.join(d, self.id + ".violations.txt")
        with open(rf, "w") as h:
            for f in viol:
                h.write(f"{f['where']}: rule {f['rule']}, construct {f['construct']}: {f['message']}\n")
                for l in f.get("path", []):
                    h.write(f"    {l}\n")
        for f in viol[:20]:
            print(f"{f['where']}: rule {f['rule']}, construct {f['construct']}: {f['message']}")
        print(f"VIOLATION property={self.id} replay={rf}")
        return 1


# ---------------------------------------------------------------- driving the client

ARGS = {"set_fan_speed": ["speed"], "set_comfort_temperature": ["temperature"], "configure_fan_profile": ["profile", "percent"]}
GETTERS = {"get_bootinfo": ("GetBootInfo", "BootInfo"), "get_bypass": ("GetBypass", "Bypass"), "get_temps": ("GetTemps", "Temps"), "get_fans": ("GetFans", "Fans"), "get_fan_profiles": ("GetFanProfiles", "FanProfiles"), "get_errors": ("GetErrors", "Errors")}
SETTERS = {"set_fan_speed": "SetFanSpeed", "increase_fan_speed": "SetFanSpeed", "decrease_fan_speed": "SetFanSpeed", "set_comfort_temperature": "SetComfortTemp", "configure_fan_profile": "SetFanProfile"}
METHODS = ["ping"] + list(GETTERS) + list(SETTERS)
VALID = {"speed": ([(1, 4)], "InvalidFanSpeed", "Abs"), "profile": ([(1, 4)], "InvalidFanSpeed", "Mode"), "percent": ([(15, 100)], "InvalidDutyPercent", "TargetSpeed"), "temperature": ([(0, 255)], "InvalidTemperature", "ComfortTemp")}
GIVEN, RUNNING = Sym("loop:given", "loop"), Sym("loop:running", "loop")


class Client:
    """A client object on one path, in one way of constructing it."""

    def __init__(self, path, repo, rep, given=True, running=True, cdesc=True):
        self.path, self.rep = path, rep
        self.w = World(path, given, running, cdesc)
        self.it = Interp(path, os.path.join(repo, "python", "comfo"), "comfo", self.w)
        m = self.it.load("comfo")
        if m is None:
            raise Unsupported("package python/comfo is not found")
        self.cls = m.dict.get("Comfo")
        if not isinstance(self.cls, ClassV):
            raise Unsupported("class Comfo is not found")
        self.given = given

    def make(self, host="host"):
        self.w.phase = "init"
        kw = {"loop": GIVEN} if self.given else {}
        o = self.it.call(self.cls, [Sym(host, "str")], kw, None)
        self.it.old = reachable(list(self.it.modules.values()) + [o])
        self.it.writes.clear()
        return o

    def call(self, obj, name, pos, kw, phase):
        self.w.phase = phase
        n = len(self.path.events)
        try:
            v = self.it.call(self.it.getattr(obj, name, None), pos, kw, None)
            kind = "return"
            if phase == "async":
                if not isinstance(v, (CoroV, FutureV)):
                    kind, v = "no awaitable", v
                else:
                    v = self.it.await_(v, None)
        except PyRaise as e:
            kind, v = "raise", e.value
        self.rep.funcs |= {f for f in self.it.funcs}
        return Out(self, name, kind, v, self.path.events[n:])


class Out:
    def __init__(self, c, name, kind, value, events):
        self.c, self.name, self.kind, self.value = c, name, kind, value
        self.rpcs = [e for e in events if e["kind"] == "rpc"]
        p = c.path
        self.dom, self.facts, self.codes = dict(p.dom), dict(p.facts), {k: set(v) for k, v in c.w.codes.items()}
        self.wrote = list(c.it.writes)

    def trace(self):
        t = []
        for e in self.rpcs:
            t.append(f"{e['where']} sends {e['type'].split('.')[-1]}({', '.join(f'{k}={key(v)}' for k, v in e['req'].items())}) to {key(e['url'])}" + (f" on {e['off']}" if e["off"] else ""))
            t.append("  answer: " + ["a response", "a Twirp error", "another error"][e["outcome"]])
        for n, d in sorted(self.dom.items()):
            t.append(f"  {n} in {d}")
        for n, d in sorted(self.facts.items()):
            t.append(f"  {n}: {d}")
        for n, d in sorted(self.codes.items()):
            if len(d) < len(CODES):
                t.append(f"  {n} in {sorted(d)}" if len(d) < 8 else f"  {n} not in {sorted(set(CODES) - d)}")
        t.append(f"  {self.kind} {key(self.value)}")
        return t

    def where(self):
        if self.rpcs:
            return self.rpcs[0]["where"]
        return self.c.place(self.name)


def place(self, name):
    f = self.it.classattr(self.cls, name)
    while f is not None and not isinstance(f, FuncV):
        f = getattr(f, "func", None)
    if f is None or f.module is None:
        return "python/comfo"
    return f"{os.path.relpath(f.module.file, os.path.dirname(os.path.dirname(self.it.pkgdir)))}:{f.node.lineno}"


Client.place = place


def reachable(roots):
    seen, todo = {}, list(roots)
    while todo:
        o = todo.pop()
        if isconst(o) or id(o) in seen:
            continue
        seen[id(o)] = o
        if isinstance(o, ModuleV):
            todo += list(o.dict.values())
        elif isinstance(o, ClassV):
            todo += list(o.dict.values()) + list(o.bases)
        elif isinstance(o, ObjV):
            todo += list(o.attrs.values()) + [o.cls]
            if o.base:
                todo += list(o.base[1]) + list(o.base[2].values())
        elif isinstance(o, (ListV, SetV)):
            todo += list(o.items)
        elif isinstance(o, tuple):
            todo += list(o)
        elif isinstance(o, DictV):
            for i in o.items:
                todo += i
        elif isinstance(o, MsgV):
            todo += list(o.fields.values())
        elif isinstance(o, FuncV):
            todo += list(o.defaults) + list(o.kwdefaults.values()) + list(o.attrs.values()) + [o.env]
        elif isinstance(o, Env):
            todo += list(o.vars.values()) + [o.parent]
        elif isinstance(o, (BoundV,)):
            todo += [o.obj, o.func]
        elif isinstance(o, (PartialV, PartialMethodV)):
            todo += [o.func] + list(o.args) + list(o.kwargs.values())
        elif isinstance(o, (CacheV, GenFn, StaticV, ClassMethodV)):
            todo.append(o.func)
        elif isinstance(o, PropertyV):
            todo += [o.fget, o.fset]
    return seen


class PyAnalysis:
    def __init__(self, repo, tool):
        self.repo, self.tool = repo, tool
        self._facts = None
        self.wrote = {}

    def facts(self):
        if self._facts is None:
            p = subprocess.run([self.tool, "-facts", "-repo", self.repo], capture_output=True, text=True)
            if p.returncode != 0:
                raise Unsupported("the Go side cannot be analysed: " + (p.stdout + p.stderr).strip()[-300:])
            self._facts = json.loads(p.stdout)
        return self._facts

    def outs(self, r, what, run):
        """All paths of run(path), or None with a finding."""
        try:
            res = explore(run)
        except Unsupported as e:
            r.undecided(what, str(e))
            return None
        except RecursionError:
            r.undecided(what, "the recursion is too deep")
            return None
        r.paths += len(res)
        r.roots.add(what)
        return [o for _, o in res]

    def method(self, r, name, phase="sync", kwargs=False, given=True, running=True, before=None, omit=False):
        args = ARGS.get(name.removeprefix("async_"), self.extra.get(name.removeprefix("async_"), []))

        def run(path):
            c = Client(path, self.repo, r, given, running)
            o = c.make()
            first = None
            if before:
                b = ARGS.get(before.removeprefix("async_"), [])
                first = c.call(o, before, [Sym("first." + a, "int") for a in b], {}, "async" if before.startswith("async_") else "sync")
                c.it.writes.clear()
            pos, kw = [], {}
            if not omit:
                if kwargs:
                    kw = {a: Sym(a, "int") for a in args}
                else:
                    pos = [Sym(a, "int") for a in args]
            out = c.call(o, name, pos, kw, phase)
            out.first = first
            return out
        what = name + (" after " + before if before else "") + (" by keyword" if kwargs else "") + (" without arguments" if omit else "")
        if not given:
            what += ", no loop given"
        elif not running:
            what += ", no loop running"
        return self.outs(r, what, run)

    extra = {}

    def public(self, r):
        """Names of the public methods of the client, and their parameters."""
        def run(path):
            c = Client(path, self.repo, r)
            c.make()
            names = {}
            for k in c.cls.mro():
                if not isinstance(k, ClassV):
                    continue
                for n, v in k.dict.items():
                    if n.startswith("_") or n in names:
                        continue
                    f = v
                    while isinstance(f, (CacheV, StaticV, ClassMethodV, FuncV)):
                        g = f.attrs.get("__wrapped__") if isinstance(f, FuncV) else f.func
                        if g is None:
                            break
                        f = g
                    if isinstance(f, FuncV):
                        a = f.node.args
                        ps = [x.arg for x in a.posonlyargs + a.args]
                        if not isinstance(v, StaticV):
                            ps = ps[1:]
                        names[n] = ps[:len(ps) - len(f.defaults)] if f.defaults else ps
                    elif isinstance(f, (PartialMethodV, PartialV)):
                        names[n] = []
            return names
        o = self.outs(r, "public methods", run)
        if not o:
            return None
        names = {}
        for x in o:
            names.update(x)
        return names


# ---------------------------------------------------------------- C29

def c29(A, r):
    r.rule("sends-only-valid", "a request is sent only on paths on which every argument is known to be in its documented range")
    r.rule("refuses-only-invalid", "a call that sends nothing raises the exception of an argument that is known to be out of its range on the path")
    r.rule("sent-unchanged", "an accepted argument is the value of its field in the request")
    r.rule("omitted", "leaving out an argument that has a default is refused like an invalid value")
    for name, args in ARGS.items():
        for phase in ("sync", "async"):
            n = name if phase == "sync" else "async_" + name
            for kw in (False, True):
                for o in A.method(r, n, phase, kwargs=kw) or []:
                    judge29(r, o, n, args)
        if len(args) == 1:
            for o in A.method(r, name, omit=True) or []:
                exc = excs(o, VALID[args[0]][1])
                te = o.kind == "raise" and isinstance(o.value, ObjV) and excclass(TypeError) in o.value.cls.mro() and not o.rpcs
                r.check("omitted", name, o.where(), not o.rpcs and (te or exc or o.kind == "raise" and name != "set_comfort_temperature"), f"{name}() without an argument does not raise {VALID[args[0]][1]} before sending", o.trace())
    r.atleast("sends-only-valid", 8)
    r.atleast("refuses-only-invalid", 8)
    r.atleast("sent-unchanged", 8)
    r.atleast("omitted", 2)


def excs(o, name):
    m = o.c.it.modules.get("comfo.exceptions")
    c = m.dict.get(name) if m else None
    return c is not None and o.kind == "raise" and isinstance(o.value, ObjV) and c in o.value.cls.mro()


def judge29(r, o, n, args):
    doms = {a: o.dom.get(a, [(-INF, INF)]) for a in args}
    if o.rpcs:
        for a in args:
            valid, exc, field = VALID[a]
            bad = minus(doms[a], valid)
            r.check("sends-only-valid", f"{n}({a})", o.where(), not bad, f"a request is sent although {a} may be {bad and bad[0][0 if bad[0][0] != -INF else 1]}", o.trace())
            for e in o.rpcs:
                v = e["req"].get(field)
                d = doms[a]
                ok = same(v, Sym(a, "int")) or len(d) == 1 and d[0][0] == d[0][1] and isconst(v) and v == d[0][0]
                r.check("sent-unchanged", f"{n}({a})", e["where"], ok, f"{field} of the request is {key(v) if v is not None else 'missing'} instead of {a}", o.trace())
        return
    hit = [a for a in args if not meet(doms[a], VALID[a][0])]
    ok = any(excs(o, VALID[a][1]) for a in hit)
    for a in (hit or args):
        what = f"{a} in {doms[a]}"
        r.check("refuses-only-invalid", f"{n}({a})", o.where(), ok, f"nothing is sent for {what}, and the call ends with {o.kind} {key(o.value)}" + ("" if hit else " although the arguments may be valid"), o.trace())


# ---------------------------------------------------------------- C30

def norm(v, dom, facts):
    """Text of a value with what is known on a path filled in."""
    if isinstance(v, Sym):
        d = dom.get(v.name)
        if d and len(d) == 1 and d[0][0] == d[0][1]:
            return repr(d[0][0])
        if v.kind == "bool" and "bool " + v.name in facts:
            return repr(facts["bool " + v.name])
        return v.name
    if isinstance(v, Lin):
        d = dom.get(v.sym.name)
        if d and len(d) == 1 and d[0][0] == d[0][1]:
            return repr(v.a * d[0][0] + v.b)
        return repr(v)
    if isinstance(v, ObjV):
        return f"{v.cls.name}[{', '.join(k + '=' + norm(x, dom, facts) for k, x in sorted(v.attrs.items()))}]"
    if isinstance(v, MsgV) and v.origin is None:
        return f"{v.cls.full}({', '.join(k + '=' + norm(x, dom, facts) for k, x in sorted(v.fields.items()))})"
    if isinstance(v, tuple):
        return "(" + ", ".join(norm(x, dom, facts) for x in v) + ")"
    if isinstance(v, ListV):
        return "[" + ", ".join(norm(x, dom, facts) for x in v.items) + "]"
    if isinstance(v, Fmt):
        return "".join(p if isinstance(p, str) else "{" + norm(p, dom, facts) + "}" for p in v.parts)
    return key(v)


def merge(a, b):
    """What is known when both paths are taken, None if they exclude each other."""
    dom = {}
    for n in set(a.dom) | set(b.dom):
        d = meet(a.dom.get(n, [(-INF, INF)]), b.dom.get(n, [(-INF, INF)]))
        if not d:
            return None
        dom[n] = d
    facts = dict(a.facts)
    for k, v in b.facts.items():
        if facts.setdefault(k, v) != v:
            return None
    for k in a.codes:
        if k in b.codes and not a.codes[k] & b.codes[k]:
            return None
    for x, y in zip(a.rpcs, b.rpcs):
        if x["outcome"] != y["outcome"]:
            return None
    return dom, facts


def summary(o, dom, facts):
    s = [o.kind, norm(o.value, dom, facts)]
    for e in o.rpcs:
        s.append(norm(e["url"], dom, facts) + " " + e["type"] + " " + ", ".join(k + "=" + norm(v, dom, facts) for k, v in sorted(e["req"].items())))
    return s


def c30(A, r):
    r.rule("has-twin", "every public method that does I/O has an async_ twin that can be called with the same arguments, by position and by name")
    r.rule("same-effect", "the twin sends the same requests and ends in the same result or exception as the method, for all arguments and answers")
    r.rule("off-loop", "every request of a twin is sent from the executor of an event loop, none from the loop itself")
    r.rule("right-loop", "that loop is the one given at construction, or else the one running at construction")
    pub = A.public(r)
    if pub is None:
        return
    A.extra = {n: p for n, p in pub.items() if n not in ARGS and not n.startswith("async_")}
    found = 0
    for n in sorted(set(pub) | set(METHODS)):
        if n.startswith("async_"):
            continue
        if n not in pub:
            continue  # judged by C31
        base = A.method(r, n)
        if base is None or not any(o.rpcs for o in base):
            continue
        found += 1
        args = ARGS.get(n, A.extra.get(n, []))
        for kw in ((False, True) if args else (False,)):
            twin = A.method(r, "async_" + n, "async", kwargs=kw)
            if twin is None:
                continue
            missing = [o for o in twin if o.kind == "no awaitable" or o.kind == "raise" and not o.rpcs and isinstance(o.value, ObjV) and o.value.cls.name in ("AttributeError", "TypeError") and not any(b.kind == "raise" and key(b.value) == key(o.value) for b in base)]
            r.check("has-twin", n, missing[0].where() if missing else twin[0].where(), not missing, f"async_{n} cannot be called and awaited like {n}" + (" with its arguments by name" if kw else ""), missing[0].trace() if missing else None)
            if missing:
                continue
            for b in base:
                for t in twin:
                    m = merge(b, t)
                    if m is None:
                        continue
                    x, y = summary(b, *m), summary(t, *m)
                    r.check("same-effect", n, t.where(), x == y, f"{n} gives {x}, async_{n} gives {y}", t.trace())
            loops(r, n, twin, GIVEN)
        for given, running, want in ((True, False, GIVEN), (False, True, RUNNING)):
            twin = A.method(r, "async_" + n, "async", given=given, running=running)
            if twin is not None:
                loops(r, n, twin, want)
    r.atleast("has-twin", 12)
    r.atleast("same-effect", 12)
    r.atleast("off-loop", 12)
    r.atleast("right-loop", 12)


def loops(r, n, outs, want):
    sent = False
    for o in outs:
        for e in o.rpcs:
            sent = True
            r.check("off-loop", n, e["where"], e["off"] is not None, f"async_{n} sends its request while it holds up the event loop", o.trace())
            if e["off"] is not None:
                r.check("right-loop", n, e["where"], e["off"] == want, f"async_{n} uses {e['off']} instead of {want}", o.trace())
    if outs and not sent:
        o = outs[0]
        r.check("right-loop", n, o.where(), False, f"async_{n} sends nothing when the loop is {want}", o.trace())


# ---------------------------------------------------------------- C31

def c31(A, r):
    r.rule("present", "the client has each of its documented methods")
    r.rule("one-rpc", "a call with valid arguments sends exactly one request, to its own RPC, unless it refuses the arguments")
    r.rule("request", "the request is a message of the RPC's request type that says what the method is for")
    r.rule("wrapper", "a getter returns an object of the client's class for the response type; each field of the message is an attribute of that name, with the value of the response")
    r.rule("modified", "a setter returns the response's Modified flag, ping returns True")
    r.rule("errors", "an error of the RPC reaches the caller as it is, except that stepping up or down gives False for the invalid-argument error and for no other")
    pub = A.public(r)
    if pub is None:
        return
    A.extra = {}
    wrote = []
    for n in METHODS:
        r.check("present", n, "python/comfo/client.py", n in pub, f"method {n} is missing")
        for o in A.method(r, n) or []:
            judge31(r, o, n)
            if o.wrote and n not in wrote:
                wrote.append(n)
        if "async_" + n in pub:
            try:
                for _, o in explore(lambda p: A_async(A, r, p, n)):
                    if o.wrote and "async_" + n not in wrote:
                        wrote.append("async_" + n)
            except Unsupported:
                wrote.append("async_" + n)
    # a call may leave something behind for the next one
    for b in wrote:
        for n in METHODS:
            for o in A.method(r, n, before=b) or []:
                judge31(r, o, n, " after " + b)
                kept31(r, o, n, b)
    r.atleast("present", 12)
    r.atleast("one-rpc", 12)
    r.atleast("request", 12)
    r.atleast("wrapper", 6)
    r.atleast("modified", 6)
    r.atleast("errors", 12)


def A_async(A, r, path, n):
    c = Client(path, A.repo, r)
    o = c.make()
    return c.call(o, "async_" + n, [Sym(a, "int") for a in ARGS.get(n, [])], {}, "async")


def kept31(r, o, n, b):
    """What an earlier getter returned is still what it was."""
    g = b.removeprefix("async_")
    if g not in GETTERS or o.first is None or o.first.kind != "return" or not isinstance(o.first.value, ObjV):
        return
    if len(o.first.rpcs) != 1 or o.first.rpcs[0]["outcome"] != 0:
        return
    e, v = o.first.rpcs[0], o.first.value
    mc = o.c.w.msgclass(e["resp"])
    for f, (_, kind) in (mc.fields if mc else {}).items():
        try:
            x = o.c.it.getattr(v, f, None)
        except PyRaise:
            continue
        s = Sym(f"resp#{e['n']}.{f}", kind)
        r.check("wrapper", f"{b} before {n}", o.first.where(), norm(x, o.dom, o.facts) == norm(s, o.dom, o.facts), f"{f} of the result of {b} has changed to {key(x)} after {n}", o.trace())


def judge31(r, o, n, after=""):
    args = ARGS.get(n, [])
    doms = {a: o.dom.get(a, [(-INF, INF)]) for a in args}
    if not o.rpcs and args and any(minus(doms[a], VALID[a][0]) for a in args):
        return  # refused: C29
    cn = n + after
    rpc = GETTERS[n][0] if n in GETTERS else SETTERS.get(n)
    svc = {}
    for s in o.c.w.file["services"].values() if o.c.w.file else []:
        svc.update(s)
    ok = len(o.rpcs) == 1
    r.check("one-rpc", cn, o.where(), ok, f"{n}{after} sends {len(o.rpcs)} requests", o.trace())
    if not ok:
        return
    e = o.rpcs[0]
    url = norm(e["url"], {}, {})
    called = url.rsplit("/", 1)[-1]
    if n == "ping":
        ok = called.startswith("Get") and called in svc
        rpc = called
    else:
        ok = called == rpc
    r.check("one-rpc", cn, e["where"], ok, f"{n}{after} calls {called}", o.trace())
    # the request
    want = {}
    if n in ("increase_fan_speed", "decrease_fan_speed"):
        want = {"Abs": "0", "Rel": repr(n == "increase_fan_speed")}
    elif n == "set_fan_speed":
        want = {"Abs": "speed", "Rel": "False"}
    elif n == "set_comfort_temperature":
        want = {"ComfortTemp": "temperature"}
    elif n == "configure_fan_profile":
        want = {"Mode": "profile", "TargetSpeed": "percent"}
    typ = svc.get(rpc, ("?", "?"))
    have = {k: norm(v, o.dom, o.facts) for k, v in e["req"].items()}
    want = {k: norm(Sym(v, "int"), o.dom, o.facts) if v in doms else v for k, v in want.items()}
    r.check("request", cn, e["where"], e["type"] == typ[0] and have == want, f"the request is {e['type']}{have}, it should be {typ[0]}{want}", o.trace())
    r.check("request", cn, e["where"], e["resp"] == typ[1], f"the answer is decoded as {e['resp']}, it is a {typ[1]}", o.trace())
    if e["outcome"] == 0:
        if o.kind != "return":
            rule = "wrapper" if n in GETTERS else "modified"
            r.check(rule, cn, o.where(), False, f"{n} raises {key(o.value)} although the RPC succeeded", o.trace())
        elif n in GETTERS:
            v = o.value
            ok = isinstance(v, ObjV) and any(isinstance(c, ClassV) and c.name == GETTERS[n][1] for c in v.cls.mro())
            r.check("wrapper", cn, o.where(), ok, f"{n} returns {key(v)} and no {GETTERS[n][1]}", o.trace())
            mc = o.c.w.msgclass(typ[1])
            for f, (_, kind) in (mc.fields if mc and ok else {}).items():
                try:
                    x = o.c.it.getattr(v, f, None)
                except PyRaise:
                    r.check("wrapper", cn, o.where(), False, f"{GETTERS[n][1]} has no {f}", o.trace())
                    continue
                s = Sym(f"resp#{e['n']}.{f}", kind)
                facts = o.facts
                r.check("wrapper", cn, o.where(), norm(x, o.dom, facts) == norm(s, o.dom, facts), f"{f} of the result is {key(x)} instead of the response's {f}", o.trace())
        else:
            s = norm(Sym(f"resp#{e['n']}.Modified", "bool"), o.dom, o.facts) if n != "ping" else "True"
            got = norm(o.value, o.dom, o.facts)
            r.check("modified", cn, o.where(), got == s, f"{n} returns {got} instead of {'True' if n == 'ping' else 'the Modified flag of the response'}", o.trace())
        return
    code = f"code#{e['n']}"
    poss = o.codes.get(code, set(CODES)) if e["outcome"] == 1 else set()
    step = n in ("increase_fan_speed", "decrease_fan_speed")
    if o.kind == "raise":
        r.check("errors", cn, o.where(), o.value is e["exc"], f"{n} raises {key(o.value)} instead of the error of the RPC", o.trace())
        if step:
            r.check("errors", cn, o.where(), "InvalidArgument" not in poss, f"{n} raises although the error may be InvalidArgument", o.trace())
    else:
        r.check("errors", cn, o.where(), step and poss == {"InvalidArgument"} and norm(o.value, o.dom, o.facts) in (False, "False"), f"{n} returns {key(o.value)} although the RPC failed" + (f" with {sorted(poss)[:3]}" if poss else ""), o.trace())


# ---------------------------------------------------------------- C32

def c32(A, r):
    r.rule("address", "a client connects over http to the host it was constructed for, at one constant port")
    r.rule("port", "that port is the port of the address the Go server listens on by default")
    r.rule("path", "each endpoint of the Python client posts to the path under which the Go server calls the method of that name")
    r.rule("go-routes", "requests for that path reach the RPC server through the HTTP router, with the default path prefix")
    try:
        F = A.facts()
    except Unsupported as e:
        r.undecided("Go side", str(e))
        return
    for m in F["service"]:
        r.check("go-routes", m, "rpc/comfo/comfo.twirp.go", F["routes"].get(m, "?").endswith("/" + m), f"the Go server's path for {m} is {F['routes'].get(m)}")
    for e in F["routes_err"] or []:
        r.check("go-routes", "router", "routes.go", False, e)
    ports = set()
    for l in F["listen"]:
        m = re.search(r":(\d+)$", l)
        if l.startswith("!") or not m:
            r.check("port", "default listen address", "config.go", False, l.lstrip("!") if l.startswith("!") else f"the default listen address {l} has no port number")
        else:
            ports.add(m.group(1))

    def run(path):
        c = Client(path, A.repo, r)
        o = c.make()
        o2 = c.make("host2")
        n = path.choose(3, "client")
        if n == 2:
            return n, None, endpoints(c)
        a = c.call([o, o2][n], "get_bootinfo", [], {}, "sync")
        return n, a, {}
    outs = A.outs(r, "endpoints", run) or []
    names = set()
    for n, a, eps in outs:
        host = ["host", "host2", ""][n]
        for e in a.rpcs if a else []:
            u = norm(e["url"], {}, {})
            m = re.match(r"^http://\{([^}]*)\}:(\d+)(/.*)$", u)
            ok = m is not None and m.group(1) == host
            r.check("address", "Comfo", e["where"], ok, f"a client for {host} posts to {u}", a.trace())
            if ok:
                r.check("port", "Comfo", e["where"], ports == {m.group(2)}, f"the client connects to port {m.group(2)}, the server listens on {', '.join(sorted(ports)) or 'another'} by default", a.trace())
        for name, o in eps.items():
            names.add(name)
            if o is None or not o.rpcs:
                r.check("path", name, "python/comfo/comfo_twirp.py", False, f"endpoint {name} sends nothing")
                continue
            for e in o.rpcs:
                u = norm(e["url"], {}, {})
                m = re.match(r"^http://\{[^}]*\}:\d+(/.*)$", u)
                p = m.group(1) if m else u
                r.check("path", name, e["where"], p == F["routes"].get(name), f"{name} posts to {p}, the server serves it at {F['routes'].get(name)}", o.trace())
    for m in F["service"]:
        if outs and m not in names:
            r.check("path", m, "python/comfo/comfo_twirp.py", False, f"the Python client has no endpoint {m}")
    r.atleast("address", 1)
    r.atleast("port", 1)
    r.atleast("path", 10)
    r.atleast("go-routes", 10)


def endpoints(c):
    """Calls a method of the generated client, a different one on each path."""
    m = c.it.load("comfo.comfo_twirp")
    out = {}
    cls = m.dict.get("ComfoClient") if m else None
    obj = None
    for k, v in [(k, v) for o in c.it.old.values() if isinstance(o, ObjV) for k, v in o.attrs.items()]:
        if isinstance(v, ObjV) and cls in v.cls.mro():
            obj = v
            break
    if obj is None:
        raise Unsupported("the client has no ComfoClient")
    svc = {}
    for s in c.w.file["services"].values():
        svc.update(s)
    names = []
    for k in obj.cls.mro():
        if isinstance(k, ClassV):
            names += [n for n in k.dict if not n.startswith("_") and n in svc and n not in names]
    if names:
        n = names[c.path.choose(len(names), "endpoint")]
        mc = c.w.msgclass(svc[n][0])
        req = c.it.call(mc, [], {}, None) if mc else None
        out[n] = c.call(obj, n, [], {"ctx": Ext("context", "obj"), "request": req}, "sync")
    return out


# ---------------------------------------------------------------- C28

def camel(s):
    """protoc-gen-go's name for a proto name."""
    return re.sub(r"_([a-z])", lambda m: m.group(1).upper(), s[:1].upper() + s[1:])


def jsonname(s):
    return re.sub(r"_(.)", lambda m: m.group(1).upper(), s)


GOTYPES = {"uint32": "uint32", "uint64": "uint64", "int32": "int32", "int64": "int64", "bool": "bool", "string": "string", "float": "float32", "double": "float64", "bytes": "[]byte"}
WIRE = {"uint32": "varint", "uint64": "varint", "int32": "varint", "int64": "varint", "bool": "varint", "string": "bytes", "bytes": "bytes", "float": "fixed32", "double": "fixed64"}


def c28(A, r):
    r.rule("messages", "each descriptor has the messages of the .proto file, with the same fields, numbers, types and JSON names")
    r.rule("enums", "each descriptor and the Go constants and name maps have the enum values of the .proto file")
    r.rule("services", "each descriptor, the Go service interface and the Python endpoints have the methods of the .proto file with their request and response types")
    r.rule("go-structs", "each Go message struct has the fields of its message with the matching type, field number, wire encoding and names")
    r.rule("go-getters", "each Go getter returns its own field, and the zero value for a missing message")
    r.rule("go-indices", "each Go type is registered under its own place in the compiled descriptor, as are the types of fields and methods")
    r.rule("py-offsets", "the offsets of the Python package's pure Python descriptors are those of its serialized descriptor")
    pf = os.path.join(A.repo, "rpc", "comfo", "comfo.proto")
    try:
        P = schema.parse_proto(open(pf, encoding="utf-8").read())
    except (OSError, schema.Bad, ValueError) as e:
        r.undecided("comfo.proto", f"the interface definition cannot be read: {e}")
        return
    try:
        F = A.facts()
    except Unsupported as e:
        r.undecided("Go side", str(e))
        return
    for e in F["err"] or []:
        r.undecided("Go side", e)
    r.funcs |= set(F["functions"] or [])

    def run(path):
        c = Client(path, A.repo, r, cdesc=path.choose(2, "C descriptors") == 0)
        c.make()
        path_events = list(path.events)
        srv = None
        m = c.it.load("comfo.comfo_twirp")
        sc = m.dict.get("ComfoServer") if m else None
        if sc is not None:
            srv = c.it.call(sc, [], {"service": Ext("service", "obj")}, None)
        return c, path_events, srv, endpoints(c)
    outs = A.outs(r, "generated modules", run)
    descs = []
    for name, raw, where in (("Go descriptor", F["raw_desc"], "rpc/comfo/comfo.pb.go"), ("Twirp descriptor", F["twirp_desc"], "rpc/comfo/comfo.twirp.go")):
        try:
            b = bytes.fromhex(raw)
            if name.startswith("Twirp"):
                b = zlib.decompress(b, 31)
            descs.append((name, schema.parse_file(b), where))
        except (schema.Bad, zlib.error, UnicodeDecodeError, ValueError) as e:
            r.undecided(name, f"it cannot be read: {e}")
    pyw = "python/comfo/comfo_pb2.py"
    if outs:
        descs.append(("Python descriptor", outs[0][0].w.file, pyw))
    for name, d, where in descs:
        compare_desc(r, name, d, P, where)
    gofile = next((d for n, d, _ in descs if n == "Go descriptor"), None)
    if gofile:
        compare_go(r, F, P, gofile)
    have = set()
    for c, evs, srv, eps in outs or []:
        have |= set(eps)
        compare_py(r, c, evs, srv, eps, P)
    for m in sorted({m for s in P["services"].values() for m in s} - have if outs else ()):
        r.check("services", f"Python client {m}", "python/comfo/comfo_twirp.py", False, f"the Python client has no endpoint {m}")
    r.atleast("messages", 48)
    r.atleast("enums", 4)
    r.atleast("services", 50)
    r.atleast("go-structs", 16)
    r.atleast("go-getters", 16)
    r.atleast("go-indices", 18)
    r.atleast("py-offsets", 18)


def compare_desc(r, name, d, P, where):
    r.check("messages", f"{name} package", where, d["package"] == P["package"] and d["syntax"] == P["syntax"], f"{name} is for package {d['package']} ({d['syntax']})")
    for m in sorted(set(d["messages"]) | set(P["messages"])):
        have, want = d["messages"].get(m), P["messages"].get(m)
        if have is None or want is None:
            r.check("messages", f"{name} {m}", where, False, f"message {m} is missing in the " + (name if have is None else ".proto file"))
            continue
        msg = ""
        for f in sorted(set(have) | set(want)):
            x, y = have.get(f), want.get(f)
            if x is None or y is None:
                msg = msg or f"field {f} is missing in the " + (name if x is None else ".proto file")
            elif (x["number"], x["type"], x["repeated"]) != (y["number"], y["type"], y["repeated"]):
                msg = msg or f"field {f} is {x['type']} number {x['number']} instead of {y['type']} number {y['number']}"
            elif x["json"] not in (None, y["json"] or jsonname(f)):
                msg = msg or f"field {f} has the JSON name {x['json']}"
            elif "oneof" in x:
                msg = msg or f"field {f} is part of a oneof"
        r.check("messages", f"{name} {m}", where, not msg, f"{name}, message {m}: {msg}")
    for n in sorted(set(d["enums"]) | set(P["enums"])):
        r.check("enums", f"{name} {n}", where, d["enums"].get(n) == P["enums"].get(n), f"{name}, enum {n}: {d['enums'].get(n)} instead of {P['enums'].get(n)}")
    for s in sorted(set(d["services"]) | set(P["services"])):
        have, want = d["services"].get(s, {}), P["services"].get(s, {})
        for m in sorted(set(have) | set(want)):
            r.check("services", f"{name} {m}", where, have.get(m) == want.get(m), f"{name}, method {m}: {have.get(m)} instead of {want.get(m)}")


def compare_go(r, F, P, d):
    pk = P["package"] + "."
    goname = lambda full: full[len(pk):].replace(".", "_")
    order = list(d["messages"])
    for i, m in enumerate(order):
        g = F["messages"].get(goname(m))
        if g is None:
            r.check("go-structs", m, "rpc/comfo/comfo.pb.go", False, f"there is no Go struct for {m}")
            continue
        want = P["messages"].get(m, {})
        msg, seen = "", set()
        for f in g["fields"] or []:
            t = re.search(r'protobuf:"([^"]*)"', f["tag"])
            j = re.search(r'json:"([^",]*)', f["tag"])
            parts = t.group(1).split(",") if t else []
            name = next((p[5:] for p in parts if p.startswith("name=")), None)
            w = want.get(name)
            if w is None:
                msg = msg or f"field {f['name']} is for {name}, which the message does not have"
                continue
            seen.add(name)
            en = w["type"] in P["enums"]
            gt = goname(w["type"]) if en else GOTYPES.get(w["type"], "*" + goname(w["type"]))
            wire = "varint" if en else WIRE.get(w["type"], "bytes")
            if w["repeated"]:
                gt = "[]" + gt
            if f["name"] != camel(name):
                msg = msg or f"field {name} is called {f['name']}"
            elif f["type"] != gt:
                msg = msg or f"field {name} has type {f['type']} instead of {gt}"
            elif parts[:2] != [wire, str(w["number"])] or "proto3" not in parts or ("rep" if w["repeated"] else "opt") not in parts:
                msg = msg or f"field {name} is encoded as {t.group(1)}"
            elif not j or j.group(1) != name and j.group(1) != (w["json"] or jsonname(name)):
                msg = msg or f"field {name} has the JSON tag {j and j.group(1)}"
        for n in want:
            if n not in seen:
                msg = msg or f"field {n} is missing"
        r.check("go-structs", m, g["pos"], not msg, f"Go struct {goname(m)}: {msg}")
        bad = ""
        for n in want:
            x = g["getters"].get("Get" + camel(n))
            if x is not None and x != camel(n):
                bad = bad or f"Get{camel(n)} returns {x.lstrip('!')}"
            elif x is None:
                bad = bad or f"Get{camel(n)} is missing"
        r.check("go-getters", m, g["pos"], not bad, f"Go struct {goname(m)}: {bad}")
        for meth in ("ProtoReflect", "Reset", "Descriptor"):
            have = g["index"].get(meth)
            ok = have is None or all(x == i for x in have)
            r.check("go-indices", m, g["pos"], ok and have is not None, f"{goname(m)}.{meth} uses the type at {have} instead of {i}")
    for i, (n, vals) in enumerate(P["enums"].items()):
        g = F["enums"].get(goname(n))
        if g is None:
            r.check("enums", f"Go {n}", "rpc/comfo/comfo.pb.go", False, f"there is no Go type for {n}")
            continue
        parent = n[len(pk):].rsplit(".", 1)[0].replace(".", "_") if "." in n[len(pk):] else goname(n)
        want = {parent + "_" + k: v for k, v in vals.items()}
        r.check("enums", f"Go {n}", g["pos"], g["consts"] == want, f"the Go constants of {n} are {g['consts']} instead of {want}")
        r.check("enums", f"Go maps of {n}", g["pos"], g["names"] == vals and g["values"] == vals, f"the Go name maps of {n} are {g['names']} and {g['values']} instead of {vals}")
        j = list(d["enums"]).index(n) if n in d["enums"] else -1
        for meth in ("Descriptor", "Type"):
            r.check("go-indices", n, g["pos"], g["index"].get(meth) == [j], f"{goname(n)}.{meth} uses the type at {g['index'].get(meth)}")
    # type table
    want = [goname(n) for n in d["enums"]] + [goname(n) for n in order]
    w = "rpc/comfo/comfo.pb.go"
    r.check("go-indices", "type table", w, F["go_types"] == want, f"the table of Go types is {F['go_types']}")
    names = list(d["enums"]) + order
    dep = []
    for m in order:
        for f in d["messages"][m].values():
            if f["type"] in names:
                dep.append(names.index(f["type"]))
    nf = len(dep)
    ms = [x for s in d["services"].values() for x in s.values()]
    try:
        dep += [names.index(i) for i, _ in ms] + [names.index(o) for _, o in ms]
        dep += [nf + len(ms), nf, nf, nf, 0]
        r.check("go-indices", "dependency table", w, F["dep_idxs"] == dep, f"the table of dependencies is {F['dep_idxs']} instead of {dep}")
    except ValueError as e:
        r.check("go-indices", "dependency table", w, False, str(e))
    b = F["builder"]
    r.check("go-indices", "counts", w, (b.get("NumMessages"), b.get("NumEnums"), b.get("NumServices")) == (len(order), len(d["enums"]), len(d["services"])), f"the numbers of types given are {b}")
    for n in F["messages"]:
        if n not in want:
            r.check("go-structs", n, F["messages"][n]["pos"], False, f"Go struct {n} has no message")
    svc = {}
    for s in P["services"].values():
        svc.update(s)
    for m in sorted(set(svc) | set(F["service"])):
        have, x = F["service"].get(m), svc.get(m)
        x = [goname(x[0]), goname(x[1])] if x else None
        r.check("services", f"Go interface {m}", "rpc/comfo/comfo.twirp.go", have == x, f"the Go service method {m} is {have} instead of {x}")


def compare_py(r, c, evs, srv, eps, P):
    svc = {}
    for s in P["services"].values():
        svc.update(s)
    w = "python/comfo/comfo_twirp.py"
    for m, o in eps.items():
        if len(o.rpcs) != 1:
            r.check("services", f"Python client {m}", w, False, f"endpoint {m} of the Python client sends {len(o.rpcs)} requests")
            continue
        e = o.rpcs[0]
        url = norm(e["url"], {}, {})
        r.check("services", f"Python client {m}", e["where"], url.endswith("/" + list(P["services"])[0] + "/" + m), f"endpoint {m} posts to {url}")
        r.check("services", f"Python client {m}", e["where"], m in svc and e["resp"] == svc[m][1], f"endpoint {m} decodes its answer as {e['resp']}")
    if isinstance(srv, ObjV):
        d = srv.attrs.get("_endpoints")
        have = {}
        if isinstance(d, DictV):
            for k, v in d.items:
                if isinstance(v, Ext) and isinstance(v.args, dict):
                    have[k] = v.args
        for m in sorted(set(svc) | set(have)):
            e = have.get(m)
            msg = ""
            if e is None or m not in svc:
                msg = f"endpoint {m} is missing on one side"
            elif e.get("name") != m or key(e.get("function")) != f"service.{m}" and not key(e.get("function")).endswith("." + m):
                msg = f"endpoint {m} is for {e.get('name')} and calls {key(e.get('function'))}"
            elif [x.full if isinstance(x, MsgClass) else key(x) for x in (e.get("input"), e.get("output"))] != list(svc[m]):
                msg = f"endpoint {m} is for {e.get('input')} and {e.get('output')}"
            r.check("services", f"Python server {m}", w, not msg, msg)
        pre = srv.attrs.get("_prefix")
        r.check("services", "Python server prefix", w, pre == "/twirp/" + list(P["services"])[0], f"the Python server's prefix is {key(pre)}")
    if not c.w.cdesc:
        got = {}
        for e in evs:
            if e["kind"] == "extset" and isinstance(e["obj"], Ext) and e["obj"].path.startswith("descriptor "):
                got.setdefault(e["obj"].path[11:], {})[e["name"]] = e["value"]
        for n, (a, b) in c.w.file["spans"].items():
            g = got.get(n, {})
            r.check("py-offsets", n, "python/comfo/comfo_pb2.py", (g.get("_serialized_start"), g.get("_serialized_end")) == (a, b), f"the offsets of {n} are {g.get('_serialized_start')} to {g.get('_serialized_end')} instead of {a} to {b}")


CHECKS = {
    "C28": (c28, "Compares the .proto file, the descriptors compiled into the Go and Python packages, the Go types, getters, tables and service interface, and the Python endpoints, each read from its source."),
    "C29": (c29, "Abstract interpretation of each setter of the Python client and its async twin with integer arguments, which split the paths at the comparisons made: intervals per argument and path, exceptions raised and requests sent."),
    "C30": (c30, "Abstract interpretation of each public method of the Python client and its twin, for each way to construct the client; every pair of paths that can be taken together is compared."),
    "C31": (c31, "Abstract interpretation of each method of the Python client for every answer of its RPC: a response with unknown fields, a Twirp error with an unknown code, another error. Where a call changes what was there before, also after each such call."),
    "C32": (c32, "Abstract interpretation of the Python client's constructor and of each endpoint gives the URLs; the Go analyser gives the default of the setting the server's address is read from and the path of each method."),
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-prop", required=True)
    ap.add_argument("-repo", default="/repo")
    ap.add_argument("-verif", default="/verif")
    ap.add_argument("-tool", default=None)
    a = ap.parse_args()
    tool = a.tool or os.path.join(a.verif, "evidence", ".bin", "comfocheck")
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    A = PyAnalysis(a.repo, tool)
    rc = 0
    for id in (CHECKS if a.prop == "all" else a.prop.split(",")):
        t = time.time()
        r = Rep(id)
        try:
            CHECKS[id][0](A, r)
        except (PyRaise, Unsupported) as e:
            r.undecided("check", str(e) if isinstance(e, Unsupported) else f"the package raises {key(e.value)}")
        except Exception as e:  # noqa: BLE001
            if os.environ.get("PYCHECK_DEBUG"):
                raise
            r.undecided("check", f"internal error: {type(e).__name__} {e}")
        rc = max(rc, r.finish(a.verif, tier, seed, time.time() - t, CHECKS[id][1]))
    return rc


if __name__ == "__main__":
    sys.exit(main())
