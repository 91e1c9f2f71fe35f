"""Serialized protobuf file descriptors and .proto files, read as data."""
import re


class Bad(Exception):
    pass


def varint(b, i):
    n = s = 0
    while True:
        if i >= len(b):
            raise Bad("truncated")
        c = b[i]
        i += 1
        n |= (c & 127) << s
        s += 7
        if c < 128:
            return n, i


def fields(b):
    """(number, value, start of the value) of every field."""
    i, out = 0, []
    while i < len(b):
        k, i = varint(b, i)
        n, w = k >> 3, k & 7
        if w == 0:
            v, j = varint(b, i)
            out.append((n, v, i))
            i = j
        elif w == 2:
            l, i = varint(b, i)
            if i + l > len(b):
                raise Bad("truncated")
            out.append((n, b[i:i + l], i))
            i += l
        else:
            raise Bad(f"wire type {w}")
    return out


TYPES = {1: "double", 2: "float", 3: "int64", 4: "uint64", 5: "int32", 6: "fixed64", 7: "fixed32", 8: "bool", 9: "string", 11: "message", 12: "bytes", 13: "uint32", 14: "enum", 15: "sfixed32", 16: "sfixed64", 17: "sint32", 18: "sint64"}


def get(fs, n, default=None):
    r = default
    for k, v, _ in fs:
        if k == n:
            r = v
    return r


def txt(v):
    return v.decode("utf-8") if isinstance(v, bytes) else v


def parse_enum(b, prefix, off, out):
    fs = fields(b)
    full = prefix + txt(get(fs, 1, b""))
    vals = {}
    for k, v, _ in fs:
        if k == 2:
            e = fields(v)
            vals[txt(get(e, 1, b""))] = get(e, 2, 0)
    out["enums"][full] = vals
    out["spans"][full] = (off, off + len(b))


def parse_message(b, prefix, off, out):
    fs = fields(b)
    full = prefix + txt(get(fs, 1, b""))
    m = {}
    out["messages"][full] = m
    out["spans"][full] = (off, off + len(b))
    for k, v, o in fs:
        if k == 2:
            f = fields(v)
            t = TYPES.get(get(f, 5), "?")
            if t in ("message", "enum"):
                t = txt(get(f, 6, b"")).lstrip(".")
            d = {"number": get(f, 3), "type": t, "repeated": get(f, 4) == 3}
            if get(f, 9) is not None:
                d["oneof"] = get(f, 9)
            d["json"] = txt(get(f, 10))
            m[txt(get(f, 1, b""))] = d
        elif k == 3:
            parse_message(v, full + ".", off + o, out)
        elif k == 4:
            parse_enum(v, full + ".", off + o, out)
        elif k not in (1,):
            raise Bad(f"message {full} has a part {k}")


def parse_file(b):
    """A FileDescriptorProto."""
    fs = fields(b)
    out = {"package": txt(get(fs, 2, b"")), "messages": {}, "enums": {}, "services": {}, "spans": {}, "syntax": txt(get(fs, 12, b""))}
    p = out["package"] + "." if out["package"] else ""
    for k, v, o in fs:
        if k == 4:
            parse_message(v, p, o, out)
        elif k == 5:
            parse_enum(v, p, o, out)
        elif k == 6:
            s = fields(v)
            name = p + txt(get(s, 1, b""))
            out["spans"][name] = (o, o + len(v))
            ms = {}
            for k2, v2, _ in s:
                if k2 == 2:
                    m = fields(v2)
                    if get(m, 5) or get(m, 6):
                        raise Bad("streaming")
                    ms[txt(get(m, 1, b""))] = (txt(get(m, 2, b"")).lstrip("."), txt(get(m, 3, b"")).lstrip("."))
            out["services"][name] = ms
        elif k == 8:
            out["options"] = v
    return out


# ---------------------------------------------------------------- .proto

SCALARS = set(TYPES.values()) - {"message", "enum"}


def parse_proto(text):
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    text = re.sub(r"//[^\n]*", " ", text)
    tok = re.findall(r'"(?:[^"\\]|\\.)*"|[A-Za-z_][\w.]*|\.[A-Za-z_][\w.]*|-?\d+|0x[0-9a-fA-F]+|[{}\[\]()=;,<>]', text)
    pos = 0
    out = {"package": "", "messages": {}, "enums": {}, "services": {}, "syntax": "proto2"}
    pend = []

    def peek():
        return tok[pos] if pos < len(tok) else None

    def nxt(want=None):
        nonlocal pos
        t = peek()
        if t is None or want is not None and t != want:
            raise Bad(f"{t!r} where {want!r} is expected")
        pos += 1
        return t

    def option():
        while nxt() != ";":
            pass

    def enum(prefix):
        full = prefix + nxt()
        nxt("{")
        vals = out["enums"].setdefault(full, {})
        while peek() != "}":
            n = nxt()
            if n in ("option", "reserved"):
                option()
                continue
            if n == ";":
                continue
            nxt("=")
            vals[n] = int(nxt(), 0)
            while nxt() != ";":
                pass
        nxt("}")

    def message(prefix):
        full = prefix + nxt()
        nxt("{")
        m = out["messages"].setdefault(full, {})
        while peek() != "}":
            t = nxt()
            if t == ";":
                continue
            if t in ("option", "reserved"):
                option()
                continue
            if t == "message" and tok[pos + 1] == "{":
                message(full + ".")
                continue
            if t == "enum" and tok[pos + 1] == "{":
                enum(full + ".")
                continue
            if t in ("oneof", "map", "extend", "group", "extensions", "optional", "required"):
                raise Bad(f"{t} in {full}")
            rep = t == "repeated"
            if rep:
                t = nxt()
            n = nxt()
            nxt("=")
            d = {"number": int(nxt(), 0), "type": t, "repeated": rep, "json": None}
            while True:
                x = nxt()
                if x == "json_name":
                    nxt("=")
                    d["json"] = nxt().strip('"')
                elif x == ";":
                    break
            if n in m:
                raise Bad(f"{full}.{n} twice")
            m[n] = d
            if t not in SCALARS:
                pend.append((d, full))
        nxt("}")

    while peek() is not None:
        t = nxt()
        p = out["package"] + "." if out["package"] else ""
        if t == "syntax":
            nxt("=")
            out["syntax"] = nxt().strip('"')
            nxt(";")
        elif t == "package":
            out["package"] = nxt()
            nxt(";")
        elif t in ("option", "import"):
            option()
        elif t == "message":
            message(p)
        elif t == "enum":
            enum(p)
        elif t == "service":
            full = p + nxt()
            nxt("{")
            ms = out["services"].setdefault(full, {})
            while peek() != "}":
                t = nxt()
                if t == "option":
                    option()
                    continue
                if t == ";":
                    continue
                if t != "rpc":
                    raise Bad(f"{t} in {full}")
                n = nxt()
                nxt("(")
                i = nxt()
                nxt(")")
                nxt("returns")
                nxt("(")
                o = nxt()
                nxt(")")
                if "stream" in (i, o):
                    raise Bad("streaming")
                if peek() == "{":
                    while nxt() != "}":
                        pass
                elif peek() == ";":
                    nxt()
                ms[n] = (i, o)
            nxt("}")
        elif t != ";":
            raise Bad(f"{t!r} at the top level")

    def find(name, scope):
        if name.startswith("."):
            return name[1:]
        s = scope.split(".")
        while True:
            c = ".".join(s + [name])
            if c in out["messages"] or c in out["enums"]:
                return c
            if not s:
                raise Bad(f"unknown type {name}")
            s.pop()
    for d, scope in pend:
        d["type"] = find(d["type"], scope)
    for s, ms in out["services"].items():
        for n, (i, o) in ms.items():
            ms[n] = (find(i, out["package"]), find(o, out["package"]))
    return out
