"""The exported program."""
import json
import re
from . import build


def strip_t(s):
    """drop template arguments"""
    o, d, i = [], 0, 0
    s = s or ""
    n = len(s)
    while i < n:
        c = s[i]
        if s.startswith("operator<<", i) and d == 0:
            o.append("operator<<"); i += 10; continue
        if s.startswith("operator<", i) and d == 0 and not s.startswith("operator<=", i) and (i + 9 >= n or s[i + 9] in "(<"):
            o.append("operator<"); i += 9; continue
        if s.startswith("operator->", i) and d == 0:
            o.append("operator->"); i += 10; continue
        if s.startswith("operator>", i) and d == 0:
            o.append("operator>"); i += 9; continue
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            o.append(c)
        i += 1
    return "".join(o)


def params_of(dem):
    """top-level parameter types of a demangled function"""
    s = dem
    # strip trailing cv/ref qualifiers
    end = s.rfind(")")
    if end < 0:
        return []
    d = 0
    i = end
    while i >= 0:
        c = s[i]
        if c in ")":
            d += 1
        elif c == "(":
            d -= 1
            if d == 0:
                break
        i -= 1
    body = s[i + 1:end]
    out, cur, d = [], "", 0
    for c in body:
        if c in "<([{":
            d += 1
        elif c in ">)]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Fn:
    __slots__ = ("n", "d", "dem", "ctx", "base", "repo", "blocks", "loops", "head", "nounwind", "noreturn", "ret",
                 "params", "file", "line", "_pt", "inl", "body_of", "cxt", "virtual")

    def __init__(s, n, d):
        s.n, s.d = n, d
        s.dem = d["dem"]
        s.cxt = d.get("ctx") or ""
        s.ctx = strip_t(s.cxt)
        s.base = d.get("base") or n
        s.repo = bool(d.get("repo"))
        s.blocks = d.get("blocks")
        s.nounwind, s.noreturn = d["nounwind"], d["noreturn"]
        s.ret, s.params = d["ret"], d["params"]
        s.file, s.line = d.get("file", ""), d.get("line", 0)
        s.virtual = d.get("virtual", False)
        s._pt = None
        s.loops = [(l["h"], frozenset(l["b"])) for l in d.get("loops", [])]
        s.head = {h: b for h, b in s.loops}

    @property
    def pt(s):
        if s._pt is None:
            s._pt = params_of(s.dem)
        return s._pt

    @property
    def q(s):
        return (s.ctx + "::" if s.ctx else "") + s.base

    @property
    def ptypes(s):
        return s.d.get("ptypes", [])

    def __repr__(s):
        return "<Fn %s>" % s.dem[:100]

    def where(s):
        return "%s:%d" % (s.file, s.line)


class Program:
    def __init__(s, path=None):
        s.path = path or build.program()
        d = json.load(open(s.path))
        s.fns = {n: Fn(n, x) for n, x in d["functions"].items()}
        s.globals = d["globals"]
        s.records = d["records"]
        s.enums = d["enums"]
        s.byq = {}
        for f in s.fns.values():
            s.byq.setdefault(f.q, []).append(f)
        s.vt = {}  # class ident -> [(vtable global, addrpoint)]
        for g, x in s.globals.items():
            for t in x.get("types", []):
                # [offset, ident]
                if len(t) > 1:
                    s.vt.setdefault(t[1], []).append((g, t[0]))

    def repo_fns(s):
        return [f for f in s.fns.values() if f.repo and f.blocks]

    def find(s, q, body=True, **kw):
        """functions by qualified name without template arguments"""
        return [f for f in s.byq.get(q, []) if (f.blocks or not body)]

    def one(s, q, pred=None):
        c = [f for f in s.find(q) if pred is None or pred(f)]
        # constructors/destructors come as C1/C2, D0/D1/D2: prefer base-object variant with a body
        if len(c) > 1 and c[0].d.get("cdtor"):
            c2 = [f for f in c if re.search(r"(C2|D2)E", f.n)]
            c = c2 or c
        if not c:
            raise Anchor("no function " + q)
        return c[0] if len(c) == 1 else c[0] if pred is None else c[0]

    def fields(s, rec):
        r = s.records.get(rec)
        if not r:
            raise Anchor("no record " + rec)
        return [(n, o, sz, ty) for n, o, sz, ty, *_ in r["fields"]]

    def field(s, rec, pred):
        """offset of the unique field whose (name, type) satisfies pred"""
        c = [(n, o, sz, ty) for n, o, sz, ty in s.fields(rec) if pred(n, ty)]
        if len(c) != 1:
            raise Anchor("%d fields of %s match" % (len(c), rec))
        return c[0]

    def enum(s, first):
        e = s.enums.get(first)
        if not e:
            raise Anchor("no enumeration starting with " + first)
        return [(n, v) for n, v in e]


class Anchor(Exception):
    """an anchor the analysis is attached to is gone: analysis broken, not a verdict"""
