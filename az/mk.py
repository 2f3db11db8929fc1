"""Abstract objects built from the declared types, with chosen element counts."""
from . import terms as t, models
from .terms import C, sym, ptr
from .interp import Obj
from .models import tsize, targ


def targs(ty):
    """all template arguments at top level"""
    i = ty.find("<")
    if i < 0:
        return []
    out, cur, d = [], "", 0
    for ch in ty[i:]:
        if ch == "<":
            d += 1
            if d == 1:
                continue
        elif ch == ">":
            d -= 1
            if d == 0:
                break
        if ch == "," and d == 1:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def strip(ty):
    ty = ty.strip()
    while True:
        o = ty
        for x in ("&&", "&", " const"):
            if ty.endswith(x):
                ty = ty[:-len(x)].strip()
        if ty.startswith("const "):
            ty = ty[6:].strip()
        if o == ty:
            return ty


class Mk:
    def __init__(s, p, st, count=None, cell=None, null=None):
        """count(path, type) -> number of elements; cell(path, type, base, off) -> True if handled; null(path, type) -> bool"""
        s.p, s.st = p, st
        s.I = type("X", (), {"p": p})
        s.count = count or (lambda path, ty: 2)
        s.cell = cell or (lambda path, ty, b, o: False)
        s.null = null or (lambda path, ty: False)
        s.rec = {}       # base -> record name
        s.objs = {}      # path -> (base, off)
        s.depth = 0

    def obj(s, ty, name):
        """a fresh object -> base"""
        b = ("H", name, 0)
        k = 0
        while b in s.st.mem:
            k += 1
            b = ("H", name, k)
        s.st.mem[b] = Obj({}, (), 0, s.st.tok)
        ty = strip(ty)
        s.rec[b] = ty
        s.make(ty, b, 0, name)
        return b

    def put(s, b, off, v, size=None):
        s.st.wobj(b).c[off] = (v, size or max(1, v.bits // 8))

    def make(s, ty, b, off, path):
        ty = strip(ty)
        s.objs[path] = (b, off)
        if s.cell(path, ty, b, off):
            return
        if s.depth > 6:
            return
        s.depth += 1
        try:
            s._make(ty, b, off, path)
        finally:
            s.depth -= 1

    def _make(s, ty, b, off, path):
        st = s.st
        if ty.startswith("std::vector<"):
            el = targ(ty)
            if strip(el) == "bool":
                return
            n = s.count(path, ty)
            if n is None:
                return
            sz = tsize(s.I, el)
            if sz is None:
                return
            v = ("H", path + "[]", 0)
            st.mem[v] = Obj({}, (), 0, st.tok)
            s.rec[v] = el + "[]"
            nb = n * sz if isinstance(n, int) else t.mul(n, C(64, sz))
            s.put(b, off, ptr(v, 0))
            s.put(b, off + 8, ptr(v, nb))
            s.put(b, off + 16, ptr(v, nb))
            if isinstance(n, int):
                if models.PRIM.get(strip(el)) is None:
                    for i in range(n):
                        s.make(el, v, i * sz, "%s[%d]" % (path, i))
        elif ty.startswith("std::queue<"):
            n = s.count(path, ty)
            qid = sym("queue:" + path, 64)
            h = 40
            P = ptr(b, off)
            models.qset(None, st, P, "qid", qid)
            models.qset(None, st, P, "qh", C(64, h))
            models.qset(None, st, P, "qt", C(64, h + n) if isinstance(n, int) else t.add(n, C(64, h)))
            if isinstance(n, int):
                for i in range(n):
                    e = ("Q", qid, C(64, h + i))
                    st.mem[e] = Obj({}, (), 0, st.tok)
                    s.make(targ(ty), e, 0, "%s[%d]" % (path, i))
        elif ty.startswith("std::shared_ptr<") or ty.startswith("std::unique_ptr<"):
            el = targ(ty)
            if s.null(path, ty):
                s.put(b, off, C(64, 0))
                if ty.startswith("std::shared_ptr<"):
                    s.put(b, off + 8, C(64, 0))
                return
            o = s.obj(el, path + "*")
            s.put(b, off, ptr(o, 0))
            if ty.startswith("std::shared_ptr<"):
                s.put(b, off + 8, C(64, 0))
        elif ty.startswith("std::optional<"):
            s.make(targ(ty), b, off, path + "?")
        elif ty.startswith("std::__cxx11::basic_string<"):
            st.wobj(b).c[("s", off)] = (sym(path, 0), 32)
        elif ty in s.p.records:
            for n, o, sz, fty in s.p.fields(ty):
                if n.startswith("_vptr"):
                    continue
                s.make(fty, b, off + o, path + "." + n)
            r = s.p.records[ty]
            if r.get("ident"):
                pass
