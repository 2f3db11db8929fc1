"""The client side of S3: what the library asks minio-cpp for, and what comes back."""
from . import terms as t, models
from .terms import C, sym, ptr
from .interp import Unsupported
from .ir import Anchor
from .lib import *

OPS = {"ListBuckets", "BucketExists", "StatObject", "PutObject", "RemoveObject", "GetObject", "CreateMultipartUpload", "UploadPart", "CompleteMultipartUpload", "AbortMultipartUpload"}


def flat_fields(p, rec, base=0):
    r = []
    if rec not in p.records:
        raise Anchor("record " + rec)
    for n, o, sz, ty in p.fields(rec):
        if n == "<base>":
            if ty in p.records:
                r += flat_fields(p, ty, base + o)
        else:
            r.append((n, base + o, sz, ty))
    return r


def at(q, o):
    b, x = t.split(q)
    return ptr(b, t.add(x, C(64, o)))


class Client:
    """Every request may succeed, be answered with a failure, or throw. A failed response has empty fields."""

    def __init__(s, I, p):
        s.I, s.p = I, p
        I.minio = s.handle
        I.over["std::basic_istream::basic_istream"] = s.istream
        for f in p.fns.values():
            if f.base == "basic_istream" and "basic_istream" in f.ctx:
                I.over[f.n] = s.istream
            elif f.base == "~basic_istream":
                I.over[f.n] = lambda J, st, c: None

    def istream(s, J, st, c):
        a = [x for x in c.args]
        if len(a) > 1:
            models.qset(J, st, a[0], "src", a[-1])
        return None

    def init(s, J, st, q, rec, vals=None):
        for n, o, sz, ty in flat_fields(s.p, rec):
            v = (vals or {}).get(n)
            if ty.startswith("std::__cxx11::basic_string"):
                models.sets(J, st, at(q, o), t.lit("") if v is None else v)
            elif ty.startswith("std::__cxx11::list"):
                models.qset(J, st, at(q, o), "ln", C(64, 0))
            elif sz in (1, 2, 4, 8):
                J.store(st, at(q, o), C(8 * sz, 0) if v is None else v, sz)

    def read(s, J, st, q, rec):
        r = {}
        for n, o, sz, ty in flat_fields(s.p, rec):
            if ty.startswith("std::__cxx11::basic_string"):
                r[n] = models.gets(J, st, at(q, o))
            elif ty.startswith("std::__cxx11::list"):
                r[n] = models.qcell(J, st, at(q, o), "ln")
            elif ty.startswith("std::basic_string_view"):
                r[n] = (J.load(st, at(q, o + 8), 8, 64), J.load(st, at(q, o), 8, 64))
            elif "basic_istream" in ty:
                x = J.load(st, at(q, o), 8, 64)
                y = models.qcell(J, st, x, "src", C(64, 0)) if x.op == "ptr" else None
                if y is not None and y.op == "ptr":
                    r[n] = (models.qcell(J, st, y, "buf", C(64, 0)), models.qcell(J, st, y, "len", C(64, 0)))
                else:
                    r[n] = None
            elif sz in (1, 2, 4, 8):
                r[n] = J.load(st, at(q, o), sz, 8 * sz)
        return r

    def handle(s, J, st, c):
        f, a, b = c.f, c.args, c.f.base
        cls = f.ctx.split("::")[-1]
        if cls == "Client" and b in OPS:
            if not models.sret(c):
                raise Unsupported("minio client interface")
            par = {}
            if len(a) > 2:
                rec = f.pt[0]
                par = s.read(J, st, a[2], rec.replace("const&", "").replace("&", "").strip())
            rec = "minio::s3::" + b + "Response"
            k = st.cnt.get("minio", 0)
            st.cnt["minio"] = k + 1
            outs = []
            yes = ("ok", "ok-no") if any(ty == "bool" for _, _, _, ty in flat_fields(s.p, rec)) else ("ok",)
            for r in yes + ("no", "throw"):
                s2 = st.fork()
                vals = {}
                if r == "throw":
                    J.emit(s2, "minio", c.ctx, op=b, par=par, r=r, vals=vals)
                    outs.append((s2, "exc", J.make_exc(s2, c, "_ZTISt13runtime_error")))
                    continue
                if r.startswith("ok"):
                    for n, o, sz, ty in flat_fields(s.p, rec):
                        if ty.startswith("std::__cxx11::basic_string"):
                            vals[n] = sym(("minio", k, n), 0)
                            if n == "upload_id":
                                J.assume(s2, models.sempty(vals[n]), False)
                        elif ty == "bool":
                            vals[n] = C(8, int(r == "ok"))
                    r = "ok"
                s.init(J, s2, a[0], rec, vals)
                models.qset(J, s2, a[0], "fine", C(64, int(r == "ok")))
                J.emit(s2, "minio", c.ctx, op=b, par=par, r=r, vals=vals)
                outs.append((s2, "ret", None))
            return outs
        if cls == "Response" and b == "operator bool":
            return t.trunc(models.qcell(J, st, a[0], "fine"), 1)
        if b == "Error" and models.sret(c):
            s.init(J, st, a[0], "minio::error::Error")
            return None
        if b == "String" and models.sret(c):
            models.sets(J, st, a[0], t.lit("error"))
            return None
        if cls == "Error" and b == "operator bool":
            return J.unknown(st, ("minioerr", c.ctx), f.ret, 1)
        if cls == "CharBuffer" and b == cls:
            models.qset(J, st, a[0], "buf", a[1])
            models.qset(J, st, a[0], "len", a[2])
            return None
        if f.blocks:
            return NotImplemented
        if b.startswith("~"):
            return None
        if b == cls and f.ctx in s.p.records:
            s.init(J, st, a[0], f.ctx)
            if cls == "PutObjectArgs" and len(a) == 4:
                for n, o, sz, ty in flat_fields(s.p, f.ctx):
                    v = a[1] if "istream" in ty else a[2] if n == "object_size" else a[3] if n == "part_size" else None
                    if v is not None:
                        J.store(st, at(a[0], o), v, 8)
            return None
        if b == cls:
            return None
        return NotImplemented
