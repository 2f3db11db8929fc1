"""C30, C12: where the library's effects go, and what becomes of failures."""
from ..stream import *
from ..check import path
from ..interp import short
from ..cg import Graph
from ..jobs import Jobs, set_vptr
from .. import jsonm
from .life import S3VAL, fed
from .settings import entry

OPEN_AT = {"open": 0, "open64": 0, "creat": 0, "mkdir": 0, "unlink": 0, "remove": 0, "rename": 0, "truncate": 0, "openat": 1}
REMOVE = {"remove_all", "remove", "unlink", "rename"}


def comps(s):
    """(absolute, components) of a path, lexically"""
    return s.startswith("/"), [x for x in s.split("/") if x not in ("", ".")]


def root_of(store, s3):
    r = store.strip(" \t\n\r\f\v")
    while not s3 and r.startswith("file://"):
        r = r[7:]
    return r


def below(x, root):
    """0: outside, 1: the root itself, 2: below it"""
    a, l = comps(x)
    b, m = comps(root)
    if a != b or l[:len(m)] != m:
        return 0
    rest = l[len(m):]
    if not rest:
        return 1
    if any(c == ".." or not all(ch.isascii() and (ch.isalnum() or ch in "._-") for ch in c) for c in rest):
        return 0
    return 2


def paths_of(e, p):
    """[(path term, what is done)] of the places in the file system an event changes"""
    if e[0] == "fs" and e.mut:
        return [(x, e.op) for x in (e.path,) + tuple(y for y in e.args if y.op != "ptr" and not y.bits)]
    if e[0] == "fopen":
        return [(e.path, "open")]
    if e[0] == "sink_new" and e.cls == "FileSink":
        return [(e.names[-1], "open")]
    if e[0] in OPEN_AT and e.d.get("fmt") is not None:
        return [(e.fmt, e[0])]
    return []


def judge30(chk, rule, st, root, s3, what, p):
    """every effect of a path of the program is at the store"""
    n = 0
    made_ = False
    for e in st.events():
        if e[0] == "sink_new" and s3:
            nm = e.names
            if e.cls != "S3Sink":
                chk.bad("below-store", e.site, "%s: a file is made for an S3 stream" % what, key="s3file", path=path(st))
                return
            if any(x.op != "str" for x in nm):
                chk.undec(rule, "%s: object %s" % (what, t.show(nm[-1])[:60]))
                return
            if len(nm) != 2 or nm[0].a[0] != S3VAL["s3.bucket_name"] or below(nm[1].a[0], root) != 2:
                chk.bad("below-store", e.site, "%s: object %s is not below the store" % (what, [x.a[0] for x in nm]), key="object", path=path(st))
                return
            n += 1
            continue
        for x, op in paths_of(e, p):
            if x is None or x.op != "str":
                chk.undec(rule, "%s: path of %s is %s" % (what, op, t.show(x)[:60] if x is not None else "unknown"))
                return
            x = x.a[0]
            b = below(x, root)
            if s3:
                chk.bad("below-store", e.site, "%s: an S3 stream changes the file system (%s %r)" % (what, op, x), key="s3fs", path=path(st))
                return
            if not b:
                chk.bad("below-store", e.site, "%s: %s %r, the store is %r" % (what, op, x, root), key=op, path=path(st))
                return
            if op in REMOVE:
                if b != 1 or op not in ("remove_all", "remove"):
                    chk.bad("only-store-removed", e.site, "%s: %s %r inside the store" % (what, op, x), key=op, path=path(st))
                    return
                if made_:
                    chk.bad("removed-first", e.site, "%s: the store is removed after something was put into it" % what, key="late", path=path(st))
                    return
                chk.ok("only-store-removed")
            else:
                made_ = True
            n += 1
    chk.ok(rule, "%s: %d effects" % (what, n))


HOSTILE = ["../evil", "/abs", "a/../../b", "..", "c\nd"]


def sites_of_effects(p):
    """call sites in the library that change the file system by name"""
    r = {}
    G = Graph(p)
    live = set()
    for n in ("ZarrStream_create", "ZarrStream_append", "ZarrStream_destroy"):
        live |= G.reach(entry(p, n).n, True)
    for f in p.fns.values():
        if f.blocks and f.repo and f.n in live:
            for n in G.edges(f.n)[0]:
                g = p.fns.get(n)
                if g and g.q == "std::filesystem::" + g.base and g.base in models.FS_MUT:
                    r.setdefault((f.n, g.base), f)
                elif n in OPEN_AT:
                    r.setdefault((f.n, n), f)
    return r


def cx(chk):
    connection(chk, "result")
    connection(chk, "request")


def c30(chk):
    p = chk.p
    T_, CH, Z, O = 2, 1, 0, 3
    fams = [(((0, 2, 2), (2, 1, 1), (4, 2, 1), (6, 3, 2)), (T_, O, Z, Z), (4, 5)),
            (((0, 1, 1), (3, 2, 1), (3, 3, 1)), (T_, Z, Z), (3,))]
    deep = ((0, 1, 1), (16, 1, 1), (1, 1, 1))     # five levels
    stores = ["some/store.zarr", "file://some/store.zarr", "file://file://x.zarr", "  /abs/st ore\t", "./rel", "s", "../up/store.zarr", "file:/x", "FILE://x", "file://", "a//b"]
    if chk.thorough:
        fams += [(((0, 3, 2), (2, 1, 1), (3, 2, 2), (9, 5, 2), (8, 3, 1)), (T_, CH, O, Z, Z), (7, 19)), (((4, 2, 1), (4, 4, 1), (4, 1, 4)), (O, Z, Z), (4,))]
    did = set()
    for ver in (2, 3):
        for fi, (dims, types, counts) in enumerate(fams):
            for si, store in enumerate(stores):
                for s3 in (False, True):
                    if s3 and si % 3 and not chk.thorough:
                        continue
                    ms = bool((si + fi + s3) % 2)
                    n = counts[(si + s3) % len(counts)]
                    life30(chk, ver, dims, types, n, ms, s3, store, did)
        life30(chk, ver, deep, (T_, Z, Z), 16, True, False, "some/store.zarr", did)
        small = ((0, 1, 1), (2, 2, 1), (2, 1, 1))
        for store in ("some/store.zarr", "file://x.zarr"):
            for s3 in (False, True):
                life30(chk, ver, small, (T_, Z, Z), 2, False, s3, store, did, vary=1)
    # the file a sink opens
    for f in fns(p, "zarr::FileSink::FileSink"):
        if not f.blocks:
            continue
        I = quiet_log(chk.interp())
        I.fs_ok = True
        st = State()
        name = sym("filename", 0)
        args = [ptr(heap(st, "this"), 0)] + ([t.slen(name), models.strptr(name)] if "view" in f.pt[0] else [models.strptr(name)])
        try:
            outs = I.run(st, f, args)
        except (Unsupported, Budget) as e:
            chk.undec("opens-its-file", str(e))
            continue
        for s2, k, v in outs:
            for e in s2.events():
                for x, op in paths_of(e, p):
                    if x is not name:
                        if x is not None and x.op == "str" or x is not None and t.show(name) not in t.show(x):
                            chk.bad("opens-its-file", e.site, "%s %s, the sink is for %s" % (op, t.show(x), t.show(name)), key=op, path=path(s2))
                        else:
                            chk.undec("opens-its-file", "%s" % (t.show(x) if x is not None else "?"))
                    elif op != "open":
                        chk.bad("opens-its-file", e.site, "making a sink does %s to its file" % op, key=op, path=path(s2))
                    else:
                        chk.ok("opens-its-file", e.site)
    # nothing that changes the file system is out of view
    for (n, b), f in sorted(sites_of_effects(p).items()):
        if ("%s)" % short(f), b) in did:
            chk.ok("seen", "%s in %s" % (b, f.q))
        elif "FileSink" in f.ctx or "file_" in f.base:
            chk.ok("seen", "%s in %s (a file given by name)" % (b, f.q))
        else:
            chk.undec("seen", "%s in %s is not reached by the lives followed" % (b, f.q))
    chk.at_least("effects", 30)
    chk.at_least("opens-its-file", 1)


def life30(chk, ver, dims, types, n, ms, s3, store, did, vary=None):
    what = "version %d, %s, store %r%s%s%s" % (ver, "x".join("%d/%d/%d" % d for d in dims), store, ", multiscale" if ms else "", ", S3" if s3 else "", ", one failing file operation" if vary else "")
    v = {"custom_metadata": '{"../x": "../y"}'}
    if s3:
        v.update(S3VAL)
    root = root_of(store, s3)
    K = Created(chk, dims, types, version=ver, multiscale=ms, s3=s3, val=v, names=HOSTILE[:len(dims)], store=store)
    K.I.fs_vary = vary
    frame = dims[-1][0] * dims[-2][0] * 2

    def note(J, st, e):
        if e[0] == "fs" and e.mut:
            did.add((e.site.split(" (", 1)[1], e.op))
    K.I.hooks.append(note)
    try:
        good = K.run()
        if not root:
            for a, k, x in K.outs:
                judge30(chk, "effects", a, root, s3, what, K.p)
            return
        for a, k, x in K.outs:
            if not any(a is y for y, _ in good):
                judge30(chk, "effects", a, root, s3, what, K.p)
        if not good and not vary:
            chk.undec("effects", "%s: no stream" % what)
        for st, stream in good:
            outs = fed(K, st, stream, [n * frame])
            for a, k, x, _ in outs:
                if k != "ret":
                    judge30(chk, "effects", a, root, s3, what, K.p)
                    continue
                for o in K.destroy(a, stream):
                    judge30(chk, "effects", o[0], root, s3, what, K.p)
    except (Unsupported, Budget) as e:
        chk.undec("effects", "%s: %s" % (what, e))
        return
    if K.I.inexact():
        chk.undec("effects", "%s: not followed exactly (%s)" % (what, K.I.inexact()))


# ---- the S3 connection --------------------------------------------------------------------------
CONNOPS = {"is_connection_valid": "ListBuckets", "bucket_exists": "BucketExists", "object_exists": "StatObject", "put_object": "PutObject", "delete_object": "RemoveObject",
           "create_multipart_object": "CreateMultipartUpload", "upload_multipart_object_part": "UploadPart", "complete_multipart_object": "CompleteMultipartUpload"}


def connection(chk, want):
    """Each operation of a connection makes its one request with what it was given, and succeeds only if the request did.
    want: 'result' or 'request'"""
    from ..minio import Client, flat_fields
    p = chk.p
    CONN = "zarr::S3Connection"
    n = 0
    for f in sorted((f for f in p.fns.values() if f.ctx == CONN and f.base in CONNOPS and f.blocks), key=lambda f: f.n):
        I = quiet_log(chk.interp())
        I.may_throw = None
        Client(I, p)
        st = State()
        names = [x for x in ("bucket", "object", "upload_id")]
        this = heap(st, "conn")
        cl = heap(st, "client")
        o = field(p, CONN, ty=lambda x: "minio::s3::Client" in x)[0]
        put(st, this, o, ptr(cl, 0))
        args, given = [ptr(this, 0)], {}
        res = None
        if f.params and f.params[0] == "sret":
            res = heap(st, "result")
            args.insert(0, ptr(res, 0))
        reg = list(f.params)[len(args):]

        def pair(a, b, nm):
            if reg[0].startswith("byval"):
                reg.pop(0)
                m = heap(st, "arg:" + nm)
                put(st, m, 0, a)
                put(st, m, 8, b)
                args.append(ptr(m, 0))
            else:
                del reg[:2]
                args.extend((a, b))
        for ty in f.pt:
            if "basic_string_view" in ty:
                x = sym(names.pop(0), 0)
                given[x.a[0]] = x
                pair(t.slen(x), models.strptr(x), x.a[0])
                continue
            elif "span" in ty:
                d, k = ptr(heap(st, "bytes"), 0), sym("nbytes", 64)
                given["data"] = (d, k)
                I.assume(st, cmp("slt", C(64, -1), k), True)
                pair(d, k, "data")
                continue
            reg.pop(0)
            if "basic_string" in ty:
                x = sym(names.pop(0), 0)
                given[x.a[0]] = x
                b = heap(st, x.a[0])
                models.sets(I, st, ptr(b, 0), x)
                args.append(ptr(b, 0))
            elif "list<" in ty:
                b = heap(st, "parts")
                args.append(ptr(b, 0))
                given["parts"] = models.qcell(I, st, ptr(b, 0), "ln")
            elif ty in ("unsigned int", "int", "unsigned long"):
                given["part_number"] = sym("part", 32 if ty != "unsigned long" else 64)
                args.append(given["part_number"])
            else:
                raise Anchor("parameter %s of %s" % (ty, f.q))
        try:
            outs = I.run(st, f, args)
        except (Unsupported, Budget) as e:
            chk.undec("connection", "%s: %s" % (f.q, e))
            continue
        if I.inexact():
            chk.undec("connection", "%s: not followed exactly (%s)" % (f.q, I.inexact()))
            continue
        n += 1
        for s2, k, v in outs:
            if k == "dead":
                continue
            reqs = [e for e in s2.events() if e[0] == "minio"]
            good = []
            if k == "ret":
                if res is not None:
                    x = models.gets(I, s2, ptr(res, 0))
                    g = allow(s2, I, models.sempty(x), False)
                else:
                    x = v
                    g = allow(s2, I, t.trunc(v, 1) if v.bits > 1 else v, True)
                if g is not None:
                    good.append((g, x))
            mine = [e for e in reqs if e.op == CONNOPS[f.base]]
            if want == "request":
                for e in reqs:
                    bad = request(e, given, CONNOPS[f.base])
                    if bad:
                        chk.bad("request", e.site, "%s: %s" % (f.q, bad), key=f.base + bad[:20], path=path(s2))
                    else:
                        chk.ok("request", e.site)
                continue
            for g, x in good:
                fail = [e for e in reqs if e.r != "ok"]
                if fail:
                    chk.bad("connection", site(f), "%s reports success although %s failed" % (f.q, fail[-1].op), key=f.base, path=path(g))
                elif not mine:
                    chk.bad("connection", site(f), "%s reports success without asking the server" % f.q, key=f.base + "none", path=path(g))
                elif res is not None and not any(x is y for e in mine for y in e.vals.values()):
                    chk.bad("connection", site(f), "%s returns %s, which is not what the server answered" % (f.q, t.show(x)[:60]), key=f.base + "val", path=path(g))
                elif any(t.isc(e.vals.get("exist", C(8, 1)), 0) for e in mine):
                    chk.bad("connection", site(f), "%s says yes although the server said no" % f.q, key=f.base + "exist", path=path(g))
                else:
                    chk.ok("connection", f.q)
            if reqs and all(e.r == "ok" for e in reqs) and not good and not any("exist" in e.vals for e in reqs) and not (res is not None and k == "ret"):
                chk.bad("connection", site(f), "%s fails although the server did what was asked" % f.q, key=f.base + "spurious", path=path(s2))
    if n < len(CONNOPS):
        chk.undec("connection", "%d of %d operations followed" % (n, len(CONNOPS)))
    chk.at_least("connection" if want == "result" else "request", 4)


def request(e, given, op):
    if e.op != op:
        return "asks for %s" % e.op
    for k, v in given.items():
        if k == "data":
            x = e.par.get("data") or e.par.get("stream")
            if x is None:
                return "its data do not reach the request" if "data" in e.par or "stream" in e.par else None
            if x[0] is not v[0] or x[1] is not v[1]:
                return "sends %s bytes at %s, given %s at %s" % (t.show(x[1]), t.show(x[0]), t.show(v[1]), t.show(v[0]))
            if "object_size" in e.par and e.par["object_size"] is not v[1]:
                return "announces %s bytes of %s" % (t.show(e.par["object_size"]), t.show(v[1]))
            continue
        x = e.par.get(k)
        if x is None:
            return "does not say which %s" % k
        if x is not v:
            return "asks with %s %s" % (k, t.show(x)[:60])
    return None


# ---- C12 ----------------------------------------------------------------------------------------
def failures(st, since=0):
    """operations that failed on a path"""
    r = []
    for e in st.events()[since:]:
        if e[0] in ("fsfail", "refused", "blosc_fails", "sink_new_fails", "pool_new_fails"):
            r.append(e)
        elif e[0] == "fsodd" and e.path is not None and e.path.op == "str" and e.path.a[0] != "some/store.zarr":
            r.append(e)      # something that is not a directory is in the way (at the store itself it is replaced)
        elif (e[0] in ("sink_write", "sink_flush_") or e[0].startswith("s3_")) and "r" in e.d and e.r != 1:
            r.append(e)
    return r


def name_of(e):
    return {"fsodd": "finding a directory where one is needed (%s)" % (t.show(e.path) if e[0] == "fsodd" else ""), "fsfail": "a file-system operation (%s)" % e.d.get("op"), "refused": "the submission of a job", "blosc_fails": "a compression", "sink_new_fails": "the making of a sink",
            "pool_new_fails": "the connection to the server", "sink_write": "a write", "sink_flush_": "a flush"}.get(e[0], "an S3 request (%s)" % e[0][3:])


def c12(chk):
    connection(chk, "result")
    T_, CH, Z, O = 2, 1, 0, 3
    fams = [(((0, 2, 1), (2, 2, 1), (2, 1, 1)), (T_, Z, Z), 3), (((0, 1, 2), (2, 2, 1), (4, 4, 1)), (T_, Z, Z), 2)]
    if chk.thorough:
        fams += [(((0, 2, 2), (2, 1, 2), (2, 2, 1), (2, 1, 1)), (T_, CH, Z, Z), 5), (((0, 3, 1), (2, 2, 1), (4, 2, 1)), (O, Z, Z), 4)]
    for ver in (2, 3):
        for dims, types, n in fams:
            for s3 in (False, True):
                for ms in (False, True):
                    for comp in (None, dict(compressor=1, codec=1)):
                        if (ms and comp) and not chk.thorough:
                            continue
                        life12(chk, ver, dims, types, n, ms, s3, comp)
    finals(chk)
    for r, n in (("creation", 30), ("append", 30), ("destruction", 30), ("sink", 4)):
        chk.at_least(r, n)


def life12(chk, ver, dims, types, n, ms, s3, comp):
    what = "version %d, %s%s%s%s" % (ver, "x".join("%d/%d/%d" % d for d in dims), ", multiscale" if ms else "", ", S3" if s3 else "", ", compressed" if comp else "")
    v = dict(S3VAL) if s3 else {}
    frame = dims[-1][0] * dims[-2][0] * 2

    def fresh(broken):
        K = Created(chk, dims, types, version=ver, multiscale=ms, s3=s3, val=v, comp=comp)
        K.unreliable(broken)
        return K, K.run()

    def vague(K, rule):
        if K.I.inexact():
            chk.undec(rule, "%s: not followed exactly (%s)" % (what, K.I.inexact()))
            return True
    try:
        K, good = fresh(True)
        if not vague(K, "creation"):
            f = K.f
            for a, k, x in K.outs:
                bad = failures(a)
                if not bad:
                    continue
                if k == "exc" or x.op == "ptr":
                    chk.bad("creation", bad[0].site, "%s: %s failed, yet %s" % (what, name_of(bad[0]), "the stream is made" if k != "exc" else "an exception leaves stream creation"), key=bad[0][0] + bad[0].site.split(" (")[-1], path=path(a))
                else:
                    chk.ok("creation", "%s: %s" % (what, name_of(bad[0])))
    except (Unsupported, Budget) as e:
        chk.undec("creation", "%s: %s" % (what, e))
    for rule in ("append", "destruction"):
        try:
            K, good = fresh(False)
            if not good:
                chk.undec(rule, "%s: no stream" % what)
            for st, stream in good:
                if rule == "append":
                    K.unreliable(True)
                    outs = fed(K, st, stream, [n * frame])
                    if vague(K, rule):
                        continue
                    for a, k, x, _ in outs:
                        bad = failures(a)
                        if not bad:
                            continue
                        if k == "exc" or allow(a, K.I, cmp("eq", x, C(x.bits, 0))) is not None:
                            chk.bad("append", bad[0].site, "%s: %s failed, yet append %s" % (what, name_of(bad[0]), "reports success" if k != "exc" else "throws"), key=bad[0][0] + bad[0].site.split(" (")[-1], path=path(a))
                        else:
                            chk.ok("append", "%s: %s" % (what, name_of(bad[0])))
                else:
                    outs = fed(K, st, stream, [n * frame])
                    K.unreliable(True)
                    ends = [(o, len(a.events())) for a, k, x, _ in outs if k == "ret" for o in K.destroy(a, stream)]
                    if vague(K, rule):
                        continue
                    for (a, k, x), m in ends:
                        bad = failures(a, m)
                        if not bad:
                            continue
                        ev = a.events()
                        i = next(i for i, e in enumerate(ev) if e is bad[0])
                        if k == "exc" or not any(e[0] == "log" and e.level == 3 for e in ev[i:]):
                            chk.bad("destruction", bad[0].site, "%s: %s failed, yet %s" % (what, name_of(bad[0]), "nothing is said about it" if k != "exc" else "an exception leaves the destruction"), key=bad[0][0] + bad[0].site.split(" (")[-1], path=path(a))
                        else:
                            chk.ok("destruction", "%s: %s" % (what, name_of(bad[0])))
        except (Unsupported, Budget) as e:
            chk.undec(rule, "%s: %s" % (what, e))


def finals(chk):
    """finishing a sink succeeds only if its flush does"""
    p = chk.p
    for f in [f for f in fns(p, "zarr::finalize_sink") if f.blocks]:
        J = Jobs(chk, "note")
        I = J.I
        st = State()
        up = heap(st, "arg")
        s_ = heap(st, "sink")
        set_vptr(p, st, s_, "zarr::Sink")
        put(st, up, 0, ptr(s_, 0))
        try:
            outs = I.run(st, f, [ptr(up, 0)])
        except (Unsupported, Budget) as e:
            chk.undec("sink", str(e))
            continue
        for a, k, v in outs:
            if k == "dead":
                continue
            fl = [e for e in a.events() if e[0] == "sink_flush_"]
            if not fl:
                chk.bad("sink", site(f), "a sink is finished without being flushed", key="noflush", path=path(a))
                continue
            g = allow(a.fork(), I, t.trunc(v, 1), True) if k == "ret" else None
            if fl[-1].r != 1 and (k == "exc" or g is not None):
                chk.bad("sink", fl[-1].site, "the flush of a sink %s, yet finishing it %s" % ("threw" if fl[-1].r == "throw" else "failed", "throws" if k == "exc" else "reports success"), key="flush%s" % fl[-1].r, path=path(a))
            elif fl[-1].r == 1 and g is None:
                chk.bad("sink", site(f), "finishing a sink fails although its flush succeeded", key="spurious", path=path(a))
            else:
                chk.ok("sink", "flush %s" % fl[-1].r)
            if sum(1 for e in a.events() if e[0] == "sinkdtor") != 1:
                chk.bad("sink", site(f), "a finished sink is not destroyed exactly once", key="dtor", path=path(a))
            else:
                chk.ok("sink")
    # sinks themselves
    file_sink(chk)
    from .s3 import SinkRun, seg
    R = SinkRun(chk)
    P = R.bs if R.inobj and R.bs >= 1 << 16 else 5 << 20
    for ops in ([(0, 100)], [(0, P)], [(0, P), (P, 7)], [(0, 2 * P + 3)]):
        try:
            res = R.go(ops)
        except (Budget, Unsupported) as e:
            chk.undec("sink", "%s: %s" % (ops, e))
            continue
        for st, h in res:
            ev = st.events()
            cur = None
            for e in ev:
                if e[0] in ("op_write", "op_flush"):
                    cur = e
                elif e[0] == "op_done":
                    bad = [x for x in seg(ev, cur, e) if x[0].startswith("s3_") and "r" in x.d and x.r != 1]
                    if bad and e.r == 1:
                        chk.bad("sink", bad[-1].site, "%s failed, yet %s of the S3 sink reports success" % (name_of(bad[-1]), "a write" if cur[0] == "op_write" else "the flush"), key="s3" + bad[-1][0], path=path(st))
                    elif bad:
                        chk.ok("sink")


def file_sink(chk):
    """a file sink succeeds only if its stream is good afterwards"""
    p = chk.p
    for nm in ("write", "flush_"):
        for f in [f for f in fns(p, "zarr::FileSink::" + nm) if f.blocks]:
            I = quiet_log(chk.interp())
            st = State()
            this = heap(st, "this")
            args = [ptr(this, 0)] + ([sym("offset", 64), sym("data", 64), sym("size", 64)] if nm == "write" else [])
            try:
                outs = I.run(st, f, args)
            except (Unsupported, Budget) as e:
                chk.undec("sink", str(e))
                continue
            for a, k, v in outs:
                g = allow(a, I, t.trunc(v, 1), True) if k == "ret" else None
                if g is None:
                    continue
                os_ = [e for e in a.events() if e[0] in ("os_write", "os_seekp", "os_flush", "os_put")]
                if not os_:
                    continue
                st_ = [e for e in os_ if "v" in e.d]
                if not st_:
                    chk.undec("sink", "%s: state of the stream" % f.q)
                    continue
                from .files import implied_good
                if not any(implied_good(c, x, st_[-1].v) for c, x in g.facts.items()):
                    chk.bad("sink", st_[-1].site, "%s reports success although the stream may have failed" % f.q, key=nm, path=path(g))
                else:
                    chk.ok("sink", f.q)
