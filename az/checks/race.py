"""C09, C41: data races."""
from ..stream import *
from ..race import Locks, Watch, batches, place_of
from ..check import path
from .. import models
from . import pool as PO, s3 as S
from .life import S3VAL, STORE
from ..cg import Graph
import re

LIBVAR = re.compile(r"_ZZ?N?[KVRO]*(S[tsaiod]|9__gnu_cxx)")     # variables of the standard library


# ---- C41: jobs of one batch ---------------------------------------------------------------------
def c41(chk):
    T, CH, Z, O = 2, 1, 0, 3
    fams = [(((0, 2, 2), (4, 2, 1), (6, 2, 2)), (T, Z, Z), 3),
            (((0, 1, 2), (2, 1, 1), (4, 2, 2), (3, 2, 1)), (T, CH, Z, Z), 5)]
    if chk.thorough:
        fams += [(((0, 3, 1), (8, 4, 1), (8, 4, 2)), (O, Z, Z), 7),
                 (((0, 1, 3), (5, 2, 1), (3, 3, 1), (7, 4, 2)), (T, Z, Z, Z), 9)]
    tot = [0, 0, 0]
    seen = set()
    for ver in (2, 3):
        for dims, types, n in fams:
            for s3 in (False, True):
                for comp in (None, dict(compressor=1, codec=1)):
                    for fail in (False, True):
                        if fail and (s3 or (not chk.thorough and dims is not fams[0][0])):
                            continue
                        life(chk, ver, dims, types, n, s3, comp, fail, tot, seen)
    chk.notes.append("%d batches, %d jobs, %d accesses compared; submission sites: %s" % (tot[0], tot[1], tot[2], sorted(seen)))
    if not chk.viol and not chk.undecided:
        from ..jobs import sets_of
        push, _, _ = sets_of(chk.p)
        want = {f.q for f in Graph(chk.p).callers(push) if f.repo}
        if len(seen) < len(want):
            raise Anchor("only %d of %d submission sites reached: %s" % (len(seen), len(want), sorted(want)))
    chk.at_least("apart", 40)


def life(chk, ver, dims, types, n, s3, comp, fail, tot, seen):
    what = "version %d, %s, %d frames%s%s%s" % (ver, "x".join("%d/%d/%d" % d for d in dims), n, ", S3" if s3 else "", ", compressed" if comp else "", ", one failure" if fail else "")
    K = Created(chk, dims, types, version=ver, s3=s3, val=dict(S3VAL) if s3 else None, store=STORE, comp=comp)
    W = Watch(K.J)
    ends = []
    try:
        if fail:
            K.unreliable(True)
            K.J.refuse = False
        good = K.run()
        go = {id(a) for a, _ in good}
        ends += [(a, k) for a, k, v in K.outs if id(a) not in go]
        frame = dims[-1][0] * dims[-2][0] * 2
        for st, stream in good:
            for a, k, v, x in K.append(st, stream, n * frame):
                if k != "ret":
                    ends.append((a, k))
                else:
                    ends += [(b, k2) for b, k2, _ in K.destroy(a, stream)]
    except (Unsupported, Budget) as e:
        chk.undec("apart", "%s: %s" % (what, e))
        return
    if K.I.inexact():
        chk.undec("apart", "%s: not followed exactly (%s)" % (what, K.I.inexact()))
        return
    if not good:
        chk.undec("apart", "%s: no stream" % what)
    for st, k in ends:
        ev = st.events()
        for e in ev:
            if e[0] == "submit":
                seen.add(e.site)
        bad, vague, clash, nb, nj, na = batches(ev)
        tot[0] += nb
        tot[1] += nj
        tot[2] += na
        if bad:
            a, b = bad[0]
            who = "two jobs of one batch" if a.job and b.job else "a job and its submitter"
            chk.bad("apart", b.site, "%s: %s access %s at the same time: %s at %s, %s at %s" % (what, who, t.show(ptr(b.base, b.off))[:80], "write" if a.what == "w" else "read", a.site, "write" if b.what == "w" else "read", b.site),
                    key="race|" + b.site.split(" (")[-1], path=None)
            return
        if clash:
            p1, e1, p2, e2 = clash[0]
            chk.bad("files-apart", e2.site, "%s: two jobs of one batch create %s and %s (%s), which depend on each other" % (what, p1, p2, e1.site), key="files|" + e2.site.split(" (")[-1])
            return
        chk.ok("files-apart", what)
        if vague:
            a, b = vague[0]
            chk.undec("apart", "%s: accesses at %s and %s may overlap" % (what, a.site, b.site))
            return
        chk.ok("apart", "%s: %d batches of %d jobs" % (what, nb, nj))


# ---- C09: state shared between threads ------------------------------------------------------------
class Shared:
    """Records who accesses what in one object, and in mutable globals."""

    def __init__(s, chk):
        s.chk, s.L = chk, Locks()
        s.G = Locks()
        s.role = "user"
        s.on = True
        s.objs = {}         # base -> (name, fields)
        s.kinds = ()        # kinds of objects recorded as a whole: [(kind of base, name)]
        s.roleof = None
        s.n = 0

    def watch(s, I):
        s.I = I
        I.access = s.access
        return I

    def access(s, st, base, off, n, what, atomic, ctx):
        if base[0] == "G":
            g = s.chk.p.globals.get(base[1])
            if g and not g.get("const") and not g.get("tls") and g.get("init") is not None and not base[1].startswith("_ZGV") and not LIBVAR.match(base[1]) and not st.cnt.get("guard"):
                s.G.add(g["dem"], "any", what, atomic, models.held(st), s.I.repo_site(ctx))
            return
        if not s.on:
            return
        o = s.objs.get(base)
        if o is None:
            for k, name in s.kinds:
                if base[0] == k:
                    o = (name, None)
            if o is None:
                return
        role = s.roleof(st) if s.roleof else s.role
        if role is None:
            return
        s.n += 1
        if o[1] is None:
            place = o[0]
        elif off.op == "c":
            place = o[0] + "." + place_of(o[1], t.cv(off))
        else:
            return
        s.L.add(place, role, what, atomic, models.held(st), s.I.repo_site(ctx))

    def judge(s, rule, L, everyone=False):
        for place in sorted(L.acc):
            c = L.conflicts(place, everyone)
            # an access without any protection first
            if c:
                a, b, wa, wb = c[0]
                s.chk.bad(rule, a, "%s: %s here may happen at the same time as %s at %s, without a common lock and not atomically" % (place, "a write" if wa == "w" else "a read", "a write" if wb == "w" else "a read", b), key="%s|%s" % (rule, place))
            else:
                for (r, w, at_, h), site_ in L.acc[place].items():
                    s.chk.ok(rule, "%s: %s by %s at %s (%s)" % (place, {"r": "read", "w": "write"}[w], r, site_, "atomic" if at_ else ", ".join(sorted(map(t.show, h))) or "no lock"))


def c09(chk):
    p = chk.p
    S_ = Shared(chk)
    pool_races(chk, S_)
    conn_races(chk, S_)
    stream_races(chk, S_)
    S_.judge("guarded", S_.L)
    log_races(chk, S_)
    S_.judge("globals", S_.G, everyone=True)
    loose(chk, S_)
    chk.assume.append("a stream is used by one user thread at a time; loggers, pools and connections by any number of threads")
    chk.at_least("guarded", 20)
    chk.at_least("globals", 2)


def pool_races(chk, S_):
    """the thread pool: what its workers access against what the user's calls access"""
    p = chk.p
    P = PO.setup(chk)
    if P is None:
        return
    fl = [x for x in p.fields(PO.POOL)]
    S_.kinds = (("Q", "queued jobs"),)
    # construction: what happens after the first worker has started
    I = quiet_log(chk.interp())
    I.hw = 8
    st = State()
    b = heap(st, "pool")
    S_.objs = {b: ("ThreadPool", fl)}
    S_.roleof = lambda s_: "user" if s_.cnt.get("thid") else None
    S_.watch(I)
    eh = PO.fnobj(st, "handler")
    outs = [s2 for s2, k, v in I.run(st, P.ctor, [ptr(b, 0), C(32, 3), ptr(eh, 0)]) if k == "ret"]
    if not outs:
        raise Anchor("the pool cannot be constructed")
    # user calls
    S_.roleof = lambda s_: "user" if s_.cnt.get("joined", 0) < 3 else None

    def on_join(J, s_, c):
        s_.cnt["joined"] = s_.cnt.get("joined", 0) + 1
    I.on_join = on_join
    for f, args in [(P.push, 1), (P.stop, 0)] + [(d, 0) for d in P.dtor]:
        s2 = outs[0].fork()
        s2.trace = None
        PO.havoc(P, s2, b, "start")
        a = [ptr(b, 0)]
        if args:
            a.append(ptr(PO.fnobj(s2, "newjob"), 0))
        I.loop_cap, I.unroll = 1, 24
        I.run(s2, f, a)
    # workers
    S_.roleof = lambda s_: "worker"
    PO.worker_runs(chk, P, throws=False, prepare=S_.watch)
    I.access = None
    S_.kinds = ()


def conn_races(chk, S_):
    """the S3 connection pool: everything may happen at the same time as everything"""
    p = chk.p
    fl = p.fields(S.POOL)
    for n in (0, 1, 2):
        I = quiet_log(chk.interp())
        S_.roleof = lambda s_: None
        st, b, v, el = S.pool_obj(chk, I, State(), n)
        S_.objs = {b: ("S3ConnectionPool", fl), v: ("idle connections", None)}
        S_.roleof = lambda s_: "worker"
        S_.watch(I)
        for f in p.fns.values():
            if f.ctx != S.POOL or not f.blocks or f.base in ("S3ConnectionPool", "~S3ConnectionPool"):
                continue
            s2 = st.fork()
            r = heap(s2, "res")
            a = []
            if "sret" in f.params:
                a.append(ptr(r, 0))
            a.append(ptr(b, 0))
            c = heap(s2, "conn")
            put(s2, r if "sret" not in f.params else heap(s2, "arg"), 0, ptr(c, 0))
            for ty in f.pt:
                if "unique_ptr" in ty:
                    x = heap(s2, "arg")
                    put(s2, x, 0, ptr(c, 0))
                    a.append(ptr(x, 0))
                else:
                    a.append(sym("arg", 64))
            try:
                I.run(s2, f, a)
            except (Unsupported, Budget) as e:
                chk.undec("guarded", "%s: %s" % (f.q, e))
        I.access = None
    S_.objs = {}


def stream_races(chk, S_):
    """the stream object: what the error handler and the jobs access against what the user's calls access"""
    p = chk.p
    fl = p.fields("ZarrStream_s")
    T, Z = 2, 0
    dims = ((0, 2, 1), (2, 2, 1), (4, 2, 1))
    for ver in (2, 3):
        K = Created(chk, dims, (T, Z, Z), version=ver, store=STORE, comp=dict(compressor=1, codec=1), multiscale=ver == 3)
        I = K.I
        W = []
        hs = []

        def ctor(J, s_, c):
            s_.cnt["threads"] = 1
            keep = heap(s_, "handler kept")
            J.memcpy(s_, ptr(keep, 0), c.args[2], C(64, 32), None)
            hs.append(ptr(keep, 0))
            for e in s_.events():
                if e[0] == "new" and not e.arr:
                    S_.objs[t.split(e.p)[0]] = ("ZarrStream_s", fl)
                    break
            return None
        I.over[POOLC] = ctor

        def roleof(st):
            if "handler" in st.props:
                return "worker"
            if "job" in st.props:
                return "worker"
            return "user" if st.cnt.get("threads") and not st.cnt.get("stopped") else None

        class Marks:
            def begin(s, st, c, fo, err, f):
                st.props["job"] = 1
                return c.ctx

            def end(s, st):
                st.props.pop("job", None)
        K.J.watch = Marks()
        S_.roleof = roleof
        S_.watch(I)
        S_.objs = {}
        try:
            good = K.run()
            if not good or not hs:
                raise Anchor("no stream, or no error handler given to its pool")

            def settle():
                for g in p.byq.get("zarr::ThreadPool::await_stop", []):
                    def stop(J, s_, c):
                        J.emit(s_, "await_stop", c.ctx)
                        s_.cnt["stopped"] = 1
                    I.over[g.n] = stop
            K._settle = settle
            for st, stream in good[:1]:
                for a, k, v, x in K.append(st, stream, 3 * 16 + 5):
                    if k != "ret":
                        continue
                    h = hs[0]
                    bo, oo = t.split(h)
                    inv = I.load(a, ptr(bo, t.add(oo, C(64, 24))), 8, 64)
                    if inv.op != "fn":
                        raise Anchor("error handler of the stream's pool not resolved")
                    m = heap(a, "jobmsg")
                    models.sets(I, a, ptr(m, 0), sym("jobmsg", 0))
                    b = a.fork()
                    b.facts[models.sempty(sym("jobmsg", 0))] = False
                    b.props["handler"] = 1
                    after = [a]
                    for b2, k2, _ in I.run(b, p.fns[inv.a[0]], [h, ptr(m, 0)]):
                        b2.props.pop("handler", None)
                        if k2 == "ret":
                            after.append(b2)
                    for y in after:
                        for c2, k3, v3, x3 in K.append(y, stream, 16):
                            if k3 == "ret":
                                K.destroy(c2, stream)
                    # every other function of the C API that takes a stream
                    for f in p.fns.values():
                        if f.n.startswith("ZarrStream_") and f.blocks and f.n not in ("ZarrStream_append", "ZarrStream_create", "ZarrStream_destroy") and f.params[:1] == ["ptr"]:
                            args = [stream] + [ptr(heap(a, "apiarg%d" % i), 0) if q == "ptr" else sym("apiarg%d" % i, int(q[1:]) if q[0] == "i" else 64) for i, q in enumerate(f.params[1:])]
                            I.run(a.fork(), f, args)
        except (Unsupported, Budget) as e:
            chk.undec("guarded", "stream: %s" % e)
        I.access = None
    if not any(pl.startswith("ZarrStream_s.") and any(r == "worker" and w == "w" for r, w, _, _ in S_.L.acc[pl]) for pl in S_.L.acc):
        raise Anchor("no worker access to the stream seen")


def log_races(chk, S_):
    from .logger import logs, args_of
    p = chk.p
    S_.on = False
    L = logs(p)
    for f in L if chk.thorough else L[:2] + L[-1:]:
        for level in (0, 3):
            I = S_.watch(chk.interp())
            st, args, msg = args_of(I, f, level)
            I.run(st, f, args)
            I.access = None
    for q in ("Logger::set_log_level", "Logger::get_log_level"):
        for f in fns(p, q):
            I = S_.watch(chk.interp())
            I.run(State(), f, [sym("level", 32)] if f.pt else [])
            I.access = None


def loose(chk, S_):
    """mutable globals used by code the runs above have not reached"""
    p = chk.p
    ran = set().union(*[I.inlined for I in chk.ints]) if chk.ints else set()
    gl = {g for g, d in p.globals.items() if not d.get("const") and not d.get("tls") and d.get("init") is not None and not g.startswith("_ZGV") and not LIBVAR.match(g)}
    for f in p.fns.values():
        if not f.repo or not f.blocks or f.n in ran or f.n.startswith(("_GLOBAL__", "__cxx_global")):
            continue
        for b in f.blocks:
            for q in b:
                if q["op"] in ("load", "store", "atomicrmw", "cmpxchg") and not q.get("atomic"):
                    a = q["a"][1 if q["op"] == "store" else 0]
                    if isinstance(a, list) and a[:1] == ["g"] and a[1] in gl:
                        chk.undec("globals", "%s: access to %s not examined" % (f.q, p.globals[a[1]]["dem"]))
    chk.notes.append("%d mutable globals: %s" % (len(gl), sorted(p.globals[g]["dem"] for g in gl)))
