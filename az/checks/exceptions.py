"""C01: what may be thrown, and where it would end."""
from ..stream import *
from ..check import path
from ..exc import Throws, FS, ANY, THREAD, MEM
from .life import S3VAL, STORE
from .settings import base, entry


def name(x):
    return {FS: "std::filesystem::filesystem_error", ANY: "an exception of an external library", THREAD: "std::system_error (no more threads)"}.get(x, x.replace("_ZTI", ""))


class Boundary:
    def __init__(s, chk):
        s.chk, s.p = chk, chk.p
        s.T = Throws(chk.p)

    def outside(s, x):
        """thrown because of the environment (or not even a std::exception), not because the program contradicts itself"""
        if x in (FS, ANY, THREAD):
            return True
        if x in MEM:
            return False
        if not s.T.sub(x, "_ZTISt9exception"):
            return True
        return "parse_error" in x and "nlohmann" in x or "ios_base7failure" in x

    def judge(s, rule, where, at, got, what):
        bad = {x: st for x, st in got.items() if s.outside(x)}
        p = s.p
        for x, st in sorted(bad.items()):
            tr = s.T.trace(st, x)
            rep = [p.fns[v] for l, v in tr if v in p.fns and p.fns[v].repo]
            last = rep[-1] if rep else None
            loc = st[0].get("loc") or [0]
            at_ = site(last) if last else at
            s.chk.bad(rule, at_, "%s may reach %s (%s)" % (name(x), what, " -> ".join([where] + [(p.fns[v].q or v) if v in p.fns else v for l, v in tr])[:400]), key="%s|%s|%s" % (rule, where, x))
        if not bad:
            s.chk.ok(rule, "%s: %s" % (where, ", ".join(sorted(name(x) for x in got if x not in MEM)) or "nothing but memory exhaustion"))


def c01(chk):
    p = chk.p
    B = Boundary(chk)
    api = [f for f in p.fns.values() if f.repo and f.blocks and f.n.startswith("Zarr") and f.n == f.dem]
    if len(api) < 8:
        raise Anchor("public functions: %d" % len(api))
    for f in sorted(api, key=lambda f: f.n):
        B.judge("leaves the library", f.q, site(f), B.T.set[f.n], "the caller of " + f.n)
    runs = [f for f in p.fns.values() if f.blocks and f.base == "_M_run" and "thread" in f.dem]
    if not runs:
        raise Anchor("no thread entry")
    for f in runs:
        B.judge("ends the process", "thread entry", site(f), B.T.set[f.n], "the top of a thread, which ends the process")
    for f in sorted(p.fns.values(), key=lambda f: f.n):
        if f.blocks and f.repo and (f.nounwind or any(n == f.n for n, u in B.T.points)):
            got = {}
            for (n, u), d in B.T.points.items():
                if n == f.n:
                    got.update(d)
            B.judge("ends the process", f.q, site(f), got, "%s, which must not throw: the process ends" % f.q)
    if B.T.vague - {n for n in B.T.vague if n in p.fns and not p.fns[n].repo}:
        chk.undec("leaves the library", "calls not resolved in %s" % sorted(p.fns[n].q for n in B.T.vague if p.fns[n].repo))
    chk.notes.append("fixpoint over %d functions" % len(B.T.set))
    chk.at_least("leaves the library", 8)
    chk.at_least("ends the process", 5)
    calls(chk, api)
    threads(chk)
    T_, CH, Z, O = 2, 1, 0, 3
    fams = [(((0, 2, 1), (2, 2, 1), (2, 1, 1)), (T_, Z, Z), 3)]
    if chk.thorough:
        fams += [(((0, 1, 2), (2, 2, 1), (4, 4, 1)), (T_, Z, Z), 2), (((0, 2, 2), (2, 1, 2), (2, 2, 1), (2, 1, 1)), (T_, CH, Z, Z), 5)]
    for ver in (2, 3):
        for dims, types, n in fams:
            for s3 in (False, True):
                for ms, comp in ((False, None), (True, None), (False, dict(compressor=1, codec=1))):
                    if ms and s3 and not chk.thorough:
                        continue
                    life(chk, ver, dims, types, n, ms, s3, comp)
    chk.at_least("lives", 300)


def threads(chk):
    """the system refuses to start the k-th thread of the pool: those started must not be left to the destructor of std::thread, which ends the process"""
    from .pool import Pool
    P = Pool(chk)
    for n in (1, 2, 4):
        for k in range(1, n + 1):
            I, b, outs, starts = P.build(n, 8, refuse=k)
            for s in I.fatal:
                chk.bad("threads", site(P.ctor), "thread %d of %d cannot be started: the process is ended" % (k, n), key="threads|fatal", path=path(s))
            for s, kind in outs:
                ev = s.events()
                if not any(e[0] == "thread_refused" for e in ev):
                    continue
                on = {0x7000 + e.th_no for e in ev if e[0] == "thread_start"}
                off = {t.cv(e.d["id"]) for e in ev if e[0] in ("join", "detach") and e.d["id"].op == "c"}
                if kind == "exc" and on - off:
                    chk.bad("threads", site(P.ctor), "thread %d of %d cannot be started: the constructor gives up with %d threads running, which are neither stopped nor joined before the pool's members are destroyed; the process ends or hangs" % (k, n, len(on - off)), key="threads|left", path=path(s))
                elif kind == "ret" and not on - off:
                    chk.bad("threads", site(P.ctor), "thread %d of %d cannot be started: the pool is made without any worker" % (k, n), key="threads|none", path=path(s))
                else:
                    chk.ok("threads", "start of thread %d of %d refused: %s" % (k, n, "constructor fails, %d joined" % len(on) if kind == "exc" else "%d workers" % len(on - off)))
    chk.at_least("threads", 3)


def clean(chk, rule, what, outs, I, at):
    """no exception comes out and the process goes on"""
    for s in I.fatal:
        e = [e for e in s.events() if e[0] in ("terminate", "abort")]
        chk.bad(rule, e[-1].site if e else at, "%s: the process is ended" % what, key="%s|fatal" % rule, path=path(s))
        return False
    for a, k in outs:
        for e in a.events():
            if e[0] == "jobdone" and e.r == "throw":
                chk.bad(rule, e.site, "%s: an exception leaves a job and ends the process" % what, key="%s|job|%s" % (rule, e.site.split(" (")[-1]), path=path(a))
                return False
        if k == "exc":
            th = [e for e in a.events() if e[0] in ("throw", "cxa_throw")]
            chk.bad(rule, th[-1].site if th else at, "%s: an exception leaves the library" % what, key="%s|%s" % (rule, at.split(" (")[-1]), path=path(a))
            return False
        chk.ok(rule, what)
    return True


def calls(chk, api):
    """the public functions on arbitrary scalars and valid pointers"""
    p = chk.p
    for f in sorted(api, key=lambda f: f.n):
        if f.n in ("ZarrStream_append", "ZarrStream_destroy"):
            continue
        for nd in (1, 3, 5):
            I = light(quiet_log(chk.interp()))
            I.fs_throws, I.fs_ok = True, True
            st = State()
            S = Settings(p, st, ndims=nd, val={"store_path": "some/store.zarr"} if f.n.endswith("_create") else base(3) if nd == 3 else {}, valid=False) if nd else None
            if f.n.endswith("_create"):
                I.over[POOLC] = lambda J, s2, c: [(s2, "dead", None)]
            a = []
            for i, ty in enumerate(f.params):
                if ty == "ptr" and i == 0 and ("Settings" in f.n or f.n.endswith("_create")):
                    a.append(ptr(S.b, 0))
                elif ty == "ptr":
                    a.append(ptr(heap(st, "arg%d" % i), 0))
                else:
                    a.append(sym("arg%d" % i, int(ty[1:])))
            try:
                outs = I.run(st, f, a)
            except (Unsupported, Budget) as x:
                chk.undec("calls", "%s: %s" % (f.n, x))
                continue
            clean(chk, "calls", f.n, [(s, k) for s, k, v in outs if k != "dead"], I, site(f))
            if not f.n.endswith("_create"):
                break
    chk.at_least("calls", 5)


def life(chk, ver, dims, types, n, ms, s3, comp):
    what = "version %d, %s%s%s%s" % (ver, "x".join("%d/%d/%d" % d for d in dims), ", multiscale" if ms else "", ", S3" if s3 else "", ", compressed" if comp else "")
    v = dict(S3VAL) if s3 else {}
    frame = dims[-1][0] * dims[-2][0] * 2
    p = chk.p

    def fresh(broken):
        K = Created(chk, dims, types, version=ver, multiscale=ms, s3=s3, val=v, comp=comp, store=STORE)
        K.I.fs_throws = broken
        K.unreliable(broken)
        return K, K.run()

    def vague(K):
        if K.I.inexact():
            chk.undec("lives", "%s: not followed exactly (%s)" % (what, K.I.inexact()))
            return True
    try:
        K, good = fresh(True)
        if vague(K) or not clean(chk, "lives", what + ": creation", [(a, k) for a, k, x in K.outs], K.I, site(K.f)):
            return
        for st, stream in [g for g in good if not K.J.may(g[0])][:6]:
            ends = [(a, k) for a, k, x in K.destroy(st.fork(), stream)]
            if not clean(chk, "lives", what + ": destruction after a failure in creation", ends, K.I, site(p.fns["ZarrStream_destroy"])):
                return
        K, good = fresh(False)
        if vague(K) or not good:
            return
        st, stream = good[0]
        K.unreliable(True)
        K.I.fs_throws = True
        app = K.append(st.fork(), stream, n * frame)
        if vague(K) or not clean(chk, "lives", what + ": append", [(a, k) for a, k, x, y in app], K.I, site(p.fns["ZarrStream_append"])):
            return
        for a, k, x, y in app:
            if k != "ret":
                continue
            ends = [(b, k2) for b, k2, _ in K.destroy(a.fork(), stream)]
            if vague(K) or not clean(chk, "lives", what + ": destruction", ends, K.I, site(p.fns["ZarrStream_destroy"])):
                return
    except (Unsupported, Budget) as e:
        chk.undec("lives", "%s: %s" % (what, e))
