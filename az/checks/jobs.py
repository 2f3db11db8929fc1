"""C06, C07, C08: the jobs handed to the thread pool and the code that hands them over."""
from ..jobs import *
from ..check import path
from .. import models, terms as t


def explore(chk, each, variants=None):
    """run every batch function in every configuration; each(root, J, setup, outs)"""
    g = Graph(chk.p)
    rs, lost = roots(chk.p, g)
    n = 0
    for f, subs in rs:
        cfgs = []
        if "ArrayWriter" in f.ctx:
            for geo in GEOS if chk.thorough else GEOS[:2]:
                cfgs.append(dict(geo=geo))
                cfgs.append(dict(geo=geo, sinks=0))
        else:
            for k in ((0, 1, 2, 3) if chk.thorough else (0, 1, 2)):
                cfgs.append(dict(n=k))
        for c in cfgs:
            J = Jobs(chk, "note")
            st = State()
            try:
                s = Setup(chk.p, st, f, **c)
                outs = J.explore(s, f)
            except Budget:
                chk.undec("batch", "%s %s: too many paths" % (f.q, c))
                continue
            except Unsupported as e:
                chk.undec("batch", "%s %s: %s" % (f.q, c, e))
                continue
            n += 1
            each(f, J, s, outs, c)
    return rs, lost, n


def jobs_of(chk):
    """distinct jobs: (root, J, job)"""
    seen = {}
    res = []

    def each(f, J, s, outs, c):
        for j in J.jobs:
            # a few jobs for every combination of scalar values the job was given
            k = ((f.n, j[2]), J.scalars(j))
            if seen.get(k, 0) >= (4 if chk.thorough else 3) or sum(n for (x, _), n in seen.items() if x == k[0]) >= (60 if chk.thorough else 16):
                continue
            seen[k] = seen.get(k, 0) + 1
            res.append((f, J, j))
    rs, lost, n = explore(chk, each)
    return rs, lost, res


def fname(p, n):
    f = p.fns[n]
    # the lambda is named by the function holding it
    return "%s:%s" % (f.file, f.line)


def jsite(p, name, jsite_):
    return jsite_


def c07(chk):
    tot = [0, 0]
    subsites = set()

    def each(f, J, s, outs, c):
        for st, k, v in outs:
            if k == "dead":
                continue
            ev = st.events()
            pend, latches = [], {}
            for e in ev:
                if e[0] == "latch":
                    latches[e.l] = [e, 0]
                elif e[0] == "submit":
                    pend.append(e)
                    subsites.add(e.site)
                elif e[0] in ("latch_wait", "latch_arrive_and_wait"):
                    if e.l not in latches:
                        chk.bad("waits", e.site, "waits on a latch of unknown size", key=f.q + "latch")
                        continue
                    n = latches[e.l][0].n
                    if n.op != "c":
                        chk.undec("count", "%s: the number of signals expected is not a constant in configuration %s" % (f.q, c))
                    elif t.cv(n) != len(pend):
                        chk.bad("count", e.site, "%d jobs are submitted but %d completions expected (%s)" % (len(pend), t.cv(n), cfg(c)), key=f.q + "|count", path=path(st))
                    else:
                        chk.ok("count", "%s %s: %d" % (f.q, cfg(c), len(pend)))
                    tot[0] += 1
                    pend = []
            if pend:
                chk.bad("waits", pend[0].site, "%s with %d submitted jobs not waited for" % ("returns" if k == "ret" else "throws", len(pend)), key=f.q + "|wait", path=path(st))
            else:
                chk.ok("waits", f.q)
            # one job at a time: a batch only fails at its first submission (a stopped pool)
    rs, lost, n = explore(chk, each)
    for f in lost:
        chk.bad("waits", site(f), "submits jobs but no caller waits for them", key=f.q + "|wait")
    _, _, jobs = jobs_of(chk)
    done = set()
    for f, J, j in jobs:
        try:
            J2, jf, outs, err = J.run_job(j)
        except (Budget, Unsupported) as e:
            chk.undec("signals-once", "%s: %s" % (j[3], e))
            continue
        for st, k, v in outs:
            if k == "dead":
                continue
            n = [e for e in st.events() if e[0].startswith("latch_count_down") or e[0] == "latch_arrive_and_wait"]
            s_ = j[3]
            if len(n) != 1 or not (n[0].n.op == "c" and t.cv(n[0].n) == 1):
                chk.bad("signals-once", n[-1].site if n else s_, "the job %s having signalled completion %d times" % ("throws" if k == "exc" else "returns", len(n)), key="once|" + j[2], path=path(st))
            else:
                chk.ok("signals-once", "%s on %s" % (s_, "return" if k == "ret" else "throw"))
        done.add(j[2])
    chk.notes.append("batches: %s" % [f.q for f, _ in rs])
    chk.notes.append("job bodies: %s" % sorted(done))
    chk.at_least("count", 6)
    chk.at_least("signals-once", 6)
    push, _, _ = sets_of(chk.p)
    cs = [f for f in Graph(chk.p).callers(push) if f.repo]
    if len(subsites) < len(cs) and not chk.viol and not chk.undecided:
        raise Anchor("only %d of %d submission sites reached" % (len(subsites), len(cs)))


def cfg(c):
    return ", ".join("%s=%s" % (k, v) for k, v in c.items())


def c08(chk):
    _, _, jobs = jobs_of(chk)
    for f, J, j in jobs:
        try:
            J2, jf, outs, err = J.run_job(j)
        except (Budget, Unsupported) as e:
            chk.undec("before-signal", "%s: %s" % (j[3], e))
            continue
        for st, k, v in outs:
            if k == "dead":
                continue
            l = [e for e in st.events() if e[0] == "late"]
            if l:
                s_ = l[0].site if l[0].site != "?" else j[3]
                chk.bad("before-signal", s_, "%s of the submitter's %s after completion was signalled" % (l[0].what, t.show(l[0].at)), key="late|" + j[2] + "|" + j[3], path=path(st))
            else:
                chk.ok("before-signal", j[3])
    chk.at_least("before-signal", 6)


def c06(chk):
    from .. import stream as S
    from . import pool as PO
    # ---- the jobs: never throw, a failure carries a message
    _, _, jobs = jobs_of(chk)
    throws = []
    for f, J, j in jobs:
        try:
            J2, jf, outs, err = J.run_job(j)
        except (Budget, Unsupported) as e:
            chk.undec("no-throw", "%s: %s" % (j[3], e))
            continue
        for st, k, v in outs:
            if k == "dead":
                continue
            if k == "exc":
                throws.append((j, path(st)))
                continue
            s2 = allow(st, J2.I, t.trunc(v, 1) if v.bits > 1 else v, False)
            if s2 is None:
                chk.ok("message", j[3])
                continue
            msg = models.gets(J2.I, s2, ptr(err, 0))
            e = models.sempty(msg)
            e = e if e.op == "c" else s2.facts.get(e, e)
            if (e.op == "c" and t.cv(e)) if hasattr(e, "op") else e:
                chk.bad("message", j[3], "the job can fail with an empty message", key="msg|" + j[2], path=path(s2))
            else:
                chk.ok("message", j[3])
    # ---- the workers: report once, survive
    P = PO.setup(chk)
    if P is not None:
        I, b, runs, f = PO.worker_runs(chk, P, throws=bool(throws))
        n = caught = 0
        escapes = False
        for ev, st, kind in runs:
            fail = None
            for e in ev:
                if e[0] == "job":
                    if fail is not None:
                        chk.bad("reported-once", e.site, "a failed job is not reported to the error handler", key="handler", path=path(st))
                    fail = e if e.r != 1 else None
                    n += e.r == 0
                elif e[0] == "handler":
                    if fail is None:
                        chk.bad("reported-once", e.site, "the error handler is called for a job that succeeded, or twice for one that failed", key="spurious", path=path(st))
                    else:
                        x = e.msg
                        if fail.msg == "failed" and (x is None or "failed" not in t.show(x)) and fail.r == 0:
                            chk.bad("message-kept", e.site, "the error handler does not get the job's message", key="lost", path=path(st))
                        elif fail.r == "throw" and x is not None and x is t.lit(""):
                            chk.bad("message-kept", e.site, "a job that throws is reported without a message", key="empty", path=path(st))
                        else:
                            chk.ok("message-kept", e.site)
                            chk.ok("reported-once", e.site)
                    fail = None
                elif e[0] == "havoc" and fail is not None:
                    chk.bad("reported-once", e.site, "a failed job is not reported to the error handler", key="handler", path=path(st))
                    fail = None
            if fail is not None and fail.r == "throw" and kind in ("exc", "dead"):
                escapes = True
            elif fail is not None and kind in ("ret", "loop"):
                chk.bad("reported-once", site(f), "a failed job is not reported to the error handler", key="handler", path=path(st))
        if not n:
            raise Anchor("no failing job in the worker loop")
        for j, pa in throws:
            if escapes:
                chk.bad("no-throw", j[3], "an exception can leave the job and end the process", key="throw|" + j[2], path=pa)
            else:
                chk.ok("no-throw", j[3])
    if not throws:
        chk.ok("no-throw", "%d jobs" % len(jobs))
    # ---- the stream: keeps the message, refuses further data
    I, st_, got = S.capture(chk, val={"multiscale": 0})
    s0, base, h, hs, _ = got[0]
    fo, fs_ = t.split(h)
    inv = I.load(s0, ptr(fo, t.add(fs_, C(64, 24))), 8, 64)
    if inv.op != "fn":
        raise Anchor("error handler of the stream's pool not resolved")
    off = lambda f: field(chk.p, "ZarrStream_s", ty=f)[0]
    ow = off(lambda ty: "unique_ptr<zarr::ArrayWriter" in ty)
    of = off(lambda ty: ty.startswith("std::vector<std::byte"))
    w, a = heap(s0, "writers"), heap(s0, "writer0")
    put(s0, w, 0, ptr(a, 0))
    for o, v in ((0, 0), (8, 8), (16, 8)):
        put(s0, base, ow + o, ptr(w, v))
    fb, n = heap(s0, "frame"), sym("framesize", 64)
    for o, v in ((0, C(64, 0)), (8, n), (16, n)):
        put(s0, base, of + o, ptr(fb, v))

    def wf(J, st, c):
        J.emit(st, "write_frame", c.ctx)
        return [(st, "ret", n)]
    I.over["zarr::ArrayWriter::write_frame"] = wf
    out = heap(s0, "out")

    def append(st):
        return I.run(st, chk.p.fns["ZarrStream_append"], [ptr(base, 0), sym("data", 64), n, ptr(out, 0)])
    s0.facts[cmp("eq", n, C(64, 0))] = False
    s0.facts[cmp("eq", sym("data", 64), C(64, 0))] = False
    s0.trace = None
    oo = [o for n_, o, sz, ty in chk.p.fields("ZarrStream_s") if ty == "unsigned long"]
    if len(oo) != 1:
        raise Anchor("ZarrStream_s: %d fields for its frame buffer offset" % len(oo))
    for good, partial in ((True, False), (False, False), (False, True)):
        st = s0.fork()
        if partial:     # part of a frame is waiting for the rest
            put(st, base, oo[0], sym("buffered", 64))
            st.facts[cmp("eq", sym("buffered", 64), C(64, 0))] = False
        outs = [(st, "ret", None)]
        if not good:
            m = heap(st, "msg")
            x = sym("jobmsg", 0)
            models.sets(I, st, ptr(m, 0), x)
            st.facts[models.sempty(x)] = False
            outs = I.run(st, chk.p.fns[inv.a[0]], [h, ptr(m, 0)])
        for s1, k, _ in outs:
            if k != "ret":
                chk.bad("kept", hs, "the stream's error handler can throw", key="handler-throws", path=path(s1))
                continue
            s1.trace = None
            some = False
            runs = append(s1)
            if not good:    # and so is every later one
                again = []
                for s2, k2, v2 in runs:
                    if k2 != "dead" and not any(e[0] == "write_frame" for e in s2.events()) and k2 == "ret":
                        again += append(s2.fork())
                runs += again
            for s2, k2, v2 in runs:
                wrote = any(e[0] == "write_frame" for e in s2.events())
                okk = k2 == "ret" and allow(s2, I, cmp("eq", v2, C(v2.bits, 0))) is not None
                some |= wrote and okk
                if not good and (okk or wrote):
                    chk.bad("refuses", site(chk.p.fns["ZarrStream_append"]), "after a background failure append still %s" % ("writes frames" if wrote else "reports success"), key="append", path=path(s2))
                elif not good:
                    chk.ok("refuses", "append after failure: %s" % k2)
            if good and not some:
                chk.undec("refuses", "append of one frame on a healthy stream shows no success: model too weak")
    chk.at_least("message", 6)
    chk.at_least("message-kept", 1)
    chk.at_least("refuses", 1)
