"""C24, C19, C25, C31: what an array writer does with its buffers."""
from ..writer import *
from ..check import path
from .. import terms as t, models
from .geometry import geom, env_of, BYTES

M32 = (1 << 32) - 1


def ints(p):
    return p


def c24(chk):
    p = chk.p
    n = 0
    for cls in (V2, V3):
        for nd in ((3, 4, 5, 6, 7, 8, 9) if chk.thorough else (3, 4, 7)):
            J = Jobs(chk, "note")
            J.write_throws = False
            I = J.I
            I.fs_throws = False
            st = State()
            d = Dims(p, st, nd)
            w = Writer(p, st, cls, d, n=2, m=1)
            nb = sym("framebytes", 64)
            stub(I, p, ["flush_impl_", "write_array_metadata_"])
            for q, v in (("ArrayDimensions::number_of_chunks_in_memory", C(32, 2)), ("ArrayDimensions::bytes_per_chunk", w.bytes), ("zarr::bytes_of_frame", nb)):
                fns(p, q)
                I.over[q] = lambda JJ, s_, c, v=v: v
            for f in p.byq.get("zarr::ArrayWriter::write_frame_to_chunks_", []):
                I.over[f.n] = lambda JJ, s_, c: nb
            f = fns(p, "zarr::ArrayWriter::write_frame")[0]
            try:
                outs = I.run(st, f, [w.this, sym("data", 64), nb])
            except (Unsupported, Budget) as e:
                chk.undec("flush-boundary", "%s: %s" % (cls, e))
                continue
            fo, fsz, fsym = w.counter("frames_written")
            ao, asz, asym = w.counter("append_chunk")
            bo, bsz, bsym = w.counter("bytes_to_flush")
            good = bad = 0
            for _ in range(4000 if chk.thorough else 1500):
                g = geom(chk.rng, nd)
                if g is None:
                    continue
                a, c, s, _n, _l, fr = g
                layer = c[0] * fr
                shard = layer * s[0]
                if shard >= 1 << 62:
                    continue
                k = chk.rng.randrange(1, 9)
                unit = chk.rng.choice([layer, shard, 1, layer * s[0] * 3])
                N = unit * k + chk.rng.choice([0, 0, 0, 1, -1])
                if N < 1 or N > (1 << 63) or N > (1 << (8 * fsz)) - 1:
                    continue
                A0 = chk.rng.choice([0, 0, 1, 5, 1000])
                env = env_of(d, a, c, s, 1)
                env.update({fsym: N - 1, asym: A0, bsym: 1 << 20, nb: 1 << 10, sym("data", 64): 1 << 30, w.bytes: 77})
                cache = {}
                want_f = N % layer == 0
                want_r = want_f if cls == V2 else N % shard == 0
                hit = 0
                for s2, kk, v in outs:
                    if kk == "dead" or consistent(s2, env, cache) is False:
                        continue
                    ev = s2.events()
                    wf = [e for e in ev if e[0] == "sink_write"]
                    if any(e[0] == "sink_flush_" and e.r != 1 for e in ev):
                        continue   # a failing sink
                    hit += 1
                    fl = [e for e in ev if e[0] == "aw_flush_impl_"]
                    ro = [e for e in ev if e[0] == "sink_flush_"]
                    where = "sizes %s, chunks %s, shards %s, %d frames received" % (a, c, s, N)
                    if kk == "exc":
                        chk.bad("flush-boundary", site(f), "an exception is thrown: %s" % where, key=cls + "exc", path=path(s2))
                        bad = 1
                    elif bool(fl) != want_f:
                        chk.bad("flush-boundary", fl[0].site if fl else site(f), "chunks are %s: %s (one layer of chunks holds %d frames)" %
                                ("written out too early" if fl else "not written out although a layer is complete", where, layer), key=cls + "flush", path=path(s2))
                        bad = 1
                    elif bool(ro) != want_r:
                        chk.bad("rollover-boundary", ro[0].site if ro else site(f), "files are %s: %s (one file holds %d frames)" %
                                ("replaced before they are complete" if ro else "kept open although complete", where, layer if cls == V2 else shard), key=cls + "roll", path=path(s2))
                        bad = 1
                    else:
                        # counters
                        x = I.load(s2, ptr(w.b, ao), asz, 8 * asz)
                        y = I.load(s2, ptr(w.b, fo), fsz, 8 * fsz)
                        try:
                            xv, yv = t.evalt(x, env, cache), t.evalt(y, env, cache)
                        except KeyError:
                            continue
                        if yv != N:
                            chk.bad("frame-count", site(f), "%d frames received are counted as %d" % (N, yv), key=cls + "count")
                            bad = 1
                        elif xv != A0 + (1 if want_r else 0):
                            chk.bad("rollover-boundary", site(f), "the file number goes from %d to %d %s" % (A0, xv, "at a rollover" if want_r else "without a rollover"), key=cls + "index")
                            bad = 1
                        else:
                            lo, hi = (I.load(s2, ptr(w.b, w.o_sinks + o), 8, 64) for o in (0, 8))
                            if want_r and lo is not hi:
                                chk.bad("rollover-boundary", site(f), "finalized sinks are kept after a rollover", key=cls + "kept", path=path(s2))
                                bad = 1
                            elif not want_r and hi is not t.add(lo, C(64, 8)):
                                chk.bad("rollover-boundary", site(f), "the list of open files changes without a rollover", key=cls + "lost", path=path(s2))
                                bad = 1
                    if bad:
                        break
                if bad:
                    break
                good += hit > 0
            n += good
            if not bad:
                if good < 200:
                    chk.undec("flush-boundary", "%s, %d dimensions: only %d valuations evaluable" % (cls, nd, good))
                else:
                    chk.ok("flush-boundary", "%s, %d dimensions: %d valuations over %d paths" % (cls, nd, good, len(outs)))
                    chk.ok("rollover-boundary")
            # the counter itself must not wrap within the range of a data set
            if fsz < 8:
                chk.bad("frame-count", site(f), "frames are counted in %d bits" % (8 * fsz), key="width")
            else:
                chk.ok("frame-count", "%d bits" % (8 * fsz))
    chk.at_least("flush-boundary", 2)


# ---- C19 -----------------------------------------------------------------------------------


def zeroed(I, st, v, evs, loops, env):
    """-> (length in bytes, length of the leading part known to be zero, None or "?") of the byte vector at address v, under a valuation"""
    val = lambda x: t.evalt(x, dict(env))
    lo, hi = I.load(st, v, 8, 64), I.load(st, ptr(t.split(v)[0], t.add(t.split(v)[1], C(64, 8))), 8, 64)
    b, o = t.split(lo)
    n = val(t.sub(hi, lo))
    ob = st.mem.get(b)
    touched = False
    z = None
    for e in evs:
        if e[0] == "vclear" and t.split(e.at)[0] == b:
            z = 0
        elif e[0] == "vresize" and "at" in e.d and t.split(e.at)[0] == b:
            old = val(e.old)
            if old == 0 or z is not None and z >= old:
                z = val(e.nb) if e.fv.op == "c" and t.cv(e.fv) == 0 else z
        elif e[0] in ("fill", "memset"):
            at_ = e.d.get("at", e.d.get("d"))
            if at_ is None or t.split(at_)[0] != b:
                continue
            touched = True
            x = e.val if "val" in e.d else e.d.get("v")
            if x is not None and x.op == "c" and t.cv(x) == 0:
                if at_ is ptr(b, 0) and e.n is not None:
                    z = max(z or 0, val(e.n))
            else:
                z = None
        elif e[0] in ("memcpy", "memmove") and e.d.get("d") is not None and t.split(e.d.get("d"))[0] == b:
            z = None
            touched = True
    if b[0] == "V" and not touched and ob is not None and ob.f == ((0, None, 0),) and not ob.c:
        z = n   # storage made by the library as all zeros, never written since
    if (z is None or z < n) and b in loops:
        return n, "?"    # zeroed by a loop of its own
    return n, z


def c19(chk):
    p = chk.p
    for cls in (V2, V3):
        for scen in ("first frame", "after a flush"):
            for compressed in (False, True):
                J = Jobs(chk, "note")
                J.write_throws = False
                I = J.I
                I.fs_throws = False
                st = State()
                d = Dims(p, st, 3)
                N = 3
                w = Writer(p, st, cls, d, n=0 if scen == "first frame" else N, m=1, compressed=compressed)
                nb = sym("framebytes", 64)
                dirty = [sym("compressed%d" % i, 64) for i in range(N)]

                def flush(JJ, s2, c):
                    # after the write-out the buffers hold compressed data of any size
                    v = t.split(I.load(s2, ptr(w.b, w.o_bufs), 8, 64))[0]
                    for i in range(N):
                        nbuf = ("H", "dirty%d" % i, 0)
                        s2.mem[nbuf] = Obj({}, (), 0, s2.tok)
                        for k, x in ((0, ptr(nbuf, 0)), (8, ptr(nbuf, dirty[i])), (16, ptr(nbuf, dirty[i]))):
                            put(s2, v, 24 * i + k, x)
                    JJ.emit(s2, "aw_dirty", c.ctx)
                    return [(s2, "ret", C(1, 1))]
                loops = set()

                def on_store(JJ, s2, q, v, ins, f, cx, loops=loops):
                    b, o = t.split(q)
                    if b[0] in ("V", "H") and o.op != "c" and v.op == "c" and v.bits == 8 and t.cv(v) == 0:
                        loops.add(b)
                I.on_store = on_store
                stub(I, p, ["write_array_metadata_"])
                for f in [f for f in p.fns.values() if f.base == "flush_impl_" and "ArrayWriter" in f.ctx]:
                    I.over[f.n] = flush
                for q, v in (("ArrayDimensions::number_of_chunks_in_memory", C(32, N)), ("ArrayDimensions::bytes_per_chunk", w.bytes), ("zarr::bytes_of_frame", nb)):
                    fns(p, q)
                    I.over[q] = lambda JJ, s_, c, v=v: v
                snaps = []
                tl = p.byq.get("zarr::ArrayWriter::write_frame_to_chunks_", [])
                for f in tl:
                    def tile(JJ, s_, c):
                        snaps.append(s_.fork())
                        return nb
                    I.over[f.n] = tile
                f = fns(p, "zarr::ArrayWriter::write_frame")[0]
                try:
                    outs = I.run(st, f, [w.this, sym("data", 64), nb])
                except (Unsupported, Budget) as e:
                    chk.undec("zeroed", "%s %s: %s" % (cls, scen, e))
                    continue
                if scen == "first frame":
                    if not tl:
                        chk.undec("zeroed", "no write_frame_to_chunks_")
                        continue
                    todo = [(s_, s_.events(), "before the first frame") for s_ in snaps]
                else:
                    todo = []
                    for s_, k, v in outs:
                        ev = s_.events()
                        if k == "ret" and any(e[0] == "aw_dirty" for e in ev):
                            todo.append((s_, ev, "after the chunks were written out"))
                for s_, ev, when in todo:
                    lo, hi = (I.load(s_, ptr(w.b, w.o_bufs + o), 8, 64) for o in (0, 8))
                    v = t.split(lo)[0]
                    nn = t.sub(hi, lo)
                    if not (nn.op == "c" and t.cv(nn) == 24 * N):
                        chk.bad("full-set", site(f), "there are %s chunk buffers %s, not one per chunk in memory" % (t.show(t.bin_("sdiv", nn, C(64, 24))), when), key=cls + scen + "n", path=path(s_))
                        continue
                    chk.ok("full-set", "%s, %s" % (cls, when))
                    for i in range(N):
                        envs = [{w.bytes: b, **{x: y for x, y in zip(dirty, ys)}} for b, ys in ((4096, (10, 20, 30)), ((1 << 33) + 5, (1, 1, 1)), (64, (80, 64, 1)), (9, (3, 0, 12)))]
                        envs = [e for e in envs if consistent(s_, e, {}) is not False]
                        try:
                            got = [(e[w.bytes], *zeroed(I, s_, ptr(v, t.add(t.split(lo)[1], C(64, 24 * i))), ev, loops, e)) for e in envs]
                        except KeyError as x:
                            chk.undec("zeroed", "%s, %s, buffer %d: %s" % (cls, when, i, str(x)[:80]))
                            continue
                        wrong = [(x, n) for x, n, z in got if n != x]
                        if wrong:
                            chk.bad("full-size", site(f), "chunk buffer %d has %d bytes %s, the uncompressed size of a chunk is %d" % (i, wrong[0][1], when, wrong[0][0]), key=cls + scen + "size", path=path(s_))
                        elif any(z == "?" for _, _, z in got):
                            chk.undec("zeroed", "%s, %s: buffer %d is zeroed by a loop whose extent is not decided" % (cls, when, i))
                        elif any(z is None or z < x for x, _, z in got):
                            chk.bad("zeroed", site(f), "chunk buffer %d is not filled with zeros %s" % (i, when), key=cls + scen, path=path(s_))
                        elif got:
                            chk.ok("zeroed", "%s, %s, buffer %d" % (cls, when, i))
                            chk.ok("full-size", "%s" % got[0][1])
    chk.at_least("zeroed", 8)


def less(a, b, env):
    try:
        return t.evalt(a, dict(env)) < t.evalt(b, dict(env))
    except KeyError:
        return False


def same(a, b, env):
    try:
        return t.evalt(a, dict(env)) == t.evalt(b, dict(env))
    except KeyError:
        return None


# ---- C31 -----------------------------------------------------------------------------------


def c31(chk):
    p = chk.p
    OVER = 16
    for cls in (V2, V3):
        J = Jobs(chk, "note")
        J.write_throws = False
        I = J.I
        I.fs_throws = False
        st = State()
        d = Dims(p, st, 3)
        N = 2
        w = Writer(p, st, cls, d, n=N, m=1, compressed=True)
        nb = sym("framebytes", 64)
        stub(I, p, ["flush_impl_", "write_array_metadata_"])
        px = sym("pixelbytes", 64)
        for q, v in (("ArrayDimensions::number_of_chunks_in_memory", C(32, N)), ("ArrayDimensions::bytes_per_chunk", w.bytes), ("zarr::bytes_of_frame", nb), ("zarr::bytes_of_type", px)):
            fns(p, q)
            I.over[q] = lambda JJ, s_, c, v=v: v
        for f in p.byq.get("zarr::ArrayWriter::write_frame_to_chunks_", []):
            I.over[f.n] = lambda JJ, s_, c: nb
        f = fns(p, "zarr::ArrayWriter::write_frame")[0]
        try:
            outs = I.run(st, f, [w.this, sym("data", 64), nb])
        except (Unsupported, Budget) as e:
            chk.undec("every-chunk", "%s: %s" % (cls, e))
            continue
        # each chunk is compressed exactly once before the write-out
        for s2, k, v in outs:
            ev = s2.events()
            at_ = [i for i, e in enumerate(ev) if e[0] == "aw_flush_impl_"]
            if not at_:
                continue
            subs = [e for e in ev[:at_[0]] if e[0] == "submit"]
            if len(subs) != N:
                chk.bad("every-chunk", ev[at_[0]].site, "%d of %d chunks are compressed before they are written out" % (len(subs), N), key=cls + "n", path=path(s2))
            elif [e for e in ev[at_[0]:] if e[0] == "submit"]:
                chk.bad("every-chunk", ev[at_[0]].site, "jobs are submitted after the write-out", key=cls + "late", path=path(s2))
            else:
                chk.ok("every-chunk", cls)
        hit = {}
        for j in J.jobs:
            calls = []

            def blosc(JJ, s_, c, ctx=True):
                n = sym("blosc.result", 32)
                a = list(c.args)
                e = dict(level=a[0], shuffle=a[1], typesize=a[2], nbytes=a[3], src=a[4], dest=a[5], destsize=a[6])
                if ctx:
                    e["name"] = models.svmem(JJ, s_, a[7]) if False else a[7]
                calls.append(e)
                JJ.emit(s_, "blosc", c.ctx, **e)
                return n

            def prep(K):
                K.over["blosc_compress_ctx"] = blosc
                K.over["blosc_compress"] = lambda JJ, s_, c: blosc(JJ, s_, c, False)
                K.over["zarr::bytes_of_type"] = lambda JJ, s_, c: px
            bufs0 = {}
            v0 = t.split(I.load(j[0], ptr(w.b, w.o_bufs), 8, 64))[0]
            for i in range(N):
                bufs0[i] = (I.load(j[0], ptr(v0, 24 * i), 8, 64), I.load(j[0], ptr(v0, 24 * i + 8), 8, 64))
            try:
                J2, jf, jouts, err = J.run_job(j, prep)
            except (Unsupported, Budget) as e:
                chk.undec("compressed", "%s: %s" % (j[3], e))
                continue
            for s2, k, v in jouts:
                if k != "ret":
                    continue
                s3 = allow(s2, J2.I, t.trunc(v, 1) if v.bits > 1 else v)
                if s3 is None:
                    continue
                ev = s3.events()
                bl = [e for e in ev if e[0] == "blosc"]
                now = {i: (J2.I.load(s3, ptr(v0, 24 * i), 8, 64), J2.I.load(s3, ptr(v0, 24 * i + 8), 8, 64)) for i in range(N)}
                ch = [i for i in range(N) if now[i] != bufs0[i]]
                if len(bl) != 1:
                    chk.bad("compressed", j[3], "a compression job succeeds having called the compressor %d times" % len(bl), key=cls + "calls", path=path(s3))
                    continue
                b = bl[0]
                src = [i for i in range(N) if bufs0[i][0] is b.src]
                if not src:
                    chk.bad("source", b.site, "compresses %s, not a chunk buffer" % t.show(b.src), key=cls + "src", path=path(s3))
                    continue
                i = src[0]
                hit.setdefault(i, set()).add(id(j))
                lev, shf = sym("clevel", 8), sym("shuffle", 8)
                envs = [{w.bytes: x, px: y, lev: l, shf: z, sym("blosc.result", 32): 55} for x in (64, 4096, (1 << 31) - 17, 100000, 1, 7, 999) for y in (1, 2, 4, 8) for l in (3, 0, 1, 9) for z in (1, 0, 2)]
                envs = [e for e in envs if consistent(s3, e, {}) is not False]
                if not envs:
                    chk.undec("arguments", "%s: no case of this path is sampled" % b.site)
                    continue

                def law(what, a, want):
                    for e in envs:
                        try:
                            if t.evalt(a, dict(e)) != want(e):
                                chk.bad("arguments", b.site, "the compressor gets %s as %s, expected %d (chunk of %d bytes)" % (t.show(a), what, want(e), e[w.bytes]), key=cls + what, path=path(s3))
                                return
                        except KeyError:
                            chk.undec("arguments", "%s: %s" % (what, t.show(a)))
                            return
                    chk.ok("arguments", "%s = %s" % (what, t.show(a)))
                law("chunk size", b.nbytes, lambda e: e[w.bytes])
                law("pixel size", b.typesize, lambda e: e[px])
                law("level", b.level, lambda e: e[lev])
                law("shuffle", b.shuffle, lambda e: e[shf])
                if "name" in b.d:
                    x = b.d["name"]
                    if "codec" not in t.show(x):
                        chk.bad("arguments", b.site, "the codec is %s, not the configured one" % t.show(x), key=cls + "codec", path=path(s3))
                    else:
                        chk.ok("arguments", "codec = " + t.show(x))
                # room for incompressible data, inside the output buffer
                db, do = t.split(b.dest)
                room = None
                for e in [e for e in ev[:ev.index(b)] if e[0] in ("vctor", "vresize")]:
                    if e.d.get("storage") == db:
                        room = e.n
                    elif e[0] == "vresize" and t.split(J2.I.load(s3, e.v, 8, 64))[0] == db:
                        room = e.n
                if room is None:
                    for e in [e for e in ev[:ev.index(b)] if e[0] == "new"]:
                        if t.split(e.p)[0] == db:
                            room = e.d.get("n")
                for e in envs:
                    try:
                        ds = t.evalt(b.destsize, dict(e))
                        if ds < e[w.bytes] + OVER:
                            chk.bad("room", b.site, "the compressor may write %d bytes only, an incompressible chunk of %d bytes needs %d" % (ds, e[w.bytes], e[w.bytes] + OVER), key=cls + "small", path=path(s3))
                            break
                        if room is not None and do.op == "c" and ds + t.cv(do) > t.evalt(room, dict(e)):
                            chk.bad("room", b.site, "the compressor may write %d bytes into a buffer of %d" % (ds, t.evalt(room, dict(e))), key=cls + "overrun", path=path(s3))
                            break
                    except KeyError:
                        chk.undec("room", t.show(b.destsize))
                        break
                else:
                    (chk.ok if room is not None else chk.undec)("room", "%s of %s" % (t.show(b.destsize), t.show(room) if room is not None else "?"))
                # what replaces the chunk
                if ch != [i]:
                    chk.bad("replaced", b.site, "after a successful compression %s" % ("the chunk is unchanged" if not ch else "other chunks are changed"), key=cls + "ch", path=path(s3))
                    continue
                lo, hi = now[i]
                if lo is not b.dest:
                    chk.bad("replaced", b.site, "the chunk is replaced by %s, not by the compressor's output" % t.show(lo), key=cls + "out", path=path(s3))
                    continue
                r = sym("blosc.result", 32)
                res = []
                for x in (1, 55, 4112, 0, (1 << 32) - 1, (1 << 32) - 3):
                    e = dict(envs[0])
                    e[r] = x
                    if consistent(s3, e, {}) is False:
                        continue
                    if x == 0 or x >> 31:
                        chk.bad("result-tested", b.site, "a compressor result of %d is taken as success" % t.sgn(x, 32), key=cls + "result", path=path(s3))
                        res = None
                        break
                    try:
                        n = t.evalt(t.sub(hi, lo), dict(e))
                    except KeyError:
                        chk.undec("replaced", t.show(hi))
                        res = None
                        break
                    if n != x:
                        chk.bad("replaced", b.site, "the compressor reports %d bytes, the chunk holds %d" % (x, n), key=cls + "len", path=path(s3))
                        res = None
                        break
                    res.append(x)
                if res:
                    chk.ok("replaced", "%s: %s" % (b.site, t.show(hi)))
                    chk.ok("result-tested", b.site)
        if len(hit) < N and hit and len(J.jobs) >= N:
            chk.bad("every-chunk", site(f), "only %d of %d chunks are given to the compressor" % (len(hit), N), key=cls + "which")
        elif any(len(x) > 1 for x in hit.values()) and len(J.jobs) == N:
            chk.bad("every-chunk", site(f), "one chunk is compressed twice", key=cls + "twice")
    chk.at_least("replaced", 2)
    chk.at_least("every-chunk", 2)
    chk.at_least("arguments", 8)
