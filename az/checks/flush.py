"""C25, C37: what a write-out puts where."""
from ..flush import *
from ..check import path

EXTRA = [Geo((0, 1, 2), (3, 1, 2), (5, 2, 2), (7, 3, 2)),     # 3*3*3 chunks in 2*2*2 shards
         Geo((0, 3, 1), (2, 2, 1), (2, 1, 2), (4, 2, 2), (3, 2, 1)),
         Geo((0, 1, 4), (3, 2, 2), (3, 3, 1)),
         Geo((0, 1, 2), (3, 2, 1), (3, 1, 2), (2, 2, 1), (2, 2, 1)),
         Geo((0, 1, 2), (70000, 70000, 1), (70000, 35000, 2))]    # chunks of more than 4 GiB


class Case:
    def __init__(s, **kw):
        s.__dict__.update(kw)


LEVELS, APPENDS = (12, 0, 5, 11, 1, 14, 3), (13, 1, 0, 300, 10, (1 << 31) + 7, 2)


def cases(chk, cls, few=False):
    """every case at a level of its own, after a number of whole shard layers of its own"""
    for i, c in enumerate(cases_(chk, cls, few)):
        c.level, q = LEVELS[i % 7], APPENDS[(i + i // 7) % 7]
        c.N += (q - c.q) * c.period
        c.q = q
        yield c


def cases_(chk, cls, few=False):
    geos = GEOS[1:] + EXTRA if chk.thorough else [GEOS[1], GEOS[2], EXTRA[0], EXTRA[2], EXTRA[3], EXTRA[4]]
    for gi, geo in enumerate(geos):
        layer = geo.d[0][1]
        for a, _, _ in geo.d[1:-2]:
            layer *= a
        h = geo.d[0][2] if cls == V3 else 1
        L = [(q, l) for q in ((0, 1) if chk.thorough else (1,)) for l in range(h)]
        if few:
            L = [L[-1]] if cls == V2 else [L[0], L[-1]]
        for s3 in ((False, True) if few else (False,)):
            for q, l in L:
                base = (q * h + l) * layer
                last = l == h - 1
                for comp in ((False,) if geo is EXTRA[4] else (False, True) if gi < 2 or chk.thorough else (True,)):
                    if few and comp and (s3 or cls == V3):
                        continue
                    yield Case(cls=cls, geo=geo, N=base + layer, root="frame", q=q, period=h * layer, first=l == 0, l=l, table=last, s3=s3, comp=comp, pending=True, data=True)
                    if layer > 1:
                        yield Case(cls=cls, geo=geo, N=base + layer // 2, root="finalize", q=q, period=h * layer, first=l == 0, l=l, table=True, s3=s3, comp=comp, pending=True, data=True)
                    if cls == V3 and not last and not few:
                        yield Case(cls=cls, geo=geo, N=base + layer, root="finalize", q=q, period=h * layer, first=False, l=l, table=True, s3=s3, comp=comp, pending=False, data=False)


def runs(chk, cls, rule, few=False):
    for c in cases(chk, cls, few):
        F = Flush(chk, cls, c.geo, c.N, c.root, c.first, c.s3, c.comp, c.pending, level=c.level, append=c.q)
        try:
            outs = F.run()
        except (Unsupported, Budget) as e:
            chk.undec(rule, "%s %s: %s" % (cls, c.geo, e))
            continue
        c.what = "%s, %s, %s after %d frames%s" % (cls[6:], c.geo, "last frame of a layer" if c.root == "frame" else "finalizing", c.N, ", compressed" if c.comp else "")
        outs = [o for o in outs if o[1] != "dead"]
        if F.I.inexact():
            chk.undec(rule, "%s: %s is not followed exactly" % (c.what, F.I.inexact()))
            continue
        if len(outs) != 1:
            live = [o for o in outs if o[1] == "ret"]
            if not live:
                chk.undec(rule, "%s: %d outcomes" % (c.what, len(outs)))
                continue
        for s2, k, v in outs:
            yield F, c, s2, k, v


def prior(F, i):
    """object of an already open sink"""
    return ptr(F.w.sinks[i], 0)


def c25(chk):
    p = chk.p
    for F, c, s2, k, v in runs(chk, V3, "recorded"):
        geo, I = c.geo, F.I
        where = site(F.f)
        outs = [e for e in s2.events() if e[0] == "out"]
        if k == "exc":
            chk.bad("completes", where, "%s: an exception although nothing failed" % c.what, key="exc", path=path(s2))
            continue
        # sinks in order of their shard
        lo = None
        order = [e.sink for e in s2.events() if e[0] == "sink_new"] if c.first else [prior(F, i) for i in range(F.parts)]
        env = {}
        for i in range(geo.shards()):
            for x in [F.F[i]] + F.T[i]:
                if x.op == "sym":
                    env[x] = chk.rng.randrange(1, 1 << 50)
        for n in range(geo.chunks()):
            env[sym("csize%d" % n, 32)] = chk.rng.randrange(1, 1 << 30)
        val = lambda x: t.evalt(x, dict(env))
        try:
            if consistent(s2, env, {}) is False:
                continue
            if len(order) != geo.shards():
                chk.undec("recorded", "%s: %d files created" % (c.what, len(order)))
                continue
            judge25(chk, F, c, s2, outs, order, val, where)
        except KeyError as e:
            chk.undec("recorded", "%s: %s" % (c.what, str(e)[:100]))
    chk.at_least("recorded", 20)
    chk.at_least("index-written", 8)
    chk.at_least("reset", 4)


def words_at(F, st, s):
    """(words of shard s's table, its file offset) in memory"""
    I, w = F.I, F.w
    b, o = t.split(I.load(st, ptr(w.b, F.to), 8, 64))
    r = I.load(st, ptr(b, t.add(o, C(64, 24 * s))), 8, 64)
    e = I.load(st, ptr(b, t.add(o, C(64, 24 * s + 8))), 8, 64)
    n = t.sub(e, r)
    if n.op != "c" or t.cv(n) != 16 * F.per:
        return None, None
    rb, ro = t.split(r)
    ws = [I.load(st, ptr(rb, t.add(ro, C(64, 8 * k))), 8, 64) for k in range(2 * F.per)]
    b, o = t.split(I.load(st, ptr(w.b, F.oo), 8, 64))
    return ws, I.load(st, ptr(b, t.add(o, C(64, 8 * s))), 8, 64)


def judge25(chk, F, c, s2, outs, order, val, where):
    geo = c.geo
    MAX = (1 << 64) - 1
    L0 = geo.chunks() and 1
    inner = 1
    for _, _, h in geo.d[1:]:
        inner *= h
    for s in range(geo.shards()):
        mine = [e for e in outs if e.sink is order[s]]
        members = [i for i in range(geo.chunks()) if geo.shard_of(i)[0] == s] if c.data else []
        pos = val(F.F[s])
        exp = [val(x) for x in F.T[s]]
        seen = set()
        table = None
        for e in mine:
            at_, n = val(e.off), val(e.n)
            if e.chunk is not None:
                if e.chunk not in members:
                    chk.bad("own-shard", where, "%s: chunk %d is written to shard %d" % (c.what, e.chunk, s), key="shard", path=path(s2))
                    return
                if e.chunk in seen:
                    chk.bad("own-shard", where, "%s: chunk %d is written twice" % (c.what, e.chunk), key="twice", path=path(s2))
                    return
                if table is not None:
                    chk.bad("index-written", where, "%s: a chunk is written after the index" % c.what, key="after", path=path(s2))
                    return
                if at_ != pos:
                    chk.bad("contiguous", where, "%s: chunk %d is written at %d, the shard ends at %d" % (c.what, e.chunk, at_, pos), key="pos", path=path(s2))
                    return
                seen.add(e.chunk)
                slot = c.l * inner + geo.shard_of(e.chunk)[1]
                exp[2 * slot], exp[2 * slot + 1] = at_, n
                pos += n
                chk.ok("contiguous")
            elif e.words is not None and c.table and len(e.words) == 2 * F.per and table is None:
                table = [val(x) for x in e.words]
                if at_ != pos:
                    chk.bad("index-written", where, "%s: the index is written at %d, the last chunk ends at %d" % (c.what, at_, pos), key="tpos", path=path(s2))
                    return
            elif c.table or e.words is None:
                chk.bad("index-written", where, "%s: something other than the shard's chunks and one index of %d entries is written (%s)" % (c.what, F.per, str(e)[:120]), key="other", path=path(s2))
                return
            else:
                chk.bad("index-written", where, "%s: an index is written although the shard is not complete" % c.what, key="tearly", path=path(s2))
                return
        if set(members) - seen:
            chk.bad("own-shard", where, "%s: chunks %s are not written to their shard %d" % (c.what, sorted(set(members) - seen)[:6], s), key="missing", path=path(s2))
            return
        chk.ok("own-shard", "%s: shard %d: chunks %s" % (c.what, s, members))
        ws, fo = words_at(F, s2, s)
        if c.table:
            if table is None:
                chk.bad("index-written", where, "%s: shard %d is completed without its index" % (c.what, s), key="none", path=path(s2))
                return
            chk.ok("index-written", "%s: shard %d" % (c.what, s))
            got = table
        else:
            if ws is None:
                chk.undec("recorded", "%s: table not followed" % c.what)
                return
            got = [val(x) for x in ws]
        for k in range(2 * F.per):
            if got[k] != exp[k]:
                chk.bad("recorded", where, "%s: the index of shard %d has %d as the %s of slot %d, it must be %d" % (c.what, s, got[k], "size" if k % 2 else "offset", k // 2, exp[k]), key="slot", path=path(s2))
                return
        chk.ok("recorded", "%s: shard %d: %d slots" % (c.what, s, F.per))
        if ws is None:
            continue
        now, off = [val(x) for x in ws], val(fo)
        if c.root == "finalize":
            continue     # the writer is gone
        if c.table and (any(x != MAX for x in now) or off != 0):
            chk.bad("reset", where, "%s: after the index was written, the table of shard %d is not emptied%s" % (c.what, s, "" if off == 0 else " and its file offset is %d" % off), key="reset", path=path(s2))
            return
        if not c.table and off != pos:
            chk.bad("reset", where, "%s: the file offset of shard %d is %d, its file ends at %d" % (c.what, s, off, pos), key="offset", path=path(s2))
            return
        chk.ok("reset")


def clean(x):
    while "//" in x:
        x = x.replace("//", "/")
    return x


def c37(chk):
    p = chk.p
    for cls in (V2, V3):
        for F, c, s2, k, v in runs(chk, cls, "file-name", few=True):
            geo, where = c.geo, site(F.f)
            if k == "exc":
                chk.bad("completes", where, "%s: an exception although nothing failed" % c.what, key=cls + "exc", path=path(s2))
                continue
            new = [e for e in s2.events() if e[0] == "sink_new"]
            if not c.first:
                if new:
                    chk.bad("opened-once", where, "%s: files are created although the shard's files are open" % c.what, key=cls, path=path(s2))
                else:
                    chk.ok("opened-once")
                continue
            name = {}
            for e in new:
                want = ("S3Sink", 2) if c.s3 else ("FileSink", 1)
                if e.d["cls"] != want[0]:
                    chk.bad("kind", e.site, "%s: a %s is created for a data set %s" % (c.what, e.d["cls"], "in S3" if c.s3 else "on disk"), key=cls, path=path(s2))
                    break
                if not all(x.op == "str" for x in e.names) or len(e.names) != want[1]:
                    chk.undec("file-name", "%s: %s" % (c.what, [t.show(x) for x in e.names]))
                    break
                if c.s3 and e.names[0].a[0] != F.bucket:
                    chk.bad("kind", e.site, "%s: an object is created in bucket %s" % (c.what, e.names[0].a[0]), key=cls + "bucket", path=path(s2))
                    break
                name[e.sink] = clean(e.names[-1].a[0])
            else:
                base = "%s/%d/%d" % (F.store, F.level, F.append) if cls == V2 else "%s/data/root/%d/c%d" % (F.store, F.level, F.append)
                nd = geo.d[1:]
                parts = [Geo.up(a, ch) if cls == V2 else Geo.up(Geo.up(a, ch), h) for a, ch, h in nd]
                allp = set()

                def nm(i):
                    ix = []
                    for n in reversed(parts):
                        ix.append(i % n)
                        i //= n
                    return base + "".join("/%d" % x for x in reversed(ix))
                want = {nm(i) for i in range(F.parts)}
                got = sorted(name.values())
                if len(set(got)) < len(got):
                    chk.bad("file-name", where, "%s: two sinks share the name %s" % (c.what, [x for x in got if got.count(x) > 1][0]), key=cls + "dup", path=path(s2))
                    continue
                if set(got) != want:
                    chk.bad("file-name", where, "%s: the data files are %s, they must be %s" % (c.what, sorted(set(got) - want)[:3] or "missing some", sorted(want - set(got))[:3]), key=cls + "set", path=path(s2))
                    continue
                bad = 0
                for e in s2.events():
                    if e[0] == "out" and e.chunk is not None and e.sink in name:
                        i = e.chunk if cls == V2 else geo.shard_of(e.chunk)[0]
                        if name[e.sink] != nm(i):
                            chk.bad("chunk-to-file", where, "%s: chunk %d is written to %s, it belongs to %s" % (c.what, e.chunk, name[e.sink], nm(i)), key=cls, path=path(s2))
                            bad = 1
                            break
                        if cls == V2:
                            o = e.off
                            if o.op == "c" and t.cv(o) != 0:
                                chk.bad("chunk-to-file", where, "%s: chunk %d is written at offset %d of its file" % (c.what, e.chunk, t.cv(o)), key=cls + "off", path=path(s2))
                                bad = 1
                                break
                            env = {sym("csize%d" % j, 32): 1000 + 7 * j for j in range(geo.chunks())}
                            full = [1000 + 7 * j for j, x in enumerate(z for z in s2.events() if z[0] == "blosc") if t.split(x.src)[0] == F.w.bufs[e.chunk]] if c.comp else [F.chunkbytes]
                            try:
                                n = t.evalt(e.n, env)
                                if full and n != full[0]:
                                    chk.bad("chunk-to-file", where, "%s: %d bytes of chunk %d are written, it has %d" % (c.what, n, e.chunk, full[0]), key=cls + "n", path=path(s2))
                                    bad = 1
                                    break
                            except KeyError:
                                pass
                if bad:
                    continue
                wr = {e.chunk for e in s2.events() if e[0] == "out" and e.chunk is not None}
                if wr != set(range(geo.chunks())):
                    chk.bad("chunk-to-file", where, "%s: chunks %s are not written" % (c.what, sorted(set(range(geo.chunks())) - wr)[:5]), key=cls + "miss", path=path(s2))
                    continue
                chk.ok("chunk-to-file", "%s: %d chunks" % (c.what, len(wr)))
                chk.ok("file-name", "%s: %s .. %s" % (c.what, nm(0), nm(F.parts - 1)))
    chk.at_least("file-name", 8)
    chk.at_least("chunk-to-file", 8)
