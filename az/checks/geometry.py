"""C21, C22, C23: frame/chunk/shard arithmetic, by random interpretation of the extracted terms."""
from ..interp import State
from .. import terms as t
from ..terms import sym, ptr
from ..lib import *

BYTES = {0: 1, 1: 2, 2: 4, 3: 8, 4: 1, 5: 2, 6: 4, 7: 8, 8: 4, 9: 8}


def dtype_bytes(p):
    """from the public enumeration"""
    e = p.enum("ZarrDataType_uint8")
    r = {}
    for n, v in e:
        for k, b in (("int8", 1), ("int16", 2), ("int32", 4), ("int64", 8), ("float32", 4), ("float64", 8)):
            if n.split("_")[-1].lstrip("u") == k:
                r[v] = b
    return r


def geom(rng, nd, big=True, maxlayer=1 << 31):
    """array, chunk, shard sizes within the documented domain; products bounded so that exact results fit"""
    M = (1 << 32) - 1
    for _ in range(200):
        a = [sample(rng, 0 if i == 0 else 1, M) for i in range(nd)]
        c = [sample(rng, 1, M) for i in range(nd)]
        s = [sample(rng, 1, 1 << 20) for i in range(nd)]
        # keep volumes representable: shrink a few dimensions at random
        mode = rng.randrange(4)
        if mode:
            keep = rng.randrange(nd)
            for i in range(nd):
                if i != keep or mode == 1:
                    a[i] = a[i] % 9 + (1 if i else 0)
                    c[i] = c[i] % 6 + 1
                    s[i] = s[i] % 4 + 1
        ok = True
        n = [-(-a[i] // c[i]) for i in range(nd)]
        lay = 1
        for i in range(1, nd):
            lay *= n[i]
        fr = 1
        for i in range(1, nd - 2):
            fr *= a[i]
        by = 8
        for x in c:
            by *= x
        if lay < maxlayer and fr * max(c[0], 1) < 1 << 62 and by < 1 << 62:
            return a, c, s, n, lay, fr
    return None


def env_of(d, a, c, s, dt):
    e = {d.dtype: dt}
    for i in range(d.nd):
        e[d.a[i]], e[d.c[i]], e[d.s[i]] = a[i], c[i], s[i]
    return e


def run_fn(chk, f, nd, args=()):
    I = chk.interp()
    I.want = set()
    st = State()
    d = Dims(chk.p, st, nd)
    outs = I.run(st, f, [d.this] + list(args))
    return d, outs


def prod(x):
    r = 1
    for y in x:
        r *= y
    return r


def nds(chk):
    return (3, 4, 5, 6, 7, 8) if chk.thorough else (3, 4, 5)


def c21(chk):
    p, rng = chk.p, chk.rng
    N = 6000 if chk.thorough else 1200
    B = dtype_bytes(p)
    fr = sym("frame", 64)
    lat, = fns(p, "ArrayDimensions::chunk_lattice_index")
    tgo, = fns(p, "ArrayDimensions::tile_group_offset")
    cio, = fns(p, "ArrayDimensions::chunk_internal_offset")

    def frames(g):
        a, c, s, n, lay, fpl = g
        span = fpl * max(1, c[0])
        k = rng.random()
        m = [0, 1, fpl - 1, fpl, fpl + 1, span - 1, span, span + 1, 2 * span - 1, 2 * span, 3 * span + fpl]
        if k < .5:
            return max(0, rng.choice(m))
        if k < .75:
            return rng.randrange(0, 4 * span + 1)
        return rng.randrange(0, 1 << 40)

    def lattice(g, f, i):
        a, c, s, n, lay, fpl = g
        P = prod(a[i + 1:len(a) - 2])
        q = f // P
        return (q if i == 0 else q % a[i]) // c[i]

    def sh(cx):
        g, f = cx
        return "array %s chunk %s frame %d" % (g[0], g[1], f)
    for nd in sorted({7, *nds(chk)}):
        for i in range(nd - 2):
            d, outs = run_fn(chk, lat, nd, [fr, t.C(32, i)])

            def dom():
                g = geom(rng, nd)
                if g is None:
                    return None
                f = frames(g)
                if lattice(g, f, i) >= 1 << 32:
                    return None
                e = env_of(d, g[0], g[1], g[2], rng.randrange(10))
                e[fr] = f
                return e, (g, f)
            law(chk, "lattice-index", lat, outs, dom, lambda cx: lattice(cx[0], cx[1], i), N // 3, "chunk index along dimension %d of %d" % (i, nd), sh)
        d, outs = run_fn(chk, lat, nd, [fr, t.C(32, nd - 2)])
        if outs and all(k in ("exc", "dead") for _, k, _ in outs):
            chk.ok("lattice-index-refused", "spatial dimension index refused for %d dimensions" % nd)
        else:
            chk.bad("lattice-index-refused", site(lat), "a spatial dimension index (%d of %d) is not refused" % (nd - 2, nd))

        d, outs = run_fn(chk, tgo, nd, [fr])

        def dom2():
            g = geom(rng, nd)
            if g is None:
                return None
            f = frames(g)
            if lattice(g, f, 0) >= 1 << 32:
                return None
            e = env_of(d, g[0], g[1], g[2], rng.randrange(10))
            e[fr] = f
            return e, (g, f)

        def ref2(cx):
            g, f = cx
            return sum(lattice(g, f, i) * prod(g[3][i + 1:]) for i in range(1, nd - 2))
        law(chk, "tile-group-offset", tgo, outs, dom2, ref2, N, "first chunk of a frame, %d dimensions" % nd, sh)

        d, outs = run_fn(chk, cio, nd, [fr])

        def dom3():
            g = geom(rng, nd)
            if g is None:
                return None
            f = frames(g)
            dt = rng.choice(list(B))
            e = env_of(d, g[0], g[1], g[2], dt)
            e[fr] = f
            return e, (g, f, dt)

        def ref3(cx):
            g, f, dt = cx
            a, c = g[0], g[1]
            off = 0
            for i in range(nd - 2):
                q = f // prod(a[i + 1:nd - 2])
                k = (q if i == 0 else q % a[i]) % c[i]
                off += k * prod(c[i + 1:nd - 2])
            return off * B[dt] * c[nd - 1] * c[nd - 2]
        law(chk, "chunk-internal-offset", cio, outs, dom3, ref3, N, "byte offset of a frame in its chunk, %d dimensions" % nd, lambda cx: sh(cx[:2]))
    chk.at_least("lattice-index", 3)


def c22(chk):
    p, rng = chk.p, chk.rng
    N = 6000 if chk.thorough else 1500
    B = dtype_bytes(p)
    M = (1 << 32) - 1

    # counts along one dimension
    def dim1(q):
        f, = fns(p, q)
        I = chk.interp()
        I.want = set()
        st = State()
        d = Dims(p, st, 3)
        return f, d, I.run(st, f, [d.elem(0)])
    f, d, outs = dim1("zarr::chunks_along_dimension")

    def dom():
        a, c, s = sample(rng, 0, M), sample(rng, 0, M), sample(rng, 0, M)
        e = env_of(d, [a, 1, 1], [c, 1, 1], [s, 1, 1], 0)
        return e, (a, c, s)
    sh = lambda x: "array size %d, chunk size %d, shard size %d" % x
    law(chk, "chunks-along", f, outs, dom, lambda x: -(-x[0] // x[1]) if x[1] else ("exc",), N, "number of chunks along a dimension", sh)
    f, d, outs = dim1("zarr::shards_along_dimension")

    def refs(x):
        a, c, s = x
        if s == 0:
            return 0
        if c == 0:
            return ("exc",)
        n = -(-a // c)
        return -(-n // s)
    law(chk, "shards-along", f, outs, dom, refs, N, "number of shards along a dimension", sh)

    sh2 = lambda g: "array %s chunk %s shard %s" % (g[0], g[1], g[2])
    for nd in nds(chk):
        for q, ref, lim, what in (
            ("ArrayDimensions::number_of_chunks_in_memory", lambda g: prod(g[3][1:]), 1 << 32, "chunks of one layer"),
            ("ArrayDimensions::number_of_shards", lambda g: prod(-(-n // s) for n, s in list(zip(g[3], g[2]))[1:]), 1 << 32, "shards open at a time"),
            ("ArrayDimensions::chunks_per_shard", lambda g: prod(g[2]), 1 << 32, "chunks in a shard"),
        ):
            f, = fns(p, q)
            d, outs = run_fn(chk, f, nd)

            def dom2():
                g = geom(rng, nd, maxlayer=1 << 32)
                if g is None or ref(g) >= lim:
                    return None
                return env_of(d, g[0], g[1], g[2], rng.randrange(10)), g
            law(chk, "counts", f, outs, dom2, ref, N, what + ", %d dimensions" % nd, sh2)
        f, = fns(p, "ArrayDimensions::bytes_per_chunk")
        d, outs = run_fn(chk, f, nd)

        def dom3():
            g = geom(rng, nd)
            if g is None:
                return None
            dt = rng.choice(list(B))
            return env_of(d, g[0], g[1], g[2], dt), g + (dt,)
        law(chk, "chunk-bytes", f, outs, dom3, lambda g: B[g[-1]] * prod(g[1]), N, "bytes of a chunk, %d dimensions" % nd, sh2)

        f, = fns(p, "zarr::bytes_of_frame")
        I = chk.interp()
        I.want = set()
        st = State()
        d = Dims(p, st, nd)
        dt_ = sym("dtype", 32)
        outs = I.run(st, f, [d.this, dt_])

        def dom4():
            g = geom(rng, nd)
            if g is None or g[0][-1] * g[0][-2] >= 1 << 60:
                return None
            dt = rng.choice(list(B))
            e = env_of(d, g[0], g[1], g[2], rng.choice(list(B)))
            e[dt_] = dt
            return e, g + (dt,)
        law(chk, "frame-bytes", f, outs, dom4, lambda g: B[g[-1]] * g[0][-1] * g[0][-2], N, "bytes of a frame, %d dimensions" % nd, sh2)
    chk.at_least("counts", 6)
    chk.at_least("frame-bytes", 1)


def c23(chk):
    p, rng = chk.p, chk.rng
    N = 6000 if chk.thorough else 1500
    ch = sym("chunk", 32)
    fi, = fns(p, "ArrayDimensions::shard_index_for_chunk")
    fs, = fns(p, "ArrayDimensions::shard_internal_index")
    fn_, = fns(p, "ArrayDimensions::number_of_shards")
    fc, = fns(p, "ArrayDimensions::chunks_per_shard")
    for nd in nds(chk):
        def pick(d, layers):
            g = geom(rng, nd, maxlayer=1 << 30)
            if g is None or g[4] == 0:
                return None
            a, c, s, n, lay, fpl = g
            if prod(s) >= 1 << 31:
                return None
            top = lay * s[0] * layers
            k = rng.random()
            x = rng.randrange(0, min(top, 1 << 31)) if k < .7 else min(rng.choice([0, lay - 1, top - 1]), (1 << 31) - 1)
            e = env_of(d, a, c, s, 0)
            e[ch] = x
            return e, (g, x)

        def coords(g, x):
            n = g[3]
            k = []
            for i in range(nd):
                st = prod(n[i + 1:])
                k.append(x // st if i == 0 else x // st % n[i])
            return k

        def refi(cx):
            g, x = cx
            n, s = g[3], g[2]
            k = coords(g, x)
            ns = [-(-n[i] // s[i]) for i in range(nd)]
            return sum(k[i] // s[i] * prod(ns[i + 1:]) for i in range(1, nd))

        def refs(cx):
            g, x = cx
            s = g[2]
            k = coords(g, x)
            return sum(k[i] % s[i] * prod(s[i + 1:]) for i in range(nd))
        sh = lambda cx: "array %s chunk %s shard %s chunk number %d" % (cx[0][0], cx[0][1], cx[0][2], cx[1])
        di, oi = run_fn(chk, fi, nd, [ch])
        law(chk, "shard-of-chunk", fi, oi, lambda: pick(di, rng.choice((1, 1, 3))), refi, N, "shard holding a chunk, %d dimensions" % nd, sh)
        ds, os_ = run_fn(chk, fs, nd, [ch])
        law(chk, "slot-of-chunk", fs, os_, lambda: pick(ds, rng.choice((1, 1, 5))), refs, N, "slot of a chunk in its shard, %d dimensions" % nd, sh)
    chk.assume.append("the mixed-radix slot law is a bijection between the chunks of a shard and its slots (checked by the law itself, not per input)")
    chk.at_least("slot-of-chunk", 2)
