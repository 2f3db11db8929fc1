"""C11, C13: the two writers of bytes to files."""
from ..interp import State
from .. import terms as t, models
from ..terms import sym, ptr, C, ap
from ..lib import *
from ..check import path

TRUNC, APP, ATE, IN = 32, 1, 2, 8
O_CREAT, O_EXCL, O_TRUNC, O_APPEND, O_ACC = 0o100, 0o200, 0o1000, 0o2000, 3
BIG64 = [0, 1, 4096, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, (1 << 40) + 3, (1 << 62) + 1]


def subterms(x, seen=None):
    seen = set() if seen is None else seen
    if isinstance(x, t.T) and x not in seen:
        seen.add(x)
        for y in x.a:
            subterms(y, seen)
    return seen


def same(a, b, env):
    try:
        return t.evalt(a, dict(env)) == t.evalt(b, dict(env))
    except KeyError:
        return None


def c11(chk):
    p = chk.p
    # ---- construction
    for f in fns(p, "zarr::FileSink::FileSink"):
        if not f.blocks:
            continue
        I = quiet_log(chk.interp())
        st = State()
        name = sym("filename", 64)
        pt = f.pt[0] if f.pt else ""
        args = [ptr(heap(st, "this"), 0)]
        if "string_view" in pt:
            args += [sym("filename.len", 64), name]
            want = (ap("cstr", 0, name),)
        else:
            args += [name]
            want = None
        opened = 0
        for s2, k, v in I.run(st, f, args):
            if k != "ret":
                continue
            op = [e for e in s2.events() if e[0] in ("fopen", "open", "open64", "creat")]
            if not op:
                raise Anchor("no file is opened by " + f.q)
            e = op[-1]
            if e[0] == "fopen":
                m = e.mode
                m = t.cv(m) if getattr(m, "op", "") == "c" else None
                bad = m is None or not (m & TRUNC or not (m & (APP | IN))) or m & APP
                wh = "ios::openmode %s" % m
            else:
                m = t.cv(e.args[1]) if e[0] != "creat" and e.args[1].op == "c" else (O_TRUNC | O_CREAT if e[0] == "creat" else None)
                bad = m is None or not m & O_TRUNC or m & O_APPEND
                wh = "open flags %s" % m
            if bad:
                chk.bad("starts-empty", e.site, "the file of a new sink is not opened for truncation (%s)" % wh, key="ctor")
            else:
                chk.ok("starts-empty", "%s: %s" % (e.site, wh))
            x = getattr(e, "path", None) if e[0] == "fopen" else e.fmt
            if want and x is not None:
                if t.show(name) not in t.show(x):
                    chk.bad("named-file", e.site, "opens %s, not the file it was given" % t.show(x), key="ctor")
                else:
                    chk.ok("named-file", t.show(x))
            opened += 1
    chk.at_least("starts-empty", 1)

    # ---- write
    for f in [f for f in fns(p, "zarr::FileSink::write") if f.blocks]:
        I = quiet_log(chk.interp())
        st = State()
        this = heap(st, "this")
        off, d, n = sym("offset", 64), sym("data", 64), sym("size", 64)
        outs = I.run(st, f, [ptr(this, 0), off, d, n])
        seen = 0
        for s2, _v in ret_true(I, outs):
            ev = [e for e in s2.events() if e[0] in ("os_seekp", "os_write", "ios_clear", "fopen", "fclose", "os_put", "pwrite", "pwritev", "write", "os_flush", "pwrite64", "lseek")]
            ws = [(i, e) for i, e in enumerate(ev) if e[0] in ("os_write", "pwrite", "pwrite64")]
            if any(e[0] in ("write", "pwritev", "os_put", "lseek") for e in ev):
                chk.undec("offset", "%s: unmodelled way of writing" % f.q)
                continue
            if not ws:
                # allowed only when there is nothing to write
                wit = None
                for dd, nn in ((1 << 20, 1), (1 << 20, 4096), (1 << 20, (1 << 32) + 5)):
                    for o in BIG64:
                        if consistent(s2, {d: dd, n: nn, off: o}, {}):
                            wit = (o, nn)
                if wit:
                    chk.bad("writes", site(f), "reports success without writing %d bytes at offset %d" % (wit[1], wit[0]), key="nowrite", path=path(s2))
                else:
                    chk.ok("nothing-to-write", "%s" % [t.show(c) for c in s2.facts][:3])
                continue
            seen += 1
            # which bytes, where
            pos = 0   # bytes of data already written
            exact = True
            for i, e in ws:
                if e[0] == "os_write":
                    sk = [x for x in ev[:i] if x[0] in ("os_seekp",) ]
                    between = ev[ev.index(sk[-1]) + 1:i] if sk else []
                    if not sk or any(x[0] in ("fopen", "fclose") for x in between):
                        # the only sound excuse is a fact relating the offset to a remembered position
                        other = [c for c in s2.facts for x in [t.leaves(c)] if off in x and x - {off, d, n}]
                        tell = {x for c in other for x in subterms(c) if x.op == "ap" and x.a[0] == "tellp"}
                        inner = {y for x in tell for y in t.leaves(x)}
                        if tell and all(t.leaves(c) - {off, d, n} <= inner for c in other):
                            # skipping the seek is right only where the stream is known to be there already
                            wit = None
                            for o in BIG64:
                                for q in (o + 1, o + 4096, 0, (1 << 33) + 5):
                                    env = {off: o, d: 1 << 20, n: 100}
                                    env.update({x: q for x in tell})
                                    if q != o and consistent(s2, env, {}) is not False:
                                        wit = wit or (o, q)
                            if wit:
                                chk.bad("offset", e.site, "offset %d is written at position %d" % wit, key="noseek", path=path(s2))
                                exact = False
                                continue
                            at_ = off
                            src, cnt, prior = e.args[0], e.args[1], []
                            for o in BIG64:
                                for nn in (1, 17, (1 << 32) + 9):
                                    env = {off: o, n: nn, d: 1 << 20}
                                    env.update({x: o for x in tell})
                                    for a, b, what in ((src, d, "first byte"), (cnt, n, "count")):
                                        if same(a, b, env) is False and consistent(s2, env, {}) is not False:
                                            chk.bad("bytes", e.site, "%s written: %s, handed over: %s" % (what, t.show(a), t.show(b)), key=what, path=path(s2))
                                            exact = False
                            continue
                        if other:
                            chk.undec("offset", "%s: position tracked elsewhere" % f.q)
                        else:
                            chk.bad("offset", e.site, "writes at the current position, not at the offset given", key="noseek", path=path(s2))
                        exact = False
                        continue
                    at_, way = sk[-1].args[0], (sk[-1].args[1] if len(sk[-1].args) > 1 else C(32, 0))
                    if way.op != "c" or t.cv(way) != 0:
                        chk.bad("offset", sk[-1].site, "seeks relative to something other than the start of the file", key="way", path=path(s2))
                        exact = False
                        continue
                    src, cnt = e.args[0], e.args[1]
                    prior = [x for x in between if x[0] == "os_write"]
                else:
                    at_, src, cnt, prior = e.args[3], e.args[1], e.args[2], []
                if len(ws) == 1:
                    for o in BIG64:
                        for nn in (1, 17, (1 << 32) + 9):
                            env = {off: o, n: nn, d: 1 << 20}
                            if consistent(s2, env, {}) is False:
                                continue
                            for a, b, what in ((at_, off, "offset"), (src, d, "first byte"), (cnt, n, "count")):
                                r = same(a, b, env)
                                if r is False:
                                    chk.bad("offset" if what == "offset" else "bytes", e.site, "%s written: %s, handed over: %s (offset %d, size %d)" %
                                            (what, t.show(a), t.show(b), o, nn), key=what, path=path(s2))
                                    exact = False
                                elif r is None:
                                    chk.undec("offset", "%s %s" % (what, t.show(a)))
                                    exact = False
                        if not exact:
                            break
            if len(ws) > 1:
                chk.undec("offset", "%s: %d writes on one path" % (f.q, len(ws)))
                exact = False
            if exact:
                chk.ok("offset", "%s at %s, %s bytes" % (ws[0][1].site, t.show(at_), t.show(cnt)))
            # success only if the stream accepted it
            e = ws[-1][1]
            if e[0] == "os_write":
                good = False
                for c, v in s2.facts.items():
                    good |= implied_good(c, v, e.v)
                cl = [x for x in ev if x[0] == "ios_clear"]
                if cl and not good:
                    chk.bad("success-tested", cl[0].site, "the stream's error state is cleared", key="clear", path=path(s2))
                elif cl and any(x.v > 0 for x in ws if False):
                    pass
                elif not good:
                    chk.bad("success-tested", e.site, "reports success without testing whether the stream accepted the bytes", key="write", path=path(s2))
                else:
                    chk.ok("success-tested", e.site)
                for x in cl:
                    if ev.index(x) > ws[-1][0]:
                        chk.bad("success-tested", x.site, "clears the stream's error state after writing", key="clear", path=path(s2))
            else:
                r = e.r
                bad = any(consistent(s2, {off: 5, n: 100, d: 1 << 20, r: x}, {}) for x in (99, 0, (1 << 64) - 1))
                if bad:
                    chk.bad("success-tested", e.site, "reports success after a short or failed write", key="write", path=path(s2))
                else:
                    chk.ok("success-tested", e.site)
        if not seen:
            raise Anchor("no successful write path in " + f.q)
    chk.at_least("success-tested", 1)

    # ---- flush
    n = 0
    for f in [f for f in fns(p, "zarr::FileSink::flush_") if f.blocks]:
        I = quiet_log(chk.interp())
        st = State()
        outs = I.run(st, f, [ptr(heap(st, "this"), 0)])
        for s2, _v in ret_true(I, outs):
            ev = [e for e in s2.events() if e[0] in ("os_flush", "fclose", "fsync", "fdatasync", "ios_clear")]
            if not any(e[0] in ("os_flush", "fclose", "fsync", "fdatasync") for e in ev):
                if any(implied_good(c, v, 0) for c, v in s2.facts.items()):
                    chk.undec("flush", "no flush on a path")
                    continue
                chk.bad("flush", site(f), "reports success without flushing", key="noflush", path=path(s2))
                continue
            e = ev[-1]
            n += 1
            if e[0] in ("os_flush", "fclose"):
                if not any(implied_good(c, v, e.v) for c, v in s2.facts.items()):
                    chk.bad("flush", e.site, "reports success without testing whether the stream's data was accepted", key="flush", path=path(s2))
                    continue
            if any(x[0] == "ios_clear" for x in ev):
                chk.bad("flush", e.site, "clears the stream's error state", key="clear", path=path(s2))
                continue
            chk.ok("flush", e.site)
    chk.at_least("flush", 1)
    # ---- a failure is not forgotten: after a write that failed, finishing the file does not succeed
    wr, fl = [f for f in fns(p, "zarr::FileSink::write") if f.blocks], [f for f in fns(p, "zarr::FileSink::flush_") if f.blocks]
    for f in wr:
        I = quiet_log(chk.interp())
        st = State()
        this = heap(st, "this")
        call = lambda s_, i: I.run(s_, f, [ptr(this, 0), sym("offset%d" % i, 64), sym("data%d" % i, 64), sym("size%d" % i, 64)])
        for s1, k1, v1 in call(st, 1):
            if k1 != "ret" or v1.op != "c" or t.cv(v1) or not any(e[0] == "os_write" for e in s1.events()):
                continue
            for s2, k2, v2 in [(s1, "ret", None)] + call(s1.fork(), 2):
                if k2 != "ret":
                    continue
                for g in fl:
                    for s3, v3 in ret_true(I, I.run(s2.fork(), g, [ptr(this, 0)])):
                        ev = s3.events()
                        i = next(i for i, e in enumerate(ev) if e[0] == "os_write")
                        cl = [e for e in ev[i:] if e[0] in ("ios_clear", "fopen")]
                        if cl:
                            chk.bad("remembered", cl[0].site, "a failed write is forgotten: the file's flush then succeeds", key="forgotten", path=path(s3))
                        else:
                            chk.ok("remembered", "%s: the stream's state stays failed" % site(g))
    chk.assume.append("an ofstream in a good state after write/flush has handed its bytes to the operating system at the position last sought")


def implied_good(c, v, ver):
    """fact c==v implies the stream was not failed at a version >= ver"""
    if c.op == "ap" and c.a[0] == "iosfail":
        return v is False and c.a[1].op == "c" and t.cv(c.a[1]) >= ver
    if c.op == "xor" or c.op == "not":
        return False
    if c.op == "and" and v is True:
        return any(implied_good(x, True, ver) or (x.op == "xor" and implied_good(t.not_(x), False, ver)) for x in c.a)
    if c.op == "or" and v is False:
        return any(implied_good(x, False, ver) for x in c.a)
    if c.op == "or" and v is True:
        return all(implied_good(x, True, ver) or implied_good(t.not_(x), False, ver) for x in c.a)
    return False


def c13(chk):
    p, rng = chk.p, chk.rng
    for f in [f for f in fns(p, "zarr::VectorizedFileWriter::VectorizedFileWriter") if f.blocks]:
        I = quiet_log(chk.interp())
        st = State()
        this = heap(st, "this")
        a1 = sym("path", 64)
        rec = [x for x in p.records.items() if x[0].endswith("VectorizedFileWriter")]
        for s2, k, v in I.run(st, f, [ptr(this, 0), a1]):
            op = [e for e in s2.events() if e[0] in ("open", "open64", "creat", "fopen")]
            if not op:
                if k == "ret":
                    chk.bad("opens", site(f), "constructed without opening a file", key="ctor")
                continue
            e = op[0]
            m = e.args[1]
            m = t.cv(m) if e[0] != "creat" and m.op == "c" else None
            if m is None or m & (O_TRUNC | O_APPEND | O_EXCL) or not m & O_CREAT or m & O_ACC == 0:
                chk.bad("open-mode", e.site, "opened with flags %s: existing contents lost, offsets ignored, or not created/writable" % (oct(m) if m is not None else e[0]), key="flags")
            else:
                chk.ok("open-mode", "%s flags %s" % (e.site, oct(m)))
            if t.show(a1) not in t.show(e.fmt):
                chk.bad("named-file", e.site, "opens %s, not the path given" % t.show(e.fmt), key="ctor")
            if k == "ret":
                neg = [x for x in ((1 << 32) - 1, (1 << 32) - 2) if consistent(s2, {e.r: x}, {})]
                if neg:
                    chk.bad("open-failure", e.site, "a file that cannot be opened is not reported", key="ctor", path=path(s2))
                else:
                    chk.ok("open-failure", e.site)
                if not any(isinstance(vv, tuple) and vv[0] is e.r or vv[0] == e.r for kk, vv in s2.mem[this].c.items() if isinstance(vv, tuple)):
                    chk.bad("descriptor-kept", e.site, "the descriptor opened is not the one kept", key="ctor")
            else:
                pos = [x for x in (0, 3, 77) if consistent(s2, {e.r: x}, {})]
                if pos and not any(x[0] not in ("open", "sysconf", "throw", "log") for x in s2.events()):
                    chk.bad("open-failure", e.site, "a file that was opened (descriptor %d) is refused" % pos[0], key="ctor0", path=path(s2))
    chk.at_least("open-failure", 1)
    chk.at_least("open-mode", 1)

    sizes = (0, 1, 2, 3, 5, 8) if chk.thorough else (0, 1, 3)
    N = 400 if chk.thorough else 80
    for f in [f for f in fns(p, "zarr::VectorizedFileWriter::write_vectors") if f.blocks]:
        for nb in sizes:
            I = quiet_log(chk.interp())

            def hook(J, st, c, name, r):
                if name.startswith("pwritev") or name == "writev":
                    b, o = t.split(c.args[1])
                    cnt = c.args[2]
                    if cnt.op == "c" and t.cv(cnt) < 64:
                        l = []
                        for i in range(t.cv(cnt)):
                            q = ptr(b, t.add(o, C(64, 16 * i)))
                            l.append((J.load(st, q, 8, 64), J.load(st, ptr(b, t.add(o, C(64, 16 * i + 8))), 8, 64)))
                        J.emit(st, "iov", c.ctx, iov=tuple(l))
                return None
            I.on_os = hook
            st = State()
            this = heap(st, "this")
            off = sym("offset", 64)
            bufs, el = span_vec(st, "buffers", nb)
            outs = I.run(st, f, [ptr(this, 0), bufs, off])
            n = 0
            for s2, v in ret_true(I, outs):
                ev = s2.events()
                w = [e for e in ev if e[0] in ("pwritev", "pwrite", "pwritev64", "pwrite64", "pwritev2", "writev", "write")]
                if any(e[0] in ("writev", "write") for e in w):
                    chk.bad("offset", w[0].site, "writes at the current position of the descriptor", key="noseek", path=path(s2))
                    continue
                if not w:
                    if nb and any(consistent(s2, env_c13(el, off, rng), {}) for _ in range(N)):
                        chk.bad("writes", site(f), "reports success for %d buffers without writing" % nb, key="nowrite", path=path(s2))
                    continue
                iov = [e for e in ev if e[0] == "iov"]
                if len(w) != 1 or len(iov) != 1 or not w[0][0].startswith("pwritev"):
                    chk.undec("offset", "%s: %d write calls for %d buffers" % (f.q, len(w), nb))
                    continue
                n += 1
                e, v = w[0], iov[0].iov
                okk = True
                for _ in range(N):
                    env = env_c13(el, off, rng)
                    tot = sum(env[l] for _p, l in el)
                    if tot >= 1 << 63:
                        continue
                    for r in {tot, tot - 1, max(0, tot - 4096), 0, -1, tot & 0xffffffff}:
                        en = dict(env)
                        en[e.r] = r & ((1 << 64) - 1)
                        c = consistent(s2, en, {})
                        if c is None:
                            chk.undec("success-tested", "path condition not evaluable")
                            okk = False
                            break
                        if not c:
                            continue
                        if r != tot:
                            chk.bad("success-tested", e.site, "success reported when %d of %d bytes were written" % (r, tot), key="count", path=path(s2))
                            okk = False
                            break
                        got = t.evalt(e.args[3], dict(en))
                        if tot and got != en[off]:
                            chk.bad("offset", e.site, "offset %d becomes %d" % (en[off], got), key="offset", path=path(s2))
                            okk = False
                            break
                        a = [(t.evalt(x, dict(en)), t.evalt(y, dict(en))) for x, y in v]
                        b = [(en[x], en[y]) for x, y in el]
                        if [x for x in a if x[1]] != [x for x in b if x[1]]:
                            chk.bad("buffers", e.site, "the pieces written %s are not the buffers given %s" % (a, b), key="iov", path=path(s2))
                            okk = False
                            break
                    if not okk:
                        break
                if okk:
                    chk.ok("exact-write", "%s: %d buffers at %s" % (e.site, nb, t.show(e.args[3])))
            # the complete write must be reported as success
            if nb:
                e = next((e for s2, k, v in outs for e in s2.events() if e[0].startswith("pwritev")), None)
                if e is not None:
                    env = env_c13(el, off, rng)
                    tot = sum(env[l] for _p, l in el)
                    for tries in range(20):
                        if tot < 1 << 63:
                            break
                        env = env_c13(el, off, rng)
                        tot = sum(env[l] for _p, l in el)
                    env[e.r] = tot
                    got = [g for g in at(outs, env) if g[0] == "ret"]
                    if got and all(g[1] == 0 for g in got) and all(g[3] for g in got):
                        chk.bad("success-reported", e.site, "a complete write of %d bytes is reported as a failure" % tot, key="complete")
        if not chk.obl.get("exact-write") and not chk.viol and not chk.undecided:
            raise Anchor("no successful write path in " + f.q)
    chk.assume.append("pwritev(fd, iov, n, off) stores the first r bytes of the concatenation at off, where r is its result")


def env_c13(el, off, rng):
    env = {off: rng.choice(BIG64)}
    for i, (p_, l) in enumerate(el):
        env[p_] = (1 << 20) + i * (1 << 50)
        env[l] = rng.choice([0, 1, 5, 4096, (1 << 31) + 5, (1 << 32) + 1, 1 << 33])
    return env
