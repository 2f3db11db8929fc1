"""C28, C29: level filtering and line atomicity of the logger."""
from ..interp import State
from .. import terms as t, models
from ..terms import sym, ptr, C, ap
from ..lib import *
from ..check import path

STREAMS = {"_ZSt4cout": "stdout", "_ZSt4cerr": "stderr", "_ZSt4clog": "stderr"}
RAW = ("puts", "putchar", "printf", "fprintf", "fputs", "fputc", "fwrite", "vfprintf", "vprintf", "putc", "perror", "write")


def logs(p):
    l = [f for f in p.fns.values() if f.q == "Logger::log" and f.blocks]
    if len(l) < 20:
        raise Anchor("%d instances of Logger::log" % len(l))
    return sorted(l, key=lambda f: f.dem)


def level_state(chk, I, st, level):
    f, = fns(chk.p, "Logger::set_log_level")
    return I.run(st, f, [C(32, level)])


def args_of(I, f, level):
    a, msg = [], []
    if "sret" in f.params:
        pass
    n = 0
    k = 0
    st = State()
    out = []
    for i, ty in enumerate(f.params):
        if ty == "sret":
            out.append(ptr(heap(st, "result"), 0))
            continue
        if k == 0:
            out.append(C(32, level))
        elif k == 2:
            out.append(C(32, 1234))
        else:
            s_ = sym("arg%d" % (k - 3) if k > 3 else ("file" if k == 1 else "func"), 64 if ty == "ptr" else int(ty[1:]))
            if k > 3:
                msg.append((s_, f.pt[k] if k < len(f.pt) else ""))
            out.append(s_)
        k += 1
    return st, out, msg


def emitted(st):
    r = []
    for e in st.events():
        if e[0] == "ostream":
            b, _ = t.split(e.stream)
            if b[0] == "G" and b[1] in STREAMS:
                r.append((STREAMS[b[1]], e))
        elif e[0] in RAW:
            r.append(("raw", e))
    return r


def outcome_msgs(chk, f, level, thr):
    I = chk.interp()
    st, args, msg = args_of(I, f, level)
    res = []
    for s1, k, _ in level_state(chk, I, st, thr):
        if k != "ret":
            continue
        for o in I.run(s1, f, args):
            res.append(o)
    return res, msg


def c28(chk):
    p = chk.p
    e = p.enum("LogLevel_Debug")
    lv = {n: v for n, v in e}
    deb, err, none = lv["LogLevel_Debug"], lv["LogLevel_Error"], lv["LogLevel_None"]
    L = logs(p)
    chk.notes.append("%d instances of Logger::log" % len(L))
    pick = L if chk.thorough else L[::4]
    setter, = fns(p, "Logger::set_log_level")
    for v in range(deb, none + 1):
        for s1, k, _ in level_state(chk, chk.interp(), State(), v):
            if k != "ret":
                chk.bad("set", site(setter), "a valid level (%d) is refused" % v, key="valid", path=path(s1))
            else:
                chk.ok("set", "level %d" % v)
    if chk.viol:
        return
    for f in pick:
        for level in range(deb, err + 1):
            for thr in range(deb, none + 1):
                outs, msg = outcome_msgs(chk, f, level, thr)
                if not outs:
                    raise Anchor("no outcome of Logger::log")
                for s2, k, v in outs:
                    em = emitted(s2)
                    inst = "%s at level %d, configured %d" % (f.dem[f.dem.find("Logger::log"):][:60], level, thr)
                    if level < thr and em:
                        chk.bad("filter", em[0][1].site, "%s: emitted" % inst, key="emitted")
                    elif level >= thr and not em:
                        chk.bad("filter", site(f), "%s: not emitted" % inst, key="missing", path=path(s2))
                    else:
                        chk.ok("filter", inst)
                    for d, ev in em:
                        want = "stderr" if level == err else "stdout"
                        if d != want:
                            chk.bad("stream", ev.site, "%s: goes to %s" % (inst, d), key="stream")
                        else:
                            chk.ok("stream")
                    if em:
                        text = " ".join(t.show(ev.text) for _d, ev in em if "text" in ev.d)
                        for a, ty in msg:
                            if "[" in ty or "string" in ty or "char*" in ty or "char const*" in ty:
                                if t.show(a) not in text:
                                    chk.bad("content", site(f), "%s: part %s of the message is not written" % (inst, t.show(a)), key="content")
                                else:
                                    chk.ok("content")
    # setting the level
    g = fns(p, "Logger::get_log_level")[0]
    for old in range(deb, none + 1):
        for v in (-2147483648, -1, none + 1, none + 2, 100, 256, 2147483647) + ((257, 1024, 65536) if chk.thorough else ()):
            I = chk.interp()
            for s1, k, _ in level_state(chk, I, State(), old):
                if k != "ret":
                    chk.bad("set", site(g), "a valid level (%d) is refused" % old, key="valid")
                    continue
                for s2, k2, v2 in I.run(s1, fns(p, "Logger::set_log_level")[0], [C(32, v & 0xffffffff)]):
                    if k2 == "ret":
                        chk.bad("set-invalid", site(fns(p, "Logger::set_log_level")[0]), "level %d outside the enumeration is accepted" % v, key="invalid")
                        continue
                    chk.ok("set-invalid")
                    for s3, k3, v3 in I.run(s2, g, []):
                        if k3 != "ret" or v3.op != "c" or t.cv(v3) != old:
                            chk.bad("set-invalid", site(g), "refusing level %d changes the configured level" % v, key="changed")
                for s3, k3, v3 in I.run(s1, g, []):
                    if k3 != "ret" or v3.op != "c" or t.cv(v3) != old:
                        chk.bad("get", site(g), "level %d reads back as %s" % (old, v3), key="get")
                    else:
                        chk.ok("get")
    chk.at_least("filter", 100)
    chk.at_least("set-invalid", 5)


def c29(chk):
    p = chk.p
    L = logs(p)
    chk.notes.append("%d instances of Logger::log" % len(L))
    locks = {}
    inl = set()
    for f in L:
        for level in ((1, 3) if not chk.thorough else (0, 1, 2, 3)):
            outs, msg = outcome_msgs(chk, f, level, 0)
            inl |= chk.ints[-1].inlined
            for s2, k, v in outs:
                held, sec = [], None
                pend = None
                ends = 0
                for e in s2.events():
                    if e[0] in ("lock", "unlock") and t.split(e.m)[0][0] == "A":
                        continue          # a mutex of this call alone
                    if e[0] == "lock":
                        held.append(e.m)
                        pend = None
                    elif e[0] == "unlock":
                        if e.m not in held:
                            chk.bad("released", e.site, "releases a lock that is not held", key="unlock")
                        else:
                            held.remove(e.m)
                        if pend is False:
                            chk.bad("whole-line", e.site, "the lock is released in the middle of a line", key="line", path=path(s2))
                        pend = None
                        sec = None
                    elif e[0] == "ostream" or e[0] in RAW:
                        if e[0] == "ostream":
                            b, _ = t.split(e.stream)
                            if not (b[0] == "G" and b[1] in STREAMS):
                                continue
                        if not held:
                            chk.bad("locked", e.site, "writes to the console without holding the logging lock", key="nolock", path=path(s2))
                            continue
                        for m in held:
                            locks.setdefault(m, set()).add(f.n)
                        chk.ok("locked", "%s under %s" % (e.site, t.show(held[-1])))
                        tx = e.d.get("text")
                        sh = t.show(tx) if tx is not None else ""
                        if sh in ("''",):
                            continue
                        pend = bool(tx is not None and tx.op == "str" and tx.a[0].endswith("\n") or sh.endswith("\\n'"))
                if pend is False:
                    chk.bad("whole-line", site(f), "a message does not end its line", key="line", path=path(s2))
                elif pend:
                    chk.ok("whole-line")
                if held:
                    chk.bad("released", site(f), "returns holding %s" % ", ".join(t.show(m) for m in held), key="held", path=path(s2))
                else:
                    chk.ok("released")
    common = [m for m, s in locks.items() if len(s) == len({f.n for f in L})]
    if not chk.viol:
        if not locks:
            raise Anchor("no emission seen")
        if not common:
            chk.bad("one-lock", site(L[0]), "the instances of Logger::log do not share one lock: %s" % sorted(t.show(m) for m in locks)[:4], key="lock")
        else:
            chk.ok("one-lock", t.show(common[0]))
    # nobody else writes to the console
    for f in p.fns.values():
        if not f.repo or f.n in inl or not f.blocks:
            continue
        for b in f.blocks:
            for q in b:
                for a in q.get("a", []):
                    if isinstance(a, list) and len(a) > 1 and a[0] == "g" and a[1] in STREAMS:
                        chk.bad("only-logger", "%s:%s (%s)" % (f.file, (q.get("loc") or [f.line])[0], f.q), "writes to the console outside the logger", key=f.q)
    chk.ok("only-logger", "%d functions scanned" % sum(1 for f in p.fns.values() if f.repo and f.blocks))
    chk.at_least("locked", 60)
