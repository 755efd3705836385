"""C34: the writers and small streams which everything else is written and read with."""
from .common import *
from .packs import same_val, unknown
from ..terms import concat as cat
from .entity import looped

S, U = "gitdb/stream.py ", "gitdb/util.py "
FAIL = {"os.write", "compress.compress", "compress.flush", "os.close", ".write", "os.read", "os.fstat", "mmap.mmap"}


def steps(c, obj, st, ops, **opts):
    """all paths through a sequence of calls: [(state, [(kind, value)])]; after an exception only a final close is called"""
    out = []

    def go(s, i, rs):
        if i == len(ops):
            out.append((s, rs))
            return
        name, args = ops[i]
        for s1, m in attr(c, s, obj, name):
            for k, s2, v in c.run(name, m, list(args), s1, **opts):
                r = rs + [(k, v)]
                if k == "exc" and (name == "close" or ops[-1][0] != "close"):
                    out.append((s2, r))
                elif k == "exc":
                    go(s2, len(ops) - 1, r + [None] * (len(ops) - 2 - i))
                else:
                    go(s2, i + 1, r)
    go(st, 0, [])
    return out


def seqs(ops, n):
    import itertools
    return [s for k in range(n + 1) for s in itertools.product(ops, repeat=k)]


def show_ops(ops):
    return " ".join(n for n, _ in ops) or "nothing"


def eq(f, a, b):
    if a is NONE or b is NONE:
        return a is b
    return True if a is b or f.ask(c_eq0(lin_add(a, b, -1))) is True else same_val(f, a, b)


def same(f, a, b):
    """are two byte strings the same?"""
    if a is b or cat(a) is cat(b):
        return True
    a, b = [cat(*[p for p in (x.args[1:] if x.op == "concat" else (x,)) if f.ask(c_eq0(length(p))) is not True] or [EMPTY_B]) for x in (a, b)]
    r = True if a is b else f.ask(c_eq(a, b))
    if r is None:
        return seq_eq(a, b, {}, f)
    return r if r is not None else None if unknown(a) else False


def c34(c):
    c.rule("sha", "sha() of a writer is the SHA-1 of everything written to it so far, in binary or hexadecimal form, and asking for it changes nothing")
    c.rule("length", "write returns the number of bytes given")
    c.rule("passed-on", "a FlexibleSha1Writer passes exactly what is written on to its function, and its failures to the caller")
    c.rule("zipped", "after close, a ZippedStoreShaWriter holds exactly the compressed bytes written to it: getvalue gives all of them, and so does read after seek(0), the only position there is")
    c.rule("file", "after close without failure the descriptor of a FDCompressedSha1Writer has got exactly the compressed bytes; a write the system did in part does not end in success")
    c.rule("closed", "close closes the descriptor exactly once, also if the rest could not be written")
    c.rule("failure", "a failing system call is reported")
    c.rule("descriptor", "FDStream writes all bytes it is given, reads what is asked for, or as much as the file has, and tells how many bytes were read and written")
    c.rule("null", "a NullStream reads as empty bytes and takes everything")
    c.rule("memory", "allocate_memory gives a block of the size asked for, also if the system has no anonymous mappings; a _RandomAccessBytesIO behaves like the bytes it holds")
    D = [sym("data%d" % i, "bytes") for i in range(4)]
    N = 4 if c.thorough else 3

    def datas(seq):
        """operations with their arguments: each write gets its own data"""
        out, i = [], 0
        for o in seq:
            if o == "write":
                out.append(("write", (D[i],)))
                i += 1
            else:
                out.append({"sha": ("sha", ()), "hex": ("sha", (TRUE,)), "bin": ("sha", (FALSE,))}[o])
        return out

    def digests(s, ops, rs, w, what):
        sofar = EMPTY_B
        for (name, args), r in zip(ops, rs):
            if r is None:
                break
            k, v = r
            if name == "write":
                if k == "ret":
                    c.ob("length", eq(s.facts, v, length(args[0])), w + "write", "%s: write returns %s" % (what, show(v)[:60]), s.events())
                    sofar = cat(sofar, args[0])
            elif name == "sha":
                want = T("sha1", sofar)
                if args == (TRUE,):
                    want = T("hexstr", T("b2a", want))
                c.ob("sha", (v is want or (None if unknown(v) and v.op not in ("sha1", "hexstr") else False)) if k == "ret" else False, w + "sha",
                     "%s: sha gives %s" % (what, show(v)[:80] if k == "ret" else c.excname(s, v)), s.events())
        return sofar

    def plain(c):
        for seq in seqs(("write", "sha", "hex"), N):
            ops = datas(seq)
            st, o = one(c, "gitdb.stream.Sha1Writer", [], c.I.fresh_state())
            for s, rs in steps(c, o, st, ops):
                what = "Sha1Writer, " + show_ops(ops)
                c.ob("failure", all(r[0] == "ret" for r in rs) or False, S + "Sha1Writer", what, s.events())
                digests(s, ops, rs, S + "Sha1Writer.", what)

    def flexible(c):
        for raises in (None, lambda l: "builtins.OSError" if l == ".write" else None):
            for seq in seqs(("write", "hex"), N):
                ops = datas(seq)
                st = c.I.fresh_state()
                sink = opaque(st, "sink")
                g = ghost(st)

                def wr(I, st, args, kw, fr, X, n):
                    I.may_raise(".write", args, kw, st, fr, X, n)
                    ghost_add(st, g, I.val(args[-1], st))
                    return I.effect2(".write", list(args), kw, st, fr, n, I.fresh(st, "whatever", None))
                st, o = one(c, "gitdb.stream.FlexibleSha1Writer", [T("attr", sink, "write")], st)
                for s, rs in steps(c, o, st, ops, models={".write": wr}, raises=raises):
                    what = "FlexibleSha1Writer, " + show_ops(ops)
                    bad = [e for e in flat(s.events()) if e.kind == "call" and str(e.out).startswith("raise")]
                    if not bad or any(r and r[0] == "exc" for r in rs):
                        c.ob("failure", all(r[0] == "ret" for r in rs) or bool(bad), S + "FlexibleSha1Writer", what, s.events())
                    if bad:
                        c.ob("failure", any(r and r[0] == "exc" and c.is_exc(s, r[1], "OSError") is True for r in rs), S + "FlexibleSha1Writer.write", what + ": a failure of the function is not passed on", s.events())
                        continue
                    want = digests(s, ops, rs, S + "FlexibleSha1Writer.", what)
                    got = s.get(g.args[0]).p
                    c.ob("passed-on", same(s.facts, got, want), S + "FlexibleSha1Writer.write", "%s: passed on %s" % (what, show(got)[:100]), s.events())

    def compressed(c, s, got, want, flushed=True):
        """is got what a compressor made of want, completely?"""
        if got.op == "bytes" and got.args and isinstance(got.args[0], Term) and got.args[0].op == "zcompress":
            return same(s.facts, got.args[0].args[0], want)
        for _, z in find(s, "#compress"):
            if same(s.facts, z.f["out"], got) is True:
                return z.f["flushed"] is TRUE and same(s.facts, z.f["fed"], want) is True
        return False if find(s, "#compress") else None

    def zipped(c):
        W = S + "ZippedStoreShaWriter."
        ends = [[("getvalue", ())], [("seek", (ZERO,)), ("read", ())], [("seek", (ZERO, ZERO)), ("read", ()), ("getvalue", ())], [("seek", (ZERO,)), ("getvalue", ()), ("read", ()), ("seek", (ZERO,)), ("read", ())]]
        for seq in seqs(("write", "hex"), N):
            for end in ends:
                ops = datas(seq) + [("close", ())] + end
                st, o = one(c, "gitdb.stream.ZippedStoreShaWriter", [], c.I.fresh_state())
                for s, rs in steps(c, o, st, ops):
                    what = "ZippedStoreShaWriter, " + show_ops(ops)
                    if not all(r[0] == "ret" for r in rs):
                        c.ob("zipped", False, W + "getvalue", "%s: fails with %s" % (what, c.excname(s, rs[-1][1])), s.events())
                        continue
                    want = digests(s, ops, rs, W, what)
                    at = 0
                    for (name, _), (k, v) in zip(ops, rs):
                        if name in ("getvalue", "read"):
                            c.ob("zipped", compressed(c, s, c.I.val(v, s), want), W + name, "%s: %s gives %s" % (what, name, show(v)[:80]), s.events())
        # other positions
        p, h = sym("position", "int"), sym("whence", "int")
        for args, ok in (((p,), c_eq0(p)), ((p, ZERO), c_eq0(p)), ((ZERO, h), c_eq0(h)), ((p, h), None)):
            st, o = one(c, "gitdb.stream.ZippedStoreShaWriter", [], c.I.fresh_state())
            for s, rs in steps(c, o, st, [("write", (D[0],)), ("seek", args)]):
                k, v = rs[-1]
                conds = [s.facts.ask(x) for x in ([ok] if ok is not None else [c_eq0(p), c_eq0(h)])]
                zero = False if False in conds else None if None in conds else True
                what = "seek(%s)" % ", ".join(show(a) for a in args)
                if zero is None:
                    c.ob("zipped", False if k == "ret" else None, W + "seek", what + ": another position may be accepted", s.events())
                else:
                    c.ob("zipped", k == "ret" if zero else k == "exc" and c.is_exc(s, v, "ValueError") is True, W + "seek", "%s %s: %s" % (what, conds, c.excname(s, v) if k == "exc" else "returns"), s.events())

    def closes(s, fd):
        return [e for e in flat(s.events()) if e.kind == "call" and e.label == "os.close" and e.args and e.args[0] is fd]

    def to_fd(c):
        W = S + "FDCompressedSha1Writer."
        fd = sym("fd", "int")
        for short in (False, True):
            for raises in (None, lambda l: "builtins.OSError" if l in FAIL else None, lambda l: "builtins.MemoryError" if l.startswith("compress.") else None):
                for seq in seqs(("write", "hex") if raises is None else ("write",), N - 1 if short or raises else N):
                    ops = datas(seq) + [("close", ())]
                    st = c.I.fresh_state()
                    g = ghost(st)
                    st, o = one(c, "gitdb.stream.FDCompressedSha1Writer", [fd], st)
                    for s, rs in steps(c, o, st, ops, models={"os.write": fdw(g)}, short_writes=short, raises=raises, unroll={"*": 4}):
                        if looped(s):
                            continue
                        what = "FDCompressedSha1Writer, " + show_ops(ops)
                        evs = [e for e in flat(s.events()) if e.kind == "call"]
                        bad = [e.label for e in evs if str(e.out).startswith("raise")]
                        part = [e for e in evs if e.out == "short"]
                        failed = [r for r in rs if r and r[0] == "exc"]
                        n = closes(s, fd)
                        c.ob("closed", len(n) == 1, W + "close", "%s (%s): the descriptor is closed %d times" % (what, ", ".join(bad) or "no failure", len(n)), s.events())
                        late = [e for e in evs[evs.index(n[0]) + 1:] if e.label == "os.write"] if n else []
                        c.ob("closed", not late, W + "close", what + ": writes after the descriptor was closed", s.events())
                        if bad:
                            c.ob("failure", bool(failed) and all(c.is_exc(s, r[1], "OSError") is True or c.is_exc(s, r[1], "MemoryError") is True for r in failed), W + "write", "%s: failing %s is not reported" % (what, bad[0]), s.events())
                            continue
                        if failed:
                            c.ob("file" if part else "failure", bool(part) and c.is_exc(s, failed[0][1], "OSError") is True, W + "write", "%s: %s" % (what, c.excname(s, failed[0][1])), s.events())
                            continue
                        want = digests(s, ops, rs, W, what)
                        got = s.get(g.args[0]).p
                        c.ob("file", compressed(c, s, got, want), W + "close", "%s%s: the file has %s" % (what, ", partial writes" if part else "", show(got)[:100]), s.events())

    def descriptor(c):
        W = S + "FDStream."
        fd = sym("fd", "int")
        n = sym("count", "int")
        kinds = {"write": None, "read": ("read", ()), "read0": ("read", (ZERO,)), "readn": ("read", (n,)), "tell": ("tell", ()), "fileno": ("fileno", ())}
        for raises in (None, lambda l: "builtins.OSError" if l in FAIL else None):
            for seq in seqs(tuple(kinds), N - 1):
                if raises and (len(seq) > 2 or "tell" in seq):
                    continue
                ops, i = [], 0
                for q in seq:
                    ops.append(kinds[q] or ("write", (D[i],)))
                    i += q == "write"
                ops.append(("close", ()) if raises or "fileno" in seq else ("tell", ()))
                st = c.I.fresh_state()
                st.facts.assume(c_le0(lin_add(const(1), n, -1)), True)
                g = ghost(st)
                st, o = one(c, "gitdb.stream.FDStream", [fd], st)
                for s, rs in steps(c, o, st, ops, models={"os.write": fdw(g)}, short_writes=seq.count("write") == 1 and not raises, raises=raises, unroll={"*": 4}):
                    if looped(s):
                        continue
                    what = "FDStream, " + show_ops(ops)
                    evs = [e for e in flat(s.events()) if e.kind == "call"]
                    bad = [e.label for e in evs if str(e.out).startswith("raise")]
                    failed = [r for r in rs if r and r[0] == "exc"]
                    if bad or failed:
                        c.ob("failure", bool(bad) and bool(failed) and c.is_exc(s, failed[0][1], "OSError") is True, W + ops[-1][0], "%s: failing %s, %s" % (what, bad[:1], failed and c.excname(s, failed[0][1])), s.events())
                        continue
                    want, pos = EMPTY_B, ZERO
                    reads = [e for e in evs if e.label == "os.read"]
                    for (name, args), (k, v) in zip(ops, rs):
                        if name == "write":
                            want, pos = cat(want, args[0]), lin_add(pos, length(args[0]))
                        elif name == "read":
                            if not reads:
                                c.ob("descriptor", None if unknown(v) else False, W + name, what + ": reads nothing", s.events())
                                return
                            e = reads.pop(0)
                            c.ob("descriptor", v is e.res and e.args[0] is fd, W + name, "%s: read gives %s" % (what, show(v)[:60]), s.events())
                            if args == (n,):
                                c.ob("descriptor", eq(s.facts, e.args[1], n), W + name, "%s: read(count) asks for %s" % (what, show(e.args[1])[:60]), s.events())
                            else:
                                before = [x for x in evs[:evs.index(e)] if x.label in ("os.fstat", "os.stat", "os.path.getsize") and x.args[0] is fd]
                                ok = any(e.args[1] is T("attr", x.res, "st_size") or e.args[1] is x.res or (e.args[1].args and e.args[1].args[0] is x.res and "st_size" in e.args[1].args) for x in before)
                                c.ob("descriptor", ok or (None if before and unknown(e.args[1]) else False), W + name, "%s: read() asks for %s" % (what, show(e.args[1])[:60]), s.events())
                            pos = lin_add(pos, length(v))
                        elif name == "tell":
                            c.ob("descriptor", eq(s.facts, v, pos), W + name, "%s: tell gives %s" % (what, show(v)[:80]), s.events())
                        elif name == "fileno":
                            c.ob("descriptor", eq(s.facts, v, fd), W + name, "%s: fileno gives %s" % (what, show(v)[:60]), s.events())
                        elif name == "close":
                            c.ob("closed", len(closes(s, fd)) == 1, W + name, "%s: the descriptor is closed %d times" % (what, len(closes(s, fd))), s.events())
                    got = s.get(g.args[0]).p
                    c.ob("descriptor", same(s.facts, got, want), W + "write", "%s: written %s" % (what, show(got)[:100]), s.events())

    def null(c):
        for seq in seqs(("read", "readn", "write", "close"), 2):
            ops = [{"read": ("read", ()), "readn": ("read", (sym("count", "int"),)), "write": ("write", (D[0],)), "close": ("close", ())}[q] for q in seq]
            st, o = one(c, "gitdb.stream.NullStream", [], c.I.fresh_state())
            for s, rs in steps(c, o, st, ops):
                for (name, args), (k, v) in zip(ops, rs):
                    if name == "close":
                        ok = k == "ret"
                    elif name == "read":
                        ok = k == "ret" and v is EMPTY_B
                    else:
                        ok = k == "ret" and eq(s.facts, v, length(D[0]))
                    c.ob("null", ok, S + "NullStream." + name, "%s: %s gives %s" % (show_ops(ops), name, show(v)[:60] if k == "ret" else c.excname(s, v)), s.events())

    def memory(c):
        W = U + "_RandomAccessBytesIO."
        b, i, j = sym("contents", "bytes"), sym("i", "int"), sym("j", "int")
        for given in ((), (b,)):
            data = given[0] if given else EMPTY_B
            st = c.I.fresh_state()
            outs = c.run("_RandomAccessBytesIO", c.anchor("gitdb.util._RandomAccessBytesIO"), list(given), st)
            for k, s, o in outs:
                if k != "ret":
                    c.ob("memory", False, W + "__init__", "created %s contents: %s" % ("with" if given else "without", c.excname(s, o)), s.events())
                    continue
                for ops, want in (([("__len__", ())], length(data)), ([("getvalue", ())], data), ([("read", ())], data), ([("__len__", ()), ("read", ())], data),
                                  ([("read", ()), ("__len__", ())], length(data)), ([("read", ()), ("getvalue", ())], data), ([("read", ()), ("seek", (ZERO,)), ("read", ())], data)):
                    for s2, rs in steps(c, o, s.fork(), ops):
                        k2, v = rs[-1]
                        c.ob("memory", False if k2 == "exc" else same(s2.facts, v, want) if ty(want) == "bytes" else eq(s2.facts, v, want), W + ops[-1][0],
                             "%s: %s" % (show_ops(ops), show(v)[:80] if k2 == "ret" else c.excname(s2, v)), s2.events())
                if not given:
                    continue
                P = c.probe("def at(o, i):\n return o[i]\ndef cut(o, i, j):\n return o[i:j]\ndef size(o):\n return len(o)\n")
                for name, args in (("at", [i]), ("cut", [i, j]), ("cut", [ZERO, j]), ("size", []), ("at later", [i]), ("cut later", [i, j]), ("size later", [])):
                    s0 = s.fork()
                    if name.endswith("later"):
                        # after reading and asking for other places
                        s0 = steps(c, o, s0, [("read", ()), ("__getitem__", (ZERO,)), ("__len__", ())])[0][0]
                    q = P[name.split()[0]]
                    ref = [(s3, v) for k3, s3, v in c.run(name + " of bytes", q, [b] + args, s0.fork()) if k3 == "ret"]
                    for k2, s2, v in c.run(name + " of the block", q, [o] + args, s0.fork()):
                        if k2 == "exc":
                            c.ob("memory", c.is_exc(s2, v, "IndexError") is True and name == "at" or False, W + "__getitem__", "%s: %s" % (name, c.excname(s2, v)), s2.events())
                            continue
                        c.ob("memory", any(v is w for _, w in ref) or (None if unknown(v) else False), W + "__getitem__", "%s: %s" % (name, show(v)[:60]), s2.events())
        n = sym("size", "int")
        W = U + "allocate_memory"
        for raises in (None, lambda l: "builtins.OSError" if l == "mmap.mmap" else None):
            st = c.I.fresh_state()
            st.facts.assume(c_le0(scale(n, -1)), True)
            f = c.anchor("gitdb.util.allocate_memory")
            for k, s, v in c.run("allocate_memory", f, [n], st, raises=raises):
                zero = s.facts.ask(c_eq0(n))
                what = "size %s%s" % ({True: "0", False: "> 0", None: "not examined"}[zero], ", no mapping" if any(str(e.out).startswith("raise") for e in flat(s.events())) else "")
                if k == "exc":
                    c.ob("memory", False, W, "%s: fails with %s" % (what, c.excname(s, v)), s.events())
                    continue
                o = s.get(v.args[0]) if v.op == "ref" else None
                if o is not None and o.cls.op == "ext" and o.cls.args[0] == "mmap.mmap":
                    c.ob("memory", zero is not True and cval(o.f["#fd"]) == -1 and eq(s.facts, o.f["#len"], n) if is_const(o.f["#fd"]) else None, W, "%s: an anonymous mapping of %s bytes" % (what, show(o.f["#len"])[:40]), s.events())
                    if zero is None:
                        c.ob("memory", False, W, what + ": a mapping can't be empty", s.events())
                    continue
                for s2, rs in steps(c, v, s, [("getvalue", ())]):
                    k2, x = rs[-1]
                    c.ob("memory", False if k2 == "exc" else eq(s2.facts, length(x), n), W, "%s: a block of %s" % (what, show(length(x))[:60] if k2 == "ret" else c.excname(s2, x)), s2.events())
    return [("plain", plain), ("flexible", flexible), ("zipped", zipped), ("to_fd", to_fd), ("descriptor", descriptor), ("null", null), ("memory", memory)]


EMPTY_B = const(b"")
