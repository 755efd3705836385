"""C11-C17, C20: pack entries, pack index, pack writing and verification."""
from .common import *

PACK = sym("pack", "buf")
IDX = sym("idx", "buf")


def window(D, size=None):
    """models of smmap cursors over a file with content D"""
    from ..interp import Ev
    size = size if size is not None else length(D)

    def ofs(st, o):
        return st.get(o.args[0]).f.get("#ofs", ZERO) if o.op == "ref" else ZERO

    def use_region(I, st, args, kw, fr, X, n):
        a = [I.val(x, st) for x in args[1:]]
        o = args[0]
        if o.op == "ref":
            # the cursor itself is moved
            st.w(o.args[0]).f["#ofs"] = a[0] if a else kw.get("offset", ZERO)
            st.w(o.args[0]).f["#region"] = TRUE
        return [(st, o)]

    def unmapped(I, st, o, fr, X, n):
        """a new cursor has no region before use_region was called"""
        if o.op == "ref" and st.get(o.args[0]).f.get("#region") is FALSE:
            X.append((st, I.mkexc(st, "builtins.AttributeError", n, fr)))
            return True

    def buffer(I, st, args, kw, fr, X, n):
        if unmapped(I, st, args[0], fr, X, n):
            return []
        return [(st, slice_(D, ofs(st, args[0]), NONE) if ofs(st, args[0]) is not ZERO else D)]

    def mapped(I, st, args, kw, fr, X, n):
        if unmapped(I, st, args[0], fr, X, n):
            return []
        # map() starts at the beginning of the region, which may lie before the offset asked for
        o = ofs(st, args[0])
        if o is ZERO:
            return [(st, D)]
        return [(st, T("res", "regionmap", (o,), "buf"))]

    def file_size(I, st, args, kw, fr, X, n):
        return [(st, size)]

    def make(I, st, args, kw, fr, X, n):
        o = opaque(st, "cursor")
        st.w(o.args[0]).f["#region"] = FALSE
        return [(st, o)]

    def unlimited(I, st, args, kw, fr, X, n):
        return [(st, ZERO)]
    return {".window_size": unlimited, ".use_region": use_region, ".buffer": buffer, ".map": mapped, ".file_size": file_size, ".make_cursor": make}


def by_path(files):
    """cursor models which choose the content by the path given to make_cursor"""
    def make(I, st, args, kw, fr, X, n):
        o = opaque(st, "cursor")
        p = args[-1]
        st.w(o.args[0]).f["#file"] = p
        st.w(o.args[0]).f["#region"] = FALSE
        return [(st, o)]

    def pick(name):
        def h(I, st, args, kw, fr, X, n):
            p = st.get(args[0].args[0]).f.get("#file") if args[0].op == "ref" else None
            D = files(p)
            return window(D)[name](I, st, args, kw, fr, X, n)
        return h
    return {".make_cursor": make, **{k: pick(k) for k in (".use_region", ".buffer", ".map", ".file_size")}}


def idx_or_pack(p):
    return IDX if "idx" in show(p) else PACK


def be(n, d, ofs):
    return beint(n, d, ofs)


# ------------------------------------------------------------------ C12

def ref_header(d, p, k):
    """(type, size, end) of an entry header of k bytes at position p"""
    b = index(d, p)
    size, s = bits(b, 0, 4), 4
    for i in range(1, k):
        size = lin_add(size, scale(bits(index(d, lin_add(p, const(i))), 0, 7), 1 << s))
        s += 7
    return bits(b, 4, 3), size, lin_add(p, const(k))


def ref_msb(d, p, k):
    size = ZERO
    for i in range(k):
        size = lin_add(size, scale(bits(index(d, lin_add(p, const(i))), 0, 7), 1 << (7 * i)))
    return size, lin_add(p, const(k))


def ref_ofs(d, p, k):
    v = bits(index(d, p), 0, 7)
    for i in range(1, k):
        v = lin_add(scale(lin_add(v, const(1)), 128), bits(index(d, lin_add(p, const(i))), 0, 7))
    return v, lin_add(p, const(k))


def unknown(t):
    """as core.unknown; the value of a loop which was not unrolled is not understood here either"""
    from ..core import unknown as u
    return u(t) or any(isinstance(x, Term) and x.op == "mu" for x in subterms(t))


def varlen(f, d, p, limit):
    """number of bytes of a variable length number at position p, as decided on a path: k bytes if the first k-1 have
    their top bit set and the last one has not"""
    for k in range(1, limit + 2):
        r = f.ask(c_eq0(bits(index(d, lin_add(p, const(k - 1))), 7, 1)))
        if r is True:
            return k
        if r is None:
            return None
    return limit + 2


def short_of(f, d, p, limit):
    """a number whose last byte looked at says that there is another one, and nothing is known of that one"""
    for k in range(1, limit + 2):
        b = index(d, lin_add(p, const(k - 1)))
        r = f.ask(c_eq0(bits(b, 7, 1)))
        if r is None:
            keys = list(f.b) + list(f.c) + list(f.ordr) + list(f.ne)
            return k > 1 and not any(isinstance(u, Term) and mentions_deep(u, b) for u in keys)
        if r is True:
            return False
    return False


def mentions_deep(t, b):
    if isinstance(t, Term):
        return mentions(t, b)
    return isinstance(t, tuple) and any(mentions_deep(u, b) for u in t)


def ieq(f, a, b):
    if a.op == "seq" or b.op == "seq":
        return None
    r = f.ask(c_eq0(lin_add(a, b, -1)))
    if r is None:
        return None if unknown(a) else False
    return r


def c12(c):
    N = 12 if c.thorough else 9
    c.rule("entry-header", "the type is bits 4-6 of the first byte; the size is assembled little-endian from its low four bits and seven bits of "
           "each following byte, up to and including the first byte without the top bit; the position returned is behind it")
    c.rule("encode", "decoding the header produced for a type and a size yields this type and this size")
    c.rule("delta-size", "delta sizes are assembled little-endian from seven bits per byte, and the position behind them is returned")
    c.rule("ofs-offset", "the distance of an offset delta is assembled big-endian, adding one per continuation byte")
    c.rule("ref-id", "the base id of a reference delta is the 20 bytes behind the entry header")
    c.rule("entry", "an entry at an offset is described by its own offset, type and size, and its data starts behind header and base reference")
    un = {"*": N + 1}
    where = "gitdb/fun.py"

    def looped(s):
        return any(e.kind == "loop" for e in s.events())

    def dec(c):
        st = c.I.fresh_state()
        d = sym("data", "buf")
        ks = set()
        for k, s, v in c.run("pack_object_header_info", c.anchor("gitdb.fun.pack_object_header_info"), [d], st, unroll=un):
            if k != "ret":
                continue
            n = varlen(s.facts, d, ZERO, N)
            if n is None or looped(s):
                if n is None or n <= N:
                    c.ob("entry-header", False if n is None and not looped(s) and short_of(s.facts, d, ZERO, N) else None, where, "length of the header not decided on a path", s.events())
                continue
            if n > N:
                continue
            ks.add(n)
            t, z, e = ref_header(d, ZERO, n)
            got = v.args if v.op in ("tuple", "seq") else ()
            if len(got) != 3:
                c.ob("entry-header", None, where, "result %s" % show(v)[:60])
                continue
            for nm, a, b in (("type", got[0], t), ("size", got[1], z), ("position", got[2], e)):
                c.ob("entry-header", ieq(s.facts, a, b), where + " pack_object_header_info", "%s of a header of %d bytes is %s" % (nm, n, show(a)[:80]), s.events())
        miss = [i for i in range(1, N + 1) if i not in ks]
        c.ob("entry-header", not miss if not miss else None, where, "headers of %s bytes" % (miss or "1-%d" % N))

    def enc(c):
        z = sym("size", "int")
        for t in (1, 2, 3, 4, 6, 7):
            st = c.I.fresh_state()
            st.facts.assume(c_le0(scale(z, -1)), True)
            ks = set()
            for k, s, v in c.run("create_pack_object_header(%d)" % t, c.anchor("gitdb.fun.create_pack_object_header"), [const(t), z], st, unroll=un):
                f = s.facts
                if looped(s):
                    continue
                if k != "ret":
                    c.ob("encode", False, where + " create_pack_object_header", "fails", s.events())
                    continue
                v = c.I.val(v, s)
                n = length(v)
                if not is_const(n):
                    c.ob("encode", None, where, "length of the header not decided")
                    continue
                n = cval(n)
                if n > N:
                    continue
                ks.add(n)
                ok = True
                for i in range(n):
                    b = index(v, const(i))
                    lo, w = (0, 4) if i == 0 else (4 + 7 * (i - 1), 7)
                    want = lin_add(bits(z, lo, w), const((t << 4 if i == 0 else 0) + (0x80 if i < n - 1 else 0)))
                    r = ieq(f, b, want)
                    c.ob("encode", r, where + " create_pack_object_header", "byte %d of %d: %s" % (i, n, show(b)[:80]), s.events())
                rest = shr(z, const(4 + 7 * (n - 1)))
                r = f.ask(c_eq0(rest))
                c.ob("encode", r if r is not None else (None if unknown(v) else False), where + " create_pack_object_header", "size is complete after %d bytes" % n, s.events())
            miss = [i for i in range(1, N + 1) if i not in ks]
            c.ob("encode", True if not miss else None, where, "type %d, headers of %s bytes" % (t, miss or "1-%d" % N))

    def msb(c):
        st = c.I.fresh_state()
        d, o = sym("data", "bytes"), sym("offset", "int")
        for args, p in (([d, o], o), ([d], ZERO)):
            s0 = st.fork()
            s0.facts.assume(c_le0(scale(o, -1)), True)
            ks = set()
            for k, s, v in c.run("msb_size", c.anchor("gitdb.fun.msb_size"), args, s0, unroll=un):
                if looped(s):
                    continue
                n = varlen(s.facts, d, p, N)
                if k != "ret":
                    # refused: not before the data ends
                    m = 0
                    while m <= N and s.facts.ask(c_eq0(bits(index(d, lin_add(p, const(m))), 7, 1))) is False:
                        m += 1
                    if m <= N:
                        r = s.facts.ask(c_le0(lin_add(length(d), lin_add(p, const(m)), -1)))
                        c.ob("delta-size", r is True, where + " msb_size", "refuses a number although the data does not end after %d bytes" % m, s.events())
                    continue
                if n is None:
                    c.ob("delta-size", None, where, "length not decided on a path")
                    continue
                if n > N:
                    continue
                ks.add(n)
                z, e = ref_msb(d, p, n)
                got = v.args if v.op in ("tuple", "seq") else ()
                if len(got) != 2:
                    c.ob("delta-size", None, where, "result %s" % show(v)[:60])
                    continue
                for nm, a, b in (("position", got[0], e), ("size", got[1], z)):
                    c.ob("delta-size", ieq(s.facts, a, b), where + " msb_size", "%s of a number of %d bytes: %s" % (nm, n, show(a)[:80]), s.events())
            miss = [i for i in range(1, N + 1) if i not in ks]
            c.ob("delta-size", True if not miss else None, where, "numbers of %s bytes" % (miss or "1-%d" % N))

    def entry(c):
        I = c.I

        def reader(I, st, args, kw, fr, X, n):
            o = opaque(st, "zstream")
            a = list(args[-3:]) if len(args) >= 3 else list(args)
            st.w(o.args[0]).f["#args"] = tup(*a)
            return [(st, o)]
        def hdr(I, st, args, kw, fr, X, n):
            """an entry header of unknown length"""
            d = args[0]
            if d is not slice_(PACK, off, NONE):
                st.emit(Ev("call", "header?", tuple(args), kw, NONE, I.loc(n, fr), "ok", fr.stack))
            st.facts.assume(c_le0(lin_add(const(1), hl, -1)), True)
            return [(st, tup(ht, hz, hl))]
        from ..interp import Ev
        off = sym("offset", "int")
        hl, hz = sym("hdrlen", "int"), sym("usize", "int")
        for tid in (1, 2, 3, 4, 6, 7):
            ht = const(tid)
            for as_stream in (True, False):
                M = window(PACK)
                M["gitdb.fun.pack_object_header_info"] = hdr
                M["gitdb.stream.DecompressMemMapReader"] = reader
                st = I.fresh_state()
                st.facts.assume(c_le0(scale(off, -1)), True)
                cur = opaque(st, "cursor")
                for k, s, v in c.run("pack_object_at(type %d, %s)" % (tid, as_stream), c.anchor("gitdb.pack.pack_object_at"), [cur, off, const(as_stream)], st, unroll=un, models=M):
                    f = s.facts
                    where = "gitdb/pack.py pack_object_at"
                    if looped(s):
                        continue
                    if any(e.label == "header?" for e in s.events()):
                        c.ob("entry", False, [e for e in s.events() if e.label == "header?"][0], "header is read at the offset of the entry", s.events())
                        continue
                    if k != "ret":
                        c.ob("entry", False, where, "fails for an entry of type %d" % tid, s.events())
                        continue
                    base = lin_add(off, hl)
                    info = None
                    if tid == 6:
                        n = varlen(f, PACK, base, N)
                        if n is None:
                            c.ob("ofs-offset", False if short_of(f, PACK, base, N) else None, where, "length of the distance not decided", s.events())
                            continue
                        if n > N:
                            continue
                        info, end = ref_ofs(PACK, base, n)
                    elif tid == 7:
                        info, end = slice_(PACK, base, lin_add(base, const(20))), lin_add(base, const(20))
                    else:
                        end = base
                    got = v.args if v.op in ("tuple", "seq") else ()
                    if len(got) != 2:
                        c.ob("entry", None, where, "result %s" % show(v)[:60])
                        continue
                    c.ob("entry", ieq(f, got[0], end), where, "data offset %s" % show(got[0])[:80], s.events())
                    want = {"pack_offset": off, "type_id": ht, "size": hz}
                    if tid in (6, 7):
                        want["delta_info"] = info
                    for nm, w in want.items():
                        for s2, x in attr(c, s, got[1], nm):
                            rule = "ofs-offset" if nm == "delta_info" and tid == 6 else "ref-id" if nm == "delta_info" else "entry"
                            if rule == "ref-id":
                                y = x.args[0] if x.op == "tobytes" else x
                                r = y is w or (None if unknown(y) else False)
                            else:
                                r = ieq(f, x, w)
                            c.ob(rule, r, where, "%s of an entry of type %d: %s" % (nm, tid, show(x)[:80]), s.events())
                    if as_stream:
                        for s2, x in attr(c, s, got[1], "stream"):
                            a = s2.get(x.args[0]).f.get("#args") if x.op == "ref" else None
                            if a is None:
                                c.ob("entry", None, where, "stream %s" % show(x)[:60])
                                continue
                            c.ob("entry", a.args[0] is slice_(PACK, end, NONE) or (None if unknown(a.args[0]) else False), where, "the stream reads at %s" % show(a.args[0])[:80], s.events())
                            c.ob("entry", ieq(f, a.args[-1], hz), where, "the stream's size is %s" % show(a.args[-1])[:60], s.events())
    return [("decode", dec), ("encode", enc), ("msb", msb), ("entry", entry)]


# ------------------------------------------------------------------ C13-C15: index

def versions(c, st, M):
    """index objects whose file is of version 1 or 2: [(version, state, object, number of objects, base of ids, stride, offset of ids)]"""
    out = []
    for v in (2, 1):
        s = st.fork()
        s.facts.assume(c_eq(slice_(IDX, ZERO, const(4)), const(b"\xfftOc")), v == 2)
        if v == 2:
            s.facts.assume(c_eq0(lin_add(be(4, IDX, const(4)), const(2), -1)), True)
        s, o = one(c, "gitdb.pack.PackIndexFile", [sym("path", "str")], s, models=M)
        out.append((v, s, o))
    return out


def fan_base(v):
    return 8 if v == 2 else 0


def count(v):
    return be(4, IDX, const(fan_base(v) + 1020))


def SHA(v, i):
    p = lin_add(const(1032), scale(i, 20)) if v == 2 else lin_add(const(1028), scale(i, 24))
    return slice_(IDX, p, lin_add(p, const(20)))


def CRC(v, i):
    n = count(v)
    return be(4, IDX, lin_add(lin_add(const(1032), scale(n, 20)), scale(i, 4))) if v == 2 else ZERO


def OFS(v, i):
    """[(condition, offset)]"""
    if v == 1:
        return [(None, be(4, IDX, lin_add(const(1024), scale(i, 24))))]
    n = count(v)
    w = be(4, IDX, lin_add(lin_add(const(1032), scale(n, 24)), scale(i, 4)))
    big = c_not(c_eq0(bits(w, 31, 1)))
    k = lin_add(w, const(1 << 31), -1)
    return [(c_not(big), w), (big, be(8, IDX, lin_add(lin_add(const(1032), scale(n, 28)), scale(k, 8))))]


def norm_bits(f, t):
    """bits(x, 0, 31) of a word whose bit 31 is set is x - 2**31; bits(x, 0, w) of a small x is x"""
    m = {}
    for u in subterms(t):
        if isinstance(u, Term) and u.op == "max" and len(u.args) == 2 and ZERO in u.args:
            x = u.args[0] if u.args[1] is ZERO else u.args[1]
            if f.ask(c_le0(scale(x, -1))) is True:
                m[u] = x
        if isinstance(u, Term) and u.op == "bits":
            x, lo, w = u.args
            if lo == 0:
                b = bits(x, 31, 1)
                if w == 31 and f.ask(c_eq0(b)) is False:
                    m[u] = lin_add(x, const(1 << 31), -1)
                elif f.ask(c_le0(scale(x, -1))) is True and f.ask(c_le0(lin_add(x, const((1 << w) - 1), -1))) is True:
                    m[u] = x
            elif w == 1 and lo == 31 and f.ask(c_eq0(u)) is False:
                m[u] = const(1)
            elif w == 1 and f.ask(c_eq0(u)) is True:
                m[u] = ZERO
    return subst(t, m) if m else t


def same_val(f, a, b):
    if a is b:
        return True
    a, b = norm_bits(f, a), norm_bits(f, b)
    if a is b:
        return True
    if ty(a) == "int" or a.op in ("lin", "be", "bits"):
        r = f.ask(c_eq0(lin_add(a, b, -1)))
        if r is not None:
            return r
        return None if unknown(a) else False
    return None if unknown(a) else False


def check_ofs(c, rule, f, got, v, i, where, what, path):
    for cond, w in OFS(v, i):
        g = f.copy()
        if cond is not None and not g.assume(cond, True):
            continue
        c.ob(rule, same_val(g, got, w), where, "%s: offset %s" % (what, show(norm_bits(g, got))[:100]), path)


def c13(c):
    c.rule("v2-read", "id, crc and 32/64-bit offset of entry i are read from the places the version 2 layout defines; the number of objects is the last fanout entry")
    c.rule("v1-read", "id and offset of entry i are read from the places the version 1 layout defines; its crc is 0")
    c.rule("checksums", "the pack and index checksums are the last 40-20 and 20 bytes")
    c.rule("offsets", "offsets() yields the offset of each entry, in index order")
    c.rule("version", "other versions than 1 and 2 are refused")
    c.rule("write", "the index written is signature, version 2, cumulative counts per first byte, ids in ascending order, and the crcs and offsets of the ids in the same order, "
           "with offsets of 2^31 and above in the 64-bit table, pack checksum, and the checksum of all bytes before it, which is also returned")
    M = window(IDX)

    def read(c):
        I = c.I
        i = sym("i", "int")
        for v, s0, o in versions(c, I.fresh_state(), M):
            s0.facts.assume(c_le0(scale(i, -1)), True)
            rule = "v%d-read" % v
            where = "gitdb/pack.py PackIndexFile"

            def run(name, args):
                out = []
                for s1, f in attr(c, s0.fork(), o, name):
                    for k, s2, x in c.run("%s v%d" % (name, v), f, args, s1, models=M):
                        if k == "ret":
                            out.append((s2, x))
                        else:
                            c.ob(rule, False, where + "." + name, "fails for a version %d index" % v, s2.events())
                if not out:
                    c.ob(rule, False, where + "." + name, "never succeeds for a version %d index" % v)
                return out
            for s, x in run("size", []):
                c.ob(rule, same_val(s.facts, x, count(v)), where + ".size", "size is %s" % show(x)[:60], s.events())
            for s, x in run("version", []):
                c.ob(rule, same_val(s.facts, x, const(v)), where + ".version", "version is %s" % show(x)[:60], s.events())
            for s, x in run("sha", [i]):
                c.ob(rule, same_val(s.facts, x, SHA(v, i)), where + ".sha", "id is %s" % show(x)[:60], s.events())
            for s, x in run("crc", [i]):
                c.ob(rule, same_val(s.facts, x, CRC(v, i)), where + ".crc", "crc is %s" % show(x)[:60], s.events())
            for s, x in run("offset", [i]):
                check_ofs(c, rule, s.facts, x, v, i, where + ".offset", "entry i", s.events())
            for s, x in run("entry", [i]):
                a = x.args if x.op in ("tuple", "seq") else ()
                if len(a) != 3:
                    c.ob(rule, None, where + ".entry", "result %s" % show(x)[:60])
                    continue
                check_ofs(c, rule, s.facts, a[0], v, i, where + ".entry", "entry i", s.events())
                c.ob(rule, same_val(s.facts, a[1], SHA(v, i)), where + ".entry", "id is %s" % show(a[1])[:60], s.events())
                c.ob(rule, same_val(s.facts, a[2], CRC(v, i)), where + ".entry", "crc is %s" % show(a[2])[:60], s.events())
            for nm, lo, hi in (("packfile_checksum", -40, -20), ("indexfile_checksum", -20, None)):
                for s, x in run(nm, []):
                    w = slice_(IDX, const(lo), const(hi) if hi else NONE)
                    n = length(IDX)
                    alt = slice_(IDX, lin_add(n, const(lo)), lin_add(n, const(hi or 0)))
                    c.ob("checksums", True if x is w or x is alt or x is slice_(IDX, lin_add(n, const(lo)), NONE) and not hi else (None if unknown(x) else False), where + "." + nm, "is %s" % show(x)[:60], s.events())
            for s, x in run("offsets", []):
                x = I.val(x, s) if x.op != "ref" else s.get(x.args[0]).p or x
                e = elem(c, s, x, i)
                if e is None:
                    c.ob("offsets", None, where + ".offsets", "elements of %s" % show(x)[:80])
                    continue
                n, g, y = e
                c.ob("offsets", same_val(g, n, count(v)), where + ".offsets", "%s elements" % show(n)[:60], s.events())
                if y.op == "cases":
                    # alternatives of the accessor itself, whose conditions are checked above
                    want = {norm_all(w) for _, w in OFS(v, i)}
                    got = {norm_all(z) for z in y.args}
                    by = any(isinstance(u, Term) and u.op == "sorted" for z in y.args for u in subterms(z))
                    c.ob("offsets", True if got == want else False if by else None, where + ".offsets", "elements %s" % show(y)[:80], s.events())
                    continue
                if any(isinstance(u, Term) and u.op == "sorted" and u.args[0].op == "arr" for u in subterms(y)):
                    c.ob("offsets", False, where + ".offsets", "element i is taken from the sorted table: %s" % show(y)[:80], s.events())
                    continue
                check_ofs(c, "offsets", g, y, v, i, where + ".offsets", "element i", s.events())

    def norm_all(t):
        m = {}
        for u in subterms(t):
            if isinstance(u, Term) and u.op == "bits" and u.args[1] == 31:
                m[u] = const(1)
            elif isinstance(u, Term) and u.op == "bits" and u.args[1:] == (0, 31):
                m[u] = lin_add(u.args[0], const(1 << 31), -1)
        return subst(t, m) if m else t

    def elem(c, s, x, i):
        """(number of elements, facts, element i)"""
        I = c.I
        f = s.facts.copy()
        for k, val in s.facts.c.items():
            if k.op == "any_" and not val and k.args[0].op == "map":
                m = k.args[0]
                b = subst(m.args[1], {m.args[4]: i, m.args[3]: I.elem_at(m.args[0], i)})
                f.assume(c_eq0(b), True)
        if x.op == "arr":
            w, order, d = x.args[:3]
            if order != "big" or d.op != "slice":
                return None if d.op != "slice" else (length(d), f, T("res", "swapped", (d,), "int"))
            n = lin_add(d.args[2], d.args[1], -1)
            c0, dd = lin_parts(n)
            if c0 % w or any(k % w for k in dd.values()):
                return None
            n = mk_lin(c0 // w, {a: k // w for a, k in dd.items()})
            return n, f, be(w, d.args[0], lin_add(d.args[1], scale(i, w)))
        if x.op == "map" and x.args[2] is TRUE or x.op == "map" and x.args[2] is const(True):
            n = I.iter_len(x.args[0])
            if n is None:
                return None
            return n, f, subst(x.args[1], {x.args[4]: i, x.args[3]: I.elem_at(x.args[0], i)})
        if x.op == "sorted":
            e = elem(c, s, x.args[0], i)
            return e and (e[0], e[1], T("res", "elementof", (x, i), "int"))
        return None

    def refuse(c):
        st = c.I.fresh_state()
        s = st.fork()
        s.facts.assume(c_eq(slice_(IDX, ZERO, const(4)), const(b"\xfftOc")), True)
        s.facts.assume(c_eq0(lin_add(be(4, IDX, const(4)), const(2), -1)), False)
        s, o = one(c, "gitdb.pack.PackIndexFile", [sym("path", "str")], s, models=M)
        for k, s2, v in c.run("version of an index of another version", c.method(o, s, "version"), [], s, models=M):
            c.ob("version", k == "exc", "gitdb/pack.py PackIndexFile", "an index of another version is %s" % ("refused" if k == "exc" else "read"), s2.events())

    def write(c):
        cases = [(), (0,), (1,), (2,), (0x7f,), (0x80,), (0xfe,), (0xff,), (0, 255), (255, 0), (5, 9), (9, 5), (7, 7), (3, 3, 200), (255, 255, 0), (5, 1, 3), (0, 0)]
        if c.thorough:
            cases += [(b,) for b in range(256)] + [(a, b) for a in (0, 1, 127, 128, 254, 255) for b in (0, 1, 127, 128, 254, 255)] + [(4, 4, 4), (0, 0, 0), (255, 255, 255), (2, 1, 2)]
        for bs in cases:
            write_case(c, bs)
        # more objects, and more 64-bit offsets, than fit into a byte: ids and the size of the offsets are given
        for n in (280,):
            write_case(c, tuple(j * 256 // n for j in range(n)), many=True)
    return [("read", read), ("refuse", refuse), ("write", write)]


def write_case(c, bs, many=False):
    from ..extmodels import be_bytes
    name = "%d objects" % len(bs) if many else "%s" % (bs,)
    I = c.I
    where = "gitdb/pack.py IndexWriter.write"
    st = I.fresh_state()
    s, o = one(c, "gitdb.pack.IndexWriter", [], st)
    items = []
    for j, b in enumerate(bs):
        t = const(j.to_bytes(19, "big")) if many else sym("sha%d" % j, "bytes")
        s.facts.assume(c_eq0(lin_add(length(t), const(19), -1)), True)
        crc, ofs = sym("crc%d" % j, "int", (1 << 32) - 1), sym("ofs%d" % j, "int", (1 << 63) - 1)
        if many:
            # every offset but a few is a large one
            crc, ofs = const(j * 0x00010203), const((1 << 30) + j if j % 37 == 5 else (1 << 33) + j * 0x1000001)
        s.facts.assume(c_le0(scale(ofs, -1)), True)
        s.facts.assume(c_le0(scale(crc, -1)), True)
        s.facts.assume(c_le0(lin_add(crc, const((1 << 32) - 1), -1)), True)
        sha = concat(const(bytes([b])), t)
        items.append((sha, crc, ofs))
        r = [x for x in c.run("IndexWriter.append", c.method(o, s, "append"), [sha, crc, ofs], s) if x[0] == "ret"]
        if len(r) != 1:
            raise Anchor("IndexWriter.append")
        s = r[0][1]
    s.trace = None
    g = ghost(s)
    sink = opaque(s, "sink")
    psha = sym("packsha", "bytes")
    s.facts.assume(c_eq0(lin_add(length(psha), const(20), -1)), True)

    def w(I, st, args, kw, fr, X, n):
        ghost_add(st, g, I.val(args[-1], st))
        return [(st, NONE)]
    n = 0
    for k, s2, v in c.run("IndexWriter.write(%s)" % name, c.method(o, s, "write"), [psha, T("attr", sink, "write")], s, models={".write": w}, **({"max_states": 400000} if many else {})):
        if k != "ret":
            c.ob("write", False, where, "fails for first bytes %s" % name, s2.events())
            continue
        n += 1
        got = s2.get(g.args[0]).p
        # decide the order and the size of each offset
        todo = [s2.facts]
        for a in range(len(items)):
            nx = []
            for f in todo:
                for val in (True, False):
                    h = f.copy()
                    if h.assume(c_le0(lin_add(items[a][2], const(0x7fffffff), -1)), val):
                        nx.append(h)
            todo = nx
        for a in range(len(items)):
            for b in range(a):
                cond = c_lt(items[a][0], items[b][0])
                if all(f.ask(cond) is not None for f in todo):
                    continue
                nx = []
                for f in todo:
                    for val in (True, False):
                        h = f.copy()
                        if h.assume(c_lt(items[a][0], items[b][0]), val):
                            nx.append(h)
                todo = nx
        for f in todo:
            order = []
            for a in range(len(items)):
                p = len(order)
                while p and f.ask(c_lt(items[a][0], items[order[p - 1]][0])) is True:
                    p -= 1
                order.insert(p, a)
            it = [items[a] for a in order]
            fan = [sum(1 for b in bs if b <= j) for j in range(256)]
            big = [x for x in it if f.ask(c_le0(lin_add(x[2], const(0x7fffffff), -1))) is False]
            ps = [const(b"\xfftOc\0\0\0\2")] + [const(x.to_bytes(4, "big")) for x in fan] + [x[0] for x in it] + [be_bytes(4, x[1]) for x in it]
            ps += [const((0x80000000 + big.index(x)).to_bytes(4, "big")) if x in big else be_bytes(4, x[2]) for x in it]
            ps += [be_bytes(8, x[2]) for x in big] + [psha]
            body = concat(const(b""), *ps)
            gt = norm_bits(f, got)
            gp = parts(gt)
            sha = gp[-1] if gp else None
            rest = concat(const(b""), *gp[:-1])
            c.ob("write", True if rest is body else (None if unknown(rest) else False), where, "%d objects with first bytes %s%s" % (len(bs), name, ", 64-bit offsets" if big else ""), s2.events())
            ok = sha is not None and sha.op == "sha1" and norm_bits(f, sha.args[0]) is rest
            c.ob("write", True if ok else (None if sha is not None and unknown(sha) else False), where, "checksum of the index", s2.events())
            c.ob("write", True if v is not None and norm_bits(f, v) is sha else (None if unknown(v) else False), where, "returned checksum", s2.events())
    c.ob("write", True if n else False, where, "%d successful paths for first bytes %s" % (n, name))


# ------------------------------------------------------------------ C14, C15: lookup

def rel(f, a, b):
    """possible orders of two strings: a subset of "<=>" """
    out = ""
    if f.ask(c_lt(a, b)) is not False:
        out += "<"
    if f.ask(c_eq(a, b)) is not False:
        out += "="
    if f.ask(c_lt(b, a)) is not False:
        out += ">"
    if f.ask(c_lt(a, b)) is True:
        return "<"
    if f.ask(c_eq(a, b)) is True:
        return "="
    if f.ask(c_lt(b, a)) is True:
        return ">"
    return out


def probes(v, f, target):
    """entries which were compared with the target on a path: {index term: order}"""
    out = {}
    for k in [x for p in f.ordr for x in p] + list(f.c):
        for u in subterms(k):
            if isinstance(u, Term) and u.op == "slice" and u.args[0] is IDX and u.args[1] is not NONE and u.args[2] is not NONE \
                    and lin_add(u.args[2], u.args[1], -1) is const(20):
                stride, base = (20, 1032) if v == 2 else (24, 1028)
                c0, dd = lin_parts(lin_add(u.args[1], const(base), -1))
                if c0 % stride == 0 and all(x % stride == 0 for x in dd.values()):
                    out[mk_lin(c0 // stride, {a: x // stride for a, x in dd.items()})] = rel(f, target, u)
    return out


def bisection(c, rule, v, b, path, s, target, where):
    """bounds (LB, UB) of the bisection loop on a path at its exit, or at entry if there was none; checks the narrowing of each iteration.
    Entries below LB are smaller than the target, entries from UB on are greater."""
    base = fan_base(v)
    lo0 = be(4, IDX, const(base + 4 * (b - 1))) if b else ZERO
    hi0 = be(4, IDX, const(base + 4 * b))
    ls = [e for e in path if e.kind == "loop"]
    if len(ls) != 1:
        return None
    info = ls[0].out
    LB = UB = None
    for l, (m, iv) in info.mus.items():
        if m.op != "mu" or iv is None or ty(m) != "int":
            continue
        changes = any(bv.get(l) is not m for _, _, bv in info.backs)
        a, z = lin_add(lo0, iv, -1), lin_add(hi0, iv, -1)
        up = any(bv.get(l) is not None and bv.get(l) is not m and s2.facts.ask(c_le0(lin_add(m, bv[l], -1))) is True for _, s2, bv in info.backs)
        if is_const(z) and changes and not up:
            UB = (l, m, cval(z))
        elif is_const(a) and changes:
            LB = (l, m, cval(a))
    if LB is None or UB is None:
        # an offending entry value is a defect if both bounds are plain numbers of the fanout table
        ms = [(l, m, iv) for l, (m, iv) in info.mus.items() if m.op == "mu" and iv is not None and ty(m) == "int" and any(bv.get(l) is not m for _, _, bv in info.backs)]
        if len(ms) == 2 and all(not unknown(iv) for _, _, iv in ms) and (LB is None) != (UB is None):
            known = (LB or UB)[0]
            other = [iv for l, m, iv in ms if l != known][0]
            d = lin_add(hi0 if LB else lo0, other, -1)
            c.ob(rule, False, where, "the search for first byte %d begins with the bound %s" % (b, show(other)[:60]), path)
        return None
    # exclusive lower bound / inclusive upper bound conventions
    for nm, (l, m, d) in (("lower", LB), ("upper", UB)):
        if d not in ((0, 1) if True else ()):
            c.ob(rule, False, where, "the search for first byte %d begins with the %s bound off by %d" % (b, nm, -d), path)
            return None
    weak = False
    lb = lambda x: lin_add(x, const(LB[2]))
    ub = lambda x: lin_add(x, const(UB[2]))
    for evs, s2, bv in info.backs:
        f = s2.facts
        pr = probes(v, f, target)
        nl, nh = bv.get(LB[0]), bv.get(UB[0])
        if nl is None or nh is None:
            c.ob(rule, None, where, "bounds of an iteration")
            continue
        evs = list(evs)
        if nh is not UB[1]:
            ok = any(r == "<" and f.ask(c_le0(lin_add(m, ub(nh), -1))) is True for m, r in pr.items())
            if not ok and any(r == "<=" and f.ask(c_le0(lin_add(m, ub(nh), -1))) is True for m, r in pr.items()):
                # the search for the first entry which is not smaller
                ok = weak = True
            c.ob(rule, True if ok else (None if not pr or unknown2(nh) else False), where, "the upper bound only excludes entries from a greater one on (it becomes %s)" % show(nh)[:60], evs)
        if nl is not LB[1]:
            ok = any(r == ">" and f.ask(c_le0(lin_add(lin_add(lb(nl), m, -1), const(1), -1))) is True for m, r in pr.items())
            c.ob(rule, True if ok else (None if not pr or unknown2(nl) else False), where, "the lower bound only excludes entries up to a smaller one (it becomes %s)" % show(nl)[:60], evs)
        # progress
        d = lin_add(lin_add(nh, nl, -1), lin_add(UB[1], LB[1], -1), -1)
        r = True if is_const(d) and cval(d) < 0 else False if d is ZERO else f.ask(c_le0(lin_add(d, const(1))))
        if r is None:
            # a range of a single entry that is not narrowed is searched for ever
            one_ = {LB[1]: const(1 - LB[2]), UB[1]: const(2 - UB[2])}
            g = f.copy()
            if all(g.assume(c_eq0(lin_add(x, y, -1)), True) for x, y in one_.items()):
                d1 = subst(d, one_)
                if is_const(d1) and cval(d1) >= 0:
                    r = False
        c.ob("progress", r, where, "each iteration narrows the range", evs)
    return lb(LB[1]), ub(UB[1]), weak


def strange(path):
    """a search by other means than a loop comparing entries"""
    return any(e.kind == "loop" and e.out.src is not None or e.kind == "call" and e.label != "match?" for e in flat(path))


def unknown2(t):
    from ..core import unknown as u
    return u(t)


def lookup_runs(c, name, firsts, tail):
    """runs of a lookup method for ids beginning with a byte: [(version, byte, target, outcomes)]"""
    M = window(IDX)
    for v, s0, o in versions(c, c.I.fresh_state(), M):
        f = None
        for b in firsts:
            s = s0.fork()
            sha = concat(const(bytes([b])), *[T("bytes1", sym("digit%d" % i, "int", 255)) for i in range(1, tail)])
            yield v, b, sha, o, s, M


def firsts(c):
    return range(256) if c.thorough else (0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff)


def c14(c):
    c.rule("found", "an entry number returned is that of an entry whose id equals the one asked for")
    c.rule("complete", "None is only returned when no entry is left: the search begins with the fanout range of the first byte, and an iteration only excludes "
           "entries beyond one which compares greater or smaller")
    c.rule("progress", "each iteration excludes an entry")
    where = "gitdb/pack.py PackIndexFile.sha_to_index"

    def part(c):
        for v, b, sha, o, s, M in lookup_runs(c, "sha_to_index", firsts(c), 20):
            n = 0
            for k, s2, x in c.run("sha_to_index(first byte %d) v%d" % (b, v), c.method(o, s, "sha_to_index"), [sha], s, models=M):
                path = s2.events()
                f = s2.facts
                if k != "ret":
                    c.ob("found", False, where, "fails with %s" % c.excname(s2, x), path)
                    continue
                bounds = bisection(c, "complete", v, b, path, s2, sha, where)
                if x is not NONE:
                    r = rel(f, sha, SHA(v, x))
                    n += r == "="
                    c.ob("found", True if r == "=" else (None if unknown2(x) else False), where, "returns entry %s, whose id is %s the one asked for" % (show(x)[:60], r), path)
                    continue
                if bounds is None:
                    base = fan_base(v)
                    lo0 = be(4, IDX, const(base + 4 * (b - 1))) if b else ZERO
                    bounds = lo0, be(4, IDX, const(base + 4 * b)), False
                    if any(e.kind == "loop" and e.out.backs for e in path):
                        c.ob("complete", None, where, "search loop not recognised")
                        continue
                r = f.ask(c_le0(lin_add(bounds[1], bounds[0], -1)))
                if r is True and bounds[2]:
                    hi0 = be(4, IDX, const(fan_base(v) + 4 * b))
                    r = "=" not in rel(f, sha, SHA(v, bounds[0])) or f.ask(c_le0(lin_add(hi0, bounds[0], -1)))
                c.ob("complete", True if r is True else (None if strange(path) else False), where, "None is returned only when the range is empty", path)
            c.ob("found", True if n else None, where, "v%d, first byte %d: %d paths find an entry" % (v, b, n))
    return [("lookup", part)]


def c15(c):
    c.rule("match", "a short id matches an id iff all its complete bytes agree, and the upper half of its last byte if it has an odd number of digits")
    c.rule("found", "an entry number returned is that of an entry which matches, while the entry behind it does not match or does not exist")
    c.rule("lowest", "it is the first entry which is not smaller than the short id filled up with zeros")
    c.rule("ambiguous", "AmbiguousObjectName is raised if and only if two adjacent entries match")
    c.rule("complete", "None is only returned if the first entry which is not smaller doesn't match or doesn't exist")
    c.rule("short", "less than two bytes are refused with a ValueError")
    c.rule("progress", "each iteration of the search excludes an entry")
    where = "gitdb/pack.py PackIndexFile.partial_sha_to_index"

    def match(c):
        f0 = c.anchor("gitdb.fun.is_equal_canonical_sha")
        w = "gitdb/fun.py is_equal_canonical_sha"
        for n in (range(4, 41) if c.thorough else (4, 5, 6, 7, 12, 13, 39, 40)):
            st = c.I.fresh_state()
            p, q = sym("short", "bytes"), sym("id", "bytes")
            h = n // 2
            st.facts.assume(c_eq0(lin_add(length(p), const(h + n % 2), -1)), True)
            st.facts.assume(c_eq0(lin_add(length(q), const(20), -1)), True)
            np = 0
            for k, s, x in c.run("is_equal_canonical_sha(%d digits)" % n, f0, [const(n), p, q], st):
                if k != "ret":
                    c.ob("match", False, w, "fails for %d digits" % n, s.events())
                    continue
                for val in (True, False):
                    g = s.facts.copy()
                    if not g.assume(c.I.as_cond(x, s), val):
                        continue
                    np += 1
                    pre = g.ask(c_eq(slice_(p, ZERO, const(h)), slice_(q, ZERO, const(h))))
                    if pre is None:
                        pre = g.ask(T("prefix", slice_(p, ZERO, const(h)), q))
                    if pre is True and any(nibble(g, index(p, const(j)), index(q, const(j))) is False for j in range(h)):
                        # bytes of equal strings don't differ
                        continue
                    nib = True
                    if n % 2:
                        a, b = index(p, const(h)), index(q, const(h))
                        nib = nibble(g, a, b)
                    if val:
                        r = True if pre is True and nib is True else (None if (pre is None or nib is None) and opaque_facts(g) else False)
                        c.ob("match", r, w, "%d digits: accepted if all digits agree (complete bytes: %s, last half: %s)" % (n, pre, nib), s.events())
                    else:
                        r = True if pre is False or nib is False else (None if opaque_facts(g) else False)
                        c.ob("match", r, w, "%d digits: refused if a digit differs (complete bytes: %s, last half: %s)" % (n, pre, nib), s.events())
            c.ob("match", True if np >= 2 else None, w, "%d digits: %d outcomes" % (n, np))

    def opaque_facts(g):
        return any(unknown2(k) for k in g.c)

    def nibble(g, a, b):
        """do the upper halves of two bytes agree?"""
        d = lin_add(bits(a, 4, 4), bits(b, 4, 4), -1)
        r = g.ask(c_eq0(d))
        if r is not None:
            return r
        for key, val in [(lin_add(k, const(lo), -1), True) for k, (lo, hi) in g.b.items() if lo is not None and lo == hi] + [(lin_add(k, const(v), -1), False) for k, v in g.ne]:
            x = plain(g, key)
            if any(x is scale(d, m) for m in (1, -1, 16, -16)):
                return val
        for k, val in list(g.c.items()) + [(c_eq0(key), lo == hi == 0) for key, (lo, hi) in g.b.items() if lo == hi == 0] \
                + [(T("eq0", key), False) for key, v in g.ne if v == 0]:
            if k.op == "eq0" and xor_nibble(plain(g, k.args[0]), a, b):
                return val
        return None

    def plain(g, t):
        """indices relative to the end of a string of known length"""
        m = {}
        for u in subterms(t):
            if isinstance(u, Term) and u.op == "idx":
                i = u.args[1]
                if is_const(i) and cval(i) < 0:
                    i = lin_add(length(u.args[0]), i)
                if not is_const(i):
                    lo, hi = g.sum_bounds(i)
                    if lo is not None and lo == hi:
                        i = const(lo)
                if i is not u.args[1]:
                    m[u] = index(u.args[0], i)
        return subst(t, m) if m else t

    def xor_nibble(t, a, b):
        # (a ^ b) & 0xf0, or its quotient
        while t.op in ("bits", "band", "scale", "shr") or t.op == "lin":
            if t.op == "lin":
                c0, dd = lin_parts(t)
                if c0 or len(dd) != 1:
                    return False
                t = list(dd)[0]
                continue
            if t.op == "bits" and not (t.args[1] == 4 and t.args[2] >= 4):
                return False
            if t.op == "band" and const(0xf0) not in t.args:
                return False
            t = [x for x in t.args if isinstance(x, Term) and not is_const(x)][0]
        return t.op in ("bxor", "xor") and set(t.args) >= {a, b}

    def search(c):
        for n in (4, 5, 8, 13, 39, 40):
            nb = (n + 1) // 2
            for v, b, part, o, s, M in lookup_runs(c, "partial_sha_to_index", (firsts(c) if n == 13 else (0, 1, 0xff)), nb):
                filled = concat(part, const(b"\0" * (20 - nb)))

                def eqm(I, st, args, kw, fr, X, nn):
                    st.emit(Ev("call", "match?", tuple(args), kw, NONE, I.loc(nn, fr), "ok", fr.stack))
                    return [(st, T("matches", args[0], args[1], I.val(args[2], st)))]
                from ..interp import Ev
                M2 = dict(M)
                M2["gitdb.fun.is_equal_canonical_sha"] = eqm
                size = count(v)
                s.facts.assume(c_le0(lin_add(be(4, IDX, const(fan_base(v) + 4 * b)), size, -1)), True)

                def matches(f, i):
                    t = T("matches", const(n), part, SHA(v, i))
                    return f.ask(c.I.as_cond(t, s))

                def inside(f, i):
                    return f.ask(c_le0(lin_add(lin_add(i, const(1)), size, -1)))
                seen = set()
                for k, s2, x in c.run("partial_sha_to_index(%d digits, first byte %d) v%d" % (n, b, v), c.method(o, s, "partial_sha_to_index"), [part, const(n)], s, models=M2):
                    path = s2.events()
                    f = s2.facts
                    amb = k == "exc" and c.is_exc(s2, x, "gitdb.exc.AmbiguousObjectName")
                    if k == "exc" and not amb:
                        c.ob("found", False, where, "fails with %s" % c.excname(s2, x), path)
                        continue
                    bounds = bisection(c, "complete", v, b, path, s2, filled, where)
                    if bounds is None:
                        if any(e.kind == "loop" and e.out.backs for e in path):
                            c.ob("complete", None, where, "search loop not recognised")
                            continue
                        lo0 = be(4, IDX, const(fan_base(v) + 4 * (b - 1))) if b else ZERO
                        bounds = lo0, be(4, IDX, const(fan_base(v) + 4 * b)), False
                    # the first entry which is not smaller
                    pr = probes(v, f, filled)
                    L = [m for m, r in pr.items() if r == "="]
                    if f.ask(c_le0(lin_add(bounds[1], bounds[0], -1))) is True:
                        L.append(bounds[0])
                    if not L:
                        c.ob("lowest", None if strange(path) else False, where, "the search ends before the range is empty", path)
                        continue
                    if k == "ret" and x is not NONE:
                        seen.add("found")
                        r = matches(f, x)
                        c.ob("found", r if r is not None else False, where, "entry %s matches: %s" % (show(x)[:60], r), path)
                        m2, in2 = matches(f, lin_add(x, const(1))), inside(f, lin_add(x, const(1)))
                        c.ob("ambiguous", True if m2 is False or in2 is False else False, where, "the entry behind the returned one matches: %s, exists: %s" % (m2, in2), path)
                        low = any(x is l or f.ask(c_eq0(lin_add(x, l, -1))) is True for l in L)
                        c.ob("lowest", True if low else (None if unknown2(x) else False), where, "returns %s, the search ended at %s" % (show(x)[:60], " ".join(show(l)[:60] for l in L)), path)
                    elif amb:
                        seen.add("ambiguous")
                        ok = any(matches(f, l) is True and matches(f, lin_add(l, const(1))) is True for l in L)
                        c.ob("ambiguous", ok, where, "both adjacent entries match", path)
                    else:
                        seen.add("none")
                        ok = any(matches(f, l) is False or inside(f, l) is False for l in L)
                        c.ob("complete", ok, where, "the first entry which is not smaller doesn't match or doesn't exist", path)
                c.ob("ambiguous", True if len(seen) == 3 else (False if "ambiguous" not in seen and "found" in seen else None), where, "v%d, %d digits, first byte %d: outcomes %s" % (v, n, b, " ".join(sorted(seen))))

    def short(c):
        M = window(IDX)
        for v, s, o in versions(c, c.I.fresh_state(), M):
            for nb in (0, 1):
                p = sym("short", "bytes")
                s2 = s.fork()
                s2.facts.assume(c_eq0(lin_add(length(p), const(nb), -1)), True)
                for k, s3, x in c.run("partial_sha_to_index(%d bytes)" % nb, c.method(o, s2, "partial_sha_to_index"), [p, const(2 * nb)], s2, models=M):
                    c.ob("short", k == "exc" and c.is_exc(s3, x, "ValueError") is True, where, "%d bytes" % nb, s3.events())
    return [("match", match), ("search", search), ("short", short)]
