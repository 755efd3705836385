"""C28: objects of any size are processed piece by piece, in bounded memory."""
from .common import *
from ..core import loops_of, flat, int_le
from ..facts import decide
from .store import store_scenario, mk_writer, raises_all
from . import zstream, packwrite, entity, packs
from .effects import Quiet
from .zstream import eq, le, Stream, R, HEADS

LIMIT = const(1 << 26)
EATERS = {"sha.update": 1, "compress.compress": 1, "file.write": 1, "os.write": 1, "pack.write": 0, ".write": 1, "sink.write": 0, "BytesIO.write": 1}


def subterms(t):
    todo = [t]
    while todo:
        t = todo.pop()
        yield t
        todo += [x for x in t.args if isinstance(x, Term)]


def grows(v, mu):
    """is v what mu was, and something more?"""
    if v is None:
        return False
    if v.op == "append":
        return v.args[0] is mu or grows(v.args[0], mu)
    return v.op == "concat" and mu in v.args and len(v.args) > 2


def bounded(t, facts, loops, seen=()):
    """is the length of a byte string bounded, whatever the size of the object?  True/False/None"""
    if t in seen:
        return True
    if t.op == "const":
        return True
    if facts is not None and facts.ask(c_le0(lin_add(length(t), LIMIT, -1))) is True:
        return True
    if t.op == "sym" and str(t.args[0]).startswith("type"):
        return True
    if t.op in ("encode", "decode", "str"):
        return bounded(t.args[0], facts, loops, seen)
    if t.op in ("slice", "as", "tobytes", "bytes", "buf", "memoryview") and t.args:
        i = [x for x in t.args if isinstance(x, Term)]
        if t.op == "slice":
            i = i[:1]
        r = bounded(i[-1] if t.op != "slice" else i[0], facts, loops, seen)
        if r is True or t.op != "slice":
            return r
        return None if unknown(t) else False
    if t.op == "concat":
        rs = [bounded(x, facts, loops, seen) for x in t.args[1:] if isinstance(x, Term)]
        return False if False in rs else None if None in rs else True
    if t.op == "joinseq":
        s = t.args[-1]
        while s.op == "append":
            s = s.args[0]
        if s.op == "mu" and s in loops:
            info, loc, iv = loops[s]
            return False if info.backs and all(grows(bv.get(loc), s) for evs, st, bv in info.backs) else None
        return None
    if t.op == "mu":
        if t not in loops:
            return None
        info, loc, iv = loops[t]
        if info.backs and all(grows(bv.get(loc), t) for evs, s, bv in info.backs):
            return False
        rs = [bounded(iv, facts, loops, seen) if iv is not None else None]
        for evs, s, bv in info.backs:
            v = bv.get(loc)
            rs.append(bounded(v, s.facts, loops, seen + (t,)) if v is not None else None)
        return False if False in rs else None if None in rs else True
    if t.op == "res":
        lbl = str(t.args[0])
        if lbl in ("deflated", "entryheader", "inflated", "indexbytes"):
            return True         # what one call to zlib gives for a bounded input or maximum; these are decided at the call
        if lbl in ("data", "read"):
            return False        # as long as the source likes: no limit is implied
    if t.op in ("pack", "sha1", "hexstr", "b2a", "a2b", "dec"):
        return True
    return None if unknown(t) else None


def pieces(c, path, facts, what, request, piece):
    loops = loops_of(path)

    def go(evs, facts):
        for e in evs:
            if e.kind == "loop":
                for b in e.out.backs:
                    go(b[0], b[1].facts)
                continue
            if e.kind != "call":
                continue
            if e.label in (".read", "src.read") and e.res is not None and e.res.op == "res" and e.res.args[0] == "data":
                num = [a for a in e.args[1:] if ty(a) == "int" or a.op in ("lin", "min", "max")]
                if not num:
                    c.ob(request, False if len(e.args) < 2 and not e.kw else None, e, "%s: everything is asked for at once" % what, path)
                    continue
                r = int_le(num[-1], LIMIT, facts, loops)
                if r is not True and num[-1].op == "min" and any(int_le(x, LIMIT, facts, loops) is True for x in num[-1].args if isinstance(x, Term)):
                    r = True
                if r is None and is_const(num[-1]):
                    r = False
                if r is True and is_const(num[-1]) and cval(num[-1]) < 0:
                    r = False
                c.ob(request, False if r is None and not unknown(num[-1]) else r, e, "%s: asks for at most %s" % (what, show(num[-1])), path)
            elif e.label in EATERS and len(e.args) > EATERS[e.label]:
                d = e.args[EATERS[e.label]]
                c.ob(piece, bounded(d, facts, loops), e, "%s: %s is given %s" % (what, e.label, show(d)[:80]), path)
    go(path, facts)


def c28(c):
    c.rule("requests", "sources are asked for pieces of limited size only")
    c.rule("pieces", "what is hashed, compressed or written at once is a piece of limited size")
    c.rule("window", "reading n bytes from a compressed map hands at most n bytes (and a fixed amount), or what is left of what zlib was given before, to zlib at once, and asks zlib for no more than that")
    c.rule("lazy", "getting the stream of an object decompresses nothing but its header")
    I = c.I

    def done(c, outs, what):
        n = 0
        for k, s, v in outs:
            if k == "ret":
                n += 1
                pieces(c, s.events(), s.facts, what, "requests", "pieces")
        c.ob("requests", True if n else None, what, "%d paths" % n)

    def store(c):
        for raw in (False, True):
            x = store_scenario(c, "store(%s)" % ("raw" if raw else "content"), raw=raw, raises=raises_all, short=True)
            done(c, x.outs, "LooseObjectDB.store")
        for nm in ("Sha1Writer", "FlexibleSha1Writer", "ZippedStoreShaWriter"):
            x = store_scenario(c, "store(%s)" % nm, ostream=mk_writer(nm))
            done(c, x.outs, "LooseObjectDB.store(%s)" % nm)

    def copy(c):
        st = I.fresh_state()
        g = ghost(st)
        size, chunk = sym("size", "int"), sym("chunk", "int")
        st.facts.assume(le(const(1), chunk))
        st.facts.assume(le(chunk, LIMIT))
        st.facts.assume(le(ZERO, size))
        src, dst = opaque(st, "source"), opaque(st, "sink")
        for fn, args in (("stream_copy", []), ("write_object", [sym("type", "bytes")])):
            a = [size] if args else []
            rdr, wr = T("bound", ext("src.read"), src), T("bound", ext("sink.write"), dst)

            def w(I, st, args, kw, fr, X, n):
                d = I.val(args[-1], st)
                st.emit(Ev_("sink.write", (d,), I.loc(n, fr), fr))
                return [(st, length(d))]
            al = args + a + [rdr, wr, chunk] if args else [rdr, wr, size, chunk]
            outs = c.run(fn, c.anchor("gitdb.fun." + fn), al, st.fork(), models={"src.read": reader(g), "sink.write": w})
            done(c, outs, fn)

    def writing(c):
        for kind, count in (("list", None), ("iter", 2)):
            x = packwrite.Write(c, 2, kind, count, True)
            done(c, x.outs, "PackEntity.write_pack")

    def valid(c):
        e = entity.Entries(c, bases=(3,))
        sha = sym("sha", "bytes")
        st = e.st.fork()
        g = ghost(st)

        def read(I, st, args, kw, fr, X, n):
            f = st.get(args[0].args[0]).f if args[0].op == "ref" else {}
            if "#at" in f and not f.get("#part"):
                return reader(g)(I, st, args, kw, fr, X, n)
            return e.M[".read"](I, st, args, kw, fr, X, n)
        M = dict(e.M, **{".read": read})
        o = e.ofs(e.number(sha))
        st.facts.assume(eq(e.typ(o), const(3)))
        done(c, c.run("is_valid_stream(sha)", c.method(e.ent, st, "is_valid_stream"), [sha], st, models=M, unroll={"gitdb.pack.PackFile.collect_streams": 4, "gitdb.pack.PackEntity.collect_streams_at_offset": 4}), "PackEntity.is_valid_stream")

    class Watched(Stream):
        """checks what is given to and wanted from zlib"""
        n, what = None, "read(n)"

        def contract(self, I, st, args, kw, fr, X, n):
            o = args[0]
            size = args[1] if len(args) > 1 else kw.get("size", const(-1))
            for s, declared in I.getattr(o, "_s", st.fork(), fr, X, n):
                br = self.state(s, o)[0]["_br"]
                for s1, want in self.clip(s, size, lin_add(declared, br, -1)):
                    r = decide(s1.facts, le(want, lin_add(self.n, const(1 << 20))))
                    c.ob("window", False if r is None and not unknown(want) else r, I.loc(n, fr), "%s asks itself for at most %s bytes" % (self.what, show(want)), s1.events())
            return Stream.contract(self, I, st, args, kw, fr, X, n)

        def decompress(self, I, st, args, kw, fr, X, n):
            data = zstream.merge(I.val(args[1], st), st.facts)
            mx = args[2] if len(args) > 2 else kw.get("max_length", ZERO)
            f = st.facts
            top = lin_add(self.n, const(1 << 20))
            r = decide(f, le(length(data), top))
            if r is not True and decide(f, le(length(data), sym("window", "int"))) is True:
                r = True        # what it was given before already
            c.ob("window", False if r is None and not unknown(data) else r, I.loc(n, fr), "reading %s: zlib is given %s" % (show(self.n), show(data)[:80]), st.events())
            r = decide(f, le(const(1), mx))
            if r is True:
                r = decide(f, le(mx, top))
            c.ob("window", False if r is None and not unknown(mx) else r, I.loc(n, fr), "reading %s: zlib is asked for at most %s" % (show(self.n), show(mx)), st.events())
            return Stream.decompress(self, I, st, args, kw, fr, X, n)

    def window(c):
        size = sym("size", "int")
        t = zstream.Steps(c)
        for shape in zstream.SHAPES:
            n = sym("n", "int")
            z = Watched(c)
            z.n = n
            z.feed = None
            st, o = zstream.reader(c, z, size)
            z.arbitrary(st, o, shape)
            f, zz = z.state(st, o)
            st.facts.assume(le(f["_br"], size))
            st.facts.assume(le(const(1), n))
            st.trace = None
            c.run("read(n) %s" % (shape,), c.method(o, st, "read"), [n], st, models=z.M, recursion=0, unroll={"*": 4})
        # the header, and what is behind it
        for head, S in HEADS + [(b"blob 1099511627776\0", 1 << 40)]:
            z = Watched(c, len(head) + S, head)
            z.n = const(8192)
            z.what = "new"
            for k, s, v in z.new():
                items = I.const_items(I.iterable(v, s)) if k == "ret" else None
                if items is None or len(items) != 3 or items[2].op != "ref":
                    continue
                C = s.get(s.get(items[2].args[0]).f["_zip"].args[0]).f["#P"] if "_zip" in s.get(items[2].args[0]).f else None
                r = None if C is None else decide(s.facts, le(C, const(1 << 20)))
                c.ob("lazy", r, zstream.W + ".new", "%s bytes were decompressed when the stream is made" % (show(C) if C is not None else "?"), s.events())
        # finding the end of the compressed stream
        for shape in zstream.SHAPES:
            z = Watched(c)
            z.n = const(1 << 20)
            z.what = "compressed_bytes_read"
            st, o = zstream.reader(c, z, size)
            pos = z.arbitrary(st, o, shape)
            f, zz = z.state(st, o)
            g = st.facts
            for x in (eq(pos, zstream.N), eq(f["_buflen"], ZERO), eq(f["_br"], size)):
                g.assume(x)
            if zstream.empty(g):
                continue
            M = dict(z.M)
            M[R + ".read"] = z.contract
            c.run("compressed_bytes_read", c.method(o, st, "compressed_bytes_read"), [], st, models=M, recursion=0, unroll={"*": 2})

    def lazy(c):
        # packs: no byte of an undeltified object is decompressed before it is read
        for m in ("stream", "info"):
            e = entity.Entries(c, bases=(3,))
            sha = sym("sha", "bytes")
            st = e.st.fork()
            st.facts.assume(eq(e.typ(e.ofs(e.number(sha))), const(3)))
            n = 0
            for k, s, v in c.run("PackEntity." + m, c.method(e.ent, st, m), [sha], st, models=e.M, unroll={"gitdb.pack.PackFile.collect_streams": 4, "gitdb.pack.PackEntity.collect_streams_at_offset": 4}):
                if k != "ret":
                    continue
                n += 1
                path = s.events()
                for o in s.heap.values():
                    if "#at" in o.f and o.f.get("#pos", ZERO) is not ZERO:
                        c.ob("lazy", False if not unknown(o.f["#pos"]) else None, "gitdb/pack.py PackEntity." + m, "%s bytes of an undeltified object were decompressed by %s()" % (show(o.f["#pos"]), m), path)
                bad = [x for x in flat(path) if x.kind == "call" and x.label in (".read", ".decompress", "zlib.decompress", "decompress.decompress")]
                c.ob("lazy", not bad, bad[0] if bad else "gitdb/pack.py PackEntity." + m, "nothing of an undeltified object is decompressed by %s()" % m, path)
            c.ob("lazy", True if n else None, "gitdb/pack.py PackEntity." + m, "%d paths" % n)
        # the info of a deltified one needs the beginning of the delta only
        e = entity.Entries(c, bases=(3,))
        sha = sym("sha", "bytes")
        st = e.st.fork()
        n = 0
        for k, s, v in c.run("PackEntity.info", c.method(e.ent, st, "info"), [sha], st, models=e.M, unroll={"gitdb.pack.PackFile.collect_streams": 4, "gitdb.pack.PackEntity.collect_streams_at_offset": 4}):
            if k != "ret":
                continue
            for o in s.heap.values():
                if "#at" in o.f and "#pos" in o.f:
                    p = o.f["#pos"]
                    n += p is not ZERO
                    r = decide(s.facts, le(p, LIMIT))
                    c.ob("lazy", False if r is None and not unknown(p) else r, "gitdb/pack.py PackEntity.info", "%s bytes of an entry are decompressed by info()" % show(p), s.events())
        c.ob("lazy", True if n else None, "gitdb/pack.py PackEntity.info", "%d entries read" % n)

    def maps(c):
        """the packed data of an entry is not copied to make its record and its stream"""
        n = [0]

        def watch(name, args, kw, st, fr, node):
            if name not in ("builtins.bytes", "builtins.bytearray", ".tobytes", "io.BytesIO") or not args:
                return
            d = I.val(args[0], st)
            if any(x is packs.PACK for x in subterms(d)):
                n[0] += 1
                c.ob("lazy", bounded(d, st.facts, loops_of(st.events())), I.loc(node, fr), "%s copies %s" % (name, show(d)[:80]), st.events())
        I.watch = watch
        try:
            for name, f in packs.c12(Quiet(c)):
                if name == "entry":
                    f(Quiet(c))
        finally:
            I.watch = None
        c.ob("lazy", True, "gitdb/pack.py pack_object_at", "%d copies of parts of a pack" % n[0])

    return [("maps", maps), ("store", store), ("copy", copy), ("writing", writing), ("valid", valid), ("window", window), ("lazy", lazy)]


def Ev_(label, args, loc, fr):
    from ..interp import Ev
    return Ev("call", label, args, {}, NONE, loc, "ok", fr.stack)
