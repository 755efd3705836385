"""C18, C19: the reader which decompresses a memory map piece by piece."""
from .common import *
from ..core import parts, seq_eq, loops_of, flat
from ..extmodels import minmax
from .entity import merge
from ..facts import decide, empty

R = "gitdb.stream.DecompressMemMapReader"
W = "gitdb/stream.py DecompressMemMapReader"
ZATTRS = const(("decompress", "flush", "copy", "unused_data", "unconsumed_tail", "eof"))
Z = sym("z", "buf")             # the memory map
CONT = sym("content", "buf")  # what its compressed stream decompresses to
L = sym("maplen", "int")
ZLEN = sym("zlen", "int")       # length of the compressed stream at the beginning of the map
N = sym("contentlen", "int")


def le(a, b, k=0):
    """a + k <= b"""
    return c_le0(lin_add(lin_add(a, const(k)), b, -1))


def eq(a, b):
    return c_eq0(lin_add(a, b, -1))


def forking(name):
    """model of min() and max() of two integers: one path for each"""
    def h(I, st, args, kw, fr, X, n):
        if len(args) != 2 or kw:
            return minmax(I, st, name, args, kw, fr, X, n)
        x, y = args if name == "min" else reversed(args)
        s2 = st.fork()
        out = []
        if st.facts.assume(le(x, y)):
            out.append((st, args[0]))
        if s2.facts.assume(le(y, x, 1)):
            out.append((s2, args[1]))
        return out
    return h


def exact(s, v):
    """the bounds of a part are in range"""
    if v.op == "slice" and v.args[2] is not NONE and length(v).op == "len":
        s.facts.assume(eq(length(v), lin_add(v.args[2], v.args[1], -1)))
    return v


class Stream:
    """A memory map which begins with a compressed stream, and decompressors whose state is the number of bytes
    consumed and produced: each call may stop wherever zlib may stop"""

    def __init__(self, c, n=None, head=b""):
        self.c, self.head = c, head
        self.N = N if n is None else const(n)
        st = c.I.fresh_state()
        f = st.facts
        f.assume(le(ZLEN, L))
        f.assume(le(const(8), ZLEN))
        f.assume(le(ZERO, N))
        self.m = opaque(st, "map")
        st.w(self.m.args[0]).f["#attrs"] = const(("close", "read", "seek", "size", "flush", "find"))
        self.g = ghost(st)
        self.st = st
        self.M = {"zlib.decompressobj": self.decompressobj, ".decompress": self.decompress, ".__getitem__": self.window, ".__len__": self.maplen,
                  "builtins.min": forking("min"), "builtins.max": forking("max"), "io.BytesIO": self.bytesio, ".read": self.bioread, ".getvalue": self.biovalue, ".getbuffer": self.biovalue, ".tell": self.biotell,
                  "#rec:" + R + ".read": self.contract}

    # ------------------------------------------------------------ models
    def decompressobj(self, I, st, args, kw, fr, X, n):
        return [(st, self.new_zip(st))]

    def new_zip(self, st, C=ZERO, P=ZERO, end=None, eof=FALSE, unused=const(b"")):
        z = opaque(st, "decompressor")
        st.w(z.args[0]).f.update({"#attrs": ZATTRS, "#C": C, "#P": P, "eof": eof, "unused_data": unused,
                                  "unconsumed_tail": const(b"") if end is None else slice_(Z, C, end)})
        return z

    def maplen(self, I, st, args, kw, fr, X, n):
        return [(st, L)]

    def window(self, I, st, args, kw, fr, X, n):
        i = args[1]
        if i.op != "sl" or i.args[2] is not NONE and i.args[2] is not const(1):
            return I.effect("map.getitem", args, kw, st, fr, X, n)
        a = ZERO if i.args[0] is NONE else i.args[0]
        b = L if i.args[1] is NONE else i.args[1]
        f = st.facts
        if decide(f, le(a, L)) is not True or decide(f, le(ZERO, a)) is not True or decide(f, le(a, b)) is not True:
            r = I.fresh(st, "anywhere", "bytes")
            return [(st, r)]
        if not is_nonneg(a):
            # a name for the beginning, so that the length of the window is known
            a2 = I.fresh(st, "start", "int")
            f.assume(eq(a2, a))
            if b is not L:
                b = lin_add(a2, lin_add(b, a, -1))
            a = a2
        if b is L:
            return [(st, exact(st, slice_(Z, a, L)))]
        s2 = st.fork()
        out = []
        if st.facts.assume(le(b, L)):
            out.append((st, exact(st, slice_(Z, a, b))))
        if s2.facts.assume(le(L, b, 1)):
            out.append((s2, exact(s2, slice_(Z, a, L))))
        return out

    def decompress(self, I, st, args, kw, fr, X, n):
        z, data = args[0], I.val(args[1], st)
        mx = args[2] if len(args) > 2 else kw.get("max_length", ZERO)
        o = st.get(z.args[0])
        f = st.facts
        C, P = o.f["#C"], o.f["#P"]
        if decide(f, eq(mx, ZERO)) is True:
            mx = None
        elif decide(f, le(const(1), mx)) is not True:
            s2 = st.fork()
            if s2.facts.assume(le(mx, ZERO)) and not empty(s2.facts):
                if s2.facts.assume(eq(mx, ZERO)):
                    return self.decompress(I, s2, [z, data, ZERO], {}, fr, X, n) + (self.decompress(I, st, args, kw, fr, X, n) if st.facts.assume(le(const(1), mx)) else [])
                return I.effect("decompress.negative", args, kw, st, fr, X, n, "bytes")
            st.facts.assume(le(const(1), mx))
        data = merge(data, st.facts)
        if o.f["eof"] is TRUE:
            st.w(z.args[0]).f["unused_data"] = concat(o.f["unused_data"], data)
            if o.f["unconsumed_tail"] is not const(b""):
                st.w(z.args[0]).f["unconsumed_tail"] = data
            return [(st, const(b""))]
        if data.op == "const" and not cval(data):
            a = b = C
        elif data.op == "slice" and data.args[0] is Z:
            a, b = data.args[1], data.args[2] if data.args[2] is not NONE else L
            if self.feed is not None:
                ok = decide(f, eq(a, C))
                self.feed.ob("feed", ok, I.loc(n, fr), "the window given to zlib begins at %s, consumed: %s" % (show(a), show(C)), st.events())
            if decide(f, eq(a, C)) is not True:
                return [(st, I.fresh(st, "unsupported:window", "bytes"))]
        else:
            if self.feed is not None:
                self.feed.ob("feed", None, I.loc(n, fr), "zlib is given %s" % show(data)[:80])
            return [(st, I.fresh(st, "unsupported:window", "bytes"))]
        tail = o.f["unconsumed_tail"]
        out = []
        # the stream ends in this window
        s = st.fork()
        g = s.facts
        if g.assume(le(ZLEN, b)) and (mx is None or g.assume(le(lin_add(self.N, P, -1), mx))):
            w = s.w(z.args[0])
            rest = slice_(Z, ZLEN, b)
            if g.ask(eq(ZLEN, b)) is True:
                rest = const(b"")
            w.f.update({"#C": ZLEN, "#P": self.N, "eof": TRUE, "unused_data": rest, "unconsumed_tail": const(b"") if tail is const(b"") else rest})
            out.append((s, exact(s, self.piece(P, self.N))))
        # as much as wanted, some of the window is left
        if mx is not None:
            s = st.fork()
            g = s.facts
            k = I.fresh(s, "consumed", "int")
            C2 = lin_add(a, k)
            if g.assume(le(ZERO, k)) and g.assume(le(C2, b, 1)) and g.assume(le(C2, ZLEN, 1)) and g.assume(le(lin_add(P, mx), self.N)):
                w = s.w(z.args[0])
                w.f.update({"#C": C2, "#P": lin_add(P, mx), "unconsumed_tail": slice_(Z, C2, b)})
                out.append((s, exact(s, self.piece(P, lin_add(P, mx)))))
        # the window is used up, the stream is not
        s = st
        g = s.facts
        k = I.fresh(s, "produced", "int")
        if g.assume(le(b, ZLEN, 1)) and g.assume(le(ZERO, k)) and (mx is None or g.assume(le(k, mx))) and g.assume(le(lin_add(P, k), self.N)):
            w = s.w(z.args[0])
            w.f.update({"#C": b, "#P": lin_add(P, k), "unconsumed_tail": const(b"")})
            out.append((s, exact(s, self.piece(P, lin_add(P, k)))))
        return [(s, v) for s, v in out if not empty(s.facts)]

    feed = None

    def piece(self, a, b):
        """content[a:b]"""
        if a is b:
            return const(b"")
        h = len(self.head)
        if h and is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            if x < h:
                return concat(const(self.head[x:y]), *([slice_(CONT, const(h), b)] if y > h else []))
        return slice_(CONT, a, b)

    def bytesio(self, I, st, args, kw, fr, X, n):
        o = opaque(st, "bytesio")
        st.w(o.args[0]).f.update({"#attrs": const(("read", "getvalue", "getbuffer", "tell")), "#d": I.val(args[0], st) if args else const(b""), "#pos": ZERO, "#truth": TRUE})
        return [(st, o)]

    def bioread(self, I, st, args, kw, fr, X, n):
        o = st.get(args[0].args[0])
        if "#d" not in o.f:
            return I.effect(".read", args, kw, st, fr, X, n)
        d, p = o.f["#d"], o.f["#pos"]
        ln = lin_add(length(d), p, -1)
        if len(args) < 2 or args[1] is NONE or st.facts.ask(le(args[1], ZERO, 1)) is True:
            st.w(args[0].args[0]).f["#pos"] = length(d)
            return [(st, self.sub(d, p, length(d), st.facts))]
        k = args[1]
        out = []
        s2 = st.fork()
        if s2.facts.assume(le(ln, k, 1)):
            s2.w(args[0].args[0]).f["#pos"] = length(d)
            out.append((s2, self.sub(d, p, length(d), s2.facts)))
        if st.facts.assume(le(k, ln)):
            st.w(args[0].args[0]).f["#pos"] = lin_add(p, k)
            out.append((st, self.sub(d, p, lin_add(p, k), st.facts)))
        return out

    def sub(self, d, a, b, f):
        if f.ask(eq(a, b)) is True:
            return const(b"")
        d = merge(d, f)
        if d.op == "slice" and d.args[0] is CONT and d.args[2] is not NONE:
            return slice_(CONT, lin_add(d.args[1], a), lin_add(d.args[1], b))
        return slice_(d, a, b)

    def biovalue(self, I, st, args, kw, fr, X, n):
        return [(st, st.get(args[0].args[0]).f["#d"])]

    def biotell(self, I, st, args, kw, fr, X, n):
        return [(st, st.get(args[0].args[0]).f["#pos"])]

    # ------------------------------------------------------------ the state of a reader
    FIELDS = ("_zip", "_buf", "_buflen", "_br", "_cws", "_cwe", "_cbr")

    def state(self, s, o):
        f = s.get(o.args[0]).f
        for x in self.FIELDS:
            if x not in f:
                raise Anchor(R + "." + x)
        z = s.get(f["_zip"].args[0]).f if f["_zip"].op == "ref" else None
        if z is None or "#C" not in z:
            raise Anchor(R + "._zip")
        return f, z

    def pos(self, s, o):
        f, z = self.state(s, o)
        return lin_add(z["#P"], f["_buflen"], -1)

    def arbitrary(self, s, o, shape):
        """puts the reader into any state which satisfies the invariant; shape: (window, buffer)"""
        f, z = self.state(s, o)
        g = s.facts
        win, buf = shape
        C, pos = sym("consumed", "int"), sym("position", "int")
        g.assume(le(ZERO, C))
        g.assume(le(ZERO, pos))
        bl = ZERO
        if buf:
            bl = sym("buffered", "int")
            g.assume(le(ZERO, bl))
        P = lin_add(pos, bl)
        if win in ("end", "endtail"):
            g.assume(le(ZERO, sym("window", "int")))
            zo = self.new_zip(s, ZLEN, self.N, None, TRUE, sym("unused", "bytes"))
            g.assume(eq(P, self.N))
            C = ZLEN
            e = lin_add(ZLEN, sym("window", "int"))
            g.assume(le(e, L))
            if win == "endtail":
                g.assume(le(const(1), sym("window", "int")))
                s.w(zo.args[0]).f["unconsumed_tail"] = slice_(Z, ZLEN, e)
        else:
            g.assume(le(C, ZLEN, 1))
            g.assume(le(P, self.N))
            e = C
            if win == "tail":
                t = sym("window", "int")
                g.assume(le(const(1), t))
                e = lin_add(C, t)
                g.assume(le(e, L))
            zo = self.new_zip(s, C, P, None if win != "tail" else e)
        br, cws = sym("read", "int"), sym("cws", "int")
        g.assume(le(ZERO, br))
        g.assume(le(ZERO, cws))
        g.assume(le(cws, e))
        w = s.w(o.args[0])
        w.f.update({"_zip": zo, "_buf": NONE, "_buflen": bl, "_br": br, "_cws": cws, "_cwe": e, "_cbr": C})
        if buf:
            b = opaque(s, "bytesio")
            s.w(b.args[0]).f.update({"#attrs": const(("read", "getvalue", "getbuffer", "tell")), "#d": slice_(CONT, pos, P), "#pos": ZERO, "#truth": TRUE})
            w.f["_buf"] = b
        return pos

    def inv(self, t, s, o, where, what, path=None):
        """obligation: the invariant holds"""
        f, z = self.state(s, o)
        g = s.facts

        res = []

        def ob(ok, msg):
            res.append(ok)
            # the description of the state by these fields is not part of the property
            t.ob("state", True if ok is True else None, where, "%s: %s" % (what, msg), path)
        tail = length(z["unconsumed_tail"])
        if z["eof"] is not TRUE:
            ob(decide(g, eq(f["_cwe"], lin_add(z["#C"], tail))), "the window ends at %s, consumed %s, left over %s" % (show(f["_cwe"]), show(z["#C"]), show(tail)))
        else:
            ob(True if tail is ZERO and decide(g, le(ZERO, f["_cwe"])) is True else decide(g, le(tail, f["_cwe"])), "the window ends at %s after the end of the stream" % show(f["_cwe"]))
        ob(decide(g, eq(f["_cbr"], z["#C"])), "%s compressed bytes are counted, consumed: %s" % (show(f["_cbr"]), show(z["#C"])))
        if f["_buf"] is NONE:
            ob(decide(g, eq(f["_buflen"], ZERO)), "there is no buffer, its length is %s" % show(f["_buflen"]))
        else:
            b = s.get(f["_buf"].args[0]).f if f["_buf"].op == "ref" else {}
            if "#d" not in b:
                ob(None, "the buffer is %s" % show(f["_buf"]))
            else:
                left = lin_add(length(b["#d"]), b["#pos"], -1)
                ob(decide(g, eq(f["_buflen"], left)), "%s bytes are left in the buffer, its length is %s" % (show(left), show(f["_buflen"])))
        return all(x is True for x in res)

    # ------------------------------------------------------------ what a read does
    def contract(self, I, st, args, kw, fr, X, n):
        """the effect of a whole read() call, by the property itself (induction over the nested calls)"""
        o = args[0]
        size = args[1] if len(args) > 1 else kw.get("size", const(-1))
        out = []
        for s, declared in I.getattr(o, "_s", st, fr, X, n):
            f, z = self.state(s, o)
            if self.feed is not None:
                if not self.inv(self.feed, s, o, I.loc(n, fr), "a nested read", s.events()):
                    out.append((s, I.fresh(s, "unsupported:read", "bytes")))
                    continue
                if self.start is not None:
                    C0, P0, b0, eof0 = self.start
                    same = [s.facts.ask(eq(x, y)) for x, y in ((z["#C"], C0), (z["#P"], P0), (f["_buflen"], b0))]
                    stuck = z["eof"] is eof0 and (True if all(x is True for x in same) else None if not any(x is False for x in same) and self.maybe_stuck(s, z, C0, P0) else False)
                    if stuck is not None:
                        self.feed.ob("progress", not stuck, I.loc(n, fr), "a nested read without any progress", s.events())
            rest = lin_add(declared, f["_br"], -1)
            for s1, want in self.clip(s, size, rest):
                out += self.after(I, s1, o, want, fr)
        return out

    start = None

    def new(self):
        """DecompressMemMapReader.new(m), the nested read by its contract"""
        M = dict(self.M)
        M[R + ".read"] = self.contract
        c = self.c
        cls = c.anchor(R)
        f = c.I.cls_lookup(cls, "new")
        if f is None:
            raise Anchor(R + ".new")
        f = c.I.bind(f, None, cls, self.st, None, [], None)[0][1]
        return c.run("new", f, [self.m], self.st, models=M, recursion=0)

    def maybe_stuck(self, s, z, C0, P0):
        g = s.facts.copy()
        return not (s.facts.ask(le(C0, z["#C"], 1)) is True or s.facts.ask(le(P0, z["#P"], 1)) is True) and g.assume(eq(z["#C"], C0)) and g.assume(eq(z["#P"], P0))

    def clip(self, s, size, rest):
        out = []
        for neg in (True, False):
            s1 = s.fork()
            if not s1.facts.assume(le(size, ZERO), neg):
                continue
            if neg:
                out.append((s1, rest))
                continue
            s2 = s1.fork()
            if s1.facts.assume(le(size, rest)):
                out.append((s1, size))
            if s2.facts.assume(le(rest, size, 1)):
                out.append((s2, rest))
        return out

    def after(self, I, st, o, want, fr):
        f, z = self.state(st, o)
        out = []
        pos = lin_add(z["#P"], f["_buflen"], -1)
        z0 = dict(z)
        # nothing to do
        s = st.fork()
        if s.facts.assume(eq(want, ZERO)):
            out.append((s, const(b"")))
        if not st.facts.assume(le(const(1), want)):
            return out
        buf = f["_buf"] is not NONE

        def done(s, r, zo, keep=False):
            w = s.w(o.args[0])
            w.f["_br"] = lin_add(w.f["_br"], r)
            w.f["_zip"] = zo
            zf = s.get(zo.args[0]).f
            if not keep:
                w.f["_buf"], w.f["_buflen"] = NONE, ZERO
                e = lin_add(zf["#C"], length(zf["unconsumed_tail"]))
                w.f.update({"_cbr": zf["#C"], "_cwe": e, "_cws": I.fresh(s, "cws", "int")})
                s.facts.assume(le(ZERO, w.f["_cws"]))
                s.facts.assume(le(w.f["_cws"], e))
            out.append((s, exact(s, self.piece(pos, lin_add(pos, r)))))
        # all of it from the buffer
        if buf:
            s = st.fork()
            if s.facts.assume(le(want, f["_buflen"])):
                w = s.w(o.args[0])
                b = s.w(w.f["_buf"].args[0])
                b.f["#pos"] = lin_add(b.f["#pos"], want)
                w.f["_buflen"] = lin_add(w.f["_buflen"], want, -1)
                done(s, want, w.f["_zip"], True)
            if not st.facts.assume(le(f["_buflen"], want, 1)):
                return out
        left = lin_add(self.N, pos, -1)
        if z0["eof"] is not TRUE:
            # all of it, the stream does not end there; the window is used up, or not
            for tail in (False, True):
                s = st.fork()
                C = I.fresh(s, "consumed", "int")
                g = s.facts
                if g.assume(le(want, left)) and g.assume(le(z0["#C"], C)) and g.assume(le(C, ZLEN, 1)):
                    e = None
                    if tail:
                        t = I.fresh(s, "window", "int")
                        g.assume(le(const(1), t))
                        e = lin_add(C, t)
                        g.assume(le(e, L))
                    done(s, want, self.new_zip(s, C, lin_add(pos, want), e))
        # the stream has ended: all that is left, and that is not more than what is wanted
        s = st
        if s.facts.assume(le(left, want)):
            for tail in (False, True):
                s2 = s.fork()
                t = I.fresh(s2, "window", "int")
                s2.facts.assume(le(ZERO, t))
                e = lin_add(ZLEN, t)
                s2.facts.assume(le(e, L))
                zo = self.new_zip(s2, ZLEN, self.N, None, TRUE, slice_(Z, ZLEN, e))
                if tail:
                    s2.w(zo.args[0]).f["unconsumed_tail"] = slice_(Z, ZLEN, e)
                done(s2, left, zo)
        return out


def same_piece(v, a, b, f):
    """is v content[a:b]?"""
    v = merge(v, f)
    if v.op == "const" and not cval(v):
        return f.ask(eq(a, b))
    if v.op == "slice" and v.args[0] is CONT:
        x, y = v.args[1], v.args[2] if v.args[2] is not NONE else N
        r = [f.ask(eq(x, a)), f.ask(eq(y, b))]
        if all(q is True for q in r):
            return True
        if False in r:
            return False
        if f.ask(eq(a, b)) is True and f.ask(eq(x, y)) is True:
            return True
        return None
    if v.op == "concat" and all(p.op in ("const", "slice") for p in v.args[1:]):
        return False
    return None


SHAPES = [(w, b) for w in ("used", "tail", "end", "endtail") for b in (False, True)]
HEADS = [(b"blob 0\0", 0), (b"tree 5\0", 5), (b"commit 8178\0", 8178), (b"tag 8190\0", 8190), (b"blob 30000\0", 30000)]


def reader(c, z, size, st=None):
    return one(c, R, [z.m, FALSE] + ([size] if size is not None else []), z.st if st is None else st, models=z.M)


class Steps:
    """Obligations about single calls from an arbitrary consistent state.  That state is described by the fields of the
    reader: where the current code does not preserve this description, nothing follows from it, and nothing is reported"""

    def __init__(self, c):
        self.c, self.obs, self.ok = c, [], True

    def ob(self, rule, ok, *a):
        if rule == "state" and ok is not True:
            self.ok = False
        self.obs.append((rule, ok, a))

    def done(self):
        for rule, ok, a in self.obs:
            self.c.ob(rule, ok if self.ok or ok is True else None, *a)


def c18(c):
    c.rule("read", "read(n) returns exactly the next bytes of the content: n of them, or what is left of the declared size or of the stream")
    c.rule("feed", "zlib is given the compressed bytes in order: each window begins where consumption ended")
    c.rule("state", "every read leaves window, counters and buffer consistent, whatever the way zlib stopped")
    c.rule("progress", "a read which reads on has consumed or produced something before")
    c.rule("header", "new() splits off the object header: type and size are returned, reading begins behind it")
    size = sym("size", "int")

    def steps(c):
        t = Steps(c)
        for shape in SHAPES:
            for n in (None, sym("n", "int")):
                z = Stream(c)
                z.feed = t
                st, o = reader(c, z, size)
                pos = z.arbitrary(st, o, shape)
                f, zz = z.state(st, o)
                br = f["_br"]
                st.facts.assume(le(br, size))
                st.trace = None
                z.start = (zz["#C"], zz["#P"], f["_buflen"], zz["eof"])
                outs = c.run("read(%s) %s" % ("" if n is None else "n", shape), c.method(o, st, "read"), [] if n is None else [n], st, models=z.M, recursion=0, unroll={"*": 4})
                z.start = None
                for k, s0, v in outs:
                    if k != "ret":
                        t.ob("read", False, W + ".read", "raises %s" % c.excname(s0, v), s0.events())
                        continue
                    for s, want in z.clip(s0, n if n is not None else const(-1), lin_add(size, br, -1)):
                        f, zz = z.state(s, o)
                        end = lin_add(zz["#P"], f["_buflen"], -1)
                        got(t, z, s, v, pos, end, want, s.events())
                        t.ob("state", decide(s.facts, eq(f["_br"], lin_add(br, lin_add(end, pos, -1)))), W + ".read", "the count of delivered bytes goes from %s to %s" % (show(br), show(f["_br"])), s.events())
                        z.inv(t, s, o, W + ".read", "after a read %s" % (shape,), s.events())
        t.done()

    def sequences(c):
        ns = [sym("n%d" % i, "int") for i in range(3)]
        cases = [([None], 2), (ns[:1], 2), (ns[:1] + [None], 1), (ns[:2], 0), (ns[:2] + [None], 0)]
        if c.thorough:
            cases += [(ns[:2], 1), (ns, 0)]
        for seq, rec in cases:
            z = Stream(c)
            z.feed = c
            st, o = reader(c, z, size)
            st.facts.assume(le(ZERO, size))
            sequence(c, z, [(st, o, ZERO)], seq, size, ZERO, rec)

    def header(c):
        for head, S, more in [h + (0,) for h in HEADS] + [h + (20000,) for h in HEADS[1:4]]:
            z = Stream(c, len(head) + S + more, head)
            z.feed = c
            outs = z.new()
            h = const(len(head))
            starts = []
            for k, s, v in outs:
                if k != "ret":
                    c.ob("header", False, W + ".new", "raises %s" % c.excname(s, v), s.events())
                    continue
                items = c.I.const_items(c.I.iterable(v, s))
                if items is None or len(items) != 3 or items[2].op != "ref":
                    c.ob("header", None, W + ".new", "returns %s" % show(v)[:80], s.events())
                    continue
                t, n, o = items
                ok = cval(t) in (head.split()[0], head.split()[0].decode()) if is_const(t) else None
                c.ob("header", ok, W + ".new", "type %s of %s" % (show(t)[:60], head), s.events())
                ok = cval(n) == S if is_const(n) else None
                c.ob("header", ok, W + ".new", "size %s of %s" % (show(n)[:60], head), s.events())
                starts.append((s, o, h))
            sequence(c, z, starts, [None], const(S), h, 0)
            sequence(c, z, starts, [sym("n0", "int"), None], const(S), h, 0)
            sequence(c, z, starts, [sym("n0", "int"), sym("n1", "int")], const(S), h, 0)
    return [("sequences", sequences), ("header", header), ("steps", steps)]


def got(t, z, s, v, pos, end, want, path):
    """obligations: v = content[pos:end], and that is as much as wanted, or all there is"""
    g = s.facts
    r = lin_add(end, pos, -1)
    t.ob("read", same_piece(v, pos, end, g), W + ".read", "returns %s, expected content[%s:%s]" % (show(v)[:80], show(pos), show(end)), path)
    full = decide(g, eq(r, want))
    if full is not True and decide(g, eq(end, z.N)) is True:
        full = decide(g, le(r, want))
    if full is None and not unknown(r) and not unknown(want):
        full = False        # the facts of the path admit fewer, or more
    t.ob("read", full, W + ".read", "%s bytes of %s wanted" % (show(r), show(want)), path)


def sequence(c, z, starts, seq, size, origin, rec):
    """reads from the beginning, everything but deeper recursion inlined; origin: where the content begins"""
    M = dict(z.M)
    if rec is not None:
        M["#rec:" + R + ".read"] = lambda I, st, args, kw, fr, X, n: []
    cur = [(s, o, origin) for s, o, _ in starts]
    for n in seq:
        nx = []
        for s, o, pos in cur:
            outs = c.run("read(%s)" % ("" if n is None else show(n)), c.method(o, s, "read"), [] if n is None else [n], s, models=M, recursion=rec or 0, unroll={"*": 4})
            for k, s0, v in outs:
                if k != "ret":
                    c.ob("read", False, W + ".read", "raises %s" % c.excname(s0, v), s0.events())
                    continue
                if unknown(v):
                    c.ob("read", None, W + ".read", "returns %s" % show(v)[:80], s0.events())
                    continue
                end = lin_add(pos, length(v))
                for s2, want in z.clip(s0, n if n is not None else const(-1), lin_add(size, lin_add(pos, origin, -1), -1)):
                    got(c, z, s2, v, pos, end, want, s2.events())
                nx.append((s0, o, end))
        cur = nx
    return cur


def same_piece(v, a, b, f):
    """is v content[a:b]?"""
    v = merge(v, f)
    if v.op == "const" and not cval(v):
        return decide(f, eq(a, b))
    if v.op == "slice" and v.args[0] is CONT:
        x, y = v.args[1], v.args[2] if v.args[2] is not NONE else N
        r = [decide(f, eq(x, a)), decide(f, eq(y, b))]
        if all(q is True for q in r):
            return True
        if decide(f, eq(a, b)) is True and decide(f, eq(x, y)) is True:
            return True
        if False in r:
            return False
        return None if unknown(v) else False
    if v.op == "concat" and all(p.op == "slice" and p.args[0] is CONT for p in v.args[1:]):
        return False
    return None


def c19(c):
    c.rule("reset", "after seek(0), whatever was read before, reading starts again with the first byte of the content")
    c.rule("refuse", "seek to any other position raises ValueError and does not move the reader")
    c.rule("read", "what is read behind a reset is the content, as after construction")
    c.rule("feed", "the compressed bytes are given to zlib from the beginning again")
    size = sym("size", "int")
    WS = W + ".seek"

    def origins(c):
        """readers as constructed: [(name, stream, starts, size, origin)]"""
        z = Stream(c)
        st, o = reader(c, z, size)
        st.facts.assume(le(ZERO, size))
        yield "declared size", z, [(st, o, ZERO)], size, ZERO
        for head, S in HEADS if c.thorough else HEADS[1:4]:
            z = Stream(c, len(head) + S, head)
            starts = []
            for k, s, v in z.new():
                items = c.I.const_items(c.I.iterable(v, s)) if k == "ret" else None
                if items is not None and len(items) == 3 and items[2].op == "ref":
                    starts.append((s, items[2], const(len(head))))
            yield "header %s" % head, z, starts, const(S), const(len(head))
            z = Stream(c, len(head) + S, head)
            st, o = reader(c, z, None)
            yield "no size, header %s" % head, z, [(st, o, const(len(head)))], const(S), const(len(head))

    def seeks(c, z, starts, args, kw=None, ok=True):
        out = []
        for s, o, pos in starts:
            for k, s2, v in c.run("seek", c.method(o, s, "seek"), args, s, kw, models=z.M, unroll={"*": 4}):
                if ok:
                    if k != "ret":
                        c.ob("reset", False, WS, "seek(%s) raises %s" % (", ".join(map(show, args)), c.excname(s2, v)), s2.events())
                        continue
                    c.ob("reset", True, WS, "seek(%s)" % ", ".join(map(show, args)))
                    out.append((s2, o, pos))
                else:
                    c.ob("refuse", k == "exc" and c.is_exc(s2, v, "ValueError") is True, WS, "seek(%s): %s" % (", ".join(map(show, args)), "returns" if k == "ret" else c.excname(s2, v)), s2.events())
                    if k == "exc":
                        out.append((s2, o, pos))
        return out

    n0, n1 = sym("n0", "int"), sym("n1", "int")
    off = sym("offset", "int")

    def resets(c):
        for name, z, starts, sz, origin in origins(c):
            z.feed = c
            for before in ([], [n0], [None], [None, None]) if c.thorough else ([], [n0], [None]):
                for args in ([ZERO], [ZERO, ZERO]):
                    cur = read_on(c, z, [(s.fork(), o, p) for s, o, p in starts], before, sz, origin)
                    for after in ([None], [n1]):
                        cur2 = [(s, o, origin) for s, o, p in seeks(c, z, [(s.fork(), o, p) for s, o, p in cur], args)]
                        read_on(c, z, cur2, after, sz, origin)
                    if not args[1:]:
                        # a reset of a reader which wasn't read since the last one
                        for after in ([None], [n1]):
                            cur2 = [(s, o, origin) for s, o, p in seeks(c, z, [(s.fork(), o, p) for s, o, p in cur], args)]
                            cur2 = [(s, o, origin) for s, o, p in seeks(c, z, cur2, args)]
                            read_on(c, z, cur2, after, sz, origin)
                    if args[1:] and before == []:
                        break

    def read_on(c, z, cur, seq, sz, origin):
        for n in seq:
            nx = []
            for s, o, pos in cur:
                nx += step(c, z, s, o, pos, n, sz, origin)
            cur = nx
        return cur

    def refused(c):
        for name, z, starts, sz, origin in origins(c):
            z.feed = c
            for before in ([], [n0]):
                for what in ("offset", "whence"):
                    for wh in ([const(1)], [const(2)], []) if what == "offset" else ([const(1)], [const(2)]):
                        cur = read_on(c, z, [(s.fork(), o, p) for s, o, p in starts], before, sz, origin)
                        for s, o, p in cur:
                            if what == "offset":
                                s.facts.assume(eq(off, ZERO), False)
                        cur = seeks(c, z, cur, [off if what == "offset" else ZERO] + wh, ok=False)
                        read_on(c, z, cur, [None], sz, origin)

    def steps(c):
        """from any consistent state"""
        t = Steps(c)
        for shape in SHAPES:
            for head, S in [(None, None), HEADS[3]]:
                z = Stream(c) if head is None else Stream(c, len(head) + S, head)
                z.feed = t
                if head is None:
                    st, o = reader(c, z, size)
                    st.facts.assume(le(ZERO, size))
                    starts = [(st, o, ZERO)]
                    sz, origin = size, ZERO
                else:
                    starts = []
                    sz, origin = const(S), const(len(head))
                    for k, s, v in z.new():
                        items = c.I.const_items(c.I.iterable(v, s)) if k == "ret" else None
                        if items is not None and len(items) == 3 and items[2].op == "ref":
                            starts.append((s, items[2], origin))
                for st, o, _ in starts[:1]:
                    z.arbitrary(st, o, shape)
                    st.trace = None
                    for k, s, v in c.run("seek %s" % (shape,), c.method(o, st, "seek"), [ZERO], st, models=z.M, unroll={"*": 4}):
                        if k != "ret":
                            t.ob("reset", False, WS, "seek(0) raises %s" % c.excname(s, v), s.events())
                            continue
                        z.inv(t, s, o, WS, "after a reset %s" % (shape,), s.events())
                        step(c, z, s, o, origin, n1, sz, origin, t)
        t.done()

    return [("resets", resets), ("refused", refused), ("steps", steps)]


def step(c, z, s, o, pos, n, sz, origin, t=None):
    """one read; nested reads by their contract where the header is parsed, else not followed"""
    t = t or c
    M = dict(z.M)
    out = []

    def nested(I, st, args, kw, fr, X, nn):
        # the first read of a stream with a header is that of the header
        if z.head and z.state(st, args[0])[1]["#P"] is ZERO and st.get(z.g.args[0]).f.get("#parsed") is not TRUE:
            st.w(z.g.args[0]).f["#parsed"] = TRUE
            return z.contract(I, st, args, kw, fr, X, nn)
        return []
    s.w(z.g.args[0]).f["#parsed"] = FALSE
    M["#rec:" + R + ".read"] = nested
    for k, s0, v in c.run("read(%s)" % ("" if n is None else show(n)), c.method(o, s, "read"), [] if n is None else [n], s, models=M, recursion=0, unroll={"*": 4}):
        if k != "ret":
            t.ob("read", False, W + ".read", "raises %s" % c.excname(s0, v), s0.events())
            continue
        if unknown(v):
            t.ob("read", None, W + ".read", "returns %s" % show(v)[:80], s0.events())
            continue
        end = lin_add(pos, length(v))
        for s2, want in z.clip(s0, n if n is not None else const(-1), lin_add(sz, lin_add(pos, origin, -1), -1)):
            got(t, z, s2, v, pos, end, want, s2.events())
        out.append((s0, o, end))
    return out


def c30(c):
    c.rule("length", "when all of an object was read, compressed_bytes_read() is the length of its compressed stream, also if the data goes on behind it")
    c.rule("walk", "iterating a pack yields the entry at the first offset, then each one behind the header and compressed data of the one before, up to the trailing checksum")
    c.rule("reset", "the streams which the iteration yields are to be read from their beginning")
    c.rule("state", "every read leaves window, counters and buffer consistent")
    c.rule("feed", "the compressed bytes are given to zlib in order")
    c.rule("read", "what is read is the content")
    size = sym("size", "int")
    WC = W + ".compressed_bytes_read"

    def ask(t, c, z, s, o, M, what, again=True, rec=0):
        for k, s2, v in c.run("compressed_bytes_read", c.method(o, s, "compressed_bytes_read"), [], s, models=M, recursion=rec, unroll={"*": 4}):
            if k != "ret":
                t.ob("length", False, WC, "%s: raises %s" % (what, c.excname(s2, v)), s2.events())
                continue
            r = decide(s2.facts, eq(v, ZLEN)) if ty(v) == "int" else None
            if r is None and not unknown(v) and ty(v) == "int":
                r = False
            t.ob("length", r, WC, "%s: %s compressed bytes of %s" % (what, show(v)[:80], show(ZLEN)), s2.events())
            if again:
                ask(t, c, z, s2, o, M, what + ", asked again", False, rec)

    def steps(c):
        t = Steps(c)
        for shape in SHAPES:
            z = Stream(c)
            z.feed = t
            st, o = reader(c, z, size)
            pos = z.arbitrary(st, o, shape)
            f, zz = z.state(st, o)
            g = st.facts
            g.assume(eq(pos, N))
            g.assume(eq(f["_buflen"], ZERO))
            g.assume(eq(f["_br"], size))
            if empty(g):
                continue
            M = dict(z.M)
            M[R + ".read"] = z.contract
            ask(t, c, z, st, o, M, "all is read %s" % (shape,))
        t.done()

    def whole(c):
        def check(z, starts, S, origin, reads):
            z.feed = c
            cur = starts
            for n in reads:
                nx = []
                for s, o, pos in cur:
                    if n == "seek":
                        nx += [(s2, o, origin) for k, s2, v in c.run("seek", c.method(o, s, "seek"), [ZERO], s, models=z.M, unroll={"*": 4}) if k == "ret"]
                        continue
                    nx += step(c, z, s, o, pos, n, S, origin)
                cur = nx
            M = dict(z.M)
            M["#rec:" + R + ".read"] = z.contract
            for s, o, pos in cur:
                if s.facts.assume(eq(lin_add(pos, origin, -1), S)) and not empty(s.facts):
                    ask(c, c, z, s, o, M, "after reading")
        for reads in ([None], [sym("n0", "int"), None], [None, "seek", None], [sym("n0", "int"), "seek", None]):
            z = Stream(c)
            st, o = reader(c, z, N)
            check(z, [(st, o, ZERO)], N, ZERO, reads)
        z = Stream(c, 0)
        st, o = reader(c, z, ZERO)
        check(z, [(st, o, ZERO)], ZERO, ZERO, [])
        for head, S in HEADS:
            z = Stream(c, len(head) + S, head)
            starts = []
            for k, s, v in z.new():
                items = c.I.const_items(c.I.iterable(v, s)) if k == "ret" else None
                if items is not None and len(items) == 3 and items[2].op == "ref":
                    starts.append((s, items[2], const(len(head))))
            for reads in ([None], [sym("n0", "int"), None], [None, "seek", None]) if S else ([],):
                check(z, [(s.fork(), o, p) for s, o, p in starts], const(S), const(len(head)), reads)

    def walk(c):
        from .packs import window, PACK, be
        from .lazy import access
        I = c.I
        W = "gitdb/pack.py PackFile.stream_iter"
        K = 3
        sizes = (10, 2500000) if c.thorough else (10, 1500000)
        for first in (None, sym("start", "int")):
            for size in sizes:
                def nxt(o):
                    return T("res", "dataofs", (o,), "int"), T("res", "complen", (o,), "int")

                def at(I, st, args, kw, fr, X, n):
                    o = args[1]
                    d, k = nxt(o)
                    r = decide(st.facts, le(lin_add(o, const(20)), length(PACK), 1))
                    c.ob("walk", False if r is None and not unknown(o) else r, I.loc(n, fr), "an entry is looked for at %s" % show(o), st.events())
                    for y in (lin_add(d, o, -1), k):
                        st.facts.assume(le(const(1), y))
                    # an entry ends before the trailer
                    st.facts.assume(le(lin_add(d, k), lin_add(length(PACK), const(-20))))
                    z = opaque(st, "zstream")
                    st.w(z.args[0]).f.update({"#at": o, "#pos": ZERO, "_br": ZERO, "_s": const(size), "size": const(size), "#truth": TRUE})
                    flag = args[2] if len(args) > 2 else kw.get("as_stream", FALSE)
                    nm = "gitdb.base.OPackStream" if flag is TRUE else "gitdb.base.OPackInfo"
                    return [(s, tup(d, v)) for s, v in I.instantiate(I.get(nm), [o, const(3), const(size)] + ([z] if flag is TRUE else []), {}, st, fr, X, n)]

                def read(I, st, args, kw, fr, X, n):
                    w = st.w(args[0].args[0]).f
                    m = args[1] if len(args) > 1 else const(-1)
                    if "#at" not in w or not is_const(m):
                        return I.effect("read", args, kw, st, fr, X, n, "bytes")
                    m = cval(m) if cval(m) is not None and cval(m) >= 1 else size
                    p = cval(w["#pos"])
                    e = min(size, p + m)
                    w["#pos"] = w["_br"] = const(e)
                    return [(st, slice_(sym("content", "buf"), const(p), const(e)))]

                def consumed(I, st, args, kw, fr, X, n):
                    w = st.get(args[0].args[0]).f
                    if w.get("#pos") is const(size):
                        return [(st, nxt(w["#at"])[1])]
                    return [(st, I.fresh(st, "partial", "int"))]

                def seek(I, st, args, kw, fr, X, n):
                    w = st.w(args[0].args[0]).f
                    w["#pos"] = w["_br"] = args[1] if len(args) > 1 else ZERO
                    return [(st, NONE)]
                M = dict(window(PACK))
                M.update({"gitdb.pack.pack_object_at": at, ".read": read, ".compressed_bytes_read": consumed, ".seek": seek})
                st = I.fresh_state()
                st.facts.assume(eq(be(4, PACK, ZERO), const(0x5041434b)), True)
                st.facts.assume(c_eq(slice_(PACK, ZERO, const(4)), const(b"PACK")), True)
                st.facts.assume(le(const(32), length(PACK)))
                o0 = const(12)
                if first is not None:
                    st.facts.assume(le(const(12), first))
                    o0 = first
                st, p = one(c, "gitdb.pack.PackFile", [const("/p/x.pack")], st, models=M)
                for k, s, g in access(c, st, p, "stream_iter", [first] if first is not None else [], M, unroll={"*": K}):
                    if k != "ret":
                        c.ob("walk", False, W, "raises %s" % c.excname(s, g), s.events())
                        continue
                    for k2, s2, lst in c.run("list(stream_iter())", ext("builtins.list"), [g], s, models=M, unroll={"*": K}):
                        if k2 != "ret":
                            c.ob("walk", False, W, "raises %s" % c.excname(s2, lst), s2.events())
                            continue
                        items = c.I.const_items(c.I.iterable(lst, s2))
                        if items is None:
                            c.ob("walk", None, W, "yields %s" % show(lst)[:80], s2.events())
                            continue
                        o = o0
                        for i, x in enumerate(items):
                            for s3, po in attr(c, s2, x, "pack_offset"):
                                r = decide(s3.facts, eq(po, o)) if ty(po) == "int" else None
                                c.ob("walk", False if r is None and not unknown(po) else r, W, "entry %d is at %s, expected %s" % (i, show(po), show(o)), s3.events())
                            for s3, z in attr(c, s2, x, "stream"):
                                q = s3.get(z.args[0]).f.get("#pos") if z.op == "ref" else None
                                c.ob("reset", None if q is None else q is ZERO, W, "entry %d is at position %s" % (i, show(q) if q is not None else "?"), s3.events())
                            d, k = nxt(o)
                            o = lin_add(d, k)
                        # the iteration has ended: the next entry would begin at the trailer
                        r = decide(s2.facts, le(lin_add(length(PACK), const(-20)), o))
                        c.ob("walk", False if r is None and not unknown(o) else r, W, "the iteration ends after %d entries at %s" % (len(items), show(o)), s2.events())
    return [("whole", whole), ("walk", walk), ("steps", steps)]
