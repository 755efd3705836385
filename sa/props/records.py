"""C26: the records handed around. C27: the memory database."""
from .common import *
from ..interp import Ev
from .store import bytes_of_type, dec_bytes, gp, strip_hex
from .zstream import eq

TYPES = {1: b"commit", 2: b"tree", 3: b"blob", 4: b"tag"}
A = lambda n: sym("a" + n, None)
#  class, constructor arguments (name -> attribute showing it), order within the tuple
SHAPES = {
    "OInfo": (["binsha", "type", "size"], ["binsha", "type", "size"]),
    "OStream": (["binsha", "type", "size", "stream"], ["binsha", "type", "size", "stream"]),
    "ODeltaStream": (["binsha", "type", "#size", "stream"], ["binsha", "type", None, "stream"]),
    "OPackInfo": (["pack_offset", "type_id", "size"], ["pack_offset", "type_id", "size"]),
    "ODeltaPackInfo": (["pack_offset", "type_id", "size", "delta_info"], ["pack_offset", "type_id", "size", "delta_info"]),
    "OPackStream": (["pack_offset", "type_id", "size", "stream"], ["pack_offset", "type_id", "size", "stream"]),
    "ODeltaPackStream": (["pack_offset", "type_id", "size", "delta_info", "stream"], ["pack_offset", "type_id", "size", "delta_info", "stream"]),
    "IStream": (["type", "size", "stream", "binsha"], ["binsha", "type", "size", "stream", None]),
    "InvalidOInfo": (["binsha", "error"], ["binsha", "error"]),
    "InvalidOStream": (["binsha", "error"], ["binsha", "error"]),
}
TUPLE = ("OInfo", "OStream")


def hexof(t):
    while t.op in ("as", "decode", "encode", "str", "bytes") and t.args:
        t = t.args[-1] if isinstance(t.args[-1], Term) else t.args[0]
    return t


def same(v, w):
    if v is w:
        return True
    if v.op == "const" and w.op == "const":
        return v is w
    if v.op in ("sym", "ref", "const") and w.op in ("sym", "ref", "const"):
        return False
    return None if unknown(v) else False


def c26(c):
    c.rule("attributes", "each attribute of a record is the value it was created with")
    c.rule("indices", "OInfo and OStream give the same values as a tuple")
    c.rule("hexsha", "hexsha is the hexadecimal form of the current binsha")
    c.rule("types", "type names and numbers of the four kinds of objects correspond in both directions")
    c.rule("read", "read(n) passes the size to the stream of the record once and returns its result; without a size everything is asked for")
    c.rule("setters", "setting a field of an IStream changes this one only")
    c.rule("delta-size", "the size of an ODeltaStream is the one of its stream at the time it is asked for")
    c.rule("ids", "to_hex_sha and to_bin_sha give the hexadecimal and binary form, and leave one as it is which has this form already")
    c.rule("errors", "a BadObject can be printed, whatever form of id it was made of")
    I = c.I

    def mk(cls, st, over=None):
        names, order = SHAPES[cls]
        vals = {}
        args = []
        for n in names:
            v = (over or {}).get(n)
            if v is None:
                v = opaque(st, "stream") if n == "stream" else A(n)
            vals[n] = v
            args.append(v)
        outs = c.run(cls, c.anchor("gitdb.base." + cls), args, st)
        r = [(s, v) for k, s, v in outs if k == "ret"]
        if not r:
            for k, s, v in outs:
                c.ob("attributes", False, "gitdb.base." + cls, "can't be created: %s" % c.excname(s, v), s.events())
            raise Anchor("gitdb.base.%s constructor" % cls)
        r[0][0].trace = None
        return r[0] + (vals,)

    def value(st, r, name, rule, want, cls):
        got = attr(c, st.fork(), r, name)
        c.ob(rule, None if not got else True, "gitdb.base.%s.%s" % (cls, name), "is available")
        for s, v in got:
            c.ob(rule, same(v, want), "gitdb.base.%s.%s" % (cls, name), "is the value given, is %s" % show(v)[:60])

    def attributes(c):
        for cls, (names, order) in SHAPES.items():
            try:
                st, r, vals = mk(cls, I.fresh_state())
            except Anchor as e:
                c.ob("attributes", None, str(e), "no instance")
                continue
            for n in names:
                if n[0] != "#":
                    value(st, r, n, "attributes", vals[n], cls)
            if cls == "IStream":
                value(st, r, "error", "attributes", NONE, cls)
                st2, r2 = one(c, "gitdb.base.IStream", [A("type"), A("size"), A("stream")], I.fresh_state())
                value(st2, r2, "binsha", "attributes", NONE, cls)
            if cls in TUPLE:
                for i, n in enumerate(order):
                    if n is None:
                        continue
                    X = []
                    got = I.getitem(r, const(i), st.fork(), drv(c), X, NODE)
                    c.ob("indices", True if got else None, "gitdb.base.%s[%d]" % (cls, i), "is available")
                    for s, v in got:
                        c.ob("indices", same(v, vals[n]), "gitdb.base.%s[%d]" % (cls, i), "is the %s, is %s" % (n, show(v)[:60]))
            if "binsha" in names:
                for s, v in attr(c, st.fork(), r, "hexsha"):
                    h = hexof(v)
                    c.ob("hexsha", True if h.op == "b2a" and h.args[0] is vals["binsha"] else None if unknown(h) else False, "gitdb.base.%s.hexsha" % cls, "is the hexadecimal form of binsha, is %s" % show(v)[:60])

    def types(c):
        for cls in ("OInfo", "OStream", "ODeltaStream", "IStream", "OPackInfo", "ODeltaPackInfo", "OPackStream", "ODeltaPackStream"):
            for num, nm in TYPES.items():
                pack = "type_id" in SHAPES[cls][0]
                if pack:
                    st, r, vals = mk(cls, I.fresh_state(), {"type_id": const(num)})
                    ask, want = "type", const(nm)
                else:
                    st, r, vals = mk(cls, I.fresh_state(), {"type": const(nm)})
                    ask, want = "type_id", const(num)
                    if cls == "IStream":
                        continue
                got = attr(c, st.fork(), r, ask)
                c.ob("types", True if got else False, "gitdb.base.%s.%s" % (cls, ask), "is defined for %s/%d" % (nm.decode(), num))
                for s, v in got:
                    c.ob("types", same(v, want), "gitdb.base.%s.%s" % (cls, ask), "of %s/%d, is %s" % (nm.decode(), num, show(v)[:40]))

    def read(c):
        for cls in ("OStream", "ODeltaStream", "OPackStream", "ODeltaPackStream", "IStream"):
            for how in ("size", "default"):
                st, r, vals = mk(cls, I.fresh_state())
                n = sym("n", "int")
                cnt = 0
                for k, s, v in c.run("%s.read(%s)" % (cls, how), c.method(r, st, "read"), [n] if how == "size" else [], st.fork()):
                    cnt += 1
                    if k != "ret":
                        c.ob("read", False, "gitdb.base.%s.read" % cls, "raises %s" % c.excname(s, v), s.events())
                        continue
                    ev = [e for e in flat(s.events()) if e.kind == "call" and e.label == ".read"]
                    c.ob("read", len(ev) == 1, ev[0] if ev else "gitdb.base.%s.read" % cls, "reads once", s.events())
                    if len(ev) == 1:
                        a = [x for x in ev[0].args if x is not vals["stream"]]
                        ok = ev[0].args[0] is vals["stream"] and (a == [n] and not ev[0].kw if how == "size" else
                                                                  not a or len(a) == 1 and is_const(a[0]) and (cval(a[0]) is None or isinstance(cval(a[0]), int) and cval(a[0]) < 0))
                        c.ob("read", ok, ev[0], "asks its own stream for %s" % ("as much as was asked for" if how == "size" else "everything"), s.events())
                        c.ob("read", same(v, ev[0].res), ev[0], "returns what it got", s.events())
                c.ob("read", True if cnt else None, "gitdb.base.%s.read" % cls, "%d paths" % cnt)

    def setters(c):
        fields = ["binsha", "type", "size", "stream", "error"]
        for f in fields:
            st, r, vals = mk("IStream", I.fresh_state())
            vals["error"] = NONE
            new = sym("new", None)
            st = st.fork()
            X = []
            outs = I.setattr(r, f, new, st, drv(c), X, NODE)
            sts = [o[0] if isinstance(o, tuple) else o for o in outs]
            c.ob("setters", True if sts and not X else False if X else None, "gitdb.base.IStream.%s" % f, "can be set")
            # a second time, too
            again = sym("newer", None)
            for s in list(sts):
                outs = I.setattr(r, f, again, s.fork(), drv(c), X, NODE)
                c.ob("setters", True if outs and not X else False if X else None, "gitdb.base.IStream.%s" % f, "can be set again")
                for o in outs:
                    s2 = o[0] if isinstance(o, tuple) else o
                    for g in fields:
                        for s3, v in attr(c, s2.fork(), r, g):
                            c.ob("setters", same(v, again if g == f else vals[g]), "gitdb.base.IStream.%s" % g, "after setting %s twice is %s" % (f, show(v)[:60]))
            for s in sts:
                for g in fields:
                    for s2, v in attr(c, s.fork(), r, g):
                        c.ob("setters", same(v, new if g == f else vals[g]), "gitdb.base.IStream.%s" % g, "after setting %s is %s" % (f, show(v)[:60]))
                if f == "binsha":
                    for s2, v in attr(c, s.fork(), r, "hexsha"):
                        h = hexof(v)
                        c.ob("hexsha", True if h.op == "b2a" and h.args[0] is new else None if unknown(h) else False, "gitdb.base.IStream.hexsha", "follows binsha, is %s" % show(v)[:60])

    def deltasize(c):
        st, r, vals = mk("ODeltaStream", I.fresh_state())
        sid = vals["stream"].args[0]
        for want in (sym("size1", "int"), sym("size2", "int")):
            st.w(sid).f["size"] = want
            got = attr(c, st.fork(), r, "size")
            c.ob("delta-size", True if got else None, "gitdb.base.ODeltaStream.size", "is available")
            for s, v in got:
                c.ob("delta-size", same(v, want), "gitdb.base.ODeltaStream.size", "is its stream's, is %s" % show(v)[:60])

    def ids(c):
        for fn, own, other, op in (("to_hex_sha", 40, 20, "b2a"), ("to_bin_sha", 20, 40, "a2b")):
            for ln in (own, other):
                st = I.fresh_state()
                x = sym("id", "bytes")
                st.facts.assume(c_eq0(lin_add(length(x), const(-ln))), True)
                n = 0
                for k, s, v in c.run("%s(%d)" % (fn, ln), c.anchor("gitdb.util." + fn), [x], st):
                    if k != "ret":
                        if fn == "to_hex_sha" or ln == own:
                            c.ob("ids", False, "gitdb.util." + fn, "raises %s for an id of length %d" % (c.excname(s, v), ln), s.events())
                        continue
                    n += 1
                    r = same(v, x) if ln == own else True if v.op == op and v.args[0] is x else None if unknown(v) else False
                    c.ob("ids", r, "gitdb.util." + fn, "of length %d gives %s" % (ln, show(v)[:60]), s.events())
                c.ob("ids", True if n else None, "gitdb.util." + fn, "%d paths for length %d" % (n, ln))
        for cls in ("BadObject",):
            for t in ("bytes", "str"):
                for ln in (20, 40, None):
                    if t == "str" and ln == 20:
                        continue
                    st = I.fresh_state()
                    x = sym("id", t)
                    if ln:
                        st.facts.assume(c_eq0(lin_add(length(x), const(-ln))), True)
                    st, e = one(c, "gitdb.exc." + cls, [x], st)
                    n = 0
                    for k, s, v in c.run("str(%s(%s))" % (cls, t), c.method(e, st, "__str__"), [], st):
                        n += 1
                        c.ob("errors", k == "ret", "gitdb.exc.%s.__str__" % cls, "a message results for an id of type %s%s" % (t, " and length %d" % ln if ln else ""), s.events())
                    c.ob("errors", True if n else None, "gitdb.exc." + cls, "%d paths" % n)

    return [("attributes", attributes), ("types", types), ("read", read), ("setters", setters), ("delta-size", deltasize), ("ids", ids)]


import ast
NODE = ast.Pass()
NODE.lineno = 0


def drv(c):
    from ..interp import Fr, Func
    return Fr(Func(None, c.I.mods["gitdb"], "<driver>"), None, c.I.mods["gitdb"], 0, ())


# ------------------------------------------------------------------ C27

MEM = "gitdb.db.mem.MemoryDB"
WM = "gitdb/db/mem.py MemoryDB"
S1, S2, S3 = const(b"\x11" * 20), const(b"\x22" * 20), const(b"\x33" * 20)


def mem(c, st=None):
    return one(c, MEM, [], st if st is not None else c.I.fresh_state())


def put(c, st, db, sha, typ, size, src, M=None, name="store", **kw):
    """db.store of an object in object format: [(state, istream)]"""
    st, ist = one(c, "gitdb.base.IStream", [typ, size, src, sha], st)
    return [(s, v) for k, s, v in c.run(name, c.method(db, st, "store"), [ist], st, models=M or {}, **kw) if k == "ret"]


def rd(vals):
    """read() of given sources returns the given bytes"""
    def h(I, st, args, kw, fr, X, n):
        st.emit(Ev("call", ".read", tuple(args), kw, vals.get(args[0]), I.loc(n, fr), "ok", fr.stack))
        if args[0] in vals and (len(args) == 1 or is_const(args[1]) and (cval(args[1]) is None or cval(args[1]) < 0)):
            return [(st, vals[args[0]])]
        return [(st, I.fresh(st, "partial", "bytes"))]
    return h


def ids_equal(s, got, want):
    if len(got) != len(want):
        return False
    left = list(want)
    for g in got:
        for w in left:
            if g is w:
                left.remove(w)
                break
        else:
            return False if not unknown(g) else None
    return True


def c27(c):
    c.rule("kept", "a stored object is found under its id, with its type and size, and no other one is")
    c.rule("compressed", "what is kept of a stored object is all of the compressed form of '<type> <size>\\0' and the bytes read, or exactly the bytes of a stream in object format")
    c.rule("content", "the stream of an object delivers its content from the first byte on, whenever it is asked for, whatever was read before")
    c.rule("read", "reading from it returns exactly the next bytes of the content")
    c.rule("feed", "zlib is given the compressed bytes in order")
    c.rule("listing", "size() and sha_iter() name each stored id once")
    c.rule("missing", "an id which isn't stored raises BadObject")
    c.rule("failed", "a store which fails leaves the database as it was")
    c.rule("copy", "stream_copy passes each object the target doesn't have to the target's store, in order, with its id, type, size and all of its compressed form, and counts them")
    I = c.I

    def record(c, s, db, sha, want, path, opts=None):
        """info/stream of a stored object"""
        for m in ("info", "stream"):
            n = 0
            for k, s2, v in c.run(m, c.method(db, s, m), [sha], s.fork(), **(opts or {})):
                if k != "ret":
                    c.ob("kept", False, WM + "." + m, "of a stored object raises %s" % c.excname(s2, v), s2.events())
                    continue
                n += 1
                for f, w in want.items():
                    for s3, x in attr(c, s2, v, f):
                        c.ob("kept", same(x, w) if not (f == "binsha" and x.op not in ("const", "sym")) else x is w, WM + "." + m, "%s is %s, expected %s" % (f, show(x)[:60], show(w)[:60]), s2.events())
            c.ob("kept", True if n else None, WM + "." + m, "%d paths" % n)

    def has(c, s, db, sha, want, rule="kept"):
        for m in ("has_object", "__contains__"):
            for k, s2, v in c.run(m, c.method(db, s, m), [sha], s.fork()):
                r = None
                if k == "ret":
                    r = s2.facts.ask(I.as_cond(v, s2))
                c.ob(rule, (r is want) if r is not None else False if k != "ret" else None, WM + "." + m, "is %s, expected %s" % (show(v) if k == "ret" else c.excname(s2, v), want), s2.events())

    def listing(c, s, db, want, rule="listing"):
        for k, s2, v in c.run("size", c.method(db, s, "size"), [], s.fork()):
            c.ob(rule, s2.facts.ask(eq(v, const(len(want)))) if k == "ret" and ty(v) == "int" else False if k != "ret" else None, WM + ".size", "is %s with %d objects" % (show(v)[:60], len(want)), s2.events())
        for k, s2, v in c.run("sha_iter", c.method(db, s, "sha_iter"), [], s.fork()):
            if k != "ret":
                c.ob(rule, False, WM + ".sha_iter", "raises %s" % c.excname(s2, v), s2.events())
                continue
            for k3, s3, l in c.run("list(sha_iter())", ext("builtins.list"), [v], s2):
                it = I.const_items(I.iterable(l, s3)) if k3 == "ret" else None
                c.ob(rule, None if it is None else ids_equal(s3, list(it), want), WM + ".sha_iter", "yields %s" % (show(l)[:80] if it is None else [show(x)[:30] for x in it]), s3.events())

    def stored(c):
        from .store import raises_all
        for raw in (False, True):
            st, db = mem(c)
            g = ghost(st)
            src = opaque(st, "source")
            t, size = sym("type", "bytes"), sym("size", "int")
            st.facts.assume(c_le0(scale(size, -1)), True)
            sha = sym("givensha", "bytes")
            if raw:
                st.facts.assume(c_eq0(lin_add(length(sha), const(-20))), True)
            st, ist = one(c, "gitdb.base.IStream", [t, size, src] + ([sha] if raw else []), st)
            has(c, st, db, S1, False, "missing")
            listing(c, st, db, [])
            n = 0
            for k, s, v in c.run("store", c.method(db, st, "store"), [ist], st, models={".read": reader(g)}, raises=raises_all):
                path = s.events()
                if k != "ret":
                    listing(c, s, db, [], "failed")
                    continue
                n += 1
                c.ob("kept", v is ist, WM + ".store", "returns the stream it was given", path)
                for s2, b in attr(c, s, ist, "binsha"):
                    if raw:
                        c.ob("kept", b is sha, WM + ".store", "the id stays the given one, is %s" % show(b)[:60], path)
                    has(c, s2, db, b, True)
                    record(c, s2, db, b, {"binsha": b, "type": t, "size": size}, path)
                    listing(c, s2, db, [b])
                    other = sym("other", "bytes")
                    s4 = s2.fork()
                    s4.facts.assume(c_eq(other, b), False)
                    has(c, s4, db, other, False)
                    for m in ("info", "stream"):
                        for k5, s5, v5 in c.run(m, c.method(db, s4, m), [other], s4.fork()):
                            c.ob("missing", k5 == "exc" and c.is_exc(s5, v5, "gitdb.exc.BadObject") is True, WM + "." + m, "of a missing object: %s" % ("returns" if k5 == "ret" else c.excname(s5, v5)), s5.events())
                    kept(c, s2, db, b, g, concat(bytes_of_type(t), const(b" "), dec_bytes(size), const(b"\0")), raw, path)
            c.ob("kept", True if n else None, WM + ".store", "%d successful paths" % n)

    def kept(c, s, db, sha, g, hdr, raw, path):
        """the compressed data which the reader of the stored object works on"""
        loops = loops_of(path)
        for k, s2, v in c.run("stream", c.method(db, s, "stream"), [sha], s.fork()):
            if k != "ret":
                continue
            for s3, z in attr(c, s2, v, "stream"):
                for k4, s4, d in c.run("data", c.method(z, s3, "data"), [], s3):
                    if k4 != "ret":
                        continue
                    where = WM + ".store"
                    G = gp(s, g)
                    if raw:
                        c.ob("compressed", seq_eq(d, G, loops), where, "keeps the bytes of the stream, keeps %s" % show(d)[:80], path)
                        rds = [e for e in flat(path) if e.kind == "call" and e.label == ".read"]
                        full = [e for e in rds if not [a for a in e.args[1:] if not (is_const(a) and (cval(a) is None or cval(a) < 0))]]
                        if len(rds) == 1:
                            c.ob("compressed", len(full) == 1, rds[0], "everything is read", path)
                        continue
                    if d.op == "bytes" and d.args[0].op == "zcompress":
                        c.ob("compressed", seq_eq(d.args[0].args[0], concat(hdr, G), loops), where, "keeps the compressed object", path)
                        continue
                    zs = [o for _, o in find(s4, "#compress")]
                    if len(zs) != 1:
                        c.ob("compressed", None, where, "%d compressors" % len(zs), path)
                        continue
                    c.ob("compressed", seq_eq(zs[0].f["fed"], concat(hdr, G), loops), where, "header and content are compressed", path)
                    c.ob("compressed", zs[0].f["flushed"] is TRUE, where, "the compressor was flushed before the data was taken", path)
                    c.ob("compressed", seq_eq(d, zs[0].f["out"], loops), where, "all of its output is kept, kept is %s" % show(d)[:100], path)

    def several(c):
        st, db = mem(c)
        a, b, a2 = opaque(st, "srcA"), opaque(st, "srcB"), opaque(st, "srcA2")
        da, dbb, da2 = sym("bytesA", "bytes"), sym("bytesB", "bytes"), sym("bytesA2", "bytes")
        M = {".read": rd({a: da, b: dbb, a2: da2})}
        ta, tb = sym("typeA", "bytes"), sym("typeB", "bytes")
        na, nb = sym("sizeA", "int"), sym("sizeB", "int")
        n = 0
        for s, _ in put(c, st, db, S1, ta, na, a, M):
            for s2, _ in put(c, s, db, S2, tb, nb, b, M):
                for s3, _ in put(c, s2, db, S1, ta, na, a2, M):
                    n += 1
                    for x in (S1, S2):
                        has(c, s3, db, x, True)
                    has(c, s3, db, S3, False)
                    record(c, s3, db, S1, {"binsha": S1, "type": ta, "size": na}, s3.events())
                    record(c, s3, db, S2, {"binsha": S2, "type": tb, "size": nb}, s3.events())
                    listing(c, s3, db, [S1, S2])
                    for sha, want in ((S1, (da, da2)), (S2, (dbb,))):
                        for k, s4, v in c.run("stream", c.method(db, s3, "stream"), [sha], s3.fork()):
                            if k == "ret":
                                for s5, z in attr(c, s4, v, "stream"):
                                    for k6, s6, d in c.run("data", c.method(z, s5, "data"), [], s5):
                                        c.ob("compressed", (d in want) if not unknown(d) else None, WM + ".store", "keeps the bytes of its own stream, keeps %s" % show(d)[:60], s6.events())
        c.ob("kept", True if n else None, WM + ".store", "%d paths" % n)

    def twice(c):
        """streams which are still to be compressed: the second one doesn't see the first"""
        st, db = mem(c)
        n = 0
        srcs = []
        for i in (1, 2):
            src = opaque(st, "source%d" % i)
            g = ghost(st)
            t, size = sym("type%d" % i, "bytes"), sym("size%d" % i, "int")
            st.facts.assume(c_le0(scale(size, -1)), True)
            st, ist = one(c, "gitdb.base.IStream", [t, size, src], st)
            srcs.append((src, g, t, size, ist))
        M = {src: reader(g) for src, g, t, size, ist in srcs}

        def read(I, st, args, kw, fr, X, n):
            return M[args[0]](I, st, args, kw, fr, X, n) if args[0] in M else I.effect(".read", args, kw, st, fr, X, n, "bytes")
        for k, s, v in c.run("store", c.method(db, st, "store"), [srcs[0][4]], st, models={".read": read}):
            if k != "ret":
                continue
            z1 = [z for z, _ in find(s, "#compress")]
            for k, s2, v in c.run("second store", c.method(db, s, "store"), [srcs[1][4]], s, models={".read": read}):
                if k != "ret":
                    continue
                n += 1
                path = s2.events()
                src, g, t, size, ist = srcs[1]
                P = concat(bytes_of_type(t), const(b" "), dec_bytes(size), const(b"\0"), gp(s2, g))
                loops = loops_of(path)
                for s3, b in attr(c, s2, ist, "binsha"):
                    h = strip_hex(b)
                    c.ob("kept", seq_eq(h.args[0], P, loops) if h.op == "sha1" else None if unknown(h) else False, WM + ".store", "the id of a second object is that of its own header and content", path)
                    zs = [o for z, o in find(s3, "#compress") if z not in z1]
                    if len(zs) == 1:
                        c.ob("compressed", seq_eq(zs[0].f["fed"], P, loops), WM + ".store", "only the second object is compressed for it", path)
        c.ob("kept", True if n else None, WM + ".store", "%d paths" % n)

    def content(c):
        from .zstream import Stream, step, HEADS, R
        n0 = sym("n0", "int")
        for raw in (True, False):
            for head, S in (HEADS if c.thorough else HEADS[1:4]):
                z = Stream(c, len(head) + S, head)
                z.feed = c
                origin = const(len(head))
                st, db = mem(c, z.st)
                src = opaque(st, "source")
                M = dict(z.M)
                if raw:
                    M[".read"] = lambda I, st, args, kw, fr, X, n: [(st, z.m)] if args[0] is src else z.bioread(I, st, args, kw, fr, X, n)
                    sts = put(c, st, db, S1, const(head.split()[0]), const(S), src, M, recursion=0, unroll={"*": 4})
                    sts = [(s, S1) for s, _ in sts]
                else:
                    del M["io.BytesIO"], M[".read"], M[".getvalue"], M[".getbuffer"], M[".tell"]
                    M["gitdb.stream.ZippedStoreShaWriter.getvalue"] = lambda I, st, args, kw, fr, X, n: [(st, z.m)]
                    M[".read"] = reader(None)
                    st, ist = one(c, "gitdb.base.IStream", [const(head.split()[0]), const(S), src], st)
                    sts = []
                    for k, s, v in c.run("store", c.method(db, st, "store"), [ist], st, models=M, recursion=0):
                        if k == "ret":
                            sts += attr(c, s, ist, "binsha")
                M = dict(z.M)

                def ask(cur, before):
                    out = []
                    for s, sha in cur:
                        for k, s2, v in c.run("stream %s" % before, c.method(db, s, "stream"), [sha], s.fork(), models=M, recursion=0, unroll={"*": 4}):
                            if k != "ret":
                                c.ob("content", False, WM + ".stream", "raises %s" % c.excname(s2, v), s2.events())
                                continue
                            for s3, o in attr(c, s2, v, "stream"):
                                if o.op != "ref" or "_zip" not in s3.get(o.args[0]).f:
                                    c.ob("content", None, WM + ".stream", "the stream is %s" % show(o)[:60], s3.events())
                                    continue
                                out.append((s3, o, sha))
                    return out
                m = 0
                sts = sts[:2]
                cur = ask(sts, "first")
                for n in (None, n0):
                    nx = []
                    for s, o, sha in cur:
                        r = step(c, z, s.fork(), o, origin, n, const(S), origin)
                        m += len(r)
                        nx += [(s2, sha) for s2, o2, end in r]
                    for s, o, sha in ask(nx, "again"):
                        m += len(step(c, z, s, o, origin, None, const(S), origin))
                c.ob("content", True if m else None, WM + ".stream", "%d reads (%s)" % (m, head))

    def copy(c):
        st, db = mem(c)
        a, b = opaque(st, "srcA"), opaque(st, "srcB")
        da, dbb = sym("bytesA", "bytes"), sym("bytesB", "bytes")
        M = {".read": rd({a: da, b: dbb})}
        ta, tb = sym("typeA", "bytes"), sym("typeB", "bytes")
        na, nb = sym("sizeA", "int"), sym("sizeB", "int")
        data = {S1: (ta, na, da), S2: (tb, nb, dbb)}
        W = WM + ".stream_copy"
        for s, _ in put(c, st, db, S1, ta, na, a, M):
            for s2, _ in put(c, s, db, S2, tb, nb, b, M):
                s2.trace = None
                for ask in ([], [S1], [S2, S1], [S1, S2], [S1, S3, S2], [S3]):
                    def hasobj(I, st, args, kw, fr, X, n):
                        st.emit(Ev("call", ".has_object", tuple(args), kw, None, I.loc(n, fr), "ok", fr.stack))
                        s2 = st.fork()
                        cond = T("in", args[1], "target")
                        return [(x, y) for x, y, ok in ((st, TRUE, st.facts.assume(cond, True)), (s2, FALSE, s2.facts.assume(cond, False))) if ok]

                    def store(I, st, args, kw, fr, X, n):
                        I.may_raise(".store", args, kw, st, fr, X, n)
                        st.emit(Ev("call", ".store", tuple(args), kw, args[1], I.loc(n, fr), "ok", fr.stack))
                        f = I.cls_lookup(st.get(args[1].args[0]).cls, "read") if args[1].op == "ref" else None
                        out = []
                        if f is None:
                            return [(st, args[1])]
                        for st2, d in I.call(T("bound", f, args[1]), [], {}, st, fr, X, n):
                            st2.emit(Ev("copied", ".store", (args[1], d), None, None, I.loc(n, fr), "ok", fr.stack))
                            out.append((st2, args[1]))
                        return out
                    base = s2.fork()
                    odb = opaque(base, "target")
                    itb = base.new(ext("builtins.list"), {}, T("seq", *ask))
                    for k, s3, v in c.run("stream_copy(%d)" % len(ask), c.method(db, base, "stream_copy"), [itb, odb], base, models={".has_object": hasobj, ".__contains__": hasobj, ".store": store, ".read": rd({a: da, b: dbb})},
                                          unroll={"*": 4}, raises=lambda l: "builtins.OSError" if l == ".store" else None):
                        path = s3.events()
                        want = []
                        miss = False
                        failed = any(e.kind == "call" and e.label == ".store" and str(e.out).startswith("raise") for e in flat(path))
                        for x in ask:
                            r = s3.facts.ask(T("in", x, "target"))
                            if r is None and k == "ret" or r is None and not failed and c.is_exc(s3, v, "gitdb.exc.BadObject"):
                                # the target wasn't asked
                                q = [e for e in flat(path) if e.kind == "call" and e.args and e.args[0] is odb and e.label != ".store"
                                     and (len(e.args) < 2 or e.args[1] is x or unknown(e.args[1]))]
                                if x is S3 or any(e.kind == "copied" for e in flat(path)):
                                    c.ob("copy", None if q else False, W, "the target is asked whether it has the object", path)
                            if r is True:
                                continue
                            if x is S3:
                                miss = True
                                break
                            want.append(x)
                        done = [e for e in flat(path) if e.kind == "copied"]
                        if failed:
                            c.ob("copy", k == "exc", W, "a failing store of the target is reported", path)
                            want = want[:len(done)]
                        elif miss:
                            c.ob("missing", k == "exc" and c.is_exc(s3, v, "gitdb.exc.BadObject") is True, W, "an object which is in neither raises BadObject: %s" % ("returns" if k == "ret" else c.excname(s3, v)), path)
                            want = want[:len(done)] if len(done) < len(want) else want
                        else:
                            c.ob("copy", k == "ret" and v is const(len(want)), W, "returns %s for %d copied objects" % (show(v) if k == "ret" else c.excname(s3, v), len(want)), path)
                        c.ob("copy", len(done) == len(want), W, "%d objects are stored in the target, %d expected" % (len(done), len(want)), path)
                        for e, x in zip(done, want):
                            t, n, d = data[x]
                            for f, w in (("binsha", x), ("type", t), ("size", n)):
                                for s4, y in attr(c, s3, e.args[0], f):
                                    c.ob("copy", same(y, w), e, "%s is %s, expected %s" % (f, show(y)[:40], show(w)[:40]), path)
                            c.ob("copy", e.args[1] is d if not unknown(e.args[1]) else None, e, "its data is %s, expected %s" % (show(e.args[1])[:60], show(d)), path)

    return [("stored", stored), ("several", several), ("twice", twice), ("content", content), ("copy", copy)]
