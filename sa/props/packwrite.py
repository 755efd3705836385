"""C16, C17: writing packs."""
from .common import *
from ..core import crc_of, int_eq_all, seq_eq, parts, loops_of, flat
from ..interp import Ev
from ..extmodels import tobytes

W = "gitdb/pack.py PackEntity.write_pack"


def header(t, z):
    """the entry header of a type and a size; C12 decides what it consists of"""
    return T("res", "entryheader", (t, z), "bytes")


def clsmethod(c, cls, name):
    k = c.anchor(cls)
    f = c.I.cls_lookup(k, name)
    if f is None:
        raise Anchor(cls + "." + name)
    if f.op in ("classmethod", "bound"):
        return T("bound", f.args[0], k)
    if f.op == "staticmethod":
        return f.args[0]
    return T("bound", f, k)


def gp(s, g):
    return s.get(g.args[0]).p


class Write:
    """write_pack over n objects with unrestricted type, size, id and content, the content delivered in full chunks"""

    def __init__(self, c, n, kind, count, with_index, fails=None, **opts):
        I = c.I
        st = I.fresh_state()
        self.c = c
        self.objs, refs = [], []
        for i in range(n):
            t, z, b = sym("type%d" % i, "int"), sym("size%d" % i, "int"), sym("sha%d" % i, "bytes")
            st.facts.assume(c_le0(scale(z, -1)), True)
            g = ghost(st)
            s = opaque(st, "source%d" % i)
            st.w(s.args[0]).f["#ghost"] = g
            o = opaque(st, "obj%d" % i)
            f = st.w(o.args[0]).f
            f.update({"type_id": t, "size": z, "binsha": b, "stream": s, "read": T("bound", ext("src.read"), s)})
            self.objs.append((t, z, b, g))
            refs.append(o)
        self.p, self.x = ghost(st), ghost(st)
        self.x2 = ghost(st)             # the index: entries and what was done with them
        st.w(self.x2.args[0]).p = T("seq")
        w = self

        def read(I, st, args, kw, fr, X, n):
            o = args[0]
            g = st.get(o.args[0]).f.get("#ghost") if o.op == "ref" else None
            if g is None:
                return I.effect("read", args, kw, st, fr, X, n, "bytes")
            return reader(g)(I, st, args, kw, fr, X, n)

        def out(g, lbl):
            def h(I, st, args, kw, fr, X, n):
                I.may_raise(lbl, args, kw, st, fr, X, n)
                d = I.val(args[-1], st)
                st.emit(Ev("call", lbl, (d,), kw, NONE, I.loc(n, fr), "ok", fr.stack))
                ghost_add(st, g, d)
                # the result of the function is up to the caller
                return [(st, I.fresh(st, "written", None))]
            return h

        def hdr(I, st, args, kw, fr, X, n):
            r = header(args[0], args[1])
            st.facts.assume(c_le0(lin_add(const(1), length(r), -1)), True)
            return [(st, r)]

        def append(I, st, args, kw, fr, X, n):
            o = st.w(w.x2.args[0])
            o.p = T("seq", *(o.p.args + (tup(*args[1:4]),)))
            if len(args) != 4:
                o.f["#odd"] = TRUE
            return [(st, NONE)]

        def iwrite(I, st, args, kw, fr, X, n):
            st.emit(Ev("call", "index.write", tuple(args[1:]), kw, NONE, I.loc(n, fr), "ok", fr.stack))
            r = []
            for s, v in I.call(args[2], [T("res", "indexbytes", (args[1],), "bytes")], {}, st, fr, X, n):
                r.append((s, T("res", "indexsha", (args[1],), "bytes")))
            return r

        def ilen(I, st, args, kw, fr, X, n):
            return [(st, NONE)]
        self.M = {"src.read": read, ".read": read, "pack.write": out(self.p, "pack.write"), "idx.write": out(self.x, "idx.write"),
                  "gitdb.fun.create_pack_object_header": hdr, "gitdb.pack.IndexWriter.append": append, "gitdb.pack.IndexWriter.write": iwrite}
        self.n, self.count = n, count
        items = T("seq", *refs) if kind != "tuple" else tup(*refs)
        it = items if kind == "tuple" else st.new(ext("builtins.list"), p=items)
        if kind == "iter":
            it = st.new(ext("#iter"), p=items)
        sink = opaque(st, "sink")
        self.it, self.refs = it, refs
        a = [it, T("bound", ext("pack.write"), sink)]
        kw = {}
        if with_index:
            kw["index_write"] = T("bound", ext("idx.write"), sink)
        if count is not None:
            kw["object_count"] = const(count)
        self.with_index = with_index
        self.outs = c.run("write_pack(%s of %d, count %s, %s index)" % (kind, n, count, "with" if with_index else "without"),
                          clsmethod(c, "gitdb.pack.PackEntity", "write_pack"), a, st, kw, models=self.M, raises=fails, **opts)


def c16(c):
    c.rule("pack-bytes", "the pack is the header with the number of entries, the entries (header and complete compressed content) in the order of the objects, and the SHA-1 of all bytes before")
    c.rule("content", "the bytes compressed into an entry are exactly what its stream delivered, and as many as its header says")
    c.rule("index-entry", "the index lists each object with its id, the checksum of the bytes of its entry, and the position of its entry")
    c.rule("result", "the SHA-1 at the end of the pack and the one of the index (or None) are returned; the index is written once, for this pack")
    c.rule("count", "a ValueError is raised iff fewer objects were delivered than promised; no more than promised are written")
    c.rule("accepts", "objects whose streams deliver what their sizes say are not refused")
    c.rule("propagates", "a failing read, write or compression never ends in a successful return")
    c.rule("coverage", "every combination of number of objects, promised number, kind of iterable and index was analysed")

    def run(n, kind, count, with_index, **opts):
        def part(c):
            x = Write(c, n, kind, count, with_index, **opts)
            expect = n if not count else count
            name = "%s of %d, count %s" % (kind, n, count)
            done = 0
            for k, s, v in x.outs:
                path = s.events()
                loops = loops_of(path)
                f = s.facts
                if opts and (loops or k == "ret"):
                    continue
                if k == "exc":
                    if expect > n:
                        if c.is_exc(s, v, "ValueError"):
                            done += 1
                            c.ob("count", True, W, name)
                            continue
                    rd = [e for e in path if e.kind == "call" and e.label == ".read"]
                    last = max([i for i, e in enumerate(path) if e.kind == "loop"] or [-1])
                    if last >= 0 and not any(e.kind == "call" and e.label == ".read" for e in path[last:]):
                        # not known how the last read ended, see below
                        continue
                    if not rd:
                        c.ob("accepts", False, W, "%s: fails with %s" % (name, c.excname(s, v)), path)
                        continue
                    e = rd[-1]
                    num = [a for a in e.args[1:] if ty(a) == "int" or a.op in ("lin", "min", "max")]
                    short = f.ask(c_le0(lin_add(lin_add(length(e.res), const(1)), num[-1], -1))) if num else None
                    ok = short
                    for t, z, b, g in x.objs:
                        d = lin_add(length(gp(s, g)), z, -1)
                        if f.ask(c_le0(lin_add(const(1), d, -1))) is True:
                            ok = True
                    if short is True:
                        # the source ended: what it delivered before must differ from the size
                        cur = [o for o in x.objs if s.get(e.args[0].args[0]).f.get("#ghost") is o[3]]
                        ok = True if not cur else any(f.ask(c_eq0(d)) is False for d in [lin_add(length(gp(s, cur[0][3])), cur[0][1], -1)] + by_counter(lin_add(length(gp(s, cur[0][3])), cur[0][1], -1), loops))
                    c.ob("accepts", ok if ok is not None else False, e, "%s: fails with %s although the stream delivers what its size says" % (name, c.excname(s, v)), path)
                    continue
                if expect > n:
                    c.ob("count", False, W, "%s: fewer objects than promised are accepted" % name, path)
                    continue
                done += 1
                m = expect
                got = v.args if v.op in ("tuple", "seq") else None
                zs = sorted(find(s, "#compress"), key=lambda z: z[0].args[0])
                whole = concat(T("pack", *()) if False else const(b""))
                if len(zs) != m:
                    c.ob("content", None if not zs else False, W, "%s: %d compressors for %d objects" % (name, len(zs), m), path)
                    continue
                pre = beheader(m)
                starts = []
                for i in range(m):
                    t, z, b, g = x.objs[i]
                    zo = zs[i][1].f
                    starts.append(pre)
                    pre = concat(pre, header(t, z), zo["out"])
                    rd = first(path, ".read")
                    c.ob("content", seq_eq(zo["fed"], gp(s, g), loops, f), rd or W, "%s: object %d: compressed what was read" % (name, i), path)
                    c.ob("content", zo["flushed"] is TRUE, rd or W, "%s: object %d: compressor is flushed" % (name, i), path)
                    c.ob("content", int_eq_all(length(gp(s, g)), z, f, loops) or False, rd or W, "%s: object %d: as many bytes as its header says" % (name, i), path)
                for i in range(m, n):
                    c.ob("count", gp(s, x.objs[i][3]) is const(b""), W, "%s: object %d is not touched" % (name, i), path)
                if kind == "iter" and count:
                    left = s.get(x.it.args[0]).p
                    ok = None if left.op not in ("seq", "tuple") or "#lazy" in s.get(x.it.args[0]).f else list(left.args) == x.refs[m:]
                    c.ob("count", ok, W, "%s: %s objects are left in the iterator" % (name, len(left.args) if ok is not None else "?"), path)
                P = gp(s, x.p)
                ps = parts(P)
                w = first(path, "pack.write") or W
                tr = sha_of(got[0]) if got and len(got) == 2 else None
                if tr is None:
                    c.ob("result", None if not got or unknown(v) else False, W, "%s: result %s" % (name, show(v)[:60]), path)
                    continue
                c.ob("pack-bytes", bool(ps) and ps[-1] is got[0] or None, w, "%s: the pack ends with the SHA-1 returned" % name, path)
                c.ob("pack-bytes", seq_eq(concat(const(b""), *ps[:-1]), pre, loops, f), w, "%s: header and entries" % name, path)
                c.ob("pack-bytes", seq_eq(tr, pre, loops, f), w, "%s: the SHA-1 is that of all bytes before it" % name, path)
                iw = [e for e in flat(path) if e.kind == "call" and e.label == "index.write"]
                if not with_index:
                    c.ob("result", got[1] is NONE, W, "%s: index result without index %s" % (name, show(got[1])[:40]), path)
                    c.ob("result", not iw, iw[0] if iw else W, "%s: no index is written" % name, path)
                    continue
                c.ob("result", len(iw) == 1, iw[0] if iw else W, "%s: the index is written %d times" % (name, len(iw)), path)
                if len(iw) == 1:
                    c.ob("result", iw[0].args[0] is got[0], iw[0], "%s: the index refers to this pack" % name, path)
                    c.ob("result", gp(s, x.x) is T("res", "indexbytes", (got[0],), "bytes"), iw[0], "%s: all of the index and nothing else goes to its own function" % name, path)
                c.ob("result", got[1] is T("res", "indexsha", (got[0],), "bytes"), W, "%s: index result %s" % (name, show(got[1])[:40]), path)
                en = s.get(x.x2.args[0]).p.args
                c.ob("index-entry", len(en) == m, W, "%s: %d entries" % (name, len(en)), path)
                for i in range(min(m, len(en))):
                    t, z, b, g = x.objs[i]
                    zo = zs[i][1].f
                    a = en[i].args
                    c.ob("index-entry", a[0] is b, W, "%s: entry %d: id %s" % (name, i, show(a[0])[:40]), path)
                    e_bytes = concat(header(t, z), zo["out"])
                    if a[1].op == "crc32":
                        r = seq_eq(a[1].args[0], e_bytes, loops, f)
                    else:
                        r = None if unknown(a[1]) or a[1].op in ("mu", "res") else False
                    c.ob("index-entry", r, W, "%s: entry %d: checksum %s" % (name, i, show(a[1])[:80]), path)
                    r = int_eq_all(a[2], length(starts[i]), f, loops)
                    c.ob("index-entry", r if r is not None else False, W, "%s: entry %d: position %s" % (name, i, show(a[2])[:80]), path)
            if not opts:
                c.ob("coverage", True if done else None, W, "%s: %d paths" % (name, done))
        return part

    def errors(c):
        x = Write(c, 2, "list", None, True, fails=lambda l: "builtins.OSError" if l in ("pack.write", "idx.write", ".read", "compress.compress", "compress.flush") else None)
        n = 0
        for k, s, v in x.outs:
            path = s.events()
            bad = [e for e in flat(path) if e.kind == "call" and str(e.out).startswith("raise")]
            n += bool(bad)
            if bad:
                c.ob("propagates", k == "exc", bad[0], "an error of %s is reported" % bad[0].label, path)
        c.ob("propagates", True if n else None, W, "%d failing paths" % n)
    # refusals are looked at with up to four chunks per object
    out = [("errors", errors)] + [("accepts%d" % n, run(n, "list", None, True, unroll={"*": 5})) for n in (1, 2)]
    N = 5 if c.thorough else 3
    for with_index in (True, False):
        for n in range(0, N + 1):
            for kind in ("list", "iter", "tuple"):
                for count in (None, 0, n - 1, n, n + 1):
                    if count is not None and count < 0:
                        continue
                    if not with_index and not c.thorough and (kind != "list" or n == 0):
                        continue
                    if kind == "tuple" and not c.thorough and count is not None:
                        continue
                    out.append(("%s%d-%s-%s" % (kind, n, count, with_index), run(n, kind, count, with_index)))
    return out


def beheader(n):
    import struct
    return const(struct.pack(">LLL", 0x5041434b, 2, n))


def first(path, label):
    for e in flat(path):
        if e.kind == "call" and e.label == label and e.loc:
            return e
    return None


def sha_of(t):
    while t.op in ("bytes", "as", "a2b", "b2a") and t.args:
        t = t.args[-1] if isinstance(t.args[-1], Term) else t.args[0]
    if t.op == "sha1":
        return t.args[0]
    return None


# ------------------------------------------------------------------ C17

MOVES = {"os.rename", "os.replace", "os.link", "shutil.move", "os.renames"}
REMOVES = {"os.remove", "os.unlink"}


def c17(c):
    c.rule("temp-in-dir", "the temporary files lie in the directory which gets the pack, so that publishing is a rename within one file system")
    c.rule("complete", "each file gets its final name only after everything was written to it and its descriptor was closed")
    c.rule("order", "the pack gets its final name before its index does")
    c.rule("names", "the final names are pack-<hex of the pack's SHA-1>.pack and .idx in the directory, and the entity returned works on them")
    c.rule("cleanup", "on a failing path no temporary file stays behind")
    c.rule("fd-closed", "no descriptor stays open on any path")
    c.rule("propagates", "a failure is reported")
    c.rule("nothing-else", "nothing but the temporary files is removed, and nothing but the two final names comes into existence")
    W = "gitdb/pack.py PackEntity.create"
    FAIL = {"tempfile.mkstemp", "os.write", "os.close", "os.rename", "os.replace", "os.link", "os.fdopen", "file.write", "file.close", "write_pack", "os.fsync", "os.fchmod", "os.chmod"}

    def scenario(c, raises, short, count):
        I = c.I
        st = I.fresh_state()
        base = sym("dir", "str")
        psha, isha = sym("packsha", "bytes"), sym("indexsha", "bytes")
        for x in (psha, isha):
            st.facts.assume(c_eq0(lin_add(length(x), const(20), -1)), True)
        objs = opaque(st, "objects")
        level = sym("level", "int")
        P = [T("res", "packbytes", (i,), "bytes") for i in range(1 if short else 2)]
        X_ = [T("res", "idxbytes", (i,), "bytes") for i in range(1 if short else 2)]
        for x in P + X_:
            st.facts.assume(c_le0(lin_add(const(1), length(x), -1)), True)
        once = ghost(st)

        def write_pack(I, st, args, kw, fr, X, n):
            """the data is passed to the write functions in several pieces; any of them, and everything between them, may fail"""
            names = ("object_iter", "pack_write", "index_write", "object_count", "zlib_compression")
            a = list(args)
            if a and a[0].op == "cls":
                a = a[1:]
            a = dict(zip(names, a), **kw)
            st.emit(Ev("call", "write_pack", tuple(a.get(k, NONE) for k in names), {}, NONE, I.loc(n, fr), "ok", fr.stack))
            cur = [st]
            for fn, datas in (("pack_write", P), ("index_write", X_)):
                if a.get(fn, NONE) is NONE:
                    continue
                for d in datas:
                    nx = []
                    for s in cur:
                        I.may_raise("write_pack", [], {}, s, fr, X, n)
                        nx += [s2 for s2, v in I.call(a[fn], [d], {}, s, fr, X, n)]
                    cur = nx
            out = []
            for s in cur:
                I.may_raise("write_pack", [], {}, s, fr, X, n)
                out.append((s, tup(psha, isha if a.get("index_write", NONE) is not NONE else NONE)))
            return out

        def oswrite(I, st, args, kw, fr, X, n):
            from ..extmodels import m_oswrite
            data = I.val(args[1], st)
            out = []
            for s, k in m_oswrite(I, st, args, kw, fr, X, n):
                s.emit(Ev("wrote", "os.write", (args[0], slice_(data, ZERO, k)), {}, None, I.loc(n, fr), "ok", fr.stack))
                out.append((s, k))
            return out

        def fwrite(I, st, args, kw, fr, X, n):
            I.may_raise("file.write", args, kw, st, fr, X, n)
            fd = st.get(args[0].args[0]).f.get("#fd", NONE) if args[0].op == "ref" else NONE
            st.emit(Ev("wrote", "file.write", (fd, I.val(args[1], st)), {}, None, I.loc(n, fr), "ok", fr.stack))
            return [(st, length(args[1]))]
        gone = ghost(st)
        st.w(gone.args[0]).p = T("seq")

        def move(lbl):
            def h(I, st, args, kw, fr, X, n):
                r = I.effect(lbl, args, kw, st, fr, X, n)
                o = st.w(gone.args[0])
                o.p = T("seq", *(o.p.args + (args[0],)))
                return [(st, NONE)]
            return h

        def remove(I, st, args, kw, fr, X, n):
            if args[0] in st.get(gone.args[0]).p.args:
                X.append((st, I.mkexc(st, "builtins.FileNotFoundError", n, fr)))
                return []
            I.effect("os.remove", args, kw, st, fr, X, n)
            o = st.w(gone.args[0])
            o.p = T("seq", *(o.p.args + (args[0],)))
            return [(st, NONE)]

        def exists(I, st, args, kw, fr, X, n):
            if args[0] in st.get(gone.args[0]).p.args:
                return [(st, FALSE)]
            if args[0].op == "res" and args[0].args[0] == "tmppath":
                return [(st, TRUE)]
            return I.effect("os.path.exists", args, kw, st, fr, X, n, "bool")
        M = {"os.rename": move("os.rename"), "os.replace": move("os.replace"), "os.remove": remove, "os.unlink": remove,
             "os.path.exists": exists, "os.path.isfile": exists,
             "gitdb.pack.PackEntity.write_pack": write_pack, "os.write": oswrite, "file.write": fwrite}
        a = [objs, base] + ([sym("count", "int")] if count else [])
        outs = c.run("create(%s, %s)" % ("faults" if raises else "no faults", "partial writes" if short else "complete writes"),
                     clsmethod(c, "gitdb.pack.PackEntity", "create"), a, st, {"zlib_compression": level}, models=M, raises=raises, short_writes=short, unroll={"*": 4 if short else 5}, once=once if raises else None)
        return outs, base, psha, P, X_, objs, a, level, raises

    def check(c, outs, base, psha, P, X_, objs, a, level, raises):
        n = 0
        for k, s, v in outs:
            path = s.events()
            fl = flat(path)
            if any(e.kind == "loop" for e in path):
                if not raises:
                    # more partial writes than looked at
                    continue
                c.ob("complete", None, W, "a loop is not unrolled completely", path)
                continue
            failed = [e for e in fl if e.kind == "call" and str(e.out).startswith("raise")]
            if k == "ret" and failed:
                tolerable = [e for e in failed if e.label in REMOVES]
                if len(tolerable) < len(failed):
                    c.ob("propagates", False, failed[0], "a failing %s ends in a successful return" % failed[0].label, path)
            tmp = {}            # path -> fd
            openfd, data, live, closed, pub = set(), {}, set(), set(), []
            for e in fl:
                if e.kind == "wrote":
                    data[e.args[0]] = concat(data.get(e.args[0], const(b"")), e.args[1])
                    if any(t is not None and tmp.get(t) is e.args[0] for t, d, x in pub):
                        c.ob("complete", False, e, "written to after it was published", path)
                if e.kind != "call":
                    continue
                if e.label == "tempfile.mkstemp" and e.out == "ok":
                    fd, tp = e.res.args
                    tmp[tp] = fd
                    openfd.add(fd)
                    live.add(tp)
                    d = e.kw.get("dir")
                    c.ob("temp-in-dir", d is base if d is not None and d.op in ("sym", "const") else False if d is None or d is NONE else None, e, "temporary file in %s" % (show(d) if d is not None else "the default directory"), path)
                if e.label == "os.close" and e.args:
                    openfd.discard(e.args[0])
                    closed.add(e.args[0])
                if e.label in REMOVES and e.args:
                    if e.out == "ok":
                        live.discard(e.args[0])
                    c.ob("nothing-else", e.args[0] in tmp, e, "removes %s" % show(e.args[0])[:60], path)
                if e.label in MOVES and e.out == "ok" and len(e.args) > 1:
                    src, dst = e.args[:2]
                    c.ob("nothing-else", src in tmp, e, "moves %s" % show(src)[:60], path)
                    if src in tmp:
                        if e.label != "os.link":
                            live.discard(src)
                        fd = tmp[src]
                        pub.append((src, dst, data.get(fd, const(b""))))
                        c.ob("complete", fd not in openfd, e, "the descriptor is closed before publication", path)
            where = failed[-1] if failed else W
            c.ob("fd-closed", not openfd, where, "%d descriptors stay open" % len(openfd), path)
            # failures to remove a temporary file can't be cleaned up after
            norm = [e for e in failed if e.label in REMOVES and e.args and e.args[0] in live]
            c.ob("cleanup", not live or bool(norm), where, "%d temporary files stay behind (%s)" % (len(live), "failure" if k == "exc" else "success"), path)
            hx = T("b2a", psha)
            kinds = []
            for src, dst, d in pub:
                kd = None
                for ext_, full in ((".pack", P), (".idx", X_)):
                    if final_name(c, s, dst, base, psha, ext_):
                        kd = ext_
                        w = seq_eq(d, concat(const(b""), *full), loops_of(path), s.facts)
                        if w is not True and len(full) == 1:
                            w = covers(d, full[0], s.facts)
                        c.ob("complete", w if w is not None else None, where, "%s is published with %s" % (ext_, show(d)[:80]), path)
                c.ob("names", kd is not None or (None if unknown(dst) else False), where, "published as %s" % show(dst)[:120], path)
                kinds.append(kd)
            if None not in kinds:
                c.ob("order", kinds in ([], [".pack"], [".pack", ".idx"]), where, "published in the order %s" % kinds, path)
            if k == "ret":
                n += 1
                c.ob("names", len(pub) == 2, W, "%d files are published" % len(pub), path)
                wp = [e for e in fl if e.kind == "call" and e.label == "write_pack"]
                for e in wp:
                    c.ob("names", e.args[0] is objs, e, "the objects given are written", path)
                    c.ob("names", e.args[3] is (a[2] if len(a) > 2 else NONE), e, "the number of objects given is passed on", path)
                    c.ob("names", e.args[4] is level, e, "the compression level given is passed on", path)
                for what, getter in ((".pack", "pack"), (".idx", "index")):
                    for k2, s2, o in c.run(getter, c.method(v, s, getter), [], s.fork()):
                        if k2 != "ret":
                            continue
                        for k3, s3, q in c.run("path", c.method(o, s2, "path"), [], s2):
                            if k3 == "ret":
                                c.ob("names", final_name(c, s3, q, base, psha, what) or (None if unknown(q) else False), W, "the entity works on %s" % show(q)[:100], path)
        c.ob("complete", True if n else None, W, "%d successful paths" % n)

    def faults(c):
        check(c, *scenario(c, lambda l: ("builtins.Exception", "builtins.KeyboardInterrupt") if l == "write_pack" else "builtins.OSError" if l in FAIL else None, False, True))

    def partial(c):
        check(c, *scenario(c, None, True, False))
    return [("faults", faults), ("partial", partial)]


def covers(d, full, facts):
    """is a string made of consecutive parts of another one, with nothing left of that?"""
    at = ZERO
    for p in parts(d):
        if p is full and at is ZERO:
            at = length(full)
        elif p.op == "slice" and p.args[0] is full and p.args[1] is at:
            at = p.args[2] if p.args[2] is not NONE else length(full)
        else:
            return None if unknown(p) else False
    return at is length(full) or facts.ask(c_eq0(length(slice_(full, at, NONE)))) is True or facts.ask(c_eq0(lin_add(at, length(full), -1))) is True


def final_name(c, s, t, base, psha, ending):
    """is a path <base>/pack-<hex><ending>?"""
    if t.op == "concat" and t.args[1].op == "join_path":
        j = t.args[1]
        t = T("join_path", *(j.args[:-1] + (concat(const(""), j.args[-1], *t.args[2:]),)))
    if t.op == "join_path" and t.args[0] is base and len(t.args) == 2:
        t = t.args[1]
    else:
        return False
    from ..extmodels import decode
    hx = T("b2a", psha)
    for h in (hx, decode(hx), T("hexstr", hx)):
        for w in (concat(const("pack-"), h, const(ending)),):
            if w is t:
                return True
    ps = parts(t)
    return len(ps) == 3 and ps[0] is const("pack-") and ps[2] is const(ending) and mentions(ps[1], psha) and not unknown(ps[1])


def mentions(t, x):
    return any(y is x for y in subterms(t))
