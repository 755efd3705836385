"""C29: paths, listings and headers of loose objects agree."""
from .common import *
from ..core import flat
from ..interp import Ev
from .store import store_scenario, named_by, dec_bytes, bytes_of_type, unwrap, published_at
from .zstream import Stream, eq, le

LDB = "gitdb.db.loose.LooseObjectDB"
W = "gitdb/db/loose.py LooseObjectDB"
IDS = [bytes(range(20)), b"\xab\xcd" + b"\xff" * 18, b"\x0f" * 20]
HEXD = "0123456789abcdef"
LOOK = ("os.path.exists", "os.path.isfile", "os.path.lexists", "os.access", "os.open", "builtins.open", "io.open", "os.stat", "os.lstat", "os.path.isdir")


def tail(h):
    return h[:2] + "/" + h[2:]


def c29(c):
    c.rule("path", "an object is looked for, and mapped, below the root at the first two digits of its id and then the other 38")
    c.rule("list", "sha_iter lists the id of every file which lies at such a path, and of nothing else in a directory as git lays it out; size counts them")
    c.rule("header", "the header written for a type and a size is '<type> <size>' and a NUL, and reading the header of the compressed object yields this type and size")
    c.rule("kind", "data zlib has compressed is recognized as a loose object, and a pack or anything with another beginning isn't")
    I = c.I

    def norm(v):
        """the path as text"""
        if is_const(v):
            x = cval(v)
            x = x.decode() if isinstance(x, bytes) else x
            import os
            return os.path.normpath(x) if isinstance(x, str) else None
        return None

    def asked(c, s, root, sha, hx, what, m, seen):
        """the paths looked at"""
        for e in flat(s.events()):
            if e.kind == "call" and e.label in LOOK and e.args:
                p = e.args[0]
                if hx is None:
                    r = named_by(p, root, sha)
                else:
                    t = norm(p)
                    r = None if t is None else t == "/r/" + tail(hx)
                seen.append(r)
                c.ob("path", r, e, "%s: %s looks at %s" % (what, m, show(p)[:100]), s.events())

    def paths(c):
        def found(lbl):
            def h(I, st, args, kw, fr, X, n):
                st.emit(Ev("call", lbl, tuple(args), kw, TRUE, I.loc(n, fr), "ok", fr.stack))
                return [(st, TRUE)]
            return h
        M = {l: found(l) for l in ("os.path.exists", "os.path.isfile", "os.path.lexists", "os.access")}

        def opn(I, st, args, kw, fr, X, n):
            st.emit(Ev("call", "os.open", tuple(args), kw, NONE, I.loc(n, fr), "ok", fr.stack))
            return [(st, I.fresh(st, "fd", "int"))]
        M["os.open"] = opn
        M["gitdb.fun.loose_object_header_info"] = lambda I, st, args, kw, fr, X, n: [(st, tup(T("res", "type", (), "bytes"), T("res", "size", (), "int")))]
        M["gitdb.stream.DecompressMemMapReader.new"] = lambda I, st, args, kw, fr, X, n: [(st, tup(T("res", "type", (), "bytes"), T("res", "size", (), "int"), opaque(st, "reader")))]
        cases = [(sym("root", "str"), sym("sha", "bytes"), None)] + [(const("/r"), const(i), i.hex()) for i in IDS]
        for root, sha, hx in cases:
            what = "id " + (hx[:6] if hx else "(any)")
            st = I.fresh_state()
            if hx is None:
                st.facts.assume(eq(length(sha), const(20)))
            st, db = one(c, LDB, [root], st, models=M)
            hexs = [T("b2a", sha), T("decode", T("b2a", sha))] if hx is None else [const(hx.encode()), const(hx)]
            for m, args in [("has_object", [sha]), ("__contains__", [sha]), ("info", [sha]), ("stream", [sha])] + [("readable_db_object_path", [h]) for h in hexs]:
                n = 0
                for k, s, v in c.run(m, c.method(db, st, m), args, st.fork(), models=M):
                    seen = []
                    asked(c, s, root, sha, hx, what, m, seen)
                    if k == "ret":
                        n += 1
                        c.ob("path", True if seen else None, W + "." + m, "%s: %d paths are looked at by %s" % (what, len(seen), m), s.events())
                        if m == "readable_db_object_path":
                            for again in (False, True):
                                r = named_by(v, root, sha) if hx is None else (None if norm(v) is None else norm(v) == "/r/" + tail(hx))
                                c.ob("path", r, W + "." + m, "%s: the path returned %sis %s" % (what, "the second time " if again else "", show(v)[:100]), s.events())
                                if not again:
                                    o2 = [(s3, v3) for k3, s3, v3 in c.run(m, c.method(db, s, m), args, s, models=M) if k3 == "ret"]
                                    if not o2:
                                        break
                                    s, v = o2[0]
                c.ob("path", True if n else None, W + "." + m, "%s: %d paths of %s succeed" % (what, n, m))
            # where it would be stored, relative to the root
            for h in hexs:
                for k, s, v in c.run("object_path", c.method(db, st, "object_path"), [h], st.fork(), models=M):
                    if k != "ret":
                        c.ob("path", False, W + ".object_path", "raises %s" % c.excname(s, v), s.events())
                        continue
                    if hx is None:
                        r = named_by(T("join_path", root, *v.args), root, sha) if v.op == "join_path" else None
                    else:
                        r = None if norm(v) is None else norm(v) == tail(hx)
                    c.ob("path", r, W + ".object_path", "%s: the relative path is %s" % (what, show(v)[:100]), s.events())
                    for k2, s2, v2 in c.run("db_path", c.method(db, s, "db_path"), [v], s, models=M):
                        r = None
                        if k2 == "ret":
                            r = named_by(v2, root, sha) if hx is None else (None if norm(v2) is None else norm(v2) == "/r/" + tail(hx))
                        c.ob("path", r, W + ".db_path", "%s: the path below the root is %s" % (what, show(v2)[:100]), s2.events())

    def stored(c):
        """the same path is used for storing: for an object which has an id already"""
        for i in IDS:
            st = I.fresh_state()
            st, db = one(c, LDB, [const("/r")], st)
            src = opaque(st, "source")
            st, ist = one(c, "gitdb.base.IStream", [sym("type", "bytes"), sym("size", "int"), src, const(i)], st)
            n = 0
            for k, s, v in c.run("store", c.method(db, st, "store"), [ist], st):
                if k != "ret":
                    continue
                for e in flat(s.events()):
                    if e.kind == "call" and e.label in ("os.rename", "os.replace", "os.link") and len(e.args) > 1:
                        n += 1
                        t = norm(e.args[1])
                        c.ob("path", None if t is None else t == "/r/" + tail(i.hex()), e, "id %s: stored as %s" % (i.hex()[:6], show(e.args[1])[:100]), s.events())
            c.ob("path", True if n else None, W + ".store", "%d publications" % n)

    def listing(c):
        good = [bytes([a]) + bytes(range(b, b + 19)) for a, b in ((0xab, 0), (0xab, 40), (0x00, 7), (0xff, 100))]
        dirs = {}
        for g in good:
            dirs.setdefault(g.hex()[:2], []).append(g.hex()[2:])
        odd = ["tmp_obj_x3", "a" * 37, "b" * 39]
        trees = []
        names = ["pack"] + sorted(dirs) + ["cd", "info"]
        inside = {"pack": ["pack-" + "1" * 40 + ".pack", "pack-" + "1" * 40 + ".idx"], "info": ["packs", "alternates"], "cd": odd}
        inside.update({d: odd[:1] + dirs[d][:1] + odd[1:] + dirs[d][1:] for d in dirs})
        for order in (names, names[::-1]):
            trees.append([("/data/objects", order, ["tmp_obj_abc"])] + [("/data/objects/" + d, [], inside[d]) for d in order])
        trees.append([("/data/objects", [], [])])
        trees.append([("/data/objects", ["00"], []), ("/data/objects/00", [], dirs["00"])])
        for tree in trees:
            want = [h for h in good if any(h.hex()[2:] in f for r, d, f in tree if r.endswith("/" + h.hex()[:2]))]
            root = const("/data/objects")

            def lst(st, names):
                return st.new(ext("builtins.list"), p=T("seq", *[const(x) for x in names]))

            def walk(I, st, args, kw, fr, X, n):
                st.emit(Ev("call", "os.walk", tuple(args), kw, NONE, I.loc(n, fr), "ok", fr.stack))
                if norm(args[0]) != "/data/objects":
                    return I.effect("os.walk?", args, kw, st, fr, X, n)
                return [(st, st.new(ext("builtins.list"), p=T("seq", *[tup(const(r), lst(st, d), lst(st, f)) for r, d, f in tree])))]

            def listdir(I, st, args, kw, fr, X, n):
                t = norm(args[0]) if args else None
                for r, d, f in tree:
                    if r == t:
                        return [(st, lst(st, d + f))]
                return I.effect("os.listdir", args, kw, st, fr, X, n)

            def kind(which):
                def h(I, st, args, kw, fr, X, n):
                    t = norm(args[0])
                    isd = any(r == t for r, d, f in tree)
                    isf = any(t == r + "/" + x for r, d, f in tree for x in f)
                    if t is None:
                        return I.effect("os.path." + which, args, kw, st, fr, X, n, "bool")
                    return [(st, const(isd if which == "isdir" else isf if which == "isfile" else isd or isf))]
                return h
            M = {"os.walk": walk, "os.listdir": listdir, "os.path.isdir": kind("isdir"), "os.path.isfile": kind("isfile"), "os.path.exists": kind("exists")}
            st, db = one(c, LDB, [root], I.fresh_state(), models=M)
            n = 0
            for k, s, v in c.run("sha_iter", c.method(db, st, "sha_iter"), [], st.fork(), models=M, unroll={"*": 40}):
                if k != "ret":
                    c.ob("list", False if k == "exc" else None, W + ".sha_iter", "raises %s" % c.excname(s, v), s.events())
                    continue
                for k2, s2, v2 in c.run("list(sha_iter())", ext("builtins.list"), [v], s, models=M, unroll={"*": 40}):
                    items = I.const_items(I.iterable(v2, s2)) if k2 == "ret" else None
                    if k2 == "exc":
                        c.ob("list", False, W + ".sha_iter", "raises %s" % c.excname(s2, v2), s2.events())
                        continue
                    if items is None or not all(is_const(x) for x in items):
                        c.ob("list", None, W + ".sha_iter", "lists %s" % show(v2)[:100], s2.events())
                        continue
                    n += 1
                    got = [cval(x) for x in items]
                    extra = [x for x in got if x not in want]
                    missing = [x for x in want if x not in got]
                    twice = len(set(got)) != len(got)
                    c.ob("list", not (extra or missing or twice), W + ".sha_iter", "%d objects in %d directories: %s" % (len(want), len(tree), "not listed: %s" % missing[0].hex()[:8] if missing else "listed: %r" % (extra[0],) if extra else "listed twice" if twice else "as they are"), s2.events())
            c.ob("list", True if n else None, W + ".sha_iter", "%d paths" % n)
            # whatever was found before, and is gone by now
            s0 = st.fork()
            gone = [s2 for k, s2, v in c.run("readable_db_object_path", c.method(db, s0, "readable_db_object_path"), [const("12" * 20)], s0, models={l: lambda I, st, args, kw, fr, X, n: [(st, TRUE)] for l in M if l.startswith("os.path.")}) if k == "ret"]
            for k, s, v in [x for s1 in [st.fork()] + gone[:1] for x in c.run("size", c.method(db, s1, "size"), [], s1, models=M, unroll={"*": 40})]:
                c.ob("list", False if k == "exc" else v is const(len(want)) or (None if not is_const(v) else False), W + ".size", "%d objects, size is %s" % (len(want), show(v)[:60]), s.events())

    def header(c):
        f = c.anchor("gitdb.fun.loose_object_header")
        t, n = sym("type", "bytes"), sym("size", "int")
        for ty_ in ("bytes", "str"):
            t = sym("type", ty_)
            st = I.fresh_state()
            st.facts.assume(le(ZERO, n))
            for k, s, v in c.run("loose_object_header", f, [t, n], st):
                want = concat(bytes_of_type(t), const(b" "), dec_bytes(n), const(b"\0"))
                c.ob("header", False if k == "exc" else same_bytes(v, want), "gitdb/fun.py loose_object_header", "header of a type given as %s is %s" % (ty_, show(v)[:100]), s.events())
        for tt in ("blob", "commit", "tree", "tag"):
            for z in (0, 9, 10, 255, 8192, 1 << 31, 1 << 40, 10 ** 18 + 7):
                want = ("%s %d\0" % (tt, z)).encode()
                for k, s, v in c.run("loose_object_header", f, [const(tt.encode()), const(z)], I.fresh_state()):
                    c.ob("header", False if k == "exc" else v is const(want) or (False if is_const(v) else None), "gitdb/fun.py loose_object_header", "header of %s, %d bytes: %s" % (tt, z, show(v)[:60]), s.events())
                if z == 9:
                    want += b"x y\0z \0\x007"
                x = Stream(c, len(want) + (z if z != 9 else 0), want)
                p = 0
                for k, s, v in c.run("loose_object_header_info", c.anchor("gitdb.fun.loose_object_header_info"), [x.m], x.st, models=dict(x.M, **{".decompress": whole(x)})):
                    if k == "exc":
                        c.ob("header", False, "gitdb/fun.py loose_object_header_info", "header of %s, %d bytes: raises %s" % (tt, z, c.excname(s, v)), s.events())
                        continue
                    p += 1
                    items = I.const_items(I.iterable(v, s)) or ()
                    r = None
                    if len(items) == 2 and all(is_const(y) for y in items):
                        r = cval(items[0]) == tt.encode() and cval(items[1]) == z and isinstance(cval(items[1]), int)
                    c.ob("header", r, "gitdb/fun.py loose_object_header_info", "header of %s, %d bytes: read as %s" % (tt, z, show(v)[:80]), s.events())
                c.ob("header", True if p else None, "gitdb/fun.py loose_object_header_info", "%d paths" % p)

    def whole(x):
        def h(I, st, args, kw, fr, X, n):
            a = [I.val(y, st) for y in args]
            from . import zstream
            d = a[1] if len(a) > 1 else NONE
            if d is x.m or d.op == "slice" and d.args[0] is zstream.Z and d.args[1] is ZERO:
                # the beginning of it is enough for the header; everything is given at once: as much comes out as was asked for, or all there is
                mx = a[2] if len(a) > 2 else kw.get("max_length", ZERO)
                if not is_const(mx):
                    return I.effect(".decompress", args, kw, st, fr, X, n, "bytes")
                m = cval(x.N)
                e = m if cval(mx) == 0 else min(cval(mx), m)
                return [(st, x.piece(ZERO, const(e)))]
            return x.decompress(I, st, args, kw, fr, X, n)
        return h

    def kind(c):
        f = c.anchor("gitdb.fun.is_loose_object")
        w = "gitdb/fun.py is_loose_object"
        cases = [(bytes([0x78, b]) + b"\xcd\x4b", (0x7800 + b) % 31 == 0) for b in range(256)]
        cases += [(b"PACK\0\0\0\2", False), (b"\0\0\0\0", False), (b"\xfftOc", False), (b"\x1f\x8b\x08\0", False), (b"blob 5\0", False), (b"\x79\x01\0\0", False)]
        for d, want in cases:
            for k, s, v in c.run("is_loose_object", f, [const(d)], I.fresh_state()):
                r = None if k == "ret" and not is_const(v) else k == "ret" and bool(cval(v)) == want
                c.ob("kind", r, w, "%r is %sa loose object: %s" % (d[:2], "" if want else "not ", show(v)[:40]), s.events())

    return [("paths", paths), ("stored", stored), ("listing", listing), ("header", header), ("kind", kind)]


def same_bytes(v, w):
    if v is w:
        return True
    from ..core import parts
    a, b = [unwrap(x) for x in parts(v)], [unwrap(x) for x in parts(w)]
    if len(a) == len(b) and all(x is y for x, y in zip(a, b)):
        return True
    return None if unknown(v) else False
