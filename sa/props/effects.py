"""C08: reading has no effect on the file system. C25: a file which is read is read completely, and released."""
from .common import *
from ..interp import Ev
from . import dbs, packs, lazy, entity, packwrite, layout
from .zstream import eq

L = "gitdb.db.loose.LooseObjectDB"
READ = {"os.close", "os.read", "os.pread", "os.fstat", "os.stat", "os.lstat", "os.access", "os.listdir", "os.scandir", "os.walk", "os.fwalk", "os.lseek",
        "os.getcwd", "os.getpid", "os.fspath", "os.fsencode", "os.fsdecode", "os.readlink", "os.getenv", "os.get_exec_path", "os.strerror", "os.sysconf", "os.uname",
        "os.cpu_count", "os.getuid", "os.geteuid", "os.times", "os.isatty", "os.pipe", "os.urandom"}
MUTATE = {"os." + x for x in ("makedirs mkdir rename renames replace link symlink remove unlink rmdir removedirs chmod lchmod fchmod chown lchown fchown "
                              "truncate ftruncate utime write pwrite writev mkfifo mknod setxattr removexattr sendfile copy_file_range fsync posix_fallocate").split()}
OPENERS = {"builtins.open", "io.open", "codecs.open", "os.fdopen", "io.FileIO", "gzip.open", "bz2.open", "lzma.open"}
R = "gitdb.stream.DecompressMemMapReader.read"
NOREC = {"#rec:" + R: lambda I, st, args, kw, fr, X, n: []}
WRITING = 3 | 0o100 | 0o1000 | 0o2000      # O_ACCMODE, O_CREAT, O_TRUNC, O_APPEND


def judge(name, args, kw):
    """does a call to the outside change the file system? True/False/None; None also for a harmless one without interest"""
    if name in MUTATE or name.startswith(("shutil.", "tempfile.")) and name != "tempfile.gettempdir":
        return False
    if name == "os.open":
        fl = args[1] if len(args) > 1 else kw.get("flags")
        if fl is None:
            return None
        if is_const(fl):
            return cval(fl) & WRITING == 0
        return None
    if name in OPENERS:
        m = args[1] if len(args) > 1 else kw.get("mode", const("r"))
        if is_const(m) and isinstance(cval(m), str):
            return not set(cval(m)) & set("wax+")
        return None
    if name == "mmap.mmap":
        if args and args[0].op == "const" and cval(args[0]) == -1:
            return True
        acc = kw.get("access", args[4] if len(args) > 4 else None)
        prot = kw.get("prot", args[3] if len(args) > 3 else None)
        if acc is not None and is_const(acc):
            return cval(acc) in (1, 3)          # ACCESS_READ, ACCESS_COPY
        if prot is not None and is_const(prot):
            return cval(prot) & 2 == 0
        return False if acc is None and prot is None else None
    if name in READ or name.startswith("os.path."):
        return True
    if name.startswith(("os.", "subprocess.", "pathlib.", "socket.", "sqlite3.", "dbm.", "shelve.")) and not name.startswith("os.environ"):
        return None
    return "pure"


class Quiet:
    """the scenarios of another property, without its rules"""

    def __init__(self, c):
        self.__dict__["c"] = c

    def __getattr__(self, k):
        return getattr(self.c, k)

    def ob(self, *a, **k):
        return a[1] if len(a) > 1 else None

    def rule(self, *a):
        pass


def c08(c):
    c.rule("effects", "no call which reading leads to creates, changes, renames or removes a file or directory, or opens one for writing")
    c.rule("memory", "the memory database, and writing a pack through given functions, have no such effect either")

    def watched(rule, what, f):
        """f: runs scenarios"""
        seen = {}

        def watch(name, args, kw, st, fr, n):
            r = judge(name, args, kw)
            if r == "pure":
                return
            loc = c.I.loc(n, fr)
            key = (name, loc, r)
            if key not in seen:
                seen[key] = (r, list(args), dict(kw), list(flat(st.events())) if r is not True else None)
        c.I.watch = watch
        try:
            f()
        finally:
            # what was seen was seen, even if the analysis doesn't reach the end
            c.I.watch = None
            for (name, loc, r), (_, args, kw, ev) in seen.items():
                c.ob(rule, r, loc, "%s: %s(%s)" % (what, name, ", ".join([show(a)[:40] for a in args] + ["%s=%s" % (k, show(v)[:40]) for k, v in kw.items()])), ev)
        c.ob(rule, True, what, "%d different calls to the operating system" % len(seen))

    def reuse(mod, fn, parts):
        def run():
            q = Quiet(c)
            for name, f in getattr(mod, fn)(q):
                if name in parts:
                    f(q)
        return run
    sha = sym("sha", "bytes")

    def loose(c):
        I = c.I

        def run():
            g0 = I.fresh_state()
            g0.facts.assume(eq(length(sha), const(20)), True)
            st, db = one(c, L, [const("/r")], g0)
            F = {"os.open", "os.stat", "os.read", "mmap.mmap", "os.fstat"}
            once = ghost(st)
            rs = lambda l: "builtins.OSError" if l in F else None
            for m, args in (("has_object", [sha]), ("__contains__", [sha]), ("info", [sha]), ("stream", [sha]), ("size", []), ("partial_to_complete_sha_hex", [const(b"abc")]),
                            ("readable_db_object_path", [T("b2a", sha)]), ("object_path", [T("b2a", sha)]), ("db_path", [const("ab/cd")]), ("root_path", []), ("ostream", [])):
                for k, s, v in c.run(m, c.method(db, st, m), args, st.fork(), raises=rs, once=once, unroll={"*": 2}, recursion=0, models=NOREC):
                    if m == "stream" and k == "ret" and v.op == "ref" and s.get(once.args[0]).f.get("#fault") is not TRUE:
                        for a, aa in (("read", [const(10)]),):
                            c.run("stream.read", c.method(v, s, a), aa, s.fork(), recursion=0, models=NOREC, unroll={"*": 2})
                        for s2, z in attr(c, s, v, "stream"):
                            if z.op == "ref":
                                for a in ("close", "compressed_bytes_read"):
                                    c.run("stream." + a, c.method(z, s2, a), [], s2.fork(), recursion=0, models={R: lambda I, st, args, kw, fr, X, n: [(st, T("res", "rd", (), "bytes"))]}, unroll={"*": 2})
        watched("effects", "LooseObjectDB", run)
        watched("effects", "LooseObjectDB, files in directories", reuse(layout, "c29", ("paths", "listing", "header", "kind")))
        watched("effects", "LooseObjectDB, missing objects", reuse(dbs, "c21", ("loose",)))

    def listing(c):
        def run():
            st, db = one(c, L, [const("/r")], c.I.fresh_state())
            for k, s, v in c.run("sha_iter", c.method(db, st, "sha_iter"), [], st.fork()):
                if k == "ret":
                    c.run("list(sha_iter())", ext("builtins.list"), [v], s)
        watched("effects", "LooseObjectDB, any files", run)

    def packed(c):
        watched("effects", "PackedDB", reuse(dbs, "c21", ("packed",)))
        watched("effects", "PackedDB.update_cache", reuse(dbs, "c23", ("changes", "unchanged", "failure", "race")))
        watched("effects", "PackedDB, first access", reuse(lazy, "c24", ("packs",)))
        watched("effects", "PackFile", reuse(lazy, "c24", ("packfile",)))
        watched("effects", "PackIndexFile", reuse(packs, "c13", ("read", "refuse")))
        watched("effects", "looking up ids", reuse(packs, "c14", ("lookup",)))
        watched("effects", "looking up short ids", reuse(packs, "c15", ("match",)))

    def packs_(c):
        watched("effects", "PackEntity.is_valid_stream", reuse(entity, "c20", ("crc", "sha1")))

        def closing():
            I = c.I
            from .packs import window, PACK, IDX
            for cls, buf in (("gitdb.pack.PackFile", PACK), ("gitdb.pack.PackIndexFile", IDX), ("gitdb.pack.PackEntity", PACK)):
                M = window(buf)
                st, p = one(c, cls, [const("/p/pack-x.pack")], I.fresh_state(), models=M)
                for m in ("close", "path", "pack", "index", "__repr__"):
                    f = I.cls_lookup(st.get(p.args[0]).cls, m)
                    if f is not None and f.op == "func":
                        c.run(m, T("bound", f, p), [], st.fork(), models=M)
        watched("effects", "closing packs", closing)

    def git(c):
        def run():
            for dirs in (dbs.FULL, ()):
                for op in (("has_object", sha), ("info", sha), ("stream", sha), ("databases",), ("size",), ("sha_iter",), ("update_cache", FALSE), ("update_cache", TRUE),
                           ("partial_to_complete_sha_hex", const("abcd")), ("ostream",), ("root_path",)):
                    b = dbs.Bed(c, dirs, ("/a\n", "/b\n"))
                    b.run([op, op])
        watched("effects", "GitDB", run)

    def memory(c):
        I = c.I
        watched("memory", "MemoryDB", reuse(dbs, "c21", ("memory",)))

        def run():
            st, db = one(c, "gitdb.db.mem.MemoryDB", [], I.fresh_state())
            src = opaque(st, "source")
            for s1, ist in construct(c, "gitdb.base.IStream", [const(b"blob"), sym("size", "int"), src], st):
                for k, s2, v in c.run("store", c.method(db, s1, "store"), [ist], s1, raises=lambda l: "builtins.Exception" if l in (".read", "compress.compress", "compress.flush") else None):
                    for m, a in (("size", []), ("sha_iter", []), ("has_object", [sha]), ("stream", [sha])):
                        c.run(m, c.method(db, s2, m), a, s2.fork())
                    if k == "ret":
                        odb = opaque(s2, "odb")
                        c.run("stream_copy", c.method(db, s2, "stream_copy"), [tup(sha), odb], s2.fork())
        watched("memory", "MemoryDB.store", run)
        q = {n for n, _ in packwrite.c16(Quiet(c))}
        watched("memory", "PackEntity.write_pack", reuse(packwrite, "c16", q))
    return [("loose", loose), ("listing", listing), ("packed", packed), ("packs", packs_), ("git", git), ("memory", memory)]


def c25(c):
    c.rule("contents", "file_contents_ro yields all of the file, mapped for reading or, if that fails, read")
    c.rule("descriptor", "the descriptor of a file which is read is closed exactly once, whatever fails")
    c.rule("map", "a map is not closed while a reader works on it, and released by the reader which owns it, by nobody else")
    c.rule("close", "closing a reader which owns its map closes it, once; another one doesn't touch it")
    I = c.I
    FAIL = {"os.open", "os.fstat", "mmap.mmap", "os.read", "decompress.decompress"}
    W = "gitdb/util.py file_contents_ro_filepath"

    def fds(c, path, where, what, s):
        opened = [e for e in flat(path) if e.kind == "call" and e.label == "os.open" and e.out == "ok"]
        closed = [e.args[0] for e in flat(path) if e.kind == "call" and e.label == "os.close"]
        used = {"os.open", "os.close", "os.fstat", "os.read", "mmap.mmap", "os.stat", "os.lseek", "os.pread"}
        for o in opened:
            k = sum(1 for a in closed if a is o.res)
            esc = any(e.kind == "call" and e.label not in used and any(a is o.res for a in e.args) for e in flat(path))
            c.ob("descriptor", True if k == 1 else None if esc else False, o.loc, "%s: the descriptor is closed %d times" % (what, k), path)
        for e in flat(path):
            if e.kind == "call" and e.label in used - {"os.open", "os.stat"} and e.args:
                # nothing is done with a descriptor after it was closed
                before = []
                for f in flat(path):
                    if f is e:
                        break
                    if f.kind == "call" and f.label == "os.close":
                        before.append(f.args[0])
                if any(a is e.args[0] for a in before) and e.label != "os.close":
                    c.ob("descriptor", False, e, "%s: %s of a closed descriptor" % (what, e.label), path)

    def raising(l):
        return "builtins.OSError" if l in FAIL else None

    def contents(c):
        for stream in (FALSE, TRUE):
            for amap in (TRUE, FALSE):
                st = I.fresh_state()
                f = c.anchor("gitdb.util.file_contents_ro_filepath")
                what = "file_contents_ro_filepath(stream=%s, allow_mmap=%s)" % (show(stream), show(amap))
                for k, s, v in c.run(what, f, [sym("path", "str"), stream, amap, ZERO], st, raises=raising):
                    p = s.events()
                    fds(c, p, W, what, s)
                    fails = [e.label for e in flat(p) if e.kind == "call" and str(e.out).startswith("raise")]
                    if k == "exc":
                        c.ob("contents", bool(fails), W, "%s raises %s" % (what, c.excname(s, v)), p)
                        continue
                    o = [e for e in flat(p) if e.kind == "call" and e.label == "os.open" and e.out == "ok"]
                    if len(o) != 1:
                        c.ob("contents", None, W, "%s opens %d files" % (what, len(o)), p)
                        continue
                    fd = o[0].res
                    c.ob("contents", whole(s, v, fd), W, "%s yields %s" % (what, show(v)[:60]), p)
                    if amap is FALSE:
                        m = [e for e in flat(p) if e.kind == "call" and e.label == "mmap.mmap"]
                        c.ob("contents", not m, m[0] if m else W, "%s maps nothing" % what, p)

    def whole(s, v, fd):
        if v.op == "ref":
            o = s.get(v.args[0])
            if o.cls.op == "ext" and o.cls.args[0] == "mmap.mmap":
                if o.f["#fd"] is not fd:
                    return False
                ln = o.f["#len"]
                return True if ln is T("fsize", fd) or is_size(ln, fd) else None if unknown(ln) else False
            if o.cls.op == "cls":
                # a wrapper of the contents
                for x in o.f.values():
                    if x.op == "ref" and s.get(x.args[0]).cls is ext("io.BytesIO"):
                        return whole(s, s.get(x.args[0]).f["init"], fd)
                return None
            if o.cls is ext("io.BytesIO"):
                return whole(s, o.f["init"], fd)
            return None
        e = [x for x in flat(s.events()) if x.kind == "call" and x.label == "os.read" and x.out == "ok" and x.res is v]
        if e:
            n = e[0].args[1]
            return e[0].args[0] is fd and (True if is_size(n, fd) else None if unknown(n) else False)
        if is_const(v):
            return False            # no file is constant
        return None

    def is_size(t, fd):
        return any(isinstance(u, Term) and u.op == "attr" or u.op == "res" for u in subterms(t)) and "st_size" in show(t) or t is T("fsize", fd)

    def loose(c):
        sha = sym("sha", "bytes")
        st = I.fresh_state()
        st.facts.assume(eq(length(sha), const(20)), True)
        st, db = one(c, L, [const("/r")], st)
        WL = "gitdb/db/loose.py LooseObjectDB"
        once = ghost(st)
        for m in ("info", "stream"):
            for k, s, v in c.run(m, c.method(db, st, m), [sha], st.fork(), raises=raising, once=once, recursion=0, unroll={"*": 3}, models=NOREC):
                p = list(flat(s.events()))
                what = "LooseObjectDB.%s" % m
                fds(c, p, WL, what, s)
                maps(c, s, p, what)
                if m == "info":
                    # nobody else has it
                    for e in p:
                        if e.kind == "call" and e.label == "mmap.mmap" and e.out == "ok":
                            n = sum(1 for y in p if y.kind == "call" and y.label == "mmap.close" and y.args[0] is e.res)
                            c.ob("map", n == 1, e, "%s: the map is closed %d times before it %s" % (what, n, "returns" if k == "ret" else "raises"), p)
                if m != "stream" or k != "ret" or v.op != "ref":
                    continue
                for s2, z in attr(c, s, v, "stream"):
                    if z.op != "ref":
                        c.ob("close", None, WL, "the stream is %s" % show(z)[:60], p)
                        continue
                    for how in (["close"], ["close", "close"], ["__del__"], ["close", "__del__"]):
                        cur = [s2.fork()]
                        for h in how:
                            nx = []
                            for s3 in cur:
                                for k3, s4, x in c.run(h, c.method(z, s3, h), [], s3):
                                    if k3 == "exc":
                                        c.ob("close", False, WL, "%s raises %s" % (" ".join(how), c.excname(s4, x)), s4.events())
                                    else:
                                        nx.append(s4)
                            cur = nx
                        for s3 in cur:
                            q = list(flat(s3.events()))
                            ms = [e for e in q if e.kind == "call" and e.label == "mmap.mmap" and e.out == "ok"]
                            for e in ms[-1:]:
                                k4 = sum(1 for y in q if y.kind == "call" and y.label == "mmap.close" and y.args[0] is e.res)
                                c.ob("close", k4 == 1, WL, "the map is closed %d times by %s" % (k4, ", ".join(how)), q)

    def maps(c, s, p, what):
        """no use of a map behind its release"""
        for i, e in enumerate(p):
            if e.kind == "call" and e.label == "mmap.close":
                for y in p[i + 1:]:
                    if y.kind == "call" and y.label != "mmap.close" and any(a is e.args[0] or isinstance(a, Term) and any(u is e.args[0] for u in subterms(a)) for a in y.args):
                        c.ob("map", False, y, "%s: %s works on a closed map" % (what, y.label), p)
        c.ob("map", True, what, "maps are not used after they were closed")

    def reader(c):
        W2 = "gitdb/stream.py DecompressMemMapReader.close"
        for own in (TRUE, FALSE):
            for closable in (True, False):
                st = I.fresh_state()
                m = opaque(st, "map") if closable else sym("data", "bytes")
                if closable:
                    st.w(m.args[0]).f["#attrs"] = const(("close",))
                st, z = one(c, "gitdb.stream.DecompressMemMapReader", [m, own, sym("size", "int")], st)
                for how in (["close"], ["close", "close"], ["__del__"], ["close", "__del__"]):
                    cur = [st.fork()]
                    for h in how:
                        nx = []
                        for s3 in cur:
                            for k3, s4, x in c.run(h, c.method(z, s3, h), [], s3):
                                if k3 == "exc":
                                    c.ob("close", False, W2, "%s raises %s" % (" ".join(how), c.excname(s4, x)), s4.events())
                                else:
                                    nx.append(s4)
                        cur = nx
                    for s3 in cur:
                        q = list(flat(s3.events()))
                        n = sum(1 for y in q if y.kind == "call" and y.label in (".close", "close") and y.args and y.args[0] is m)
                        want = 1 if own is TRUE and closable else 0
                        c.ob("close", n == want, W2, "owner: %s, %s: the map is closed %d times" % (show(own), ", ".join(how), n), q)
    return [("contents", contents), ("loose", loose), ("reader", reader)]
