"""C15 (across databases), C21-C24: object databases."""
from .common import *
from ..interp import Ev
from .. import extmodels

P, L = "gitdb.db.pack.PackedDB", "gitdb.db.loose.LooseObjectDB"


def root_of(st, o):
    """the directory a database object works on"""
    if o.op != "ref":
        return None
    f = st.get(o.args[0]).f
    for k in ("_root_path",):
        if k in f:
            return f[k]
    for k, v in sorted(f.items()):
        if v.op == "const" and ty(v) == "str" and cval(v).startswith("/"):
            return v
    return None


class Bed:
    """A GitDB whose members' answers are predicates of (directory, id, epoch); the epoch stands for the state of the disk"""

    def __init__(self, c, dirs, lines=(), raises_open=False):
        self.c = c
        self.dirs = dirs            # existing paths
        self.lines = lines
        I = c.I
        st = I.fresh_state()
        self.g = st.new(ext("#ghost"), {}, ZERO)
        st.w(self.g.args[0]).f["#alts"] = T("seq", *[const(l) for l in lines])
        st.w(self.g.args[0]).f["#dirs"] = const(tuple(dirs))
        st, self.db = one(c, "gitdb.db.git.GitDB", [const("/r")], st, models=self.models())
        self.st = st

    def epoch(self, st):
        return st.get(self.g.args[0]).p

    def pred(self, name, path, sha, ep):
        return self.c.I.as_cond(T("res", name, (path, sha, ep), "bool"), self.st)

    def value(self, name, path, sha, ep):
        return T("res", name, (path, sha, ep), None)

    def models(self):
        bed = self

        def has(I, st, args, kw, fr, X, n):
            st.emit(Ev("call", "member.has", (root_of(st, args[0]), args[1]), kw, NONE, I.loc(n, fr), "ok", fr.stack))
            return [(st, T("res", "has", (root_of(st, args[0]), args[1], bed.epoch(st)), "bool"))]

        def get(name):
            def h(I, st, args, kw, fr, X, n):
                p = root_of(st, args[0])
                cnd = bed.pred("has", p, args[1], bed.epoch(st))
                s2 = st.fork()
                if s2.facts.assume(cnd, False):
                    X.append((s2, I.mkexc(s2, I.get("gitdb.exc.BadObject"), n, fr, (args[1],))))
                if not st.facts.assume(cnd, True):
                    return []
                return [(st, bed.value(name, p, args[1], bed.epoch(st)))]
            return h

        def agg(name, t):
            def h(I, st, args, kw, fr, X, n):
                a = tuple(args[1:]) + tuple(v for _, v in sorted(kw.items()))
                st.emit(Ev("call", "member." + name, (root_of(st, args[0]),) + a, kw, NONE, I.loc(n, fr), "ok", fr.stack))
                return [(st, T("res", name, (root_of(st, args[0]),) + a + (bed.epoch(st),), t))]
            return h

        def partial(I, st, args, kw, fr, X, n):
            p = root_of(st, args[0])
            st.emit(Ev("call", "member.partial", (p,) + tuple(args[1:]), kw, NONE, I.loc(n, fr), "ok", fr.stack))
            s2 = st.fork()
            if s2.facts.assume(pcond(bed.c, "matches", p), False):
                X.append((s2, I.mkexc(s2, I.get("gitdb.exc.BadObject"), n, fr, (args[1],))))
            if not st.facts.assume(pcond(bed.c, "matches", p), True):
                return []
            s3 = st.fork()
            if s3.facts.assume(pcond(bed.c, "unique", p), False):
                X.append((s3, I.mkexc(s3, I.get("gitdb.exc.AmbiguousObjectName"), n, fr, (args[1],))))
            if not st.facts.assume(pcond(bed.c, "unique", p), True):
                return []
            r = T("res", "full", (p,), "bytes")
            st.facts.assume(c_eq0(lin_add(length(r), const(20), -1)), True)
            return [(st, r)]

        def exists(I, st, args, kw, fr, X, n):
            d = cval(st.get(bed.g.args[0]).f["#dirs"])
            if not is_const(args[0]):
                return I.effect("os.path.exists", args, kw, st, fr, X, n, "bool")
            p = cval(args[0])
            return [(st, TRUE if p in d or p.rstrip("/") in d else FALSE)]

        def op(I, st, args, kw, fr, X, n):
            if is_const(args[0]) and cval(args[0]) not in cval(st.get(bed.g.args[0]).f["#dirs"]):
                X.append((st, I.mkexc(st, "builtins.FileNotFoundError", n, fr)))
                return []
            if st.get(bed.g.args[0]).f.get("#badopen") is TRUE:
                X.append((st, I.mkexc(st, "builtins.UnicodeDecodeError", n, fr)))
                return []
            r = extmodels.m_fdopen(I, st, args, kw, fr, X, n)
            for s, o in r:
                s.w(o.args[0]).f["#lines"] = s.get(bed.g.args[0]).f["#alts"]
            return r
        M = {"os.path.exists": exists, "os.path.isdir": exists, "os.path.isfile": exists, "codecs.open": op, "builtins.open": op, "io.open": op}
        for k in (P, L):
            M[k + ".has_object"] = has
            M[k + ".info"] = get("info")
            M[k + ".stream"] = get("stream")
            M[k + ".size"] = agg("size", "int")
            M[k + ".sha_iter"] = agg("sha_iter", "list")
            M[k + ".store"] = agg("store", None)
            M[k + ".ostream"] = agg("ostream", None)
            M["gitdb.db.base.ObjectDBW.ostream"] = agg("ostream", None)
            M[k + ".set_ostream"] = agg("set_ostream", None)
        M[P + ".update_cache"] = agg("update_cache", "bool")
        M[P + ".partial_to_complete_sha"] = partial
        M[L + ".partial_to_complete_sha_hex"] = partial
        return M

    drive = False

    def run(self, ops, st=None):
        """runs a sequence of operations: [(state, [(kind, value, epoch)])]; an operation is a method name with arguments, or a function on the state"""
        c = self.c
        M = self.models()
        cur = [((st or self.st).fork(), [])]
        for o in ops:
            nx = []
            for s, rs in cur:
                if callable(o):
                    o(s)
                    nx.append((s, rs))
                    continue
                for k, s2, x in c.run("%s(%s)" % (o[0], ",".join(show(a) for a in o[1:])), c.method(self.db, s, o[0]), list(o[1:]), s, models=M, recursion=6):
                    if k == "ret" and getattr(self, "drive", False) and x.op == "ref" and s2.get(x.args[0]).cls is ext("#gen"):
                        # a generator fails when it is used
                        for k, s3, x in c.run("list(%s)" % o[0], ext("builtins.list"), [x], s2, models=M, recursion=6):
                            nx.append((s3, rs + [(k, x, self.epoch(s3))]))
                        continue
                    nx.append((s2, rs + [(k, x, self.epoch(s2))]))
            cur = nx
        return cur

    def bump(self, s):
        o = s.w(self.g.args[0])
        o.p = lin_add(o.p, const(1))

    def set_alts(self, lines):
        def f(s):
            s.w(self.g.args[0]).f["#alts"] = T("seq", *[const(l) for l in lines])
        return f

    def set_dirs(self, dirs):
        def f(s):
            s.w(self.g.args[0]).f["#dirs"] = const(tuple(dirs))
        return f


FULL = ("/r", "/r/pack", "/r/info/alternates", "/a", "/a/pack", "/b", "/b/pack")
MEMBERS = ("/r/pack", "/r/", "/a/pack", "/a/")


def members(lines, dirs):
    """directories of the members, in the order in which they are to be asked"""
    out = []

    def add(r):
        if r + "/pack" in dirs:
            out.append(r + "/pack")
        if r in dirs:
            out.append(r + "/")
    add("/r")
    if "/r/info/alternates" in dirs:
        for l in dict.fromkeys(x.strip() for x in lines):
            add(l)
    return [const(x) for x in out]


def assignments(f, atoms):
    """the facts extended by every choice of truth values"""
    out = [f]
    for a in atoms:
        nx = []
        for g in out:
            for v in (True, False):
                h = g.copy()
                if h.assume(a, v):
                    nx.append(h)
        out = nx
    return out


def truth_cases(c, s, x):
    """[(facts, value)] of a result used as a truth value"""
    out = []
    for v in (True, False):
        g = (s.facts if hasattr(s, "facts") else s).copy()
        if g.assume(c.I.as_cond(x, s if hasattr(s, "facts") else None), v):
            out.append((g, v))
    return out


KNOWN_CALLS = {"builtins.open", "file.close", "os.stat", "glob.glob"}


def murky(c, s):
    """does a path contain calls or loops which are not understood?"""
    for e in flat(s.events()):
        if e.kind == "loop" and e.out.mus and e.out.backs:
            return True
        if e.kind == "call" and not e.label.startswith(("member.", "pack.")) and e.label not in KNOWN_CALLS:
            return True
    return False


def check_has(c, bed, rule, s, r, ms, sha, where, what):
    k, x, ep = r
    if k != "ret":
        c.ob(rule, False, where, "%s: has_object fails with %s" % (what, c.excname(s, x)), s.events())
        return
    for g, v in truth_cases(c, s, x):
        ans = [g.ask(bed.pred("has", m, sha, ep)) for m in ms]
        if v:
            c.ob(rule, True if True in ans else None if murky(c, s) else False, where, "%s: an object is reported, the members which contain it: %s" % (what, ans), s.events())
        else:
            c.ob(rule, True if all(a is False for a in ans) else None if murky(c, s) else False, where, "%s: no object is reported, the members which contain it: %s" % (what, ans), s.events())


def check_get(c, bed, rule, s, r, ms, sha, name, where, what):
    k, x, ep = r
    ans = [s.facts.ask(bed.pred("has", m, sha, ep)) for m in ms]
    if k == "exc":
        bad = c.is_exc(s, x, "gitdb.exc.BadObject")
        c.ob(rule, True if bool(bad) and all(a is False for a in ans) else None if murky(c, s) else False, where, "%s: %s fails with %s, the members which contain the object: %s" % (what, name, c.excname(s, x), ans), s.events())
        return
    hit = [i for i, m in enumerate(ms) if x is bed.value(name, m, sha, ep)]
    ok = len(hit) == 1 and all(a is False for a in ans[:hit[0]])
    c.ob(rule, True if ok else None if murky(c, s) or unknown(x) else False, where, "%s: %s returns %s, the members which contain the object: %s" % (what, name, show(x)[:80], ans), s.events())


def c22(c):
    c.rule("route", "an object is found if and only if one of the members contains it; information and stream are those of the first of them "
           "in the order packs, loose objects, alternates; BadObject if there is none")
    c.rule("miss", "an object which was not found before is found once a member contains it")
    c.rule("refresh", "after update_cache nothing learned before is used")
    c.rule("aggregate", "size, ids, and update_cache cover every member exactly once")
    c.rule("members", "the members are the existing ones of packs, loose objects and alternates, in this order")
    c.rule("write", "storing and the output stream are those of the loose object database of this repository")
    c.rule("alternates", "update_cache follows the alternates file: members of new lines are added in order, those of vanished lines removed, the others kept")
    W = "gitdb/db/base.py CompoundDB"
    beds = [("all", ("/a\n",), FULL), ("no alternates", (), ("/r", "/r/pack")), ("no packs", ("/a\n",), ("/r", "/r/info/alternates", "/a", "/a/pack")),
            ("two alternates", ("/b\n", "/a\n"), FULL), ("unavailable alternate", ("/x\n", "/a\n"), FULL), ("loose only", (), ("/r",)), ("doubled", ("/a\n", "/a\n"), FULL)]
    sha, sha2 = sym("sha", "bytes"), sym("other", "bytes")
    far = ["/k%02d" % (i * 7 % 17) for i in range(17)]
    many = ("many alternates", tuple(x + "\n" for x in far), ("/r", "/r/pack", "/r/info/alternates") + tuple(far))

    def route(c):
        for nm, lines, dirs in beds if c.thorough else beds[:5]:
            b = Bed(c, dirs, lines)
            ms = members(lines, dirs)
            for s, rs in b.run([("has_object", sha)]):
                check_has(c, b, "route", s, rs[0], ms, sha, W, nm)
            for q in ("info", "stream"):
                for s, rs in b.run([(q, sha)]):
                    check_get(c, b, "route", s, rs[0], ms, sha, q, W, nm)
            if nm not in ("all", "no alternates") and not c.thorough:
                continue
            # the same question again, and another one
            for s, rs in b.run([("has_object", sha), ("info", sha), ("has_object", sha), ("stream", sha)]):
                check_get(c, b, "route", s, rs[1], ms, sha, "info", W, nm + ", second query")
                check_has(c, b, "route", s, rs[2], ms, sha, W, nm + ", third query")
                check_get(c, b, "route", s, rs[3], ms, sha, "stream", W, nm + ", fourth query")
        b = Bed(c, beds[1][2], beds[1][1])
        ms = members(beds[1][1], beds[1][2])

        def differ(s):
            s.facts.assume(c_eq(sha, sha2), False)
        for s, rs in b.run([differ, ("info", sha), ("info", sha2), ("has_object", sha)]):
            check_get(c, b, "route", s, rs[1], ms, sha2, "info", W, "another object")
            check_has(c, b, "route", s, rs[2], ms, sha, W, "the first object again")

    def cache(c):
        for nm, lines, dirs in beds[:2]:
            b = Bed(c, dirs, lines)
            ms = members(lines, dirs)
            for q in ("has_object", "info"):
                for s, rs in b.run([(q, sha), b.bump, ("has_object", sha), ("stream", sha)]):
                    missed = rs[0][0] == "exc" or all(v is False for _, v in truth_cases(c, s, rs[0][1]) if q == "has_object") and q == "has_object"
                    if missed:
                        check_has(c, b, "miss", s, rs[1], ms, sha, W, nm + ", after a miss")
                        check_get(c, b, "miss", s, rs[2], ms, sha, "stream", W, nm + ", after a miss")
                for force in ((TRUE, FALSE) if c.thorough else (FALSE,)):
                    for s, rs in b.run([(q, sha), b.bump, ("update_cache", force), ("has_object", sha), ("info", sha)]):
                        check_has(c, b, "refresh", s, rs[2], ms, sha, W, nm + ", after update_cache")
                        check_get(c, b, "refresh", s, rs[3], ms, sha, "info", W, nm + ", after update_cache")

    def aggregate(c):
        for nm, lines, dirs in beds + [many]:
            b = Bed(c, dirs, lines)
            ms = members(lines, dirs)
            for s, rs in b.run([("size",)]):
                k, x, ep = rs[0]
                want = ZERO
                for m in ms:
                    want = lin_add(want, T("res", "size", (m, ZERO), "int"))
                c.ob("aggregate", k == "ret" and x is want or (None if k == "ret" and unknown(x) else False), W + ".size", "%s: size is %s" % (nm, show(x)[:100]), s.events())
            for s, rs in b.run([("sha_iter",)]):
                k, x, ep = rs[0]
                want = {T("res", "sha_iter", (m, ZERO), "list") for m in ms}
                if k == "ret" and x.op == "ref" and extname(s.get(x.args[0]).cls) == "#gen":
                    # a generator: its members are those which it asks when it is run
                    for k2, s2, y in c.run("list", c.I.get("builtins.list") or ext("builtins.list"), [x], s.fork(), models=b.models(), recursion=6):
                        got = {T("res", "sha_iter", (e.args[0], ZERO), "list") for e in calls(s2.events(), "member.sha_iter")}
                        if k2 == "ret":
                            c.ob("aggregate", got == want, W + ".sha_iter", "%s: iterates %s" % (nm, " ".join(map(show, got))[:100]), s2.events())
                    continue
                got = [u for u in subterms(x) if isinstance(u, Term) and u.op == "res" and u.args[0] == "sha_iter"] if k == "ret" else []
                got += [T("res", "sha_iter", (e.args[0], ZERO), "list") for e in calls(s.events(), "member.sha_iter")] if k == "ret" and x.op == "ref" else []
                c.ob("aggregate", True if set(got) == want else (None if k == "ret" and unknown(x) else False), W + ".sha_iter", "%s: iterates %s" % (nm, show(x)[:100]), s.events())
            for force in (TRUE, FALSE):
                for s, rs in b.run([("databases",), ("update_cache", force)]):
                    k, x, ep = rs[1]
                    if k != "ret":
                        c.ob("aggregate", False, W + ".update_cache", "%s: fails with %s" % (nm, c.excname(s, x)), s.events())
                        continue
                    cs = calls(s.events(), "member.update_cache")
                    packs = [m for m in ms if cval(m).endswith("/pack")]
                    got = [e.args[0] for e in cs]
                    c.ob("aggregate", True if sorted(map(show, got)) == sorted(map(show, packs)) else None if murky(c, s) else False, W + ".update_cache", "%s: updates %s" % (nm, " ".join(map(show, got))), s.events())
                    c.ob("aggregate", all(len(e.args) > 1 and e.args[1] is force for e in cs), W + ".update_cache", "%s: force is passed on" % nm, s.events())
                    at = [c.I.as_cond(T("res", "update_cache", (m, force, ZERO), "bool"), s) for m in packs]
                    for g, v in [y for h in assignments(s.facts, at) for y in truth_cases(c, h, x)]:
                        ans = [g.ask(a) for a in at]
                        c.ob("aggregate", (True in ans) if v else all(a is False for a in ans), W + ".update_cache", "%s: returns %s, members: %s" % (nm, v, ans), s.events())
            for s, rs in b.run([("databases",)]):
                k, x, ep = rs[0]
                if k != "ret" or x.op not in ("tuple", "seq"):
                    c.ob("members", False if k != "ret" else None, "gitdb/db/git.py GitDB", "%s: databases() is %s" % (nm, show(x)[:60]), s.events())
                    continue
                leaves, und = [], False

                def walk(o):
                    nonlocal und
                    cls = s.get(o.args[0]).cls
                    if c.I.subclass(cls, c.I.get("gitdb.db.base.CompoundDB")):
                        for k2, s2, y in c.run("databases", c.method(o, s, "databases"), [], s.fork(), models=b.models(), recursion=6):
                            if k2 != "ret" or y.op not in ("tuple", "seq"):
                                und = True
                            else:
                                nonlocal_s[0] = s2
                                for z in y.args:
                                    walk2(z, s2)
                    else:
                        leaves.append(root_of(s, o))

                def walk2(o, s2):
                    nonlocal s
                    s = s2
                    walk(o)
                nonlocal_s = [s]
                for o in x.args:
                    walk(o)
                c.ob("members", None if und or (leaves != ms and murky(c, s)) else leaves == ms, "gitdb/db/git.py GitDB", "%s: members %s" % (nm, " ".join(map(show, leaves))), s.events())

    def write(c):
        for nm, lines, dirs in beds[:2]:
            b = Bed(c, dirs, lines)
            own = const("/r/")
            a = sym("stream", None)
            for q, args in (("store", (a,)), ("ostream", ()), ("set_ostream", (a,))):
                for pre in ([], [("has_object", sha)]):
                    for s, rs in b.run(pre + [(q,) + args]):
                        k, x, ep = rs[-1]
                        want = T("res", q, (own,) + args + (ZERO,), None)
                        c.ob("write", True if k == "ret" and x is want else None if murky(c, s) else False, "gitdb/db/git.py GitDB." + q, "%s: %s" % (nm, show(x)[:80]), s.events())

    def alts(c):
        cases = [((), ("/a\n",)), (("/a\n",), ()), (("/a\n",), ("/a\n", "/b\n")), (("/a\n", "/b\n"), ("/b\n",)), (("/a\n", "/b\n"), ("/a\n",)),
                 (("/a\n",), ("/b\n",)), ((), ("/b\n", "/a\n")), (("/x\n",), ("/x\n", "/a\n"))]
        for old, new in cases:
            b = Bed(c, FULL, old)
            kept = [x for x in dict.fromkeys(l.strip() for l in old) if x + "\n" in new]
            added = [x for x in dict.fromkeys(l.strip() for l in new) if x + "\n" not in old]
            ms = members(["%s\n" % x for x in kept + added], FULL)
            what = "%s becomes %s" % (" ".join(old).replace("\n", "") or "-", " ".join(new).replace("\n", "") or "-")
            W2 = "gitdb/db/ref.py ReferenceDB"
            for s, rs in b.run([("has_object", sha), b.bump, b.set_alts(new), ("update_cache", FALSE), ("has_object", sha), ("info", sha)]):
                check_has(c, b, "alternates", s, rs[2], ms, sha, W2, what)
                check_get(c, b, "alternates", s, rs[3], ms, sha, "info", W2, what)
        # the file disappears
        b = Bed(c, FULL, ("/a\n",))
        d2 = tuple(x for x in FULL if x != "/r/info/alternates")
        ms = members((), d2)
        for s, rs in b.run([("has_object", sha), b.bump, b.set_dirs(d2), ("update_cache", FALSE), ("has_object", sha)]):
            check_has(c, b, "alternates", s, rs[2], ms, sha, "gitdb/db/ref.py ReferenceDB", "the alternates file is removed")
    return [("route", route), ("cache", cache), ("aggregate", aggregate), ("write", write), ("alternates", alts)]


# ------------------------------------------------------------------ packs on disk

E_, X_, F_ = "gitdb.pack.PackEntity", "gitdb.pack.PackIndexFile", "gitdb.pack.PackFile"


def path_of(st, o, d=0):
    """stem of the pack an object belongs to"""
    if o.op != "ref" or d > 3:
        return None
    for k, v in sorted(st.get(o.args[0]).f.items()):
        if v.op == "const" and ty(v) == "str" and cval(v).rsplit("/", 1)[-1].startswith("pack-"):
            return const(cval(v).rsplit(".", 1)[0])
    for k, v in sorted(st.get(o.args[0]).f.items()):
        if v.op == "ref":
            r = path_of(st, v, d + 1)
            if r is not None:
                return r
    return None


class PackBed:
    """A PackedDB on a directory whose files are known; the content of an index is a predicate of (pack, id)"""

    def __init__(self, c, files, raises=None, root="/p"):
        self.c = c
        self.root = root
        I = c.I
        st = I.fresh_state()
        self.g = st.new(ext("#ghost"), {}, ZERO)
        st.w(self.g.args[0]).f["#files"] = const(tuple(files))
        st.w(self.g.args[0]).f["#bad"] = const(())
        st.w(self.g.args[0]).f["#race"] = NONE
        self.tick(st, True)
        st, self.db = one(c, P, [const(root)], st, models=self.models())
        self.st = st

    def files(self, st):
        return cval(st.get(self.g.args[0]).f["#files"])

    def mtime(self, st):
        return T("res", "mtime", (st.get(self.g.args[0]).p,), "float")

    def tick(self, st, first=False):
        o = st.w(self.g.args[0])
        old = ZERO if first else self.mtime(st)
        o.p = lin_add(o.p, const(1))
        st.facts.assume(c_lt(old, self.mtime(st)), True)
        st.facts.assume(c_lt(ZERO, self.mtime(st)), True)

    def set_files(self, files, tick=True):
        def f(s):
            s.w(self.g.args[0]).f["#files"] = const(tuple(files))
            if tick:
                self.tick(s)
        return f

    def set_bad(self, *labels):
        def f(s):
            s.w(self.g.args[0]).f["#bad"] = const(tuple(labels))
        return f

    def set_race(self, files):
        """somebody else changes the directory just after it has been listed the next time"""
        def f(s):
            s.w(self.g.args[0]).f["#race"] = const(tuple(files))
        return f

    def race(self, st):
        r = st.get(self.g.args[0]).f["#race"]
        if r is not NONE:
            st.w(self.g.args[0]).f["#race"] = NONE
            self.set_files(cval(r))(st)

    def stems(self, st):
        fs = self.files(st)
        return [const(self.root + "/" + x[:-5]) for x in fs if x.startswith("pack-") and x.endswith(".pack") and x[:-5] + ".idx" in fs]

    def pred(self, path, sha):
        return self.c.I.as_cond(T("res", "has", (path, sha), "bool"), None)

    def index(self, path, sha):
        return T("res", "entry", (path, sha), "int")

    def models(self):
        bed = self

        def fails(label):
            def deco(h):
                def g(I, st, args, kw, fr, X, n):
                    if label in cval(st.get(bed.g.args[0]).f["#bad"]):
                        X.append((st, I.mkexc(st, "builtins.OSError", n, fr)))
                        return []
                    return h(I, st, args, kw, fr, X, n)
                return g
            return deco

        @fails("list")
        def glob(I, st, args, kw, fr, X, n):
            import fnmatch

            def matches(name, pat):
                # part by part, as glob does
                a, b = name.split("/"), pat.split("/")
                return len(a) == len(b) and all(fnmatch.fnmatchcase(x, y) for x, y in zip(a, b))
            if not is_const(args[0]):
                return I.effect("glob.glob", args, kw, st, fr, X, n)
            r = [const(bed.root + "/" + x) for x in bed.files(st) if matches(bed.root + "/" + x, cval(args[0]))]
            bed.race(st)
            return [(st, st.new(ext("builtins.list"), p=T("seq", *r)))]

        @fails("list")
        def listdir(I, st, args, kw, fr, X, n):
            r = [const(x) for x in bed.files(st)]
            bed.race(st)
            return [(st, st.new(ext("builtins.list"), p=T("seq", *r)))]

        def exists(I, st, args, kw, fr, X, n):
            if not is_const(args[0]):
                return I.effect("os.path.exists", args, kw, st, fr, X, n, "bool")
            p = cval(args[0]).rstrip("/")
            return [(st, TRUE if p == bed.root or p.startswith(bed.root + "/") and p[len(bed.root) + 1:] in bed.files(st) else FALSE)]

        def isfile(I, st, args, kw, fr, X, n):
            if is_const(args[0]) and cval(args[0]).rstrip("/") == bed.root:
                return [(st, FALSE)]
            return exists(I, st, args, kw, fr, X, n)

        @fails("stat")
        def stat(I, st, args, kw, fr, X, n):
            if not is_const(args[0]) or cval(args[0]).rstrip("/") != bed.root:
                return I.effect("os.stat", args, kw, st, fr, X, n)
            m = bed.mtime(st)
            return [(st, st.new(ext("#opaque:stat"), {"st_mtime": m, "st_mtime_ns": m}, None, "stat"))]

        @fails("stat")
        def getmtime(I, st, args, kw, fr, X, n):
            return [(st, bed.mtime(st))]

        def lookup(I, st, args, kw, fr, X, n):
            p = path_of(st, args[0])
            cnd = bed.pred(p, args[1])
            st.emit(Ev("call", "pack.lookup", (p, args[1]), kw, NONE, I.loc(n, fr), "ok", fr.stack))
            out = []
            s2 = st.fork()
            if s2.facts.assume(cnd, False):
                out.append((s2, NONE))
            if st.facts.assume(cnd, True):
                i = bed.index(p, args[1])
                st.facts.assume(c_le0(lin_add(ZERO, i, -1)), True)
                out.append((st, i))
            return out

        def value(name, t=None):
            def h(I, st, args, kw, fr, X, n):
                a = tuple(args[1:]) + tuple(v for _, v in sorted(kw.items()))
                return [(st, T("res", name, (path_of(st, args[0]),) + a, t))]
            return h

        @fails("open")
        def size(I, st, args, kw, fr, X, n):
            p = path_of(st, args[0])
            r = T("res", "objects", (p,), "int")
            st.facts.assume(c_le0(lin_add(ZERO, r, -1)), True)
            return [(st, r)]

        def partial(I, st, args, kw, fr, X, n):
            p = path_of(st, args[0])
            st.emit(Ev("call", "pack.partial", (p,) + tuple(args[1:]), kw, NONE, I.loc(n, fr), "ok", fr.stack))
            out = []
            for m, u in ((False, None), (True, True), (True, False)):
                s = st.fork()
                if not s.facts.assume(pcond(self.c, "matches", p), m) or m and not s.facts.assume(pcond(self.c, "unique", p), u):
                    continue
                if not m:
                    out.append((s, NONE))
                elif u:
                    i = T("res", "partial", (p,), "int")
                    s.facts.assume(c_le0(lin_add(ZERO, i, -1)), True)
                    out.append((s, i))
                else:
                    X.append((s, I.mkexc(s, I.get("gitdb.exc.AmbiguousObjectName"), n, fr, (args[1],))))
            return out

        def sha(I, st, args, kw, fr, X, n):
            r = T("res", "sha", (path_of(st, args[0]), args[1]), "bytes")
            st.facts.assume(c_eq0(lin_add(length(r), const(20), -1)), True)
            return [(st, r)]

        def lazy(I, st, args, kw, fr, X, n):
            # the accessors of an index depend on the version found in the file
            o = st.w(args[0].args[0])
            for k in ("entry", "offset", "sha", "crc"):
                o.f[k] = T("bound", ext("pack." + k), args[0])
            return [(st, NONE)]
        return {"glob.glob": glob, "glob.iglob": glob, "os.listdir": listdir, "os.path.exists": exists, "os.path.isfile": isfile, "os.path.lexists": exists,
                "os.path.isdir": lambda I, st, args, kw, fr, X, n: [(st, TRUE if is_const(args[0]) and cval(args[0]).rstrip("/") == bed.root else FALSE)],
                "os.stat": stat, "os.path.getmtime": getmtime,
                X_ + ".sha_to_index": lookup, X_ + ".partial_sha_to_index": partial, X_ + "._set_cache_": lazy, "pack.sha": sha, X_ + ".size": size, F_ + ".size": size,
                E_ + ".info_at_index": value("info"), E_ + ".stream_at_index": value("stream"), E_ + ".info": value("infobysha"), E_ + ".stream": value("streambysha")}

    run = Bed.run

    def epoch(self, st):
        return st.get(self.g.args[0]).p


def pcond(c, name, path):
    return c.I.as_cond(T("res", name, (path,), "bool"), None)


def c23(c):
    c.rule("entities", "after update_cache the entities are those packs in the directory which have an index, each of them once")
    c.rule("kept", "the entity of an unchanged pack is kept")
    c.rule("result", "update_cache returns True if it looked for changes, and False only if nothing changed")
    c.rule("forced", "force makes it look for changes whatever the modification time")
    c.rule("failure", "a change which an update failed to apply is found by the next one")
    W = "gitdb/db/pack.py PackedDB.update_cache"

    def pk(*ns):
        return [x for n in ns for x in ("pack-%s.pack" % n, "pack-%s.idx" % n)]

    def stems_of(c, b, s, x, what):
        """[(state, {stem: entity} or None)] of the result of entities()"""
        items = c.I.const_items(c.I.iterable(x, s))
        if items is None:
            c.ob("entities", None, W, "%s: entities() is %s" % (what, show(x)[:60]))
            return None
        out = []
        for e in items:
            out.append((path_of(s, e), e))
        return out

    def check(c, b, s, r, files, what, path):
        k, x, ep = r
        if k != "ret":
            c.ob("entities", False, W, "%s: entities() fails with %s" % (what, c.excname(s, x)), path)
            return None
        es = stems_of(c, b, s, x, what)
        if es is None:
            return None
        want = [const(b.root + "/" + f[:-5]) for f in files if f.startswith("pack-") and f.endswith(".pack") and f[:-5] + ".idx" in files]
        c.ob("entities", sorted(map(show, want)) == sorted(show(p) if p is not None else "?" for p, e in es), W,
             "%s: files %s, entities %s" % (what, " ".join(files), " ".join(show(p) if p is not None else "?" for p, e in es)), path)
        return dict(es)

    trans = [((), ("1",)), (("1",), ()), (("1", "2", "3"), ("3", "4")), (("1", "2"), ()), ((), ("1", "2")), (("1",), ("1", "2")), (("1", "2"), ("2",)), (("1",), ("2",)), (("1", "2"), ("2", "3")), (("1", "2", "3"), ("1", "3"))]

    def changes(c):
        for old, new in trans:
            what = "%s becomes %s" % (" ".join(old) or "-", " ".join(new) or "-")
            for force in (FALSE, TRUE):
                for extra in ([], ["tmp_1", "pack-9.pack", "pack-8.idx", "pack-7.keep", "other.pack", "other.idx"]):
                    o, n = pk(*old) + extra, pk(*new) + extra
                    b = PackBed(c, o)
                    for s, rs in b.run([("entities",), b.set_files(n), ("update_cache", force), ("entities",)]):
                        path = s.events()
                        e0 = check(c, b, s, rs[0], o, what + ", before", path)
                        e1 = check(c, b, s, rs[2], n, what, path)
                        if e0 is None or e1 is None:
                            continue
                        c.ob("kept", all(e1.get(p) is e for p, e in e0.items() if p in b.stems(s)), W, what + ": unchanged packs keep their entity", path)
                        k, x, ep = rs[1]
                        if k != "ret":
                            c.ob("result", False, W, what + ": fails with " + c.excname(s, x), path)
                        else:
                            c.ob("result", all(v is True for _, v in truth_cases(c, s, x)), W, what + ": returns " + show(x), path)

    def roots(c):
        # names of directories which mean something else as a pattern, or look like those of packs
        for root in ("/srv/[a]/x", "/srv/a*b/pack", "/x?", "/a.pack/b.idx", "/r/pack-1.pack", "/p/pack-9.idx/q"):
            o, n = pk("1", "2") + ["pack-9.pack"], pk("2", "3") + ["pack-9.pack"]
            b = PackBed(c, o, root=root)
            for s, rs in b.run([("entities",), b.set_files(n), ("update_cache", FALSE), ("entities",)]):
                check(c, b, s, rs[0], o, "in %s" % root, s.events())
                check(c, b, s, rs[2], n, "changes in %s" % root, s.events())

    def unchanged(c):
        o = pk("1", "2")
        b = PackBed(c, o)
        for s, rs in b.run([("entities",), ("update_cache", FALSE), ("entities",)]):
            e0, e1 = check(c, b, s, rs[0], o, "nothing changes", s.events()), check(c, b, s, rs[2], o, "nothing changes", s.events())
            if e0 is not None and e1 is not None:
                c.ob("kept", e0 == e1, W, "nothing changes: the entities are kept", s.events())
            k, x, ep = rs[1]
            c.ob("result", k == "ret" and all(v is False for _, v in truth_cases(c, s, x)), W, "nothing changes: returns " + show(x), s.events())
        # forced although the modification time is the same
        for new in (pk("2", "3"), pk("1", "2"), []):
            b = PackBed(c, o)
            for s, rs in b.run([("entities",), b.set_files(new, False), ("update_cache", TRUE), ("entities",)]):
                e1 = check(c, b, s, rs[2], new, "forced", s.events())
                c.ob("forced", rs[1][0] == "ret" and e1 is not None, W, "forced update", s.events())
        # several changes
        for seq in ((pk("1"), pk("1", "2"), pk("2")), (pk("1"), [], pk("1")), (pk("1"), pk("1") + ["pack-2.pack"], pk("1", "2"))):
            b = PackBed(c, seq[0])
            for s, rs in b.run([("entities",), b.set_files(seq[1]), ("update_cache", FALSE), ("entities",), b.set_files(seq[2]), ("update_cache", FALSE), ("entities",)]):
                check(c, b, s, rs[2], seq[1], "first change", s.events())
                check(c, b, s, rs[4], seq[2], "second change", s.events())
        # the first access is update_cache
        for force in (FALSE, TRUE):
            b = PackBed(c, o)
            for s, rs in b.run([("update_cache", force), ("entities",)]):
                check(c, b, s, rs[1], o, "update_cache comes first", s.events())

    def failure(c):
        o, n = pk("1"), pk("2", "3")
        for label in ("stat", "list", "open"):
            b = PackBed(c, o)
            for s, rs in b.run([("entities",), b.set_files(n), b.set_bad(label), ("update_cache", FALSE), b.set_bad(), ("update_cache", FALSE), ("entities",)]):
                if rs[1][0] == "exc":
                    e = check(c, b, s, rs[3], n, "after a failing update (%s)" % label, s.events())
                    c.ob("failure", rs[2][0] == "ret" and e is not None, W, "after a failing update (%s)" % label, s.events())

    def race(c):
        for old, mid, new in ((("1",), ("1", "2"), ("1", "2", "3")), (("1",), ("1",), ("1", "2")), ((), (), ("1",)), (("1", "2"), ("2",), ("2", "3"))):
            for first in ([("entities",)], []):
                for force in (FALSE, TRUE):
                    b = PackBed(c, pk(*old))
                    ops = first + [b.set_files(pk(*mid)), b.set_race(pk(*new)), ("update_cache", force), ("update_cache", FALSE), ("entities",)]
                    for s, rs in b.run(ops):
                        if s.get(b.g.args[0]).f["#race"] is NONE:
                            check(c, b, s, rs[-1], pk(*new), "%s added while an update looks at %s" % (" ".join(sorted(set(new) - set(mid))), " ".join(mid) or "-"), s.events())
    return [("changes", changes), ("roots", roots), ("unchanged", unchanged), ("failure", failure), ("race", race)]


# ------------------------------------------------------------------ C15: short ids across databases

def short_cases(c, rule, s, r, leaves, full, where, what, noise=()):
    """compares the outcome of a lookup with the answers of the places which were asked"""
    k, x, ep = r
    f = s.facts
    got = {p: (f.ask(pcond(c, "matches", p)), f.ask(pcond(c, "unique", p))) for p in leaves}
    path = s.events()
    txt = "%s: %s" % (what, ", ".join("%s %s" % (show(p), {None: "?", True: "found", False: "none"}[m] if u is not False else "ambiguous") for p, (m, u) in got.items()))
    fulls = [full(p) for p, (m, u) in got.items() if m is True and u is True]
    def eq(a, b):
        if a is b:
            return True
        same, todo = {a}, [a]
        while todo:
            y = todo.pop()
            for z in fulls:
                if z not in same and f.ask(c_eq(y, z)) is True:
                    same.add(z)
                    todo.append(z)
        return True if b in same else False if any(f.ask(c_eq(y, b)) is False for y in same) else None
    if k == "ret":
        ok = all(m is False or (m is True and u is True) for m, u in got.values()) and bool(fulls) and any(x is y for y in fulls) and all(eq(x, y) is True for y in fulls)
        c.ob(rule, True if ok else None if unknown(x) else False, where, "%s; %s is returned" % (txt, show(x)[:60]), path)
    elif c.is_exc(s, x, "gitdb.exc.AmbiguousObjectName") is True:
        ok = any(m is True and u is False for m, u in got.values()) or any(eq(a, b) is False for a in fulls for b in fulls)
        c.ob(rule, ok, where, "%s; AmbiguousObjectName" % txt, path)
    elif c.is_exc(s, x, "gitdb.exc.BadObject") is True:
        c.ob(rule, all(m is False for m, u in got.values()), where, "%s; BadObject" % txt, path)
    else:
        c.ob(rule, False, where, "%s; fails with %s" % (txt, c.excname(s, x)), path)


def digits(v, f=None):
    """text of a term, without regard to str or bytes: a tuple of parts"""
    if v.op in ("encode", "decode", "hexstr"):
        return digits(v.args[0], f)
    if v.op == "rep" and f is not None:
        lo, hi = f.sum_bounds(v.args[1])
        if lo == hi and lo is not None and 0 <= lo < 9:
            return digits(v.args[0], f) * lo
    if is_const(v):
        x = cval(v)
        return (x.decode("latin1") if isinstance(x, bytes) else x,) if x else ()
    if v.op == "concat":
        return tuple(y for x in v.args if isinstance(x, Term) for y in digits(x, f))
    return (v,)


def atoms_of(s):
    f = s.facts
    return list(f.b) + list(f.c) + list(f.ne) + [x for q in f.ordr for x in q]


def starts(c, s, i, p):
    """does the hexadecimal form of an id start with the digits?"""
    for atom in atoms_of(s):
        for u in subterms(atom):
            if not isinstance(u, Term):
                continue
            if u.op == "prefix" and digits(u.args[0]) == (p,):
                h = u.args[1]
            elif u.op == "slice" and (u.args[1] is ZERO or u.args[1] is NONE):
                h = u.args[0]
            else:
                continue
            h = digits(h)
            if len(h) == 1 and isinstance(h[0], Term) and h[0].op == "b2a" and h[0].args[0] is i:
                if u.op == "prefix":
                    r = s.facts.ask(u)
                else:
                    rs = [s.facts.ask(c_eq(u, q)) for q in (p, T("encode", p), T("decode", p)) if c_eq(u, q) not in (TRUE, FALSE)]
                    r = True if True in rs else False if False in rs else None
                if r is not None:
                    return r
    return None


def murky_starts(s, ids, p):
    """does a path compare an id in a way which is not understood?"""
    for atom in atoms_of(s):
        us = [u for u in subterms(atom) if isinstance(u, Term)]
        if any(u.op == "b2a" and u.args[0] in ids or u in ids and not any(w.op == "b2a" for w in us) for u in us) and atom.op not in ("prefix", "endswith", "in", "lin", "eq", "len", "slice", "b2a", "sym") and not atom.op.startswith("eq"):
            return True
    return False


def c15(c):
    from . import packs
    base = packs.c15(c)
    c.rule("packs", "PackedDB finds the id iff exactly one id in all packs matches; it is ambiguous iff more than one does, BadObject if none does")
    c.rule("loose", "LooseObjectDB finds the id iff exactly one of its ids starts with the digits")
    c.rule("databases", "a compound database asks all members, at every depth; the id is found iff all answers are the same")
    c.rule("digits", "the digits are passed on unchanged; a half byte is filled up with zero, and the number of digits is passed")
    WP, WL, WC = "gitdb/db/pack.py PackedDB.partial_to_complete_sha", "gitdb/db/loose.py LooseObjectDB.partial_to_complete_sha_hex", "gitdb/db/base.py CompoundDB.partial_to_complete_sha_hex"

    def packed(c):
        for names in ((), ("1",), ("1", "2"), ("1", "2", "3")) if c.thorough else ((), ("1",), ("1", "2")):
            b = PackBed(c, [x for n in names for x in ("pack-%s.pack" % n, "pack-%s.idx" % n)])
            for nd in tuple(range(1, 41)) if c.thorough and len(names) == 1 else (1, 2, 4, 5, 39, 40) if len(names) == 1 else (4, 5, 21, 40) if len(names) == 2 else (4, 5):
                p = sym("short", "bytes")
                ps = [const("/p/pack-" + n) for n in names]
                full = lambda q: T("res", "sha", (q, T("res", "partial", (q,), "int")), "bytes")

                def pre(s):
                    s.facts.assume(c_eq0(lin_add(length(p), const((nd + 1) // 2), -1)), True)
                for s, rs in b.run([pre, ("entities",), ("partial_to_complete_sha", p, const(nd))]):
                    short_cases(c, "packs", s, rs[1], ps, full, WP, "%d packs" % len(names))
                    for e in calls(s.events(), "pack.partial"):
                        c.ob("digits", len(e.args) == 3 and e.args[1] is p and s.facts.ask(c_eq(e.args[2], const(nd))) is True, WP, "%d packs: asked for %s" % (len(names), " ".join(show(a)[:40] for a in e.args[1:])), s.events())

    def loose(c):
        ids = [sym("id%d" % i, "bytes") for i in range(3)]
        for n, nd in [(n, 6) for n in ((0, 1, 2, 3) if c.thorough else (0, 1, 2))] + [(2, 40), (2, 1), (2, 19)]:
            for t in ("str", "bytes"):
                st = c.I.fresh_state()
                for i in ids[:n]:
                    st.facts.assume(c_eq0(lin_add(length(i), const(20), -1)), True)
                for i in range(n):
                    for j in range(i):
                        st.facts.assume(c_eq(ids[i], ids[j]), False)
                M = {L + ".sha_iter": lambda I, st, args, kw, fr, X, nn: [(st, T("seq", *ids[:n]))]}
                st, db = one(c, L, [const("/r")], st, models=M)
                p = sym("digits", t)
                st.facts.assume(c_eq0(lin_add(length(p), const(nd), -1)), True)
                for k, s, x in c.run("partial_to_complete_sha_hex(%d ids)" % n, c.method(db, st, "partial_to_complete_sha_hex"), [p], st, models=M):
                    rel = []
                    for i in ids[:n]:
                        rel.append(starts(c, s, i, p))
                    what = "%d ids: %s" % (n, " ".join({None: "?", True: "matches", False: "differs"}[r] for r in rel))
                    und = None in rel and rel.count(True) < 2
                    if k == "ret":
                        ok = rel.count(True) == 1 and None not in rel and any(x is i and r is True for i, r in zip(ids, rel))
                    elif c.is_exc(s, x, "gitdb.exc.AmbiguousObjectName") is True:
                        ok = rel.count(True) >= 2
                    elif c.is_exc(s, x, "gitdb.exc.BadObject") is True:
                        ok = all(r is False for r in rel)
                    else:
                        ok = False
                    c.ob("loose", True if ok else None if und and murky_starts(s, ids[:n], p) else False, WL, "%s: %s" % (what, show(x)[:60] if k == "ret" else c.excname(s, x)), s.events())

    def compound(c):
        beds = [("all", ("/a\n",), FULL), ("no alternates", (), ("/r", "/r/pack")), ("loose only", (), ("/r",))]
        if c.thorough:
            beds += [("no packs", ("/a\n",), ("/r", "/r/info/alternates", "/a", "/a/pack")), ("alternates without packs", ("/a\n", "/b\n"), tuple(x for x in FULL if x not in ("/a/pack", "/r/pack")))]
        for nm, lines, dirs in beds:
            b = Bed(c, dirs, lines)
            ms = members(lines, dirs)
            for t in ("str", "bytes"):
                for nd in tuple(range(1, 41)) if c.thorough and nm == "no alternates" else (1, 2, 6, 7, 38, 39, 40) if nm == "no alternates" else (6, 7):
                    if t == "bytes" and nd == 7 and nm != "no alternates" and not c.thorough:
                        continue
                    p = sym("digits", t)

                    def pre(s):
                        # hexadecimal digits are ASCII
                        for q in (p, T("decode", p) if t == "bytes" else T("encode", p)):
                            s.facts.assume(c_eq0(lin_add(length(q), const(nd), -1)), True)
                    what = "%s, %d digits as %s" % (nm, nd, t)
                    # what was looked up before, at last, makes no difference
                    before = [("has_object", sym("sha", "bytes"))] if nd == 6 and t == "str" and nm != "all" else []
                    for s, rs in b.run([pre, ("databases",)] + before + [("partial_to_complete_sha_hex", p)]):
                        rs = [rs[0], rs[-1]]
                        if rs[1][0] == "exc" and c.is_exc(s, rs[1][1], "gitdb.exc.BadObject") is not True and c.is_exc(s, rs[1][1], "gitdb.exc.AmbiguousObjectName") is not True \
                                and not calls(s.events(), "member.partial") and c.excname(s, rs[1][1]) in ("UnicodeDecodeError", "UnicodeEncodeError", "binascii.Error", "Error", "ValueError"):
                            continue        # these are no hexadecimal digits
                        short_cases(c, "databases", s, rs[1], ms, lambda q: T("res", "full", (q,), "bytes"), WC, what)
                        for e in calls(s.events(), "member.partial"):
                            hexa = e.args[1]
                            if cval(e.args[0]).endswith("/pack"):
                                raw = e.args[1]
                                known = raw.op == "a2b"
                                ok = len(e.args) == 3 and s.facts.ask(c_eq(e.args[2], const(nd))) is True and known and digits(raw.args[0], s.facts) == ((p, "0") if nd % 2 else (p,))
                                c.ob("digits", True if ok else None if not known and unknown(raw) else False, WC,
                                     "%s: %s is asked for %s" % (what, show(e.args[0]), " ".join(show(a)[:50] for a in e.args[1:])), s.events())
                            else:
                                ok = digits(hexa) == (p,)
                                c.ob("digits", True if ok else False, WC, "%s: %s is asked for %s" % (what, show(e.args[0]), show(hexa)[:50]), s.events())
    return base + [("packs", packed), ("loose", loose), ("databases", compound)]


# ------------------------------------------------------------------ C21: missing objects

def c21(c):
    c.rule("has", "has_object and 'in' return True if the object is contained and False if it is not; they don't fail")
    c.rule("missing", "information and stream of a missing object raise BadObject, those of a contained one don't")
    c.rule("from", "what is returned belongs to this object, and to the pack which contains it")
    c.rule("miss", "a miss is not remembered: an object which appeared since is found")
    c.rule("race", "an object which disappears meanwhile is reported by BadObject, too")
    c.rule("noatime", "a file which may not be opened without updating its access time is opened normally")
    sha, other = sym("sha", "bytes"), sym("other", "bytes")

    def bools(c, rule, s, r, truth, where, what):
        """truth(facts) -> True/False/None"""
        k, x, ep = r
        if k != "ret":
            c.ob(rule, False, where, "%s: fails with %s" % (what, c.excname(s, x)), s.events())
            return
        for g, v in truth_cases(c, s, x):
            t = truth(g, ep)
            c.ob(rule, True if t is v else None if t is None and murky(c, s) else False, where, "%s: %s although it is %s" % (what, v, {True: "contained", False: "missing", None: "not known"}[t]), s.events())
            c.ob(rule, True if ty(x) == "bool" or x in (TRUE, FALSE) else None if unknown(x) or ty(x) is None else False, where, "%s: the result is a bool, not %s" % (what, show(x)[:40]), s.events())

    def packed(c):
        W = "gitdb/db/pack.py PackedDB"
        for names in ((), ("1",), ("1", "2"), ("1", "2", "3")) if c.thorough else ((), ("1",), ("1", "2")):
            b = PackBed(c, [x for n in names for x in ("pack-%s.pack" % n, "pack-%s.idx" % n)])
            ps = [const("/p/pack-" + n) for n in names]

            def truth(f, ep, q=sha):
                rs = [f.ask(b.pred(p, q)) for p in ps]
                return True if True in rs else False if all(r is False for r in rs) else None

            def got(s, r, name, what, q=sha):
                k, x, ep = r
                t = truth(s.facts, ep, q)
                if k == "exc":
                    c.ob("missing", True if c.is_exc(s, x, "gitdb.exc.BadObject") is True and t is False else None if murky_pack(s) else False, W + "." + name, "%s: %s although the object is %s" % (what, c.excname(s, x), t), s.events())
                    return
                c.ob("missing", True if t is True else None if murky_pack(s) else False, W + "." + name, "%s: a result although the object is %s" % (what, t), s.events())
                ok = any(s.facts.ask(b.pred(p, q)) is True and (x is T("res", name, (p, b.index(p, q)), None) or x is T("res", name + "bysha", (p, q), None)) for p in ps)
                c.ob("from", True if ok else None if unknown(x) else False, W + "." + name, "%s: %s" % (what, show(x)[:80]), s.events())

            def hits(s):
                # any number of queries before
                o = s.w(b.db.args[0])
                for k2, v in list(o.f.items()):
                    if "hit" in k2 and ty(v) == "int":
                        h = sym("queries", "int")
                        s.facts.assume(c_le(ZERO, h), True)
                        o.f[k2] = h
            pre = [("entities",)]
            what = "%d packs" % len(names)
            for ops in ([], [hits]):
                for q in ("has_object", "__contains__"):
                    for s, rs in b.run(pre + ops + [(q, sha)]):
                        bools(c, "has", s, rs[-1], truth, W + "." + q, what)
                for q in ("info", "stream"):
                    for s, rs in b.run(pre + ops + [(q, sha)]):
                        got(s, rs[-1], q, what)

            def differ(s):
                s.facts.assume(c_eq(sha, other), False)
            for s, rs in b.run(pre + [differ, ("has_object", other), ("info", sha), ("has_object", sha), ("stream", sha)]):
                got(s, rs[2], "info", what + ", after another query")
                bools(c, "has", s, rs[3], truth, W + ".has_object", what + ", after other queries")
                got(s, rs[4], "stream", what + ", after other queries")

        # a pack which contains the object is added
        o, n = ["pack-1.pack", "pack-1.idx"], ["pack-1.pack", "pack-1.idx", "pack-2.pack", "pack-2.idx"]
        b = PackBed(c, o)
        for s, rs in b.run([("has_object", sha), b.set_files(n), ("update_cache", FALSE), ("has_object", sha)]):
            def truth2(f, ep):
                rs2 = [f.ask(b.pred(const("/p/pack-" + x), sha)) for x in ("1", "2")]
                return True if True in rs2 else False if all(r is False for r in rs2) else None
            bools(c, "miss", s, rs[2], truth2, W, "after a new pack was added")

    def loose(c):
        W = "gitdb/db/loose.py LooseObjectDB"
        g0 = c.I.fresh_state()
        g = g0.new(ext("#ghost"), {}, ZERO)

        def there(st, path):
            if not any(isinstance(u, Term) and u.op == "b2a" and u.args[0] is sha for u in subterms(path)):
                return FALSE
            return c.I.as_cond(T("res", "there", (st.get(g.args[0]).p,), "bool"), st)

        def noatime(st, flags):
            # only relevant for a flag which is really given
            if not is_const(flags) or not (cval(flags) & 0o1000000):
                return FALSE
            return c.I.as_cond(T("res", "noatime refused", (), "bool"), st)

        def exists(I, st, args, kw, fr, X, n):
            st.emit(Ev("call", "member.exists", tuple(args), kw, NONE, I.loc(n, fr), "ok", fr.stack))
            return [(st, cond_val(there(st, args[0])))]

        def enoent(I, st, n, fr, X, num, exc="builtins.FileNotFoundError"):
            e = I.mkexc(st, exc, n, fr)
            st.w(e.args[0]).f["errno"] = const(num)
            X.append((st, e))

        def opn(I, st, args, kw, fr, X, n):
            if "#race" in st.get(g.args[0]).f:
                bump(st)
            st.emit(Ev("call", "member.open", tuple(args), kw, NONE, I.loc(n, fr), "ok", fr.stack))
            out = []
            for s, b in I.split(there(st, args[0]), st, fr, n):
                if not b:
                    enoent(I, s, n, fr, X, 2)
                    continue
                flags = args[1] if len(args) > 1 else ZERO
                for s2, r in I.split(noatime(s, flags), s, fr, n):
                    if r:
                        enoent(I, s2, n, fr, X, 1, "builtins.PermissionError")
                    else:
                        out.append((s2, I.fresh(s2, "fd", "int")))
            return out

        def stat(I, st, args, kw, fr, X, n):
            out = []
            for s, b in I.split(there(st, args[0]), st, fr, n):
                if b:
                    out.append((s, s.new(ext("#opaque:stat"), {}, None, "stat")))
                else:
                    enoent(I, s, n, fr, X, 2)
            return out

        def header(I, st, args, kw, fr, X, n):
            return [(st, tup(T("res", "type", (), "bytes"), T("res", "size", (), "int")))]

        def new(I, st, args, kw, fr, X, n):
            return [(st, tup(T("res", "type", (), "bytes"), T("res", "size", (), "int"), opaque(st, "reader")))]
        M = {"os.path.exists": exists, "os.path.isfile": exists, "os.path.lexists": exists, "os.access": exists, "os.open": opn, "builtins.open": opn, "os.stat": stat, "os.lstat": stat,
             "os.path.isdir": lambda I, st, args, kw, fr, X, n: [(st, FALSE)],
             "gitdb.fun.loose_object_header_info": header, "gitdb.stream.DecompressMemMapReader.new": new}
        st, db = one(c, L, [const("/r")], g0, models=M)
        st.facts.assume(c_eq0(lin_add(length(sha), const(20), -1)), True)

        def bump(s):
            o = s.w(g.args[0])
            o.p = lin_add(o.p, const(1))

        def truth(f, ep):
            return f.ask(c.I.as_cond(T("res", "there", (ep,), "bool"), None))

        def run(ops):
            cur = [(st.fork(), [])]
            for o in ops:
                nx = []
                for s, rs in cur:
                    if callable(o):
                        o(s)
                        nx.append((s, rs))
                        continue
                    for k, s2, x in c.run("LooseObjectDB.%s" % o[0], c.method(db, s, o[0]), list(o[1:]), s, models=M):
                        nx.append((s2, rs + [(k, x, s2.get(g.args[0]).p)]))
                cur = nx
            return cur

        def check(s, r, q, what, rule):
            k, x, ep = r
            if q in ("has_object", "__contains__"):
                bools(c, rule[0], s, r, truth, W + "." + q, what)
                return
            t = truth(s.facts, ep)
            refused = s.facts.ask(c.I.as_cond(T("res", "noatime refused", (), "bool"), None)) is True
            if k == "exc":
                ok = c.is_exc(s, x, "gitdb.exc.BadObject") is True and t is False
                c.ob("noatime" if t is True and refused else rule[1], ok, W + "." + q, "%s: %s although the object is %s" % (what, c.excname(s, x), {True: "contained", False: "missing", None: "not known"}[t]), s.events())
            else:
                c.ob(rule[1], t is True, W + "." + q, "%s: a result although the object is %s" % (what, t), s.events())
                c.ob("noatime", True, W + "." + q, what)
                for s2, v in attr(c, s, x, "binsha"):
                    c.ob("from", True if v is sha else None if unknown(v) else False, W + "." + q, "%s: the id of the result is %s" % (what, show(v)[:40]), s.events())
        def race(s):
            s.w(g.args[0]).f["#race"] = TRUE
        for q in ("info", "stream"):
            for s, rs in run([race, (q, sha)]):
                k, x, ep = rs[0]
                c.ob("race", k == "ret" or c.is_exc(s, x, "gitdb.exc.BadObject") is True, W + "." + q, "it may disappear at any time: %s" % (c.excname(s, x) if k == "exc" else "a result"), s.events())
        for q in ("has_object", "__contains__", "info", "stream"):
            for s, rs in run([(q, sha)]):
                check(s, rs[0], q, "LooseObjectDB", ("has", "missing"))
            for q2 in ("has_object", "info", "stream"):
                for s, rs in run([(q, sha), bump, (q2, sha)]):
                    missed = rs[0][0] == "exc" or q in ("has_object", "__contains__") and all(v is False for _, v in truth_cases(c, s, rs[0][1]))
                    if missed:
                        check(s, rs[1], q2, "after a miss", ("miss", "miss"))
                for s, rs in run([(q, sha), (q2, sha)]):
                    check(s, rs[1], q2, "second query", ("has", "missing"))

    def memory(c):
        W = "gitdb/db/mem.py MemoryDB"
        st, db = one(c, "gitdb.db.mem.MemoryDB", [], c.I.fresh_state())
        for q in ("has_object", "__contains__"):
            for k, s, x in c.run(q, c.method(db, st, q), [sha], st.fork()):
                bools(c, "has", s, (k, x, None), lambda f, ep: False, W + "." + q, "nothing is stored")
        for q in ("info", "stream"):
            for k, s, x in c.run(q, c.method(db, st, q), [sha], st.fork()):
                c.ob("missing", k == "exc" and c.is_exc(s, x, "gitdb.exc.BadObject") is True, W + "." + q, "nothing is stored: %s" % (c.excname(s, x) if k == "exc" else show(x)[:60]), s.events())
        # two objects are stored
        a, b2 = sym("first", "bytes"), sym("second", "bytes")
        s0 = st.fork()
        cur = [s0]
        for v in (a, b2):
            nx = []
            for s in cur:
                src = opaque(s, "source")
                for s1, ist in construct(c, "gitdb.base.IStream", [const(b"blob"), sym("size", "int"), src, v], s):
                    for k, s2, x in c.run("store", c.method(db, s1, "store"), [ist], s1, models={"gitdb.stream.DecompressMemMapReader": None} and {}):
                        if k == "ret":
                            nx.append(s2)
            cur = nx
        split = []
        for s in cur[:4]:
            for f in assignments(s.facts, [c_eq(a, sha), c_eq(b2, sha)]):
                s2 = s.fork()
                s2.facts = f
                split.append(s2)
        for s in split:
            def truth(f, ep):
                rs = [f.ask(c_eq(sha, v)) if v is not sha else True for v in (a, b2)]
                return True if True in rs else False if all(r is False for r in rs) else None
            for q in ("has_object", "__contains__"):
                for k, s2, x in c.run(q, c.method(db, s, q), [sha], s.fork()):
                    bools(c, "has", s2, (k, x, None), truth, W + "." + q, "two objects are stored")
            for q in ("info", "stream"):
                for k, s2, x in c.run(q, c.method(db, s, q), [sha], s.fork()):
                    t = truth(s2.facts, None)
                    if k == "exc":
                        if c.is_exc(s2, x, "gitdb.exc.BadObject") is True or t is False:
                            c.ob("missing", c.is_exc(s2, x, "gitdb.exc.BadObject") is True and t is False, W + "." + q, "%s although the object is %s" % (c.excname(s2, x), t), s2.events())
                        continue
                    c.ob("missing", t is True, W + "." + q, "a result although the object is %s" % t, s2.events())
                    for s3, v in attr(c, s2, x, "binsha"):
                        c.ob("from", True if s3.facts.ask(c_eq(v, sha)) is True or v is sha else None if unknown(v) else False, W + "." + q, "the id of the result is %s" % show(v)[:40], s2.events())
    return [("packed", packed), ("loose", loose), ("memory", memory)]


def murky_pack(s):
    for e in flat(s.events()):
        if e.kind == "loop" and e.out.mus and e.out.backs:
            return True
        if e.kind == "call" and not e.label.startswith("pack."):
            return True
    return False
