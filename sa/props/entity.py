"""C11, C16, C17, C20: what PackEntity makes of a pack and its index."""
from .common import *
from ..interp import Ev
from ..core import parts, crc_of, seq_eq, loops_of, flat, int_eq_all
from .packs import window, PACK, ieq, unknown
from . import packs

BASES = (3, 1)          # blob and commit stand for all base types
NAMES = {1: b"commit", 2: b"tree", 3: b"blob", 4: b"tag"}


class Entries:
    """A PackEntity whose pack consists of entries of unknown type, size and base at every offset:
    type(o), size(o), distance(o) of an offset delta, ref(o) of a reference delta; the index maps ids to entry numbers"""

    def __init__(self, c, ref_ty="memoryview", bases=BASES, extra=None, limit=None):
        self.limit = limit          # no more deltas than this in one chain
        self.c, self.ref_ty, self.bases = c, ref_ty, bases
        st = c.I.fresh_state()
        self.g = ghost(st)
        self.M = self.models()
        self.M.update(extra or {})
        st, self.ent = one(c, "gitdb.pack.PackEntity", [const("/p/pack-1.pack")], st, models=self.M)
        # the version dependent accessors are bound when the index is loaded
        outs = c.run("index", c.method(self.ent, st, "index"), [], st, models=self.M)
        self.idx = outs[0][2]
        st = outs[0][1]
        for nm in ("offset", "sha", "crc"):
            if self.idx.op == "ref":
                st.w(self.idx.args[0]).f[nm] = T("bound", ext("entry." + nm), self.idx)
        st.trace = None
        # a pack of version 2
        st.facts.assume(c_eq0(lin_add(packs.be(4, PACK, ZERO), const(0x5041434b), -1)), True)
        st.facts.assume(c_eq(slice_(PACK, ZERO, const(4)), const(b"PACK")), True)
        self.st = st

    # the uninterpreted pack
    def typ(self, o):
        return T("res", "type", (o,), "int")

    def usize(self, o):
        return T("res", "usize", (o,), "int")

    def dist(self, o):
        return T("res", "dist", (o,), "int")

    def ref(self, o):
        return T("res", "ref", (o,), self.ref_ty)

    def content(self, o):
        return T("res", "content", (o,), "bytes")

    def key(self, s):
        while s.op in ("tobytes", "tobytes_of") or s.op == "call" and s.args[0] == "bytes":
            s = s.args[-1] if s.op != "call" else s.args[1]
        return s

    def known(self, s):
        return self.c.I.as_cond(T("res", "known", (self.key(s),), "bool"), self.st)

    def number(self, s):
        return T("res", "number", (self.key(s),), "int")

    def ofs(self, i):
        return T("res", "ofs", (i,), "int")

    def sha(self, i):
        return T("res", "id", (i,), "bytes")

    def fork_type(self, st, o, what=None):
        """states in which the type of the entry at o is decided: [(state, type)]"""
        t = self.typ(o)
        st.w(self.g.args[0]).f["#looked"] = TRUE
        for k in self.bases + (6, 7):
            if st.facts.ask(c_eq0(lin_add(t, const(k), -1))) is True:
                return [(st, k)]
        out = []
        f = st.get(self.g.args[0]).f
        deltas = cval(f["#deltas"]) if "#deltas" in f else 0
        for k in self.bases + ((6, 7) if self.limit is None or deltas < self.limit else ()):
            s = st.fork()
            if k > 4:
                s.w(self.g.args[0]).f["#deltas"] = const(deltas + 1)
            if not s.facts.assume(c_eq0(lin_add(t, const(k), -1)), True):
                continue
            if k == 6:
                # a base lies before its delta, and behind the header of the pack
                if not s.facts.assume(c_le0(lin_add(const(12), lin_add(o, self.dist(o), -1), -1)), True):
                    continue
                s.facts.assume(c_le0(lin_add(const(1), self.dist(o), -1)), True)
            s.facts.assume(c_le0(scale(self.usize(o), -1)), True)
            out.append((s, k))
        return out

    def obj(self, I, st, o, k, as_stream, fr, X, n):
        a = [o, const(k), self.usize(o)]
        if k == 6:
            a.append(self.dist(o))
        if k == 7:
            a.append(self.ref(o))
        if as_stream:
            z = opaque(st, "zstream")
            st.w(z.args[0]).f["#at"] = o
            st.w(z.args[0]).f["#pos"] = ZERO
            st.w(z.args[0]).f["size"] = self.usize(o)
            a.append(z)
        nm = ("gitdb.base.ODeltaPack" if k in (6, 7) else "gitdb.base.OPack") + ("Stream" if as_stream else "Info")
        return I.instantiate(I.get(nm), a, {}, st, fr, X, n)

    def models(self):
        e = self

        def at(I, st, args, kw, fr, X, n):
            o = args[1]
            flag = args[2] if len(args) > 2 else kw.get("as_stream")
            out = []
            for s, k in e.fork_type(st, o):
                out += [(s2, tup(T("res", "dataofs", (o,), "int"), x)) for s2, x in e.obj(I, s, o, k, flag is TRUE, fr, X, n)]
            return out

        def header(I, st, args, kw, fr, X, n):
            d = args[0]
            if d is PACK:
                o = ZERO
            elif d.op == "slice" and d.args[0] is PACK:
                o = d.args[1]
            else:
                o = T("res", "somewhere", (d,), "int")
            return [(s, tup(const(k), e.usize(o), T("res", "hdrlen", (o,), "int"))) for s, k in e.fork_type(st, o)]

        def msb(I, st, args, kw, fr, X, n):
            d = I.val(args[0], st)
            o = args[1] if len(args) > 1 else kw.get("offset", ZERO)
            return [(st, tup(T("res", "msbpos", (d, o), "int"), T("res", "msb", (d, o), "int")))]

        def lookup(I, st, args, kw, fr, X, n):
            s = args[1]
            if ty(s) in ("memoryview", "buf"):
                X.append((st, I.mkexc(st, "builtins.TypeError", n, fr)))
                return []
            out = []
            s2 = st.fork()
            if s2.facts.assume(e.known(s), False):
                out.append((s2, NONE))
            if st.facts.assume(e.known(s), True):
                st.facts.assume(c_le0(scale(e.number(s), -1)), True)
                out.append((st, e.number(s)))
            return out

        def offset(I, st, args, kw, fr, X, n):
            i = args[-1]
            st.facts.assume(c_le0(lin_add(const(12), e.ofs(i), -1)), True)
            return [(st, e.ofs(i))]

        def sha(I, st, args, kw, fr, X, n):
            st.facts.assume(c_eq0(lin_add(length(e.sha(args[-1])), const(20), -1)), True)
            return [(st, e.sha(args[-1]))]

        def crc(I, st, args, kw, fr, X, n):
            return [(st, T("res", "crc", (args[-1],), "int"))]

        def entry(I, st, args, kw, fr, X, n):
            i = args[-1]
            return [(s, tup(o, e.sha(i), T("res", "crc", (i,), "int"))) for s, o in offset(I, st, args, kw, fr, X, n)]

        def size(I, st, args, kw, fr, X, n):
            r = T("res", "count", (), "int")
            st.facts.assume(c_le0(scale(r, -1)), True)
            return [(st, r)]

        def read(I, st, args, kw, fr, X, n):
            o = args[0]
            f = st.get(o.args[0]).f if o.op == "ref" else {}
            if "#at" not in f:
                return I.effect("read", args, kw, st, fr, X, n, "bytes")
            d, p = e.content(f["#at"]), f["#pos"]
            m = args[1] if len(args) > 1 else const(-1)
            if m is const(-1) or m is NONE:
                st.w(o.args[0]).f["#pos"] = length(d)
                return [(st, slice_(d, p, NONE))]
            end = lin_add(p, m)
            st.w(o.args[0]).f["#pos"] = end
            return [(st, slice_(d, p, end))]

        def delta(I, st, args, kw, fr, X, n):
            z = opaque(st, "deltareader")
            f = st.w(z.args[0]).f
            f["#streams"] = args[-1]
            items = I.const_items(I.iterable(args[-1], st))
            f["#unread"] = TRUE
            for x in items or ():
                for s2, y in attr(e.c, st.fork(), x, "stream"):
                    if y.op == "ref" and s2.get(y.args[0]).f.get("#pos") is not ZERO:
                        f["#unread"] = FALSE
            f["#list"] = tup(*items) if items is not None else NONE
            f["size"] = T("res", "target", (f["#list"],), "int")
            if items:
                for s2, y in attr(e.c, st.fork(), items[-1], "type"):
                    f["type"] = y
                for s2, y in attr(e.c, st.fork(), items[-1], "type_id"):
                    f["type_id"] = y
            return [(st, z)]
        K = "gitdb.pack.PackIndexFile."
        M = dict(window(PACK))
        M.update({"gitdb.pack.pack_object_at": at, "gitdb.fun.pack_object_header_info": header, "gitdb.fun.msb_size": msb,
                  K + "sha_to_index": lookup, "entry.offset": offset, "entry.sha": sha, "entry.crc": crc, K + "entry": entry, K + "size": size,
                  ".read": read, "gitdb.stream.DeltaApplyReader": delta})
        return M

    def looked(self, s):
        return s.get(self.g.args[0]).f.get("#looked") is TRUE

    # what should come out
    def walk(self, f, o, own=True, limit=12):
        """the chain from the entry at o, as decided on a path: ([(offset, type)], how it ends)
        ends: base, unresolved, open (not decided on this path)"""
        out = []
        while len(out) < limit:
            t = None
            for k in self.bases + (6, 7):
                if f.ask(c_eq0(lin_add(self.typ(o), const(k), -1))) is True:
                    t = k
            if t is None:
                return out, "open"
            out.append((o, t))
            if t == 6:
                o = lin_add(o, self.dist(o), -1)
            elif t == 7:
                if not own:
                    return out, "unresolved"
                r = f.ask(self.known(self.ref(o)))
                if r is None:
                    return out, "open"
                if r is False:
                    return out, "unresolved"
                o = self.ofs(self.number(self.ref(o)))
            else:
                return out, "base"
        return out, "long"


class Deep(Entries):
    """a pack with one chain of n deltas, each ten bytes after its base, at known offsets; every kth is a reference delta"""

    def __init__(self, c, n, k=0):
        self.n, self.k = n, k
        Entries.__init__(self, c, "bytes")

    def last(self):
        return const(1000 + 10 * self.n)

    def dist(self, o):
        return const(10)

    def ref(self, o):
        return const((cval(o) - 10).to_bytes(20, "big")) if is_const(o) else Entries.ref(self, o)

    def known(self, s):
        return TRUE if is_const(self.key(s)) else Entries.known(self, s)

    def number(self, s):
        x = self.key(s)
        return const(int.from_bytes(cval(x), "big") // 10) if is_const(x) else Entries.number(self, s)

    def ofs(self, i):
        return const(cval(i) * 10) if is_const(i) else Entries.ofs(self, i)

    def fork_type(self, st, o, what=None):
        if not is_const(o):
            return Entries.fork_type(self, st, o, what)
        st.w(self.g.args[0]).f["#looked"] = TRUE
        return [(st, self.kind(o))]

    def kind(self, o):
        i = (cval(o) - 1000) // 10
        return 3 if i <= 0 else 7 if self.k and i % self.k == 0 else 6

    def chain(self):
        return [(const(1000 + 10 * i), self.kind(const(1000 + 10 * i))) for i in range(self.n, -1, -1)]


def looped(s):
    return any(e.kind == "loop" for e in s.events())


def msb_at(t):
    """(content, position expression, number of bytes visible) of a number decoded by msb_size"""
    if t.op == "res" and t.args[0] in ("msb", "msbpos"):
        return t.args[1]
    return None


def listed(c, s, x):
    return c.I.const_items(c.I.iterable(x, s))


def same_chain(c, rule, e, s, x, chain, where, what):
    items = listed(c, s, x) if x is not None else None
    if items is None:
        c.ob(rule, None, where, what + ": streams are not known")
        return
    c.ob(rule, len(items) == len(chain), where, "%s: %d streams, expected %d" % (what, len(items), len(chain)), s.events())
    if len(items) != len(chain):
        return
    for i, (y, (o, t)) in enumerate(zip(items, chain)):
        for s2, z in attr(c, s, y, "stream"):
            at = s2.get(z.args[0]).f.get("#at") if z.op == "ref" else None
            if at is None:
                c.ob(rule, None, where, what + ": stream %s" % show(z)[:60])
                continue
            c.ob(rule, ieq(s2.facts, at, o), where, "%s: stream %d is that of the entry at %s" % (what, i, show(at)[:80]), s.events())
            c.ob(rule, s2.get(z.args[0]).f.get("#pos") is ZERO, where, "%s: stream %d is unread" % (what, i), s.events())


def record(c, rule, kind, e, s, v, o, sha, chain, w, what):
    """does v describe the object at the end of the chain of the entry at o?"""
    for s2, x in attr(c, s, v, "binsha"):
        c.ob(rule, x is sha or (None if unknown(x) else False), w, "%s: id %s" % (what, show(x)[:60]), s.events())
    for s2, x in attr(c, s, v, "type"):
        c.ob(rule, x is const(NAMES[chain[-1][1]]) or (None if unknown(x) else False), w, "%s: type %s" % (what, show(x)[:60]), s.events())
    if kind == "info":
        for s2, x in attr(c, s, v, "size"):
            if len(chain) == 1:
                c.ob(rule, ieq(s2.facts, x, e.usize(o)), w, "%s: size %s" % (what, show(x)[:80]), s.events())
                continue
            m = msb_at(x)
            ok = None
            if m and x.args[0] == "msb":
                d, p = m
                n = msb_at(p)
                full = e.content(o)
                ok = bool(n) and p.args[0] == "msbpos" and n[0] is d and n[1] is ZERO
                # the part of the delta which was read: from its start, at least twenty bytes
                vis = d is full or d.op == "slice" and d.args[0] is full and d.args[1] is ZERO and s2.facts.ask(c_le0(lin_add(const(20), d.args[2], -1))) is True
                ok = ok and vis
            elif not unknown(x) or x.op == "res":
                ok = False
            c.ob(rule, ok, w, "%s: size %s" % (what, show(x)[:80]), s.events())
        return
    got = attr(c, s, v, "stream")
    if not got:
        c.ob(rule, False if v.op == "ref" and s.get(v.args[0]).cls.op == "cls" else None, w, "%s: has a stream" % what, s.events())
    for s2, x in got:
        f = s2.get(x.args[0]).f if x.op == "ref" else {}
        if len(chain) == 1:
            c.ob(rule, None if not f else "#at" in f and ieq(s2.facts, f["#at"], o) is True and f["#pos"] is ZERO, w, "%s: stream %s" % (what, show(f.get("#at", x))[:60]), s.events())
            for s3, z in attr(c, s, v, "size"):
                c.ob(rule, ieq(s3.facts, z, e.usize(o)), w, "%s: size %s" % (what, show(z)[:80]), s.events())
        else:
            c.ob(rule, None if not f else "#streams" in f, w, "%s: the content is that of a delta reader" % what, s.events())
            if "#streams" in f:
                c.ob(rule, f["#unread"] is TRUE, w, what + ": the streams are unread", s.events())
                same_chain(c, rule, e, s2, f["#list"], chain, w, what)
                for s3, z in attr(c, s, v, "size"):
                    c.ob(rule, z is f["size"] or (None if unknown(z) and z.op != "res" else False), w, "%s: size %s" % (what, show(z)[:80]), s.events())


def c11(c):
    L = 5 if c.thorough else 4
    un = {"*": L + 1}
    c.rule("chain", "the streams collected for an entry are those at the offsets which follow from distances and base ids, in this order, and end at the first base object or at a base which is not in the index")
    c.rule("pack-chain", "PackFile.collect_streams follows distances only: its chain ends at the first base object or reference delta")
    c.rule("info", "info of an entry carries the id, the type of the base object at the end of its chain, and the size of the object: the declared target size of the first delta, or the entry's own size")
    c.rule("stream", "stream of an entry carries the id and delivers the entry's own stream, or a delta reader over exactly the chain's unread streams")
    c.rule("missing", "BadObject is raised iff the id is not in the index or the chain ends at an unresolvable base")
    c.rule("coverage", "chains of every shape up to the bound are analysed")
    W = "gitdb/pack.py "

    def shapes(seen, n):
        """are all shapes of chains of up to n entries there?"""
        want = set()
        todo = [()]
        while todo:
            p = todo.pop()
            for k in BASES[:1]:
                want.add(p + (k,))
            if len(p) + 1 < n:
                for k in (6, 7):
                    todo.append(p + (k,))
        return [w for w in want if w not in seen]

    def pack(c):
        for rt in ("memoryview", "bytes"):
            e = Entries(c, rt, limit=L + 1)
            o = sym("offset", "int")
            st = e.st.fork()
            st.facts.assume(c_le0(lin_add(const(12), o, -1)), True)
            outs = c.run("pack", c.method(e.ent, st, "pack"), [], st, models=e.M)
            pk = outs[0][2]
            seen = set()
            for k, s, v in c.run("PackFile.collect_streams", c.method(pk, st, "collect_streams"), [o], outs[0][1], models=e.M, unroll=un):
                if looped(s):
                    continue
                if k != "ret":
                    c.ob("pack-chain", False, W + "PackFile.collect_streams", "fails with " + c.excname(s, v), s.events())
                    continue
                chain, end = e.walk(s.facts, o, own=False)
                if end == "long":
                    continue
                if end == "open":
                    c.ob("pack-chain", False if chain or e.looked(s) else None, W + "PackFile.collect_streams", "the chain ends before a base was found", s.events())
                    continue
                seen.add(tuple(t for _, t in chain))
                same_chain(c, "pack-chain", e, s, v, chain, W + "PackFile.collect_streams", "chain of types %s" % [t for _, t in chain])
            miss = [w for w in [(6,) * i + (t,) for i in range(L) for t in (3, 7)] if w not in seen]
            c.ob("coverage", not miss or None, W + "PackFile.collect_streams", "chains %s" % (miss or "complete"))

    def entity(c):
        for rt in ("memoryview", "bytes"):
            for name in ("collect_streams_at_offset", "collect_streams"):
                e = Entries(c, rt, limit=L + 1)
                w = W + "PackEntity." + name
                st = e.st.fork()
                if name == "collect_streams":
                    arg = sym("sha", "bytes")
                    o = e.ofs(e.number(arg))
                else:
                    arg = o = sym("offset", "int")
                    st.facts.assume(c_le0(lin_add(const(12), o, -1)), True)
                seen = set()
                for k, s, v in c.run("PackEntity.%s(%s ids)" % (name, rt), c.method(e.ent, st, name), [arg], st, models=e.M, unroll=un):
                    if looped(s):
                        continue
                    if name == "collect_streams" and s.facts.ask(e.known(arg)) is not True:
                        c.ob("missing", k == "exc" and c.is_exc(s, v, "gitdb.exc.BadObject") is True, w, "id which is not in the index: %s" % (c.excname(s, v) if k == "exc" else "returned"), s.events())
                        continue
                    if k != "ret":
                        c.ob("chain", False, w, "fails with " + c.excname(s, v), s.events())
                        continue
                    chain, end = e.walk(s.facts, o)
                    if end == "long":
                        continue
                    if end == "open":
                        c.ob("chain", False if chain or k == "exc" or e.looked(s) else None, w, "the chain ends before a base was found", s.events())
                        continue
                    seen.add(tuple(t for _, t in chain))
                    same_chain(c, "chain", e, s, v, chain, w, "chain of types %s (%s)" % ([t for _, t in chain], end))
                miss = shapes(seen, L)
                c.ob("coverage", not miss or None, w, "chains %s" % (miss or "complete"))

    def objects(c):
        for rt in ("memoryview", "bytes"):
            for name in ("info", "stream", "info_at_index", "stream_at_index"):
                e = Entries(c, rt, limit=L + 1)
                w = W + "PackEntity." + name
                st = e.st.fork()
                if name.endswith("_at_index"):
                    arg = sym("index", "int")
                    st.facts.assume(c_le0(scale(arg, -1)), True)
                    o, sha = e.ofs(arg), e.sha(arg)
                else:
                    arg = sha = sym("sha", "bytes")
                    o = e.ofs(e.number(arg))
                seen = set()
                for k, s, v in c.run("PackEntity.%s(%s ids)" % (name, rt), c.method(e.ent, st, name), [arg], st, models=e.M, unroll=un):
                    if looped(s):
                        continue
                    bad = k == "exc" and c.is_exc(s, v, "gitdb.exc.BadObject") is True
                    if not name.endswith("_at_index") and s.facts.ask(e.known(arg)) is not True:
                        c.ob("missing", bad, w, "id which is not in the index: %s" % (c.excname(s, v) if k == "exc" else "returned"), s.events())
                        continue
                    chain, end = e.walk(s.facts, o)
                    if end == "long":
                        continue
                    if end == "open":
                        c.ob("missing" if k == "exc" else "chain", False if chain or k == "exc" or e.looked(s) else None, w, "%s although the base was not looked for" % (c.excname(s, v) if k == "exc" else "returned"), s.events())
                        continue
                    ts = [t for _, t in chain]
                    seen.add(tuple(ts))
                    what = "chain of types %s (%s)" % (ts, end)
                    if end == "unresolved":
                        c.ob("missing", bad, w, what + ": %s" % (c.excname(s, v) if k == "exc" else "returned"), s.events())
                        continue
                    if k == "exc":
                        c.ob("missing", False, w, what + ": " + c.excname(s, v), s.events())
                        continue
                    rule = name.split("_")[0]
                    record(c, rule, rule, e, s, v, o, sha, chain, w, what)
                miss = shapes(seen, L)
                c.ob("coverage", not miss or None, w, "chains %s" % (miss or "complete"))

    def deep(c):
        """chains longer than those above, of one shape"""
        n = 1200 if c.thorough else 300
        w = W + "%s.%s"
        for cls, k, names in (("PackFile", 0, ("collect_streams",)), ("PackEntity", 0, ("collect_streams_at_offset", "info", "stream")), ("PackEntity", 3, ("collect_streams_at_offset", "info"))):
            e = Deep(c, n, k)
            for name in names:
                st = e.st.fork()
                if cls == "PackFile":
                    k1, st, me = c.run("pack", c.method(e.ent, st, "pack"), [], st, models=e.M)[0]
                else:
                    me = e.ent
                sha = const(cval(e.last()).to_bytes(20, "big"))
                got = 0
                for k1, s, v in c.run("%s.%s (%d deltas)" % (cls, name, n), c.method(me, st, name), [e.last() if name.startswith("collect") else sha], st, models=e.M, unroll={"*": n + 5}):
                    if looped(s):
                        continue
                    got += 1
                    what = "chain of %d deltas" % n
                    rule = "pack-chain" if cls == "PackFile" else "chain" if name.startswith("collect") else name
                    if k1 != "ret":
                        c.ob(rule, False, w % (cls, name), "%s: fails with %s" % (what, c.excname(s, v)), s.events())
                    elif rule in ("info", "stream"):
                        record(c, rule, rule, e, s, v, e.last(), sha, e.chain(), w % (cls, name), what)
                    else:
                        same_chain(c, rule, e, s, v, e.chain(), w % (cls, name), what)
                c.ob("coverage", True if got else None, w % (cls, name), "%d deltas: %d paths" % (n, got))
    return [("pack", pack), ("entity", entity), ("objects", objects), ("deep", deep)]


# ------------------------------------------------------------------ C20

def c20(c):
    c.rule("crc", "with checksums: True is returned iff the CRC-32 of exactly the bytes from the entry's offset to the next entry's, or to the trailing checksum of the pack, is the one in the index")
    c.rule("sha", "without checksums: True is returned iff the SHA-1 of type, size and the content delivered is the id")
    c.rule("missing", "BadObject is raised iff the id is not in the index")
    c.rule("version", "UnsupportedOperation is raised iff the index is of version 1")
    c.rule("coverage", "every order of the entries was analysed")
    W = "gitdb/pack.py PackEntity.is_valid_stream"
    N = 4 if c.thorough else 3

    def bed(n, j, ver):
        """a pack entity whose index lists n entries at symbolic, distinct offsets; the id is that of entry j"""
        os_ = [sym("offset%d" % i, "int") for i in range(n)]
        e = Entries(c)

        def offsets(I, st, args, kw, fr, X, nn):
            return [(st, st.new(ext("builtins.list"), p=T("seq", *os_)))]

        def version(I, st, args, kw, fr, X, nn):
            return [(st, const(ver))]

        def offset(I, st, args, kw, fr, X, nn):
            i = args[-1]
            return [(st, os_[j] if i is e.number(sha) else e.ofs(i))]

        def size(I, st, args, kw, fr, X, nn):
            return [(st, const(n))]
        K = "gitdb.pack.PackIndexFile."
        sha = sym("sha", "bytes")
        M = dict(e.M, **{K + "offsets": offsets, K + "version": version, "entry.offset": offset, K + "size": size})
        st = e.st.fork()
        for i, o in enumerate(os_):
            st.facts.assume(c_le0(lin_add(const(12), o, -1)), True)
            st.facts.assume(c_le0(lin_add(lin_add(o, const(1)), END, -1)), True)
            for p in os_[:i]:
                st.facts.assume(c_eq0(lin_add(o, p, -1)), False)
        return os_, e, sha, M, st

    def orders(f, os_, j, i=0, order=()):
        """the cases of which entries follow entry j, in which order: [(facts, following entries in order)]"""
        if i == len(os_):
            return [(f, list(order))]
        if i == j:
            return orders(f, os_, j, i + 1, order)
        out = []
        for k in range(len(order) + 2):
            g = f.copy()
            # behind which of the entries found so far does it lie?  (k = 0: before entry j)
            lo = [] if k == 0 else [([j] + list(order))[k - 1]]
            hi = [j] if k == 0 else list(order[k - 1:k])
            if all(g.assume(c_le0(lin_add(lin_add(os_[a], const(1)), os_[b], -1)), True) and not g.bad
                   for a, b in [(x, i) for x in lo] + [(i, x) for x in hi]):
                out += orders(g, os_, j, i + 1, order if k == 0 else order[:k - 1] + (i,) + order[k - 1:])
        return out

    def crc(c):
        for n in range(1, N + 1):
            for j in range(n):
                for ver in (1, 2):
                    os_, e, sha, M, st = bed(n, j, ver)
                    # entries of up to two chunks, so that the loop over the chunks ends
                    st.facts.assume(c_le0(lin_add(length(PACK), const(-2 * 4096000))), True)
                    seen = set()
                    for k, s, v in c.run("is_valid_stream(crc, entry %d of %d, version %d)" % (j, n, ver), c.method(e.ent, st, "is_valid_stream"), [sha, TRUE], st, models=M, unroll={"*": 5}):
                        path = s.events()
                        if ver == 1:
                            c.ob("version", k == "exc" and (c.is_exc(s, v, "gitdb.exc.UnsupportedOperation") is True or s.facts.ask(e.known(sha)) is False), W, "index of version 1: %s" % (c.excname(s, v) if k == "exc" else "returned"), path)
                            continue
                        if s.facts.ask(e.known(sha)) is False:
                            c.ob("missing", k == "exc" and c.is_exc(s, v, "gitdb.exc.BadObject") is True, W, "unknown id: %s" % (c.excname(s, v) if k == "exc" else "returned"), path)
                            continue
                        if k == "exc":
                            c.ob("crc", False, W, "fails with " + c.excname(s, v), path)
                            continue
                        cnd = c.I.as_cond(v, s)
                        stored = T("res", "crc", (e.number(sha),), "int")
                        for f, order in orders(s.facts, os_, j):
                            seen.add(tuple(order))
                            nxt = os_[order[0]] if order else END
                            want = T("crc32", slice_(PACK, os_[j], nxt))
                            # checksums of the same part of the pack, with its ends written differently
                            m = {}
                            for x in [y for t in [v] + [z for ev in flat(path) if ev.kind == "assume" for z in ev.args if isinstance(z, Term)] for y in subterms(t)]:
                                if x.op == "crc32" and x not in m:
                                    y = merge(x.args[0], f)
                                    if y.op == "slice" and y.args[0] is PACK and f.ask(c_eq0(lin_add(y.args[1], os_[j], -1))) is True and f.ask(c_eq0(lin_add(y.args[2], nxt, -1))) is True:
                                        m[x] = want
                            if is_const(v):
                                ok = any(f.ask(c_eq0(lin_add(x, stored, -1))) is bool(cval(v)) for x in m)
                            else:
                                ok = iff(f, subst(cnd, m), c_eq0(lin_add(want, stored, -1)))
                            c.ob("crc", ok or (None if unknown2(v) or is_const(v) and len(m) else False), W, "entry %d of %d, next ones %s: result %s" % (j, n, order, show(v)[:160]), path)
                    if ver == 2:
                        c.ob("coverage", len(seen) == len(orders(st.facts, os_, j)) or None, W, "%d orders" % len(seen))

    def anysize(c):
        # entries of any size, by induction over the chunks
        for n in (1, 2):
            for j in range(n):
                os_, e, sha, M, st = bed(n, j, 2)
                for k, s, v in c.run("is_valid_stream(crc, entry %d of %d of any size)" % (j, n), c.method(e.ent, st, "is_valid_stream"), [sha, TRUE], st, models=M):
                    path, f = s.events(), s.facts
                    if k == "exc":
                        continue
                    loops = loops_of(path)
                    cnd = c.I.as_cond(v, s)
                    stored = T("res", "crc", (e.number(sha),), "int")
                    ok = True
                    for f, order in orders(s.facts, os_, j):
                        nxt = os_[order[0]] if order else END
                        ok2 = None
                        for x in [x for x in subterms(v) if x.op == "crc32" or x.op == "mu" and ty(x) == "int"]:
                            if not any(iff(f, cnd, c_eq0(lin_add(y, stored, -1))) for y in (x, bits(x, 0, 32))):
                                continue
                            acc = concat(const(b""), *crc_of(x))
                            for w in [slice_(PACK, os_[j], nxt)] + [slice_(PACK, os_[j], m) for m in loops if ty(m) == "int" and reaches(m, nxt, loops, f)]:
                                if seq_eq(acc, w, loops, f) is True:
                                    ok2 = True
                        ok = ok and ok2
                    c.ob("crc", ok, W, "entry %d of %d of any size: result %s" % (j, n, show(v)[:160]), path)

    def sha1(c):
        for depth, base in ((1, 3), (1, 1), (2, 3), (3, 3)):
            e = Entries(c, bases=(3, 1))
            sha = sym("sha", "bytes")
            st = e.st.fork()
            g = ghost(st)

            def read(I, st, args, kw, fr, X, n):
                f = st.get(args[0].args[0]).f if args[0].op == "ref" else {}
                if "#streams" in f or "#at" in f and not f.get("#part"):
                    r = reader(g)(I, st, args, kw, fr, X, n)
                    return r
                return e.M[".read"](I, st, args, kw, fr, X, n)

            def target(I, st, args, kw, fr, X, n):
                out = e.M["gitdb.stream.DeltaApplyReader"](I, st, args, kw, fr, X, n)
                for s, z in out:
                    s.facts.assume(c_le0(scale(s.get(z.args[0]).f["size"], -1)), True)
                return out
            M = dict(e.M, **{".read": read, "gitdb.stream.DeltaApplyReader": target})
            o = e.ofs(e.number(sha))
            for i in range(depth - 1):
                st.facts.assume(c_eq0(lin_add(e.typ(o), const(6), -1)), True)
                st.facts.assume(c_le0(lin_add(const(12), lin_add(o, e.dist(o), -1), -1)), True)
                o = lin_add(o, e.dist(o), -1)
            st.facts.assume(c_eq0(lin_add(e.typ(o), const(base), -1)), True)
            n = 0
            for k, s, v in c.run("is_valid_stream(sha, chain of %d)" % depth, c.method(e.ent, st, "is_valid_stream"), [sha], st, models=M, unroll={"gitdb.pack.PackFile.collect_streams": 4, "gitdb.pack.PackEntity.collect_streams_at_offset": 4}):
                path, f = s.events(), s.facts
                loops = loops_of(path)
                if f.ask(e.known(sha)) is False:
                    c.ob("missing", k == "exc" and c.is_exc(s, v, "gitdb.exc.BadObject") is True, W, "unknown id: %s" % (c.excname(s, v) if k == "exc" else "returned"), path)
                    continue
                chain, ends = e.walk(f, e.ofs(e.number(sha)))
                if ends != "base":
                    c.ob("sha", None, W, "chain is not decided", path)
                    continue
                if k == "exc":
                    c.ob("sha", False, W, "fails with " + c.excname(s, v), path)
                    continue
                n += 1
                size = e.usize(chain[0][0])
                for _, t in s.heap.items():
                    if "#streams" in t.f:
                        size = t.f["size"]
                from .store import dec_bytes
                P = concat(const(NAMES[chain[-1][1]]), const(b" "), dec_bytes(size), const(b"\0"), s.get(g.args[0]).p)
                cnd = c.I.as_cond(v, s)
                digests = {x for t in [v] + [z for ev in flat(path) if ev.kind == "assume" for z in ev.args if isinstance(z, Term)] for x in subterms(t) if x.op == "sha1"}
                ok = None if unknown2(v) or is_const(v) and digests else False
                if is_const(v) and cval(v) is False and f.ask(c_eq0(lin_add(length(s.get(g.args[0]).p), size, -1))) is False:
                    # less content than declared can't match
                    ok = True
                for d in digests:
                    if f.ask(c_eq(d, sha)) is bool(cval(v)) if is_const(v) else iff(f, cnd, c_eq(d, sha)):
                        r = seq_eq(d.args[0], P, loops, f)
                        ok = r if r is not False or ok is not True else ok
                c.ob("sha", ok, W, "chain of %d: result %s" % (depth, show(v)[:200]), path)
                # the content is read completely: as much as declared, or until the stream delivers less than asked for
                rd = [x for x in flat(path) if x.kind == "call" and x.label == ".read" and len(x.args) > 1 and x.res is not None]
                full = int_eq_all(length(s.get(g.args[0]).p), size, f, loops)
                if full is not True and rd and f.ask(c_le0(lin_add(lin_add(length(rd[-1].res), const(1)), rd[-1].args[1], -1))) is True:
                    full = True
                c.ob("sha", full, W, "chain of %d: the content is read completely" % depth, path)
            c.ob("coverage", True if n else None, W, "%d paths" % n)
    return [("crc", crc), ("any size", anysize), ("sha1", sha1)]


END = lin_add(length(PACK), const(-20))


def unknown2(t):
    from ..core import unknown as u
    return u(t)


def merge(t, f):
    """a concatenation of adjacent slices as one slice, by the facts of the path"""
    out = []
    for p in parts(t):
        q = out[-1] if out else None
        if p.op == "slice" and p.args[1] is not NONE and p.args[2] is not NONE and f.ask(c_eq0(lin_add(p.args[1], p.args[2], -1))) is True:
            continue
        if q is not None and p.op == q.op == "slice" and p.args[0] is q.args[0] and f.ask(c_eq0(lin_add(q.args[2], p.args[1], -1))) is True:
            out[-1] = slice_(p.args[0], q.args[1], p.args[2])
        else:
            out.append(p)
    return out[0] if len(out) == 1 else concat(const(b""), *out)


def reaches(m, bound, loops, f):
    """has a loop variable the value of a bound when the loop has ended?"""
    if f.ask(c_eq0(lin_add(m, bound, -1))) is True:
        return True
    if f.ask(c_le0(lin_add(bound, m, -1))) is not True:
        return False
    # it never exceeds it
    info, loc, iv = loops[m]
    return iv is not None and f.ask(c_le0(lin_add(iv, bound, -1))) is True and \
        all(loc in bv and s.facts.ask(c_le0(lin_add(bv[loc], bound, -1))) is True for _, s, bv in info.backs)


def iff(f, a, b):
    """do two conditions mean the same on a path?"""
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        for val in (True, False):
            g = f.copy()
            if not g.assume(x, val):
                continue
            if g.ask(y) is not val:
                return False
    return True
