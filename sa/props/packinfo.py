"""C33: what packs and their indices report about themselves."""
from .common import *
from .packs import window, by_path, PACK, IDX, be, same_val, unknown
from .lazy import access

WF, WE = "gitdb/pack.py PackFile.", "gitdb/pack.py PackEntity."
ENTRY = {"gitdb.pack.pack_object_at": lambda I, st, args, kw, fr, X, n: [(st, tup(T("res", "dataofs", tuple(args[1:2]), "int"), T("res", "entry", tuple(args[1:3]), None)))]}


def reach(st, v, seen=None):
    """heap objects which can be reached from a value"""
    seen = set() if seen is None else seen
    if v.op == "ref":
        i = v.args[0]
        if i in seen:
            return seen
        seen.add(i)
        o = st.get(i)
        for x in list(o.f.values()) + [o.p]:
            if hasattr(x, "op"):
                reach(st, x, seen)
        return seen
    for x in v.args:
        if hasattr(x, "op"):
            reach(st, x, seen)
        elif isinstance(x, tuple):
            for y in x:
                if hasattr(y, "op"):
                    reach(st, y, seen)
    return seen


def c33(c):
    c.rule("header", "size() and version() of a pack are the count and the version of its header, data() is all of it, checksum() its last 20 bytes, path() the path given")
    c.rule("first", "info and stream at offset 0 are those of the entry at offset 12, at any other offset those of the entry there")
    c.rule("pair", "an entity made of the path of a pack or of its index works on the two files of this name")
    c.rule("index", "path() of an index is the path given, version() the version of the file")
    c.rule("close", "after close neither the pack nor the index keep their file mapped, and closing again is harmless")
    I = c.I
    ofs = sym("offset", "int")
    M = dict(window(PACK), **ENTRY)

    def sound(st):
        st.facts.assume(c_eq0(lin_add(be(4, PACK, ZERO), const(0x5041434b), -1)), True)
        st.facts.assume(c_eq(slice_(PACK, ZERO, const(4)), const(b"PACK")), True)
        st.facts.assume(c_le0(lin_add(const(32), length(PACK), -1)), True)
        return st

    def entry_at(at, stream):
        return T("res", "entry", (at, TRUE if stream else FALSE), None)
    n = length(PACK)
    tail = slice_(PACK, lin_add(n, const(-20)), NONE)
    ACC = [("size", ()), ("version", ()), ("data", ()), ("checksum", ()), ("path", ()), ("info", (ofs,)), ("stream", (ofs,)), ("info", (ZERO,)), ("stream", (ZERO,))]
    P = "/p/x.pack"

    def judge(c, s, name, aa, k, v, after):
        what = "%s%s%s" % (name, "(0)" if aa == (ZERO,) else "", " after " + after if after else "")
        path = s.events()
        if k == "exc":
            c.ob("header", False, WF + name, "%s raises %s" % (what, c.excname(s, v)), path)
            return
        f = s.facts
        if name in ("size", "version"):
            w = be(4, PACK, const(8 if name == "size" else 4))
            c.ob("header", same_val(f, v, w), WF + name, "%s is %s" % (what, show(v)[:60]), path)
        elif name == "path":
            c.ob("header", v is const(P), WF + name, "%s is %s" % (what, show(v)[:60]), path)
        elif name in ("data", "checksum"):
            v = I.val(v, s)
            w = (PACK, slice_(PACK, ZERO, NONE)) if name == "data" else (tail, slice_(tail, ZERO, NONE), slice_(PACK, lin_add(n, const(-20)), n), slice_(PACK, const(-20), NONE))
            c.ob("header", True if any(v is x for x in w) else (None if unknown(v) else False), WF + name, "%s is %s" % (what, show(v)[:80]), path)
        else:
            zero = f.ask(c_eq0(aa[0]))
            for cond in ((True, False) if zero is None else (zero,)):
                g = f.copy()
                if zero is None and not g.assume(c_eq0(aa[0]), cond):
                    continue
                if v.op != "res" or v.args[0] != "entry":
                    c.ob("first", None, WF + name, "%s is %s" % (what, show(v)[:60]), path)
                    continue
                at, st_ = (tuple(v.args[1]) + (None, None))[:2]
                w = const(12) if cond else aa[0]
                c.ob("first", g.ask(c_eq0(lin_add(at, w, -1))), WF + name, "%s: the entry at %s instead of %s" % (what, show(at)[:40], show(w)[:20]), path)
                c.ob("first", st_ is (TRUE if name == "stream" else FALSE), WF + name, "%s: as_stream is %s" % (what, show(st_) if st_ is not None else "missing"), path)

    def pack(c):
        for b, ba in ACC:
            st = sound(I.fresh_state())
            st, o = one(c, "gitdb.pack.PackFile", [const(P)], st, models=M)
            for k, s, v in access(c, st, o, b, ba, M):
                judge(c, s, b, ba, k, v, None)
                if k != "ret":
                    continue
                for b2, ba2 in ACC:
                    for k2, s2, v2 in access(c, s.fork(), o, b2, ba2, M):
                        judge(c, s2, b2, ba2, k2, v2, b)

    def pair(c):
        B = sym("base", "str")
        cases = [(concat(const(""), B, const(".pack")), B), (concat(const(""), B, const(".idx")), B)]
        for x in ("/r/pack-1", "pack-1", "/a.b/pack-1", "/a.pack/x.idx/pack-1", "/r/pack-1.2", "/r/x.idx"):
            cases += [(const(x + ".pack"), const(x)), (const(x + ".idx"), const(x))]
        for p, base in cases:
            st = I.fresh_state()
            for s, o in construct(c, "gitdb.pack.PackEntity", [p], st):
                for part, ext_ in (("pack", ".pack"), ("index", ".idx")):
                    for k, s2, v in c.run(part, c.method(o, s, part), [], s.fork()):
                        for k3, s3, v3 in ([(k, s2, v)] if k == "exc" else access(c, s2, v, "path", (), {})):
                            w = concat(const(""), base, const(ext_))
                            sure = is_const(p) and (k3 == "exc" or is_const(v3))
                            c.ob("pair", k3 == "ret" and v3 is w or (False if sure else None), WE + part, "entity of %s: %s is %s" % (show(p), part, show(v3)[:60] if k3 == "ret" else c.excname(s3, v3)), s3.events())

    def index(c):
        W = "gitdb/pack.py PackIndexFile."
        MI = window(IDX)
        for ver in (1, 2):
            st = I.fresh_state()
            st.facts.assume(c_eq(slice_(IDX, ZERO, const(4)), const(b"\xfftOc")), ver == 2)
            if ver == 2:
                st.facts.assume(c_eq0(lin_add(be(4, IDX, const(4)), const(2), -1)), True)
            ip = const("/p/x.idx")
            st, o = one(c, "gitdb.pack.PackIndexFile", [ip], st, models=MI)
            for a, b in (("version", "path"), ("path", "version"), ("size", "version"), ("packfile_checksum", "version")):
                for k, s, v in access(c, st.fork(), o, a, (), MI):
                    for nm, kk, ss, vv in [(a, k, s, v)] + ([(b,) + x for x in access(c, s, o, b, (), MI)] if k == "ret" else []):
                        w = {"version": const(ver), "path": ip}.get(nm)
                        if w is not None:
                            c.ob("index", kk == "ret" and vv is w, W + nm, "version %d: %s" % (ver, show(vv)[:40] if kk == "ret" else c.excname(ss, vv)), ss.events())

    def close(c):
        from .packs import idx_or_pack
        MM = dict(by_path(idx_or_pack), **ENTRY)
        MM[".force_map_handle_removal_win"] = lambda I, st, args, kw, fr, X, n: [(st, NONE)]
        MM[".window_size"] = lambda I, st, args, kw, fr, X, n: [(st, ZERO)]
        sha = sym("sha", "bytes")
        i = sym("i", "int")
        first = {"nothing": [], "size of the index": [("index", "size", ())], "size of both": [("index", "size", ()), ("pack", "size", ())],
                 "an entry": [("index", "sha", (i,)), ("pack", "stream", (ofs,))], "checksum": [("pack", "checksum", ())],
                 "data": [("pack", "data", ()), ("index", "offset", (i,))]}
        for what, ops in first.items():
            st = sound(I.fresh_state())
            st.facts.assume(c_eq(slice_(IDX, ZERO, const(4)), const(b"\xfftOc")), True)
            st.facts.assume(c_eq0(lin_add(be(4, IDX, const(4)), const(2), -1)), True)
            st, o = one(c, "gitdb.pack.PackEntity", [const("/p/x.pack")], st, models=MM)
            todo = [st]
            for part, nm, aa in ops:
                nx = []
                for s in todo:
                    for k, s2, v in c.run(part, c.method(o, s, part), [], s):
                        for k3, s3, v3 in access(c, s2, v, nm, aa, MM):
                            if k3 == "ret":
                                nx.append(s3)
                todo = nx
            for s in todo:
                before = [x for x in reach(s, o) if s.get(x).cls.op == "ext" and "cursor" in str(s.get(x).cls.args[0])]
                s.trace = None
                for k, s2, v in c.run("close", c.method(o, s, "close"), [], s, models=MM):
                    path = s2.events()
                    if k == "exc":
                        c.ob("close", False, WE + "close", "close after %s raises %s" % (what, c.excname(s2, v)), path)
                        continue
                    left = [x for x in reach(s2, o) if s2.get(x).cls.op == "ext" and "cursor" in str(s2.get(x).cls.args[0])]
                    c.ob("close", not left, WE + "close", "after %s, close: %d of %d cursors are kept" % (what, len(left), len(before)), path)
                    for k3, s3, v3 in c.run("close again", c.method(o, s2, "close"), [], s2, models=MM):
                        c.ob("close", k3 == "ret", WE + "close", "closing twice after %s: %s" % (what, "fine" if k3 == "ret" else c.excname(s3, v3)), s3.events())
    return [("pack", pack), ("pair", pair), ("index", index), ("close", close)]
