"""C24: state which is loaded on first access is complete or absent."""
from .common import *
from ..interp import Ev
from .packs import window, PACK, IDX, count, SHA, be, same_val, fan_base, check_ofs, CRC
from . import dbs


def access(c, st, obj, name, args, M, what=None, gen=False, **opts):
    """calls obj.name(*args), the lookup of the method included: [(kind, state, value)]"""
    import ast
    from ..interp import Fr, Func
    I = c.I
    f = I.cls_lookup(st.get(obj.args[0]).cls, name)
    if f is not None and f.op == "func":
        outs = c.run(what or name, T("bound", f, obj), list(args), st, models=M, **opts)
    else:
        node = ast.Pass()
        node.lineno = 0
        fr = Fr(Func(None, I.mods["gitdb"], "<driver>"), None, I.mods["gitdb"], 0, ())
        X, outs = [], []
        I.opts = Opts(models=M, **opts)
        for s, m in I.getattr(obj, name, st, fr, X, node):
            outs += c.run(what or name, m, list(args), s, models=M, **opts)
        outs += [("exc", s, v) for s, v in X]
    if not gen:
        return outs
    r = []
    for k, s, v in outs:
        if k == "ret":
            r += c.run("list(%s)" % (what or name), ext("builtins.list"), [v], s, models=M, **opts)
        else:
            r.append((k, s, v))
    return r


def flaky(M, g, labels):
    """the models M, each of the given ones failing once, at any of its calls, while the ghost says so"""
    def wrap(l, h):
        def f(I, st, args, kw, fr, X, n):
            if st.get(g.args[0]).f["#mode"] is TRUE:
                s2 = st.fork()
                s2.w(g.args[0]).f["#mode"] = FALSE
                s2.emit(Ev("call", "fails:" + l.strip("."), tuple(args), kw, NONE, I.loc(n, fr), "exc", fr.stack))
                X.append((s2, I.mkexc(s2, "builtins.OSError", n, fr)))
            return h(I, st, args, kw, fr, X, n)
        return f
    return {k: wrap(k, h) if k in labels else h for k, h in M.items()}


def c24(c):
    c.rule("packs", "a failure while the packs of a PackedDB are looked for is reported, and the next access finds all of them")
    c.rule("root", "every access to a GitDB without any database below its root fails with InvalidDBRoot, and a later access finds databases which appear")
    c.rule("alternates", "a failure while the list of alternates is read is not remembered as a shorter list")
    c.rule("signature", "every access to a pack with a wrong signature fails with ParseError")
    c.rule("index-version", "every access to an index of an unsupported version is refused")
    c.rule("retry", "after a failing first access the next one yields the complete state")
    sha = sym("sha", "bytes")

    def packs(c):
        W = "gitdb/db/pack.py PackedDB"

        def pk(*ns):
            return [x for n in ns for x in ("pack-%s.pack" % n, "pack-%s.idx" % n)]
        ops = [("entities",), ("has_object", sha), ("size",), ("info", sha), ("stream", sha), ("update_cache", FALSE), ("update_cache", TRUE)]
        for label in ("stat", "list", "open"):
            for op in ops:
                for files in (pk("1"), pk("1", "2")):
                    for second in (("entities",), ("has_object", sha)):
                        b = dbs.PackBed(c, files)
                        for s, rs in b.run([b.set_bad(label), op, op, b.set_bad(), second]):
                            what = "%s fails while %s" % (op[0], {"stat": "the directory is examined", "list": "the directory is listed", "open": "a pack is opened"}[label])
                            for k, x, ep in rs[:2]:
                                c.ob("packs", k == "exc" and c.is_exc(s, x, "OSError") is True, W, "%s: %s" % (what, c.excname(s, x) if k == "exc" else "returns " + show(x)[:60]), s.events())
                            k, x, ep = rs[2]
                            if k != "ret":
                                c.ob("packs", False, W, "%s: the next access fails with %s" % (what, c.excname(s, x)), s.events())
                                continue
                            st = [const("/p/" + f[:-5]) for f in files if f.endswith(".pack")]
                            if second[0] == "entities":
                                items = c.I.const_items(c.I.iterable(x, s))
                                got = None if items is None else sorted(show(dbs.path_of(s, e)) for e in items)
                                c.ob("packs", None if got is None else got == sorted(map(show, st)), W, "%s: then the entities are %s" % (what, got), s.events())
                            else:
                                for f, v in dbs.truth_cases(c, s, x):
                                    ans = [f.ask(b.pred(p, sha)) for p in st]
                                    c.ob("packs", (True in ans) if v else all(a is False for a in ans), W, "%s: then has_object is %s, packs: %s" % (what, v, ans), s.events())

    def root(c):
        W = "gitdb/db/git.py GitDB"
        ist = sym("istream", None)
        ops = [("has_object", sha), ("info", sha), ("stream", sha), ("databases",), ("size",), ("store", ist), ("ostream",), ("set_ostream", NONE), ("update_cache", FALSE), ("partial_to_complete_sha_hex", const("abcd")), ("sha_iter",)]
        ms = dbs.members(("/a\n",), dbs.FULL)
        for op in ops:
            for op2 in (ops if c.thorough else [op, ops[0], ops[5]]):
                b = dbs.Bed(c, (), ("/a\n",))
                b.drive = True
                for s, rs in b.run([op, op2, b.set_dirs(dbs.FULL), ("has_object", sha)]):
                    for k, x, ep in rs[:2]:
                        c.ob("root", k == "exc" and c.is_exc(s, x, "gitdb.exc.InvalidDBRoot") is True, W, "%s, %s without any database: %s" % (op[0], op2[0], c.excname(s, x) if k == "exc" else "returns " + show(x)[:60]), s.events())
                    dbs.check_has(c, b, "root", s, rs[2], ms, sha, W, "databases appear after %s, %s" % (op[0], op2[0]))

    def alts(c):
        W = "gitdb/db/ref.py ReferenceDB"
        lines = ("/a\n", "/b\n")
        ms = dbs.members(lines, dbs.FULL)

        def bad(v):
            def f(s):
                s.w(b.g.args[0]).f["#badopen"] = v
            return f
        for op in (("has_object", sha), ("info", sha), ("databases",), ("size",), ("update_cache", FALSE)):
            b = dbs.Bed(c, dbs.FULL, lines)
            for s, rs in b.run([bad(TRUE), op, bad(FALSE), ("has_object", sha)]):
                if rs[0][0] == "exc" and not c.is_exc(s, rs[0][1], "gitdb.exc.BadObject"):
                    dbs.check_has(c, b, "alternates", s, rs[1], ms, sha, W, "after %s failed to read the alternates" % op[0])

    def packfile(c):
        W = "gitdb/pack.py PackFile"
        I = c.I
        ofs = sym("offset", "int")
        entry = {"gitdb.pack.pack_object_at": lambda I, st, args, kw, fr, X, n: [(st, tup(T("res", "dataofs", tuple(args[1:2]), "int"), T("res", "entry", tuple(args[1:3]), None)))]}
        acc = [("size", ()), ("version", ()), ("data", ()), ("checksum", ()), ("info", (ofs,)), ("stream", (ofs,))]
        M = dict(window(PACK), **entry)
        # a wrong signature
        for a, aa in acc + [("stream_iter", ())]:
            for b, ba in acc:
                st = I.fresh_state()
                st.facts.assume(c_eq0(lin_add(be(4, PACK, ZERO), const(0x5041434b), -1)), False)
                st.facts.assume(c_eq(slice_(PACK, ZERO, const(4)), const(b"PACK")), False)
                st, o = one(c, "gitdb.pack.PackFile", [const("/p/x.pack")], st, models=M)
                for k, s, v in access(c, st, o, a, aa, M, gen=a == "stream_iter"):
                    c.ob("signature", k == "exc" and c.is_exc(s, v, "gitdb.exc.ParseError") is True, W, "%s of a pack with a wrong signature: %s" % (a, c.excname(s, v) if k == "exc" else "returns " + show(v)[:60]), s.events())
                    for k2, s2, v2 in access(c, s, o, b, ba, M):
                        c.ob("signature", k2 == "exc" and c.is_exc(s2, v2, "gitdb.exc.ParseError") is True, W, "%s after %s of a pack with a wrong signature: %s" % (b, a, c.excname(s2, v2) if k2 == "exc" else "returns " + show(v2)[:60]), s2.events())
        # failing input
        want = {"size": be(4, PACK, const(8)), "version": be(4, PACK, const(4)), "data": PACK, "checksum": None, "info": None, "stream": None}
        for a, aa in acc:
            for b, ba in acc:
                st = I.fresh_state()
                st.facts.assume(c_eq0(lin_add(be(4, PACK, ZERO), const(0x5041434b), -1)), True)
                st.facts.assume(c_eq(slice_(PACK, ZERO, const(4)), const(b"PACK")), True)
                g = ghost(st)
                st.w(g.args[0]).f["#mode"] = FALSE
                F = dict(flaky(M, g, (".make_cursor", ".use_region", ".map", ".buffer", ".file_size")))
                st, o = one(c, "gitdb.pack.PackFile", [const("/p/x.pack")], st, models=F)
                fresh = [(k, v) for k, s, v in access(c, st.fork(), o, b, ba, F)]
                st.w(g.args[0]).f["#mode"] = TRUE
                for k, s, v in access(c, st, o, a, aa, F):
                    if k != "exc":
                        continue
                    for k2, s2, v2 in access(c, s, o, b, ba, F):
                        if k2 != "ret":
                            c.ob("retry", False, W, "%s after a failing %s: %s" % (b, a, c.excname(s2, v2)), s2.events())
                            continue
                        w = want[b]
                        ok = any(x is v2 for kk, x in fresh if kk == "ret")
                        if w is not None and not ok:
                            ok = same_val(s2.facts, v2, w) if ty(w) == "int" else v2 is w
                        c.ob("retry", ok or (None if unknown(v2) or v2.op == "ref" else False), W, "%s after a failing %s: %s" % (b, a, show(v2)[:80]), s2.events())

    def indexfile(c):
        W = "gitdb/pack.py PackIndexFile"
        I = c.I
        i = sym("i", "int")
        acc = [("size", ()), ("version", ()), ("sha", (i,)), ("offset", (i,)), ("crc", (i,)), ("entry", (i,)), ("offsets", ()), ("packfile_checksum", ()), ("indexfile_checksum", ())]
        M = window(IDX)
        # an unsupported version
        for a, aa in acc[:7]:
            for b, ba in acc[:7]:
                st = I.fresh_state()
                st.facts.assume(c_eq(slice_(IDX, ZERO, const(4)), const(b"\xfftOc")), True)
                st.facts.assume(c_eq0(lin_add(be(4, IDX, const(4)), const(2), -1)), False)
                st, o = one(c, "gitdb.pack.PackIndexFile", [const("/p/x.idx")], st, models=M)
                for k, s, v in access(c, st, o, a, aa, M):
                    c.ob("index-version", k == "exc", W, "%s of an index of another version returns %s" % (a, show(v)[:60]), s.events())
                    for k2, s2, v2 in access(c, s, o, b, ba, M):
                        c.ob("index-version", k2 == "exc", W, "%s after %s of an index of another version returns %s" % (b, a, show(v2)[:60]), s2.events())
        # failing input
        for v in (2, 1):
            for a, aa in acc:
                for b, ba in acc if c.thorough else [x for x in acc if x[0] in ("size", "version", "sha", "offset", "entry", a)]:
                    if b == "offsets":
                        continue
                    st = I.fresh_state()
                    st.facts.assume(c_eq(slice_(IDX, ZERO, const(4)), const(b"\xfftOc")), v == 2)
                    if v == 2:
                        st.facts.assume(c_eq0(lin_add(be(4, IDX, const(4)), const(2), -1)), True)
                    st.facts.assume(c_le0(scale(i, -1)), True)
                    g = ghost(st)
                    st.w(g.args[0]).f["#mode"] = FALSE
                    F = flaky(M, g, (".make_cursor", ".use_region", ".map", ".buffer", ".file_size"))
                    st, o = one(c, "gitdb.pack.PackIndexFile", [const("/p/x.idx")], st, models=F)
                    fresh = [x for k, s, x in access(c, st.fork(), o, b, ba, F) if k == "ret"]
                    st.w(g.args[0]).f["#mode"] = TRUE
                    for k, s, x in access(c, st, o, a, aa, F):
                        if k != "exc":
                            continue
                        for k2, s2, y in access(c, s, o, b, ba, F):
                            what = "%s of a version %d index after a failing %s" % (b, v, a)
                            if k2 != "ret":
                                c.ob("retry", False, W, "%s: %s" % (what, c.excname(s2, y)), s2.events())
                                continue
                            if any(y is z for z in fresh):
                                c.ob("retry", True, W, what, s2.events())
                            elif b == "size":
                                c.ob("retry", same_val(s2.facts, y, count(v)), W, "%s is %s" % (what, show(y)[:60]), s2.events())
                            elif b == "version":
                                c.ob("retry", same_val(s2.facts, y, const(v)), W, "%s is %s" % (what, show(y)[:60]), s2.events())
                            elif b == "sha":
                                c.ob("retry", same_val(s2.facts, y, SHA(v, i)), W, "%s is %s" % (what, show(y)[:60]), s2.events())
                            elif b == "crc":
                                c.ob("retry", same_val(s2.facts, y, CRC(v, i)), W, "%s is %s" % (what, show(y)[:60]), s2.events())
                            elif b == "offset":
                                check_ofs(c, "retry", s2.facts, y, v, i, W, what, s2.events())
                            else:
                                c.ob("retry", None, W, "%s is %s" % (what, show(y)[:60]), s2.events())
    return [("packs", packs), ("root", root), ("alternates", alts), ("packfile", packfile), ("indexfile", indexfile)]
