"""C31: what packs and pack databases list."""
from .common import *
from .entity import Entries, record, looped
from .packs import window
from . import dbs

WE = "gitdb/pack.py PackEntity."
WD = "gitdb/db/pack.py PackedDB."
X_, F_ = "gitdb.pack.PackIndexFile", "gitdb.pack.PackFile"


def c31(c):
    c.rule("entries", "info_iter and stream_iter of a pack yield one record for each number of the index, in this order")
    c.rule("records", "each of them carries the id the index has for this number, and type, size and content of the object at the end of the entry's chain of deltas")
    c.rule("refused", "the iteration ends with BadObject at an entry whose base isn't in the pack, and with no other error")
    c.rule("ids", "PackedDB.sha_iter yields the id of each entry of each pack once, and size is their number")
    c.rule("kept", "whatever was asked for before, the entities, the ids and the size stay the same")
    c.rule("store", "PackedDB.store raises UnsupportedOperation and does nothing else")
    I = c.I

    def entries(c):
        for N in (0, 1, 2, 3) if c.thorough else (0, 1, 2):
            for name in ("info_iter", "stream_iter"):
                e = Entries(c)
                if N > 1:
                    flat_(e, [e.ofs(const(i)) for i in range(N)])
                M = dict(e.M)
                M[X_ + ".size"] = lambda I, st, args, kw, fr, X, n: [(st, const(N))]
                w, un = WE + name, {"*": 3}
                kind = name.split("_")[0]
                L = 2
                seen, bad = 0, 0
                for k, s, g in c.run("%s of %d entries" % (name, N), c.method(e.ent, e.st.fork(), name), [], e.st.fork(), models=M, unroll=un):
                    if k == "exc":
                        outs = [(k, s, g)]
                    else:
                        outs = c.run("list(%s) of %d entries" % (name, N), ext("builtins.list"), [g], s, models=M, unroll=un)
                    for k2, s2, v in outs:
                        if looped(s2):
                            continue
                        path = s2.events()
                        ch = [e.walk(s2.facts, e.ofs(const(i))) for i in range(N)]
                        if any(len(x) > L for x, end in ch):
                            continue
                        ends = [end for x, end in ch]
                        if k2 == "exc":
                            bad += 1
                            ok = c.is_exc(s2, v, "gitdb.exc.BadObject") is True and "unresolved" in ends
                            c.ob("refused", ok, w, "chains %s: %s" % (", ".join(ends), c.excname(s2, v)), path)
                            continue
                        items = I.const_items(I.iterable(v, s2))
                        if items is None:
                            c.ob("entries", None, w, "yields %s" % show(v)[:60])
                            continue
                        c.ob("entries", len(items) == N, w, "%d records for %d entries" % (len(items), N), path)
                        if len(items) != N:
                            continue
                        seen += 1
                        for i, x in enumerate(items):
                            chain, end = ch[i]
                            if end == "open":
                                c.ob("records", False if chain or e.looked(s2) else None, w, "record %d: the base was not looked for" % i, path)
                                continue
                            if end == "unresolved":
                                c.ob("refused", False, w, "record %d: its base isn't in the pack" % i, path)
                                continue
                            record(c, "records", kind, e, s2, x, e.ofs(const(i)), e.sha(const(i)), chain, w, "record %d, chain of types %s" % (i, [t for _, t in chain]))
                c.ob("entries", True if seen else None, w, "%d combinations of chains of %d entries" % (seen, N))
                if N:
                    c.ob("refused", True if bad else None, w, "%d combinations with a missing base" % bad)

    def flat_(e, own):
        """what the listed entries are based on isn't a delta itself"""
        orig = e.fork_type

        def fork_type(st, o, what=None):
            return [(s, k) for s, k in orig(st, o, what) if o in own or k not in (6, 7)]
        e.fork_type = fork_type

    def ids(c):
        counts = {"/p/pack-1": 2, "/p/pack-2": 0, "/p/pack-3": 2, "/p/pack-4": 1}

        def size(I, st, args, kw, fr, X, n):
            p = dbs.path_of(st, args[0])
            if p is not None and is_const(p) and cval(p) in counts:
                return [(st, const(counts[cval(p)]))]
            return I.effect("size", args, kw, st, fr, X, n, "int")
        sha = sym("sha", "bytes")
        for names in ((), ("1",), ("2",), ("1", "3"), ("1", "2", "4"), ("1", "2", "3", "4")) if c.thorough else ((), ("1",), ("2",), ("1", "3"), ("1", "2", "4")):
            files = [x for n in names for x in ("pack-%s.pack" % n, "pack-%s.idx" % n)]
            total = sum(counts["/p/pack-" + n] for n in names)
            want = sorted(show(T("res", "sha", (const("/p/pack-" + n), const(i)), "bytes")) for n in names for i in range(counts["/p/pack-" + n]))
            for pre in ([], [("has_object", sha)], [("has_object", sha), ("info", sha)], [("update_cache", TRUE)]):
                b = dbs.PackBed(c, files)
                b_models = b.models

                def models():
                    return dict(b_models(), **{X_ + ".size": size, F_ + ".size": size})
                b.models = models
                what = "%d packs%s" % (len(names), " after " + ", ".join(x[0] for x in pre) if pre else "")
                n = 0
                for s, rs in b.run(pre + [("size",), ("sha_iter",), ("entities",)]):
                    path = s.events()
                    (k, x, _), (k2, y, _), (k3, z, _) = rs[-3:]
                    rule = "kept" if pre else "ids"
                    c.ob(rule, False if k != "ret" else x is const(total) or (None if not is_const(x) else False), WD + "size", "%s: size is %s" % (what, show(x)[:60] if k == "ret" else c.excname(s, x)), path)
                    if k3 == "ret":
                        es = I.const_items(I.iterable(z, s))
                        got = None if es is None else sorted(show(dbs.path_of(s, u)) if dbs.path_of(s, u) is not None else "?" for u in es)
                        c.ob(rule, None if got is None else got == sorted(show(const("/p/pack-" + m)) for m in names), WD + "entities", "%s: %s" % (what, got), path)
                    else:
                        c.ob(rule, False, WD + "entities", "%s: %s" % (what, c.excname(s, z)), path)
                    if k2 != "ret":
                        c.ob(rule, False, WD + "sha_iter", "%s: %s" % (what, c.excname(s, y)), path)
                        continue
                    for k4, s4, v in c.run("list(sha_iter())", ext("builtins.list"), [y], s.fork(), models=models(), unroll={"*": 8}):
                        items = I.const_items(I.iterable(v, s4)) if k4 == "ret" else None
                        if k4 != "ret":
                            c.ob(rule, False, WD + "sha_iter", "%s: %s" % (what, c.excname(s4, v)), s4.events())
                            continue
                        if items is None:
                            c.ob(rule, None, WD + "sha_iter", "%s: %s" % (what, show(v)[:80]))
                            continue
                        n += 1
                        got = sorted(show(u) for u in items)
                        c.ob(rule, True if got == want else None if any(unknown(u) and u.op != "res" for u in items) else False, WD + "sha_iter", "%s: %d ids listed: %s" % (what, len(items), ", ".join(got)[:200]), s4.events())
                c.ob("ids", True if n else None, WD + "sha_iter", "%s: %d paths" % (what, n))

    def between(c):
        counts = {"/p/pack-1": 2, "/p/pack-2": 1, "/p/pack-3": 1}
        walk = c.probe("""
def walk(db, other, count):
    out = []
    for sha in db.sha_iter():
        out.append(sha)
        for i in range(count):
            db.has_object(other)
    return out
""")["walk"]

        def size(I, st, args, kw, fr, X, n):
            p = dbs.path_of(st, args[0])
            if p is not None and is_const(p) and cval(p) in counts:
                return [(st, const(counts[cval(p)]))]
            return I.effect("size", args, kw, st, fr, X, n, "int")
        for names in (("1", "2"), ("2", "3"), ("1", "2", "3")) if c.thorough else (("1", "2"), ("2", "3")):
            b = dbs.PackBed(c, [x for n in names for x in ("pack-%s.pack" % n, "pack-%s.idx" % n)])
            want = sorted(show(T("res", "sha", (const("/p/pack-" + n), const(i)), "bytes")) for n in names for i in range(counts["/p/pack-" + n]))
            st = b.st.fork()
            # the order of the packs depends on the lookups as soon as possible
            st.w(b.db.args[0]).f["_sort_interval"] = const(1)
            M = dict(b.models(), **{X_ + ".size": size, F_ + ".size": size})
            what = "%d packs, lookups in between" % len(names)
            n = 0
            for k, s, v in c.run(what, walk, [b.db, sym("other", "bytes"), const(2)], st, models=M, unroll={"*": 8}, recursion=6):
                path = s.events()
                if k != "ret":
                    c.ob("kept", False, WD + "sha_iter", "%s: %s" % (what, c.excname(s, v)), path)
                    continue
                items = I.const_items(I.iterable(v, s))
                if items is None:
                    c.ob("kept", None, WD + "sha_iter", "%s: %s" % (what, show(v)[:80]))
                    continue
                n += 1
                got = sorted(show(u) for u in items)
                c.ob("kept", True if got == want else None if any(unknown(u) and u.op != "res" for u in items) else False, WD + "sha_iter", "%s: %d ids listed: %s" % (what, len(items), ", ".join(got)[:200]), path)
            c.ob("kept", True if n else None, WD + "sha_iter", "%s: %d paths" % (what, n))

    def store(c):
        b = dbs.PackBed(c, ["pack-1.pack", "pack-1.idx"])
        ist = sym("istream", None)
        n = 0
        for s, rs in b.run([("store", ist)]):
            n += 1
            k, x, _ = rs[0]
            c.ob("store", k == "exc" and c.is_exc(s, x, "gitdb.exc.UnsupportedOperation") is True, WD + "store", "%s" % (c.excname(s, x) if k == "exc" else "returns"), s.events())
        c.ob("store", True if n else None, WD + "store", "%d paths" % n)

    return [("entries", entries), ("ids", ids), ("between", between), ("store", store)]
