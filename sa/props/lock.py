"""C07: LockedFD, a file which is replaced under a lock."""
from .files import *

CLS = "gitdb.util.LockedFD"
W = "gitdb/util.py LockedFD"
FAULTS = {"os.open", "os.close", "os.rename", "os.replace", "os.link", "os.chmod", "os.fchmod", "os.remove", "os.unlink"}
PATHS = ("/d/f", "/d.x/f.lock", "/d/a.tar.gz", "rel%s")


def c07(c):
    c.rule("exclusive", "the lock file <path>.lock is created exclusively; if it exists or can't be created, open raises OSError and changes nothing")
    c.rule("open", "open for writing returns a descriptor of the lock file, for reading a read-only one of the file itself; if the file can't be opened, OSError is raised and the lock is released")
    c.rule("once", "an instance is opened at most once, and not committed or rolled back before; AssertionError otherwise, without any effect")
    c.rule("commit", "commit after writing makes the written file the file, with mode 0644, and the lock vanishes")
    c.rule("rollback", "rollback, destruction, and commit after reading leave the file as it was and remove the lock")
    c.rule("repeat", "after that, or after a failed open, commit, rollback and destruction have no effect; the lock of somebody else is never touched")
    c.rule("failure", "a failure is reported; closes the descriptor and releases the lock; the file is the old or the completely written one")
    c.rule("in-place", "the file is never opened for writing, removed, or moved away, and no descriptor is closed twice")

    def play(name, path, exists, first, ops, depth, faults, streams=(False,)):
        lock = path + ".lock"
        st = c.I.fresh_state()
        fs = FS(st, {path: "orig"} if exists else {}, first, first == 0)
        once = ghost(st)
        M = fs.models(guarded=(path,))
        if not exists:
            M = fs.models()
        st, o = one(c, CLS, [const(path)], st)

        def check(rule, ok, s, msg, path_, where=None):
            if ok is not True and fs.odd(s):
                ok = None
                msg += " (not modelled: %s)" % fs.odd(s)
            c.ob(rule, ok, where or loc_of(path_), msg, path_)
            return ok

        def loc_of(p):
            ev = [e for e in flat(p) if e.kind == "call" and e.loc]
            return ev[-1].loc if ev else W

        def method(s, m, args, hist):
            s.trace = None
            for k, s2, v in c.run("%s: %s" % (name, hist), c.method(o, s, m), args, s, models=M, once=once if faults else None,
                                  raises=(lambda l: "builtins.OSError" if l in FAULTS else None) if faults else None):
                yield k, s2, v

        def go(s, phase, hist, n):
            if n == 0:
                return
            for op in ops:
                s1 = s.fork()
                h = hist + [op]
                ns, fds = fs.names(s1), fs.fds(s1)
                if op == "lock":
                    # somebody else takes the lock
                    if lock in ns:
                        continue
                    ns[lock] = ("foreign", 0o600)
                    fs.put(s1, ns)
                    go(s1, phase, h, n - 1)
                    continue
                if op == "unlock":
                    if ns.get(lock, ("",))[0] != "foreign":
                        continue
                    ns.pop(lock)
                    fs.put(s1, ns)
                    go(s1, phase, h, n - 1)
                    continue
                if op in ("read", "write"):
                    for stream in streams:
                        opened(s1.fork(), op, stream, phase, h + (["stream"] if stream else []), n, ns, fds)
                    continue
                for k, s2, v in method(s1, {"del": "__del__"}.get(op, op), [], " ".join(h)):
                    after(k, s2, v, op, phase, h, n, ns, fds)

        def rest(s2, msg, p):
            for b in fs.bad(s2):
                check("in-place", False, s2, "%s: %s" % (msg, b[0]), p, b[1])
            if not fs.bad(s2):
                check("in-place", True, s2, "the file is replaced at most by renaming", p)

        def opened(s1, op, stream, phase, h, n, ns, fds):
            for k, s2, v in method(s1, "open", [const(op == "write"), const(stream)], " ".join(h)):
                p = s2.events()
                msg = "%s %s: " % (path, " ".join(h))
                ns2, fds2 = fs.names(s2), fs.fds(s2)
                rest(s2, msg, p)
                fault = [e.label for e in flat(p) if e.kind == "call" and str(e.out).startswith("raise")]
                if phase != "new":
                    ok = k == "exc" and c.is_exc(s2, v, "AssertionError") is True and (ns2, fds2) == (ns, fds)
                    check("once", ok, s2, msg + ("second open: %s" % outcome(k, s2, v)), p)
                    if ok:
                        go(s2, phase, h, n - 1)
                    continue
                inj = s2.get(once.args[0]).f.get("#fault") is TRUE and fault
                if k == "exc":
                    why = lock in ns or inj or op == "read" and path not in ns
                    rule = "exclusive" if lock in ns else "failure" if inj else "open"
                    check(rule, bool(why) and c.is_exc(s2, v, "OSError") is True, s2, msg + outcome(k, s2, v), p)
                    if inj and (fault[0] == "os.close" or "os.remove" in fault or "os.unlink" in fault):
                        continue        # the lock itself can't be released
                    check(rule, ns2 == ns and fds2 == fds, s2, msg + "after a failed open: %s" % diff(ns, ns2, fds2), p)
                    go(s2, "failed", h, n - 1)
                    continue
                rule = "exclusive" if lock in ns else "open"
                if lock in ns:
                    check(rule, False, s2, msg + "open succeeds while the lock is held", p)
                    continue
                if inj:
                    check("failure", False, s2, msg + "a failing %s ends in success" % fault[0], p)
                    continue
                if op == "read" and path not in ns:
                    check(rule, False, s2, msg + "open succeeds without the file", p)
                    continue
                got = ns2.pop(lock, None)
                check("exclusive", got is not None and ns2 == ns, s2, msg + "after open: %s" % diff(ns, fs.names(s2), fds2), p)
                want = got[0] if got and op == "write" else "orig"
                fd = [(v, s2)]
                if stream:
                    fd = [(x, s3) for k3, s3, x in c.run("fileno", c.method(v, s2, "fileno"), [], s2, models=M) if k3 == "ret"]
                for x, s3 in fd:
                    a = fds2.get(cval(x)) if is_const(x) else None
                    ok = len(fds2) == 1 and a == (want, op == "write")
                    check("open", ok if ok or is_const(x) or fs.odd(s2) is None else None, s3, msg + "descriptor %s of %s" % (show(x), sorted(fds2.items())), p)
                    go(s3, op, h, n - 1)

        def after(k, s2, v, op, phase, h, n, ns, fds):
            p = s2.events()
            msg = "%s %s: " % (path, " ".join(h))
            ns2, fds2 = fs.names(s2), fs.fds(s2)
            rest(s2, msg, p)
            fault = [e.label for e in flat(p) if e.kind == "call" and str(e.out).startswith("raise")]
            if phase == "new" and op != "del":
                ok = k == "exc" and c.is_exc(s2, v, "AssertionError") is True and (ns2, fds2) == (ns, fds)
                check("once", ok, s2, msg + outcome(k, s2, v), p)
                if ok:
                    go(s2, phase, h, n - 1)
                return
            if phase in ("new", "failed", "done"):
                check("repeat", k == "ret" and (ns2, fds2) == (ns, fds), s2, msg + outcome(k, s2, v) + " " + diff(ns, ns2, fds2), p)
                if k == "ret" and op != "del":
                    go(s2, phase, h, n - 1)
                return
            # once the lock was renamed, its name may belong to the lock of somebody else
            gone = False
            for e in flat(p):
                if e.kind == "call" and e.label in ("os.rename", "os.replace", "os.remove", "os.unlink") and e.args and e.args[0] is const(lock):
                    if gone:
                        check("exclusive", False, s2, msg + "%s of the lock after it was released" % e.label, p)
                    gone = gone or not str(e.out).startswith("raise")
            new = dict(ns)
            mine = new.pop(lock, None)
            pub = op == "commit" and phase == "write"
            rule = "commit" if pub else "rollback"
            if not fault:
                if pub:
                    new[path] = (mine[0], 0o644)
                check(rule, k == "ret", s2, msg + outcome(k, s2, v), p)
                check(rule, ns2 == new, s2, msg + "%s: %s" % (op, diff(ns, ns2, fds2)), p)
                check(rule, not fds2, s2, msg + "open descriptors: %s" % sorted(fds2), p)
            else:
                if op != "del":
                    check("failure", k == "exc" and c.is_exc(s2, v, "OSError") is True, s2, msg + "failing %s: %s" % (fault[0], outcome(k, s2, v)), p)
                if fault[0] not in ("os.remove", "os.unlink"):
                    check("failure", lock not in ns2, s2, msg + "failing %s: the lock is kept" % fault[0], p)
                if fault[0] != "os.close":
                    check("failure", not fds2, s2, msg + "failing %s: open descriptors: %s" % (fault[0], sorted(fds2)), p)
                got = ns2.get(path)
                ok = got == ns.get(path) or pub and got is not None and got[0] == mine[0]
                check("failure", ok, s2, msg + "failing %s: the file is %s" % (fault[0], got), p)
                ns2.pop(path, None), ns2.pop(lock, None), new.pop(path, None)
                check("failure", ns2 == new, s2, msg + "failing %s: other files: %s" % (fault[0], sorted(ns2)), p)
                if fault[0] == "os.close":
                    fs.put(s2, None, {})
            if op != "del":
                go(s2, "done", h, n - 1)

        go(st, "new", [], depth)

    def outcome(k, s, v):
        return "returns %s" % show(v)[:40] if k == "ret" else "raises %s" % c.excname(s, v)

    def diff(a, b, fds):
        return "files %s -> %s, descriptors %s" % (sorted(a.items()), sorted(b.items()), sorted(fds.items()))

    OPS = ("read", "write", "commit", "rollback", "del", "lock")

    def histories(c):
        for exists in (True, False):
            play("histories", PATHS[0], exists, 3, OPS, 6 if c.thorough else 4, False)

    def names(c):
        for path in PATHS[1:]:
            for exists in (True, False):
                play("names", path, exists, 3, OPS, 2, False)
        play("descriptor 0", PATHS[0], True, 0, OPS, 3, False)

    def streams(c):
        play("streams", PATHS[0], True, 3, ("read", "write", "commit", "rollback"), 2, False, (True,))

    def failing(c):
        for exists in (True, False):
            play("failures", PATHS[0], exists, 3, OPS, 5 if c.thorough else 3, True)
    return [("histories", histories), ("names", names), ("streams", streams), ("failures", failing)]
