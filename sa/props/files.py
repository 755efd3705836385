"""A small file system with concrete names, as models of the os functions.
Its state belongs to the analysed path: names -> (file, mode), descriptors -> (file, writable), contents of the files."""
from .common import *

CREAT, EXCL, TRUNC, ACC, APPEND = 0o100, 0o200, 0o1000, 3, 0o2000


class FS:
    def __init__(self, st, names, first=3, reuse=False):
        self.g = st.new(ext("#ghost"), {}, const(b""))
        self.first, self.reuse = first, reuse
        self.put(st, {n: (i, 0o644) for n, i in names.items()}, {}, {i: const(b"") for i in names.values()})

    # state ------------------------------------------------------------------
    def names(self, st):
        return dict(cval(st.get(self.g.args[0]).f["#names"]))

    def fds(self, st):
        return dict(cval(st.get(self.g.args[0]).f["#fds"]))

    def data(self, st, ident):
        return st.get(self.g.args[0]).f.get("#data:" + ident, const(b""))

    def odd(self, st):
        """a reason why the model doesn't know the state"""
        v = st.get(self.g.args[0]).f.get("#odd")
        return cval(v) if v is not None else None

    def bad(self, st):
        """(what, place) of the effects which are wrong by themselves"""
        v = st.get(self.g.args[0]).f.get("#bad")
        return cval(v) if v is not None else ()

    def put(self, st, names=None, fds=None, data=None):
        w = st.w(self.g.args[0]).f
        if names is not None:
            w["#names"] = const(tuple(sorted(names.items())))
        if fds is not None:
            w["#fds"] = const(tuple(sorted(fds.items())))
        for i, d in (data or {}).items():
            w["#data:" + i] = d

    def mark(self, st, key, what):
        w = st.w(self.g.args[0]).f
        if key == "#odd":
            w[key] = const(what)
        else:
            w[key] = const(self.bad(st) + (what,))

    # models -----------------------------------------------------------------
    def models(self, guarded=()):
        """guarded: names which must never vanish, or be opened for writing"""
        M = {}

        def text(v):
            x = cval(v) if is_const(v) else None
            return x.decode() if isinstance(x, bytes) else x if isinstance(x, str) else None

        def fail(I, s2, cls, lbl, args, kw, fr, X, n):
            e = I.mkexc(s2, "builtins." + cls, n, fr)
            s2.emit(Ev("call", lbl, tuple(args), kw, None, I.loc(n, fr), "raise:builtins." + cls, fr.stack))
            X.append((s2, e))
            return []

        def done(I, st, lbl, args, kw, fr, n, res):
            st.emit(Ev("call", lbl, tuple(args), kw, res, I.loc(n, fr), "ok", fr.stack))
            return [(st, res)]

        def op(lbl, nargs):
            def deco(f):
                def h(I, st, args, kw, fr, X, n):
                    vals = []
                    for a in args[:nargs]:
                        vals.append(text(a) if text(a) is not None else cval(a) if is_const(a) else None)
                    if None in vals or len(vals) < nargs:
                        I.may_raise(lbl, args, kw, st, fr, X, n)
                        self.mark(st, "#odd", "%s(%s)" % (lbl, ", ".join(map(show, args)))[:80])
                        return done(I, st, lbl, args, kw, fr, n, I.fresh(st, lbl, None))
                    I.may_raise(lbl, args, kw, st, fr, X, n)
                    r = f(I, st, vals, args, kw)
                    self.put_bad(st, I.loc(n, fr))
                    if isinstance(r, str):
                        return fail(I, st, r, lbl, args, kw, fr, X, n)
                    return done(I, st, lbl, args, kw, fr, n, r)
                M[lbl] = h
                return f
            return deco

        @op("os.open", 1)
        def _(I, st, v, args, kw):
            path = v[0]
            fl = args[1] if len(args) > 1 else kw.get("flags", ZERO)
            mode = args[2] if len(args) > 2 else kw.get("mode", const(0o777))
            if not is_const(fl) or not is_const(mode):
                self.mark(st, "#odd", "os.open(%s, %s)" % (path, show(fl)))
                return I.fresh(st, "fd", "int")
            fl, mode = cval(fl), cval(mode)
            ns, fds = self.names(st), self.fds(st)
            wr = fl & ACC != 0
            if path in ns:
                if fl & CREAT and fl & EXCL:
                    return "FileExistsError"
                if path in guarded and (wr or fl & TRUNC):
                    self.mark(st, "#bad", "%s is opened for writing" % path)
                ident = ns[path][0]
                if ident.startswith("foreign"):
                    self.mark(st, "#bad", "%s of someone else is opened" % path)
            elif fl & CREAT:
                k = len([i for i in st.get(self.g.args[0]).f if i.startswith("#data:new")])
                ident = "new%d" % k
                ns[path] = (ident, mode)
                self.put(st, ns, None, {ident: const(b"")})
                if path in guarded:
                    self.mark(st, "#bad", "%s is created empty" % path)
            else:
                return "FileNotFoundError"
            k = self.first
            if self.reuse:
                while k in fds:
                    k += 1
            else:
                w = st.w(self.g.args[0]).f
                k = cval(w.get("#next", const(k)))
                w["#next"] = const(k + 1)
            fds[k] = (ident, wr)
            self.put(st, None, fds)
            return const(k)

        @op("os.close", 1)
        def _(I, st, v, args, kw):
            fds = self.fds(st)
            if v[0] not in fds:
                self.mark(st, "#bad", "descriptor %s is closed which isn't open" % v[0])
                return "OSError"
            fds.pop(v[0])
            self.put(st, None, fds)
            return NONE

        @op("os.write", 1)
        def _(I, st, v, args, kw):
            fds = self.fds(st)
            d = I.val(args[1], st)
            if v[0] not in fds or not fds[v[0]][1]:
                return "OSError"
            i = fds[v[0]][0]
            self.put(st, None, None, {i: concat(self.data(st, i), d)})
            return length(d)

        @op("os.read", 1)
        def _(I, st, v, args, kw):
            fds = self.fds(st)
            if v[0] not in fds:
                return "OSError"
            return T("res", "os.read", (const(fds[v[0]][0]),), "bytes")

        @op("os.fsync", 1)
        def _(I, st, v, args, kw):
            return NONE if v[0] in self.fds(st) else "OSError"

        def move(keep):
            def f(I, st, v, args, kw):
                a, b = v[0], v[1]
                ns = self.names(st)
                if a not in ns:
                    return "FileNotFoundError"
                if keep and b in ns:
                    return "FileExistsError"
                if a in guarded and not keep:
                    self.mark(st, "#bad", "%s is moved away" % a)
                if b in ns and ns[b][0].startswith("foreign"):
                    self.mark(st, "#bad", "%s of someone else is replaced" % b)
                ns[b] = ns[a]
                if not keep and a != b:
                    ns.pop(a)
                self.put(st, ns)
                return NONE
            return f
        for l in ("os.rename", "os.replace", "shutil.move", "os.renames"):
            op(l, 2)(move(False))
        op("os.link", 2)(move(True))

        def rm(I, st, v, args, kw):
            ns = self.names(st)
            if v[0] not in ns:
                return "FileNotFoundError"
            if v[0] in guarded:
                self.mark(st, "#bad", "%s is removed" % v[0])
            if ns[v[0]][0].startswith("foreign"):
                self.mark(st, "#bad", "%s of someone else is removed" % v[0])
            ns.pop(v[0])
            self.put(st, ns)
            return NONE
        for l in ("os.remove", "os.unlink"):
            op(l, 1)(rm)

        @op("os.chmod", 2)
        def _(I, st, v, args, kw):
            ns = self.names(st)
            if v[0] not in ns:
                return "FileNotFoundError"
            ns[v[0]] = (ns[v[0]][0], v[1])
            self.put(st, ns)
            return NONE

        @op("os.fchmod", 2)
        def _(I, st, v, args, kw):
            fds, ns = self.fds(st), self.names(st)
            if v[0] not in fds:
                return "OSError"
            self.put(st, {k: (i, v[1] if i == fds[v[0]][0] else m) for k, (i, m) in ns.items()})
            return NONE

        for l in ("os.path.exists", "os.path.isfile", "os.path.lexists"):
            op(l, 1)(lambda I, st, v, args, kw: const(v[0] in self.names(st)))
        op("os.path.isdir", 1)(lambda I, st, v, args, kw: FALSE)

        def other(lbl):
            def h(I, st, args, kw, fr, X, n):
                I.may_raise(lbl, args, kw, st, fr, X, n)
                self.mark(st, "#odd", lbl)
                return done(I, st, lbl, args, kw, fr, n, I.fresh(st, lbl, None))
            M[lbl] = h
        for l in ("os.fdopen", "builtins.open", "io.open", "tempfile.mkstemp", "os.dup", "os.symlink", "os.truncate", "os.ftruncate",
                  "shutil.copy", "shutil.copyfile", "tempfile.NamedTemporaryFile"):
            other(l)
        return M

    def put_bad(self, st, loc):
        w = st.w(self.g.args[0]).f
        if any(isinstance(b, str) for b in self.bad(st)):
            w["#bad"] = const(tuple((b, fmt_loc(loc)) if isinstance(b, str) else b for b in self.bad(st)))
