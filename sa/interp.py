"""Abstract interpreter for the Python subset the repository uses.

States are (heap, facts, trace): the heap maps abstract objects to field maps over value-numbering terms
(terms.py), facts is an interval / order / boolean environment (facts.py), the trace is the list of effects
and branch decisions of the path (the word on which typestate rules are evaluated).  Paths are kept apart
(trace partitioning); loops are brought to a fixpoint by widening every changed location, keeping linear
induction variables and value/offset equalities between locations (partition refinement).  Repository
functions are analysed in context (inlined); everything outside the repository is a named effect with a
declared result and a declared set of exceptions.
"""
import ast
import time
import builtins
import importlib
import os

from .terms import *
from .facts import Facts

PKG = "gitdb"
STDLIB = {"os", "sys", "mmap", "time", "errno", "binascii", "hashlib", "struct", "zlib", "io", "itertools", "functools",
          "tempfile", "array", "glob", "codecs", "contextlib", "operator", "math", "shutil", "threading", "stat", "re",
          "collections", "bisect", "pathlib", "typing", "types", "warnings", "logging", "weakref", "heapq", "string",
          "__future__", "abc", "enum", "dataclasses", "copy", "random", "fcntl", "select", "subprocess", "uuid"}


class TooBig(Exception):
    pass


class Obj:
    __slots__ = ("cls", "f", "p", "tag")

    def __init__(self, cls, f=None, p=None, tag=None):
        self.cls, self.f, self.p, self.tag = cls, f if f is not None else {}, p, tag

    def copy(self):
        return Obj(self.cls, dict(self.f), self.p, self.tag)


class Ev:
    __slots__ = ("kind", "label", "args", "kw", "res", "loc", "out", "stack")

    def __init__(self, kind, label, args=(), kw=None, res=None, loc=None, out="ok", stack=()):
        self.kind, self.label, self.args, self.kw, self.res = kind, label, args, kw or {}, res
        self.loc, self.out, self.stack = loc, out, stack

    def __repr__(self):
        return "%s %s(%s)%s%s @%s" % (self.kind, self.label, ", ".join(show(a) for a in self.args),
                                      "" if self.res is None else " -> " + show(self.res),
                                      "" if self.out == "ok" else " !" + str(self.out), fmt_loc(self.loc))


def fmt_loc(l):
    return "%s:%s %s" % l if l else "?"


class LoopInfo:
    def __init__(self):
        self.backs = []      # [(events, state)]
        self.mus = {}        # location -> (expr, init)
        self.it = None
        self.facts = None       # facts at the entry
        self.src = None
        self.node = None
        self.fr = None


class State:
    __slots__ = ("base", "heap", "facts", "trace", "ctr", "exc", "pend")

    def __init__(self, base):
        self.base, self.heap, self.facts, self.trace, self.ctr, self.exc, self.pend = base, {}, Facts(), None, 0, None, None

    def fork(self):
        s = State(self.base)
        s.heap, s.facts, s.trace, s.ctr = dict(self.heap), self.facts.copy(), self.trace, self.ctr
        s.exc, s.pend = self.exc, self.pend
        return s

    def get(self, oid):
        o = self.heap.get(oid)
        return o if o is not None else self.base[oid]

    def w(self, oid):
        o = self.get(oid).copy()
        self.heap[oid] = o
        return o

    def new(self, cls, f=None, p=None, tag=None):
        self.ctr += 1
        oid = self.ctr
        self.heap[oid] = Obj(cls, f, p, tag)
        return T("ref", oid)

    def emit(self, ev):
        self.trace = (self.trace, ev)

    def events(self, since=None):
        out = []
        t = self.trace
        while t is not None and t is not since:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Func:
    def __init__(self, node, mod, qual, closure=None, cls=None, defaults=(), kwdefaults=None, host=None):
        self.node, self.mod, self.qual, self.closure, self.cls = node, mod, qual, closure, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.decor = None
        self.is_gen = None
        self.locals = None
        self.nonlocals = set()


class Cls:
    def __init__(self, name, mod, bases, ns, node):
        self.name, self.mod, self.bases, self.ns, self.node = name, mod, bases, ns, node
        self.mro = None


class Mod:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree, self.ns, self.done = name, path, tree, {}, False


class Fr:
    __slots__ = ("func", "oid", "mod", "depth", "hook", "stack", "parent", "clsns", "loopdepth")

    def __init__(self, func, oid, mod, depth, stack, hook=None, clsns=None):
        self.func, self.oid, self.mod, self.depth, self.stack, self.hook, self.clsns = func, oid, mod, depth, stack, hook, clsns


class Opts:
    def __init__(self, **kw):
        self.raises = kw.get("raises") or (lambda label: None)
        self.short_writes = kw.get("short_writes", False)
        self.models = kw.get("models") or {}
        self.unroll = kw.get("unroll") or {}       # qualname -> n  (or "*")
        self.max_states = kw.get("max_states", 60000)
        self.keyerrors = kw.get("keyerrors", True)
        self.recursion = kw.get("recursion", 1)
        self.implicit_index = kw.get("implicit_index", False)
        self.pure = kw.get("pure") or PURE_METHODS
        self.opaque_types = kw.get("opaque_types") or {}
        self.once = kw.get("once")                 # a ghost: at most one effect fails on a path


PURE_METHODS = {"map", "buffer", "file_size", "use_region", "window_size", "make_cursor", "root_path_"}


def ext(name):
    return T("ext", name)


def extname(t):
    return t.args[0] if t.op == "ext" else None


HOSTEXC = {n: getattr(builtins, n) for n in dir(builtins)
           if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}


class Interp:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.funcs = {}
        self.classes = {}
        self.base = {}
        self.opts = Opts()
        self.notes = []
        self.nstates = 0
        self.visited = set()
        self.loops = []
        from . import extmodels
        self.X = extmodels
        self.exts = extmodels.TABLE

    # ================================================================ program model
    def load_all(self):
        names = []
        top = os.path.join(self.root, PKG)
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ("test", "ext", "__pycache__"))
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    n = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    if n.endswith(".__init__"):
                        n = n[:-9]
                    names.append((n, p))
        for n, p in names:
            with open(p, "rb") as fh:
                src = fh.read()
            self.mods[n] = Mod(n, os.path.relpath(p, self.root), ast.parse(src, p))
        self.st0 = State(self.base)
        for n, _ in names:
            self.load_mod(n)
        # freeze
        self.base.update(self.st0.heap)
        self.ctr0 = self.st0.ctr
        self.nstates = 0
        self.visited = set()
        self.notes = []

    def load_mod(self, n):
        m = self.mods.get(n)
        if m is None:
            return None
        if m.done:
            return m
        m.done = True
        m.ns["__name__"] = const(n)
        m.ns["__builtins__"] = NONE
        if "." in n:
            parent = n.rsplit(".", 1)[0]
            if parent != PKG:
                self.load_mod(parent)
        f = Func(None, m, "<module %s>" % n)
        fr = Fr(f, None, m, 0, ())
        st = self.st0
        outs = self.block(m.tree.body, st, fr)
        outs = [o for o in outs if o[0] == "next"]
        if not outs:
            raise RuntimeError("module %s does not load" % n)
        self.st0 = outs[0][1]
        return m

    def fresh_state(self):
        st = State(self.base)
        st.ctr = self.ctr0
        return st

    def run(self, fterm, args, st, kw=None, opts=None):
        """Analyse a call; returns [(kind, state, value)] with kind 'ret' or 'exc'."""
        if opts is not None:
            self.opts = opts
        st = st.fork()
        self.nstates = 0
        fr = Fr(Func(None, self.mods[PKG], "<driver>"), None, self.mods[PKG], 0, ())
        X = []
        node = ast.Pass()
        node.lineno = 0
        r = self.call(fterm, list(args), kw or {}, st, fr, X, node)
        return [("ret", s, v) for s, v in r] + [("exc", s, v) for s, v in X]

    def get(self, dotted):
        """'gitdb.fun.stream_copy' or 'gitdb.pack.PackEntity.create' -> term, or None."""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = self.mods.get(".".join(parts[:i]))
            if m:
                t = None
                ns = m.ns
                for p in parts[i:]:
                    if t is None:
                        t = ns.get(p)
                    elif t.op == "cls":
                        t = self.cls_lookup(t, p)
                    else:
                        t = None
                    if t is None:
                        return None
                return t
        return None

    def new_obj(self, st, clsname, tag=None, fields=None, p=None):
        c = self.get(clsname)
        if c is None or c.op != "cls":
            raise LookupError("anchor %s not found" % clsname)
        return st.new(c, dict(fields or {}), p, tag)

    # ---------------------------------------------------------------- classes
    def ci(self, t):
        return self.classes[t.args[0]]

    def mro(self, t):
        if t.op == "cls":
            c = self.ci(t)
            if c.mro is None:
                seqs = [list(self.mro(b)) for b in c.bases] + [list(c.bases)]
                out = [t]
                while True:
                    seqs = [s for s in seqs if s]
                    if not seqs:
                        break
                    for s in seqs:
                        h = s[0]
                        if not any(h in q[1:] for q in seqs):
                            break
                    else:
                        h = seqs[0][0]
                    out.append(h)
                    for q in seqs:
                        if q[0] is h:
                            del q[0]
                c.mro = out
            return c.mro
        return [t]

    def cls_lookup(self, t, name):
        for c in self.mro(t):
            if c.op == "cls":
                v = self.ci(c).ns.get(name)
                if v is not None:
                    return v
        return None

    def cls_lookup_after(self, t, after, name):
        m = self.mro(t)
        i = m.index(after) if after in m else -1
        for c in m[i + 1:]:
            if c.op == "cls":
                v = self.ci(c).ns.get(name)
                if v is not None:
                    return v
        return None

    def ext_bases(self, t):
        """host classes a class derives from"""
        out = []
        for c in self.mro(t):
            if c.op == "ext":
                out.append(c.args[0])
        return out

    def hostclass(self, name):
        if name.startswith("builtins."):
            return getattr(builtins, name[9:], None)
        try:
            m, n = name.rsplit(".", 1)
            o = getattr(importlib.import_module(m), n)
            return o if isinstance(o, type) else None
        except Exception:
            return None

    def subclass(self, a, b):
        """a <= b for class terms; None if unknown"""
        if a is b:
            return True
        if b.op == "ext" and b.args[0] == "builtins.object":
            return True
        if b.op == "cls":
            return b in self.mro(a) if a.op in ("cls", "ext") else None
        if b.op == "ext":
            hb = self.hostclass(b.args[0])
            if hb is None:
                return None
            for c in self.mro(a):
                if c.op == "ext":
                    h = self.hostclass(c.args[0])
                    if isinstance(h, type) and issubclass(h, hb):
                        return True
            return False
        return None

    def is_exc_class(self, t):
        return t.op in ("cls", "ext") and self.subclass(t, ext("builtins.BaseException")) is True

    # ================================================================ statements
    def loc(self, node, fr):
        return (fr.mod.path, getattr(node, "lineno", 0), fr.func.qual)

    deadline = None

    def block(self, stmts, st, fr):
        outs = []
        if self.deadline and time.time() > self.deadline:
            raise TooBig("time budget exceeded at %s" % fmt_loc(self.loc(stmts[0], fr)))
        cur = [st]
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.stmt(s, c, fr):
                    if o[0] == "next":
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            cur = nxt
            if not cur:
                break
            self.nstates += len(cur)
            if self.nstates > self.opts.max_states:
                raise TooBig("state budget exceeded at %s" % fmt_loc(self.loc(s, fr)))
        outs.extend(("next", c, None) for c in cur)
        return outs

    def stmt(self, n, st, fr):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.note("unsupported statement %s" % type(n).__name__, n, fr)
            return [("next", st, None)]
        if fr.func.node is not None:
            self.visited.add((fr.mod.path, fr.func.qual))
        return m(n, st, fr)

    def note(self, msg, n, fr):
        x = "%s at %s" % (msg, fmt_loc(self.loc(n, fr)))
        if x not in self.notes:
            self.notes.append(x)

    def wrap(self, pairs, X):
        return [("next", s, None) for s, _ in pairs] + [("exc", s, e) for s, e in X]

    def s_Expr(self, n, st, fr):
        X = []
        return self.wrap(self.ev(n.value, st, fr, X), X)

    def s_Pass(self, n, st, fr):
        return [("next", st, None)]

    s_Global = s_Pass

    def s_Nonlocal(self, n, st, fr):
        fr.func.nonlocals.update(n.names)
        return [("next", st, None)]

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [("ret", st, NONE)]
        X = []
        r = self.ev(n.value, st, fr, X)
        return [("ret", s, v) for s, v in r] + [("exc", s, e) for s, e in X]

    def s_Break(self, n, st, fr):
        return [("brk", st, None)]

    def s_Continue(self, n, st, fr):
        return [("cnt", st, None)]

    def s_Assign(self, n, st, fr):
        X = []
        outs = []
        for s, v in self.ev(n.value, st, fr, X):
            cur = [s]
            for t in n.targets:
                nx = []
                for c in cur:
                    nx.extend(self.assign(t, v, c, fr, X))
                cur = nx
            outs.extend(cur)
        return [("next", s, None) for s in outs] + [("exc", s, e) for s, e in X]

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [("next", st, None)]
        X = []
        outs = []
        for s, v in self.ev(n.value, st, fr, X):
            outs.extend(self.assign(n.target, v, s, fr, X))
        return [("next", s, None) for s in outs] + [("exc", s, e) for s, e in X]

    def s_AugAssign(self, n, st, fr):
        X = []
        outs = []
        t = n.target
        load = ast.copy_location(
            ast.Name(t.id, ast.Load()) if isinstance(t, ast.Name) else
            ast.Attribute(t.value, t.attr, ast.Load()) if isinstance(t, ast.Attribute) else
            ast.Subscript(t.value, t.slice, ast.Load()), t)
        for s, old in self.ev(load, st, fr, X):
            for s2, v in self.ev(n.value, s, fr, X):
                if old.op == "ref" and isinstance(n.op, ast.Add):
                    o = s2.get(old.args[0])
                    if o.p is not None and extname(o.cls) in ("builtins.list", "builtins.bytearray"):
                        s2.w(old.args[0]).p = concat(o.p, self.val(v, s2))
                        outs.append(s2)
                        continue
                for s3, r in self.binop(n.op, old, v, s2, fr, X, n):
                    outs.extend(self.assign(t, r, s3, fr, X))
        return [("next", s, None) for s in outs] + [("exc", s, e) for s, e in X]

    def assign(self, t, v, st, fr, X):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st, fr)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.val(v, st)
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if items.op in ("tuple", "seq") and not star and len(items.args) != n:
                X.append((st, self.mkexc(st, "builtins.ValueError")))
                return []
            if items.op == "map" and not star and is_const(length(items.args[0])):
                pass
            cur = [st]
            for i, e in enumerate(t.elts):
                nx = []
                for c in cur:
                    if star:
                        x = T("unpack", items, i)
                        e2 = e.value if isinstance(e, ast.Starred) else e
                    else:
                        e2 = e
                        x = self.elem_at(items, const(i)) if items.op in ("map", "zip", "enum", "range", "slice") or \
                            ty(items) in SEQ_TY else index(items, const(i))
                    nx.extend(self.assign(e2, x, c, fr, X))
                cur = nx
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st, fr, X):
                out.extend(self.setattr(b, t.attr, v, s, fr, X, t))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, b in self.ev(t.value, st, fr, X):
                for s2, i in self.ev_slice(t.slice, s, fr, X):
                    out.extend(self.setitem(b, i, v, s2, fr, X, t))
            return out
        self.note("unsupported target", t, fr)
        return [st]

    def store_name(self, name, v, st, fr):
        if fr.clsns is not None:
            fr.clsns[name] = v
        elif fr.oid is None:
            fr.mod.ns[name] = v
        else:
            if name in fr.func.nonlocals:
                f = fr.func.closure
                while f is not None:
                    if f.oid is not None and name in st.get(f.oid).f:
                        st.w(f.oid).f[name] = v
                        return
                    f = f.func.closure
            st.w(fr.oid).f[name] = v

    def s_Delete(self, n, st, fr):
        X = []
        cur = [st]
        for t in n.targets:
            nx = []
            for c in cur:
                if isinstance(t, ast.Name):
                    if fr.oid is not None:
                        c.w(fr.oid).f.pop(t.id, None)
                    nx.append(c)
                elif isinstance(t, ast.Attribute):
                    for s, b in self.ev(t.value, c, fr, X):
                        if b.op == "ref":
                            o = s.w(b.args[0])
                            if (t.attr not in o.f and not o.tag or t.attr in o.f and o.f[t.attr].op == "deleted") and o.cls.op == "cls" \
                                    and self.cls_lookup(o.cls, t.attr) is None and self.cls_lookup(o.cls, "__delattr__") is None:
                                X.append((s, self.mkexc(s, "builtins.AttributeError", n, fr, (const(t.attr),))))
                                continue
                            o.f.pop(t.attr, None)
                            if o.tag:
                                o.f[t.attr] = T("deleted")
                        nx.append(s)
                elif isinstance(t, ast.Subscript):
                    for s, b in self.ev(t.value, c, fr, X):
                        for s2, i in self.ev_slice(t.slice, s, fr, X):
                            if b.op == "ref":
                                o = s2.w(b.args[0])
                                if o.p is not None:
                                    if i.op == "sl" and i.args[0] in (NONE, ZERO) and i.args[1] is NONE:
                                        o.p = T("seq")
                                    elif extname(o.cls) == "builtins.dict":
                                        o.p = T("ddel", o.p, i)
                                    elif o.p.op in ("seq", "tuple") and is_const(i) and isinstance(cval(i), int):
                                        a = list(o.p.args)
                                        if not -len(a) <= cval(i) < len(a):
                                            X.append((s2, self.mkexc(s2, "builtins.IndexError", n, fr)))
                                            continue
                                        del a[cval(i)]
                                        o.p = T("seq", *a)
                                    elif o.p.op in ("seq", "tuple") and i.op == "sl" and all(is_const(x) and isinstance(cval(x), (int, type(None))) for x in i.args) and (len(i.args) < 3 or cval(i.args[2]) != 0):
                                        a = list(o.p.args)
                                        del a[slice(*[cval(x) for x in i.args])]
                                        o.p = T("seq", *a)
                                    else:
                                        o.p = T("ldel", o.p, i)
                            s2.emit(Ev("del", "item", (b, i), loc=self.loc(n, fr)))
                            nx.append(s2)
                elif isinstance(t, ast.Tuple):
                    self.note("del tuple", n, fr)
                    nx.append(c)
            cur = nx
        return [("next", s, None) for s in cur] + [("exc", s, e) for s, e in X]

    def s_If(self, n, st, fr):
        X = []
        outs = []
        for s, b in self.cond(n.test, st, fr, X):
            outs.extend(self.block(n.body if b else n.orelse, s, fr))
        return outs + [("exc", s, e) for s, e in X]

    def s_Assert(self, n, st, fr):
        X = []
        outs = []
        for s, b in self.cond(n.test, st, fr, X):
            if b:
                outs.append(("next", s, None))
            else:
                outs.append(("exc", s, self.mkexc(s, "builtins.AssertionError", n, fr)))
        return outs + [("exc", s, e) for s, e in X]

    def mkexc(self, st, cls, node=None, fr=None, args=()):
        c = ext(cls) if isinstance(cls, str) else cls
        loc = self.loc(node, fr) if node is not None else None
        return st.new(c, {"args": tup(*args), "#loc": T("pyloc", loc)})

    def s_Raise(self, n, st, fr):
        X = []
        outs = []
        if n.exc is None:
            e = st.exc if st.exc is not None else self.mkexc(st, "builtins.RuntimeError", n, fr)
            return [("exc", st, e)]
        for s, v in self.ev(n.exc, st, fr, X):
            if v.op in ("cls", "ext") and self.is_exc_class(v):
                for s2, e in self.call(v, [], {}, s, fr, X, n):
                    outs.append(("exc", s2, e))
                continue
            if v.op != "ref":
                v = self.mkexc(s, "builtins.BaseException", n, fr, (v,))
            elif "#loc" not in s.get(v.args[0]).f:
                s.w(v.args[0]).f["#loc"] = T("pyloc", self.loc(n, fr))
            if n.cause is not None:
                for s2, cv in self.ev(n.cause, s, fr, X):
                    s2.w(v.args[0]).f["#cause"] = cv
                    outs.append(("exc", s2, v))
            else:
                outs.append(("exc", s, v))
        return outs + [("exc", s, e) for s, e in X]

    # ---------------------------------------------------------------- try / with
    def match(self, st, e, hc):
        """[(state, matched?)]"""
        if hc.op == "tuple":
            res = []
            cur = [st]
            for h in hc.args:
                nx = []
                for c in cur:
                    for s, m in self.match(c, e, h):
                        (res if m else nx).append((s, True) if m else s)
                cur = nx
            return res + [(s, False) for s in cur]
        if e.op != "ref":
            return [(st, True)]
        o = st.get(e.args[0])
        c = o.cls
        r = self.subclass(c, hc)
        if r is True:
            return [(st, True)]
        if "#open" in o.f:       # upper bound only
            excl = o.f.get("#excl", tup())
            if hc in excl.args:
                return [(st, False)]
            if any(self.subclass(hc, x) is True for x in excl.args):
                return [(st, False)]
            if self.subclass(hc, c) is True:
                a, b = st.fork(), st.fork()
                oa = a.w(e.args[0])
                oa.cls = hc
                ob = b.w(e.args[0])
                ob.f["#excl"] = tup(*(excl.args + (hc,)))
                return [(a, True), (b, False)]
        return [(st, False)]

    def s_Try(self, n, st, fr):
        outs = []
        body = self.block(n.body, st, fr)
        res = []
        for k, s, v in body:
            if k == "next":
                res.extend(self.block(n.orelse, s, fr) if n.orelse else [(k, s, v)])
            elif k == "exc" and n.handlers:
                cur = [s]
                for h in n.handlers:
                    nx = []
                    for c in cur:
                        if h.type is None:
                            ms = [(c, True)]
                        else:
                            X = []
                            ms = []
                            for s2, hc in self.ev(h.type, c, fr, X):
                                ms.extend(self.match(s2, v, hc))
                            res.extend(("exc", s2, e) for s2, e in X)
                        for s2, m in ms:
                            if not m:
                                nx.append(s2)
                                continue
                            s2.emit(Ev("catch", self.excname(s2, v), (v,), loc=self.loc(h, fr)))
                            saved = s2.exc
                            s2.exc = v
                            if h.name:
                                self.store_name(h.name, v, s2, fr)
                            for k3, s3, v3 in self.block(h.body, s2, fr):
                                s3.exc = saved
                                res.append((k3, s3, v3))
                    cur = nx
                res.extend(("exc", c, v) for c in cur)
            else:
                res.append((k, s, v))
        if not n.finalbody:
            return res
        for k, s, v in res:
            saved = s.exc
            if k == "exc":
                s.exc = v
            for k2, s2, v2 in self.block(n.finalbody, s, fr):
                s2.exc = saved
                outs.append((k, s2, v) if k2 == "next" else (k2, s2, v2))
        return outs

    s_TryStar = s_Try

    def excname(self, st, e):
        if e.op != "ref":
            return "?"
        o = st.get(e.args[0])
        n = o.cls.args[0]
        return str(n).replace("builtins.", "") + ("+" if "#open" in o.f else "")

    def s_With(self, n, st, fr):
        return self.with_items(list(n.items), n, st, fr)

    def with_items(self, items, n, st, fr):
        if not items:
            return self.block(n.body, st, fr)
        it, rest = items[0], items[1:]
        X = []
        outs = []
        for s, cm in self.ev(it.context_expr, st, fr, X):
            def body(s1, val, it=it, rest=rest):
                o = []
                XX = []
                cur = [s1]
                if it.optional_vars is not None:
                    cur = self.assign(it.optional_vars, val, s1, fr, XX)
                for c in cur:
                    o.extend(self.with_items(rest, n, c, fr))
                return o + [("exc", s2, e) for s2, e in XX]
            outs.extend(self.with_cm(cm, body, s, fr, n))
        return outs + [("exc", s, e) for s, e in X]

    def with_cm(self, cm, body, st, fr, n):
        if cm.op == "suppress":
            outs = []
            for k, s, v in body(st, NONE):
                if k == "exc":
                    for s2, m in self.match(s, v, tup(*cm.args)):
                        if m:
                            s2.emit(Ev("catch", self.excname(s2, v), (v,), loc=self.loc(n, fr)))
                        outs.append(("next", s2, None) if m else ("exc", s2, v))
                else:
                    outs.append((k, s, v))
            return outs
        if cm.op == "ref":
            o = st.get(cm.args[0])
            if extname(o.cls) == "#ctxgen":
                return self.run_ctxgen(o, body, st, fr, n)
            if o.cls.op == "cls" and self.cls_lookup(o.cls, "__enter__"):
                outs = []
                X = []
                for s, ent in self.getattr(cm, "__enter__", st, fr, X, n):
                    for s2, val in self.call(ent, [], {}, s, fr, X, n):
                        outs.extend(self.with_exit(cm, body(s2, val), fr, n))
                return outs + [("exc", s, e) for s, e in X]
            if extname(o.cls) in ("#closing",):
                tgt = o.f["obj"]
                return self.with_close(tgt, body(st, tgt), fr, n)
            # file-like external object: closed on exit
            return self.with_close(cm, body(st, cm), fr, n)
        self.note("opaque context manager", n, fr)
        return self.with_close(cm, body(st, cm), fr, n)

    def with_close(self, tgt, outs, fr, n):
        res = []
        for k, s, v in outs:
            X = []
            for s1, cl in self.getattr(tgt, "close", s, fr, X, n):
                for s2, _ in self.call(cl, [], {}, s1, fr, X, n):
                    res.append((k, s2, v))
            res.extend(("exc", s1, e) for s1, e in X)
        return res

    def with_exit(self, cm, outs, fr, n):
        res = []
        for k, s, v in outs:
            X = []
            args = [NONE, NONE, NONE] if k != "exc" else [T("typeof", v), v, T("tb")]
            for s1, ex in self.getattr(cm, "__exit__", s, fr, X, n):
                for s2, r in self.call(ex, list(args), {}, s1, fr, X, n):
                    if k == "exc":
                        for s3, b in self.truth(r, s2, fr, n):
                            res.append(("next", s3, None) if b else (k, s3, v))
                    else:
                        res.append((k, s2, v))
            res.extend(("exc", s1, e) for s1, e in X)
        return res

    def run_ctxgen(self, o, body, st, fr, n):
        def hook(s, val):
            r = []
            for k, s2, v in body(s, val):
                if k == "next":
                    r.append(("next", s2, NONE))
                elif k == "exc":
                    r.append(("exc", s2, v))
                else:
                    s2.pend = (k, v, s2.pend)
                    r.append(("next", s2, NONE))
            return r
        outs = []
        fn, args, kw = o.f["fn"], list(o.f["args"].args), dict(o.f["kw"].args)
        for k, s, v in self.exec_func(fn, args, kw, st, fr, n, hook):
            if s.pend:
                pk, pv, s.pend = s.pend
                if k in ("ret", "next"):
                    outs.append((pk, s, pv))
                    continue
            if k == "ret":
                k, v = "next", None
            outs.append((k, s, v))
        return outs

    # ---------------------------------------------------------------- definitions
    def s_FunctionDef(self, n, st, fr):
        X = []
        outs = []
        for s, f in self.mkfunc(n, st, fr, X):
            cur = [(s, f)]
            for d in reversed(n.decorator_list):
                nx = []
                for s1, f1 in cur:
                    for s2, dv in self.ev(d, s1, fr, X):
                        nx.extend(self.call(dv, [f1], {}, s2, fr, X, n))
                cur = nx
            for s1, f1 in cur:
                self.store_name(n.name, f1, s1, fr)
                outs.append(("next", s1, None))
        return outs + [("exc", s, e) for s, e in X]

    s_AsyncFunctionDef = s_FunctionDef

    def mkfunc(self, n, st, fr, X):
        a = n.args
        cur = [(st, [])]
        for d in a.defaults + [x for x in a.kw_defaults]:
            nx = []
            for s, ds in cur:
                if d is None:
                    nx.append((s, ds + [None]))
                else:
                    for s2, v in self.ev(d, s, fr, X):
                        nx.append((s2, ds + [v]))
            cur = nx
        out = []
        for s, ds in cur:
            if fr.func.qual.startswith("<module"):
                q = (fr.mod.name + "." if not fr.clsns else "") 
                q = fr.mod.name + "." + (fr.clsns["__qualname__"] + "." if fr.clsns else "")
            else:
                q = fr.func.qual + "."
            name = getattr(n, "name", "<lambda>")
            cl = fr if fr.oid is not None else None
            key = (id(n), fr.oid, tuple(x.id if x is not None else None for x in ds))
            if key not in self.funcs:
                f = Func(n, fr.mod, q + name, cl, fr.clsns["#cls"] if fr.clsns else None,
                         ds[:len(a.defaults)], dict(zip([k.arg for k in a.kwonlyargs], ds[len(a.defaults):])))
                f.is_gen = is_generator(n)
                self.funcs[key] = f
            out.append((s, T("func", key)))
        return out

    def fi(self, t):
        return self.funcs[t.args[0]]

    def s_ClassDef(self, n, st, fr):
        X = []
        cur = [(st, [])]
        for b in n.bases:
            nx = []
            for s, bs in cur:
                for s2, v in self.ev(b, s, fr, X):
                    nx.append((s2, bs + [v]))
            cur = nx
        outs = []
        for s, bs in cur:
            bs = [b for b in bs if b.op in ("cls", "ext")] or [ext("builtins.object")]
            name = fr.mod.name + "." + n.name
            if fr.oid is not None:
                name = fr.func.qual + "." + n.name
            t = T("cls", name)
            ns = {"__qualname__": n.name, "#cls": t}
            self.classes[name] = Cls(n.name, fr.mod, bs, ns, n)
            f2 = Fr(fr.func, fr.oid, fr.mod, fr.depth, fr.stack, None, ns)
            for k, s2, v in self.block(n.body, s, f2):
                if k == "next":
                    self.store_name(n.name, t, s2, fr)
                    outs.append((k, s2, v))
                else:
                    outs.append((k, s2, v))
        return outs + [("exc", s, e) for s, e in X]

    # ---------------------------------------------------------------- imports
    def s_Import(self, n, st, fr):
        for a in n.names:
            top = a.name.split(".")[0]
            if top == PKG:
                m = self.load_in(a.name, st)
                if m is None:
                    return [("exc", st, self.mkexc(st, "builtins.ImportError", n, fr))]
                self.store_name(a.asname or top, T("mod", a.name if a.asname else top), st, fr)
            elif top in STDLIB or top == "smmap":
                self.store_name(a.asname or top, ext(a.name if a.asname else top), st, fr)
            else:
                return [("exc", st, self.mkexc(st, "builtins.ModuleNotFoundError", n, fr))]
        return [("next", st, None)]

    def load_in(self, name, st):
        if name not in self.mods:
            return None
        if not self.mods[name].done:
            self.load_mod(name)
        return self.mods[name]

    def s_ImportFrom(self, n, st, fr):
        name = n.module or ""
        if n.level:
            base = fr.mod.name.split(".")
            isinit = fr.mod.path.endswith("__init__.py")
            base = base[:len(base) - n.level + (1 if isinit else 0)]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        if top == PKG:
            saved = self.st0
            self.st0 = st
            m = self.load_in(name, st)
            st = self.st0 if fr.oid is None else st
            if fr.oid is not None:
                self.st0 = saved
            if m is None:
                return [("exc", st, self.mkexc(st, "builtins.ImportError", n, fr))]
            for a in n.names:
                if a.name == "*":
                    al = m.ns.get("__all__")
                    names = None
                    if al is not None:
                        v = self.val(al, st)
                        names = [cval(x) for x in v.args] if v.op in ("tuple", "seq") else None
                    if names is None:
                        names = [k for k in m.ns if not k.startswith("_")]
                    for k in names:
                        if k in m.ns:
                            self.store_name(k, m.ns[k], st, fr)
                    continue
                v = m.ns.get(a.name)
                if v is None and name + "." + a.name in self.mods:
                    self.load_in(name + "." + a.name, st)
                    v = T("mod", name + "." + a.name)
                if v is None:
                    return [("exc", st, self.mkexc(st, "builtins.ImportError", n, fr))]
                self.store_name(a.asname or a.name, v, st, fr)
            return [("next", st, None)]
        if top in STDLIB or top == "smmap":
            for a in n.names:
                self.store_name(a.asname or a.name, self.ext_attr(name, a.name), st, fr)
            return [("next", st, None)]
        return [("exc", st, self.mkexc(st, "builtins.ModuleNotFoundError", n, fr))]

    def ext_attr(self, base, name):
        d = base + "." + name
        if base == "os" and name == "path":
            return ext("os.path")
        if base.split(".")[0] in STDLIB:
            try:
                o = importlib.import_module(base)
                v = getattr(o, name)
                if isinstance(v, (int, str, bytes, float)) or v is None:
                    return const(v)
                if isinstance(v, type) and issubclass(v, BaseException) and v.__name__ in HOSTEXC and \
                        HOSTEXC[v.__name__] is v:
                    return ext("builtins." + v.__name__)
            except Exception:
                if base in STDLIB:
                    try:
                        importlib.import_module(d)
                    except Exception:
                        return T("missing", d)
        return ext(d)

    # ================================================================ loops
    def s_While(self, n, st, fr):
        return self.loop(n, st, fr, None)

    def for_calls(self, n):
        """for x in iter(f, end): ...  as a while loop"""
        w = getattr(n, "as_while", None)
        if w is None:
            f, end = n.iter.args
            if isinstance(n.target, ast.Name):
                tgt, first = n.target, []
            else:
                tgt = ast.Name("#next", ast.Store())
                first = [ast.Assign([n.target], ast.Name("#next", ast.Load()))]
            w = ast.While(ast.Compare(ast.NamedExpr(tgt, ast.Call(f, [], [])), [ast.NotEq()], [end]), first + n.body, n.orelse)
            for x in ast.walk(w):
                if not hasattr(x, "lineno"):
                    ast.copy_location(x, n)
            n.as_while = w
        return w

    def s_For(self, n, st, fr):
        X = []
        outs = []
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "iter" and len(n.iter.args) == 2:
            return self.s_While(self.for_calls(n), st, fr)
        for s, src in self.ev(n.iter, st, fr, X):
            items = self.iterable(src, s)
            itref = None
            if items.op == "ref":
                o = s.get(items.args[0])
                if extname(o.cls) == "#gen":
                    outs.extend(self.for_gen(n, o, s, fr))
                    continue
                if extname(o.cls) == "#iter":
                    rest = s.get(items.args[0]).p
                    itref = items
                    s.w(items.args[0]).p = T("tuple")
                    items = rest
            seq = self.const_items(items)
            if seq is not None and len(seq) <= 300:
                live = src if itref is None and src.op == "ref" and s.get(src.args[0]).p is items else None
                outs.extend(self.for_unrolled(n, seq, s, fr, itref, live))
            else:
                outs.extend(self.loop(n, s, fr, items))
        return outs + [("exc", s, e) for s, e in X]

    def set_elems(self, t):
        """elements of a set if they are known and known to be different, else None"""
        if t.op == "setof":
            src = t.args[0]
            if len(t.args) > 1:
                return list(src.args)       # found to be different on this path
            items = self.set_elems(src) if ty(src) == "set" else self.const_items(src)
            if items is None:
                return None
            out = []
            for x in items:
                same = [c_eq(x, y) if x is not y else TRUE for y in out]
                if any(r is TRUE for r in same):
                    continue
                if any(r is not FALSE for r in same):
                    return None
                out.append(x)
            return out
        if t.op in ("setsub", "setand", "setor"):
            a = self.set_elems(t.args[0])
            b = self.set_elems(t.args[1] if ty(t.args[1]) == "set" else T("setof", t.args[1]))
            if a is None or b is None:
                return None
            both = self.set_elems(T("setof", T("tuple", *(a + b))))
            if both is None:
                return None
            if t.op == "setor":
                return both
            isin = lambda x: any(x is y or c_eq(x, y) is TRUE for y in b)
            return [x for x in a if isin(x) == (t.op == "setand")]
        return None

    def const_items(self, items):
        if items.op in ("tuple", "seq"):
            return list(items.args)
        if ty(items) == "set":
            r = self.set_elems(items)
            # the order of a set is arbitrary: prefer one which differs from the order of insertion
            return r and list(reversed(r))
        ln = self.iter_len(items)
        if ln is not None and is_const(ln) and isinstance(cval(ln), int) and cval(ln) <= 300:
            return [self.elem_at(items, const(i)) for i in range(cval(ln))]
        return None

    def for_unrolled(self, n, seq, st, fr, itref=None, live=None):
        outs = []
        cur = [st]
        done = []
        ended = []
        i = -1
        while cur:
            i += 1
            nx = []
            for c in cur:
                X = []
                now = seq
                if live is not None and c.get(live.args[0]).p is not None:
                    # a list may change while it is iterated over
                    r = self.const_items(c.get(live.args[0]).p)
                    now = seq if r is None else r
                if i >= len(now):
                    ended.append(c)
                    continue
                if i > 600:
                    raise TooBig("iteration over a growing list at %s" % fmt_loc(self.loc(n, fr)))
                v = now[i]
                if itref is not None:
                    # the iterator keeps what was not taken from it yet
                    c.w(itref.args[0]).p = T("tuple", *seq[i + 1:])
                for c2 in self.assign(n.target, v, c, fr, X):
                    for k, s, val in self.block(n.body, c2, fr):
                        if k in ("next", "cnt"):
                            nx.append(s)
                        elif k == "brk":
                            done.append(s)
                        else:
                            outs.append((k, s, val))
                outs.extend(("exc", s, e) for s, e in X)
            cur = nx
        for c in ended:
            outs.extend(self.block(n.orelse, c, fr) if n.orelse else [("next", c, None)])
        outs.extend(("next", s, None) for s in done)
        return outs

    def for_gen(self, n, o, st, fr):
        """iterate a repository generator: its body is analysed with the loop body at each yield"""
        brk = T("cls", "#GeneratorExit")

        def hook(s, val):
            r = []
            X = []
            for c in self.assign(n.target, val, s, fr, X):
                for k, s2, v in self.block(n.body, c, fr):
                    if k in ("next", "cnt"):
                        r.append(("next", s2, NONE))
                    elif k == "exc":
                        s2.pend = ("exc", v, s2.pend)
                        r.append(("exc", s2, self.mkexc(s2, "builtins.GeneratorExit")))
                    else:
                        s2.pend = (k, v, s2.pend)
                        r.append(("exc", s2, self.mkexc(s2, "builtins.GeneratorExit")))
            r.extend(("exc", s2, e) for s2, e in X)
            return r
        outs = []
        fn, args, kw = o.f["fn"], list(o.f["args"].args), dict(o.f["kw"].args)
        for k, s, v in self.exec_func(fn, args, kw, st, fr, n, hook):
            if s.pend and (k == "ret" or (k == "exc" and v.op == "ref" and
                                          extname(s.get(v.args[0]).cls) == "builtins.GeneratorExit")):
                pk, pv, s.pend = s.pend
                outs.append(("next", s, None) if pk == "brk" else (pk, s, pv))
            elif k == "ret":
                outs.extend(self.block(n.orelse, s, fr) if n.orelse else [("next", s, None)])
            else:
                outs.append((k, s, v))
        return outs

    # -- one pass over a loop body from a head state
    def loop_pass(self, n, head, fr, items, it, inv=False):
        """returns (backs[states], exits[states], brks[states], outs)"""
        outs, backs, exits, brks = [], [], [], []
        X = []
        if items is None:
            heads = self.cond(n.test, head, fr, X)
            if inv:
                heads = [(s, b) for s, b in heads if b]
        else:
            heads = []
            ln = self.iter_len(items)
            b, e = head.fork(), head
            okb = oke = True
            if ln is not None and ln.op == "rangelen" and is_const(ln.args[2]) and isinstance(cval(ln.args[2]), int) and cval(ln.args[2]) > 0:
                nxt = c_le0(lin_add(lin_add(lin_add(ln.args[0], const(1)), it, cval(ln.args[2])), ln.args[1], -1))
                okb = b.facts.assume(nxt)
                oke = e.facts.assume(nxt, False)
            elif ln is not None:
                okb = b.facts.assume(c_le0(lin_add(lin_add(it, const(1)), ln, -1)))
                oke = e.facts.assume(c_eq0(lin_add(it, ln, -1)))
            if okb:
                b.emit(Ev("assume", "iter", (T("more", items, it), TRUE), loc=self.loc(n, fr)))
                for s in self.assign(n.target, self.elem_at(items, it), b, fr, X):
                    heads.append((s, True))
            if oke:
                e.emit(Ev("assume", "iter", (T("more", items, it), FALSE), loc=self.loc(n, fr)))
                heads.append((e, False))
        outs.extend(("exc", s, e) for s, e in X)
        for s, b in heads:
            if not b:
                exits.append(s)
                continue
            for k, s2, v in self.block(n.body, s, fr):
                if k in ("next", "cnt"):
                    if inv:
                        X = []
                        for s3, b3 in self.cond(n.test, s2, fr, X):
                            (backs if b3 else exits).append(s3)
                        outs.extend(("exc", s3, e) for s3, e in X)
                    else:
                        (exits if items is None and self.settled(n.test, s2, fr) else backs).append(s2)
                elif k == "brk":
                    brks.append(s2)
                else:
                    outs.append((k, s2, v))
        return backs, exits, brks, outs

    def settled(self, t, st, fr):
        """is the test of a loop known to fail because of a variable which became something in the last iteration?"""
        for u in t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) else [t]:
            if not (isinstance(u, ast.Compare) and len(u.ops) == 1 and isinstance(u.ops[0], (ast.Is, ast.IsNot)) and isinstance(u.left, ast.Name)
                    and isinstance(u.comparators[0], ast.Constant) and u.comparators[0].value is None):
                if all(isinstance(x, (ast.Compare, ast.Name, ast.Constant, ast.cmpop, ast.expr_context)) for x in ast.walk(u)):
                    continue
                break           # it is evaluated before the others
            X = []
            r = self.cond(u, st.fork(), fr, X)
            return bool(r) and not X and not any(b for _, b in r)
        return False

    def flag(self, n, st, fr):
        """a loop which is controlled by a variable: its test is evaluated at the end of the body, where it
        depends on what happened in this iteration"""
        t = n.test
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t = t.operand
        if not isinstance(t, ast.Name):
            return False
        v = [x for _, x in self.ev(t, st.fork(), fr, [])]
        return bool(v) and all(ty(x) == "bool" for x in v)

    def loop(self, n, st, fr, items):
        un = self.opts.unroll.get(fr.func.qual, self.opts.unroll.get("*"))
        if un:
            return self.loop_unroll(n, st, fr, items, un)
        if items is None and self.flag(n, st, fr):
            res, X = [], []
            for s, b in self.cond(n.test, st, fr, X):
                if b:
                    res.extend(self.loop1(n, s, fr, items, True))
                else:
                    res.extend(self.block(n.orelse, s, fr) if n.orelse else [("next", s, None)])
            return res + [("exc", s, e) for s, e in X]
        return self.loop1(n, st, fr, items)

    def loop1(self, n, st, fr, items, inv=False):
        entry = st
        loopid = (self.loc(n, fr)[0] + ":%d" % n.lineno, entry.ctr)
        it = T("mu", loopid, "#it", "int")
        plan = {}          # location -> expression at head
        inits = {}         # location -> entry value
        types = {}
        groups = {}        # location -> representative
        known_bad = set()
        info = None

        def locval(s, l):
            oid, kind, name = l
            try:
                o = s.get(oid)
            except KeyError:
                return None
            return o.p if kind == "p" else o.f.get(name)

        def mk_head():
            h = entry.fork()
            h.ctr += 1
            info = LoopInfo()
            info.node, info.fr, info.it, info.src = n, fr, it, items
            info.facts = entry.facts
            h.emit(Ev("loop", "loop", (), res=None, loc=self.loc(n, fr), out=info))
            mark = h.trace
            for l, e in plan.items():
                oid, kind, name = l
                o = h.w(oid)
                if kind == "p":
                    o.p = e
                else:
                    o.f[name] = e
            for l, e in plan.items():
                iv = inits[l]
                st_ = steps.get(l)
                if e.op == "mu" and mono.get(e) is not None and iv is not None and ty(iv) == "int":
                    if mono[e] >= 0:
                        h.facts.assume(c_le0(lin_add(iv, e, -1)))
                    else:
                        h.facts.assume(c_le0(lin_add(e, iv, -1)))
            return h, info, mark

        steps, mono = {}, {}
        rounds = 0
        offset_stage = False
        failed = set()
        while True:
            rounds += 1
            if rounds > 40:
                raise TooBig("loop fixpoint at %s" % fmt_loc(self.loc(n, fr)))
            saved_n = self.nstates
            h, info, mark = mk_head()
            ents = {}
            backs, exits, brks, outs = self.loop_pass(n, h, fr, items, it, inv)
            # ---- collect changed locations
            newlocs = set()
            heap0 = entry
            for b in backs:
                for oid, o in b.heap.items():
                    try:
                        o0 = h_get(entry, oid)
                    except KeyError:
                        continue
                    hd = plan
                    for name in set(o.f) | set(o0.f):
                        l = (oid, "f", name)
                        if l in plan:
                            continue
                        if o.f.get(name) is not o0.f.get(name):
                            newlocs.add(l)
                    l = (oid, "p", None)
                    if l not in plan and o.p is not o0.p:
                        newlocs.add(l)
            if newlocs:
                # optimistic: equal initial values form one class
                byinit = {}
                for l in plan:
                    if l not in failed and plan[l].op == "mu":
                        byinit.setdefault((inits[l], "n"), plan[l])
                for l in sorted(newlocs, key=str):
                    iv = locval(entry, l)
                    inits[l] = iv
                    if iv is None:
                        # first bound inside the loop: value of the previous iteration, or unbound
                        plan[l] = T("mu", loopid, str(l[2]) + "@%s" % (l[0],), None)
                        continue
                    k = (iv, "n")
                    if k in byinit and not offset_stage and byinit[k] is not None:
                        plan[l] = byinit[k]
                    else:
                        plan[l] = T("mu", loopid, "%s@%s" % (l[2], l[0]), ty(iv))
                        byinit[k] = plan[l]
                continue
            # ---- check the invariants of the plan
            m_all = []
            for b in backs:
                m_all.append({l: locval(b, l) for l in plan})
            changed = False
            # representatives: first location whose expr is the mu itself
            reps = {}
            for l, e in plan.items():
                if e.op == "mu" and e not in reps:
                    reps[e] = l
            # type consistency
            for e, l in list(reps.items()):
                t = e.args[2]
                if t is not None:
                    for bv in m_all:
                        v = bv[l]
                        tv = ty(v) if v is not None else None
                        if tv == "bool" and t == "int":
                            continue
                        if v is None or tv != t:
                            ne = T("mu", loopid, e.args[1], None)
                            for l2 in plan:
                                if plan[l2] is e:
                                    plan[l2] = ne
                                elif mentions(plan[l2], e):
                                    plan[l2] = subst(plan[l2], {e: ne})
                            changed = True
                            break
            if changed:
                continue
            # group splits: members whose back values differ from the representative's
            for e, rl in reps.items():
                members = [l for l in plan if plan[l] is e]
                if len(members) < 2:
                    continue
                sig = {}
                for l in members:
                    sig.setdefault(tuple(bv[l].id if bv[l] is not None else None for bv in m_all), []).append(l)
                if len(sig) > 1:
                    changed = True
                    for i, (sg, ls) in enumerate(sig.items()):
                        l0 = ls[0]
                        ne = T("mu", loopid, "%s@%s" % (l0[2], l0[0]), ty(inits[l0]) if inits[l0] is not None else None)
                        for l in ls:
                            plan[l] = ne
            if changed:
                continue
            # derived expressions (it-linear, offset) must be preserved
            for l, e in list(plan.items()):
                if e.op == "mu":
                    continue
                for bv in m_all:
                    sub_ = {}
                    for r, rl in reps.items():
                        sub_[r] = bv[rl]
                    sub_[it] = lin_add(it, const(1))
                    if any(x is None for x in sub_.values()) or bv[l] is not subst(e, sub_):
                        plan[l] = T("mu", loopid, "%s@%s" % (l[2], l[0]), ty(inits[l]))
                        failed.add(l)
                        changed = True
                        break
            if changed:
                continue
            # ---- derive: it-linear variables, offset-equal variables
            deltas = {}
            for e, l in reps.items():
                iv = inits[l]
                if iv is None or e.args[2] != "int" or not backs:
                    continue
                ds = tuple(lin_add(bv[l], e, -1) for bv in m_all)
                deltas[e] = ds
                if l in failed:
                    pass
                elif all(is_const(d) for d in ds) and len(set(ds)) == 1:
                    ne = lin_add(iv, scale(it, cval(ds[0])))
                    for l2 in plan:
                        if plan[l2] is e:
                            plan[l2] = ne
                    changed = True
            if not changed:
                bysig = {}
                for e, ds in deltas.items():
                    l = reps[e]
                    if l in failed:
                        continue
                    if ds in bysig:
                        r = bysig[ds]
                        ne = lin_add(r, lin_add(inits[l], inits[reps[r]], -1))
                        for l2 in plan:
                            if plan[l2] is e:
                                plan[l2] = ne
                        changed = True
                    elif tuple(scale(d, -1) for d in ds) in bysig:
                        # counts down what the other one counts up
                        r = bysig[tuple(scale(d, -1) for d in ds)]
                        ne = lin_add(lin_add(inits[l], inits[reps[r]]), r, -1)
                        for l2 in plan:
                            if plan[l2] is e:
                                plan[l2] = ne
                        changed = True
                    else:
                        bysig[ds] = e
            # monotonicity
            for e, ds in deltas.items():
                if e in mono:
                    continue
                if plan.get(reps[e]) is not e:
                    continue
                lo = hi = True
                for b, d in zip(backs, ds):
                    x, y = b.facts.sum_bounds(d)
                    if x is None or x < 0:
                        x2 = b.facts.ub(scale(d, -1), 2)
                        if x2 is None or x2 > 0:
                            lo = False
                    if y is None or y > 0:
                        hi = False
                if lo:
                    mono[e] = 1
                    changed = True
                elif hi:
                    mono[e] = -1
                    changed = True
                else:
                    mono[e] = None
            if changed:
                continue
            break
        # ---- finish
        for b, bv in zip(backs, m_all):
            info.backs.append((b.events(mark), b, bv))
        info.mus = {l: (plan[l], inits[l]) for l in plan}
        info.head = h
        mx = max([s.ctr for s in backs + exits + brks] + [s.ctr for _, s, _ in outs] + [entry.ctr]) + 1
        self.loops.append(info)
        res = list(outs)
        for s in exits:
            s.ctr = max(s.ctr, mx)
            res.extend(self.block(n.orelse, s, fr) if n.orelse else [("next", s, None)])
        for s in brks:
            s.ctr = max(s.ctr, mx)
            res.append(("next", s, None))
        for _, s, _ in outs:
            s.ctr = max(s.ctr, mx)
        return res

    def loop_unroll(self, n, st, fr, items, limit):
        outs = []
        cur = [(st, 0)]
        i = 0
        while cur:
            nx = []
            for s, _ in cur:
                backs, exits, brks, o = self.loop_pass(n, s, fr, items, const(i))
                outs.extend(o)
                for e in exits:
                    outs.extend(self.block(n.orelse, e, fr) if n.orelse else [("next", e, None)])
                outs.extend(("next", b, None) for b in brks)
                nx.extend((b, 0) for b in backs)
            i += 1
            if i > limit:
                if nx:
                    self.note("loop partitioned up to %d iterations" % limit, n, fr)
                break
            cur = nx
        return outs

    # ================================================================ iteration helpers
    def iterable(self, v, st):
        """snapshot of what iterating v yields, as a term"""
        if v.op == "ref":
            o = st.get(v.args[0])
            if extname(o.cls) in ("#gen", "#iter"):
                return v
            if o.p is not None:
                if extname(o.cls) == "builtins.dict" or o.p.op in ("dict", "store", "ddel"):
                    return self.dict_keys(o.p)
                return o.p
            if "#lines" in o.f:
                return o.f["#lines"]
            return T("iterof", v)
        if v.op == "const" and isinstance(cval(v), (tuple, list)):
            return T("tuple", *[const(x) for x in cval(v)])
        if v.op in ("dict", "store", "ddel"):
            return self.dict_keys(v)
        return v

    def dict_keys(self, p):
        vs = self.X.static_items(p)
        return T("keysof", p) if vs is None else T("tuple", *[k for k, _ in vs])

    def iter_len(self, it):
        op = it.op
        if op in ("tuple", "seq"):
            return const(len(it.args))
        if op == "range":
            a, b, s = it.args
            if s is const(1):
                d = lin_add(b, a, -1)
                if is_const(d):
                    return const(max(0, cval(d)))
                return T("max", *sorted((d, ZERO), key=lambda x: x.id)) if not (a is ZERO and b.op == "len") else b
            if all(is_const(x) for x in it.args):
                return const(len(range(*[cval(x) for x in it.args])))
            return T("rangelen", *it.args)
        if op in ("setof", "setsub", "setand", "setor"):
            es = self.set_elems(it)
            return None if es is None else const(len(es))
        if op in ("enum", "rev", "sorted", "listof"):
            return self.iter_len(it.args[0])
        if op == "map":
            return self.iter_len(it.args[0]) if it.args[2] is TRUE else None
        if op == "zip":
            ls = [self.iter_len(x) for x in it.args]
            if None in ls or not ls:
                return None
            if all(x is ls[0] for x in ls):
                return ls[0]
            if all(is_const(x) for x in ls):
                return const(min(cval(x) for x in ls))
            return T("min", *sorted(set(ls), key=lambda x: x.id))
        if op == "concat":
            r = ZERO
            for p in it.args[1:]:
                l = self.iter_len(p)
                if l is None:
                    return None
                r = lin_add(r, l)
            return r
        if op == "const":
            return length(it)
        if op == "rep":
            return length(it) if is_const(length(it)) else None
        if op in ("append", "slice", "arr", "bytes1", "as", "tobytes") or ty(it) in ("bytes", "bytearray", "str", "list", "buf", "memoryview"):
            return length(it)
        return None

    def elem_at(self, it, i):
        op = it.op
        if op in ("tuple", "seq") and is_const(i):
            return index(it, i)
        if op == "range":
            return lin_add(it.args[0], mul(i, it.args[2]))
        if op == "enum":
            return tup(lin_add(i, it.args[1]), self.elem_at(it.args[0], i))
        if op == "zip":
            return tup(*[self.elem_at(x, i) for x in it.args])
        if op == "map" and it.args[2] is TRUE:
            return subst(it.args[1], {it.args[3]: self.elem_at(it.args[0], i), it.args[4]: i})
        if op == "map":
            x = T("elem", it.args[0], T("fidx", it, i))
            return subst(it.args[1], {it.args[3]: x, it.args[4]: T("fidx", it, i)})
        if op == "rev":
            ln = self.iter_len(it.args[0])
            if ln is not None:
                return self.elem_at(it.args[0], lin_add(lin_add(ln, const(-1)), i, -1))
        if op in ("listof",):
            return self.elem_at(it.args[0], i)
        if op in ("setof", "setsub", "setor", "setand", "setmap", "glob", "keysof", "sorted", "iterof", "items", "values"):
            return T("elem", it, i)
        if op == "sym" or op == "res" or op == "mu" or op == "attr" or op == "elem":
            if ty(it) in BYTESY or ty(it) == "list":
                return index(it, i)
            return T("elem", it, i)
        if op == "const" and isinstance(cval(it), dict):
            return T("elem", it, i)
        return index(it, i)

    # ================================================================ expressions
    def evs(self, nodes, st, fr, X):
        cur = [(st, [])]
        for n in nodes:
            nx = []
            for s, vs in cur:
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s, fr, X):
                        items = self.iterable(v, s2)
                        seq = self.const_items(items)
                        nx.append((s2, vs + (seq if seq is not None else [T("star", items)])))
                else:
                    for s2, v in self.ev(n, s, fr, X):
                        nx.append((s2, vs + [v]))
            cur = nx
        return cur

    def ev(self, n, st, fr, X):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.note("unsupported expression %s" % type(n).__name__, n, fr)
            return [(st, self.fresh(st, "unsupported"))]
        return m(n, st, fr, X)

    def fresh(self, st, label, t=None):
        st.ctr += 1
        return T("res", label, st.ctr, t)

    def e_Constant(self, n, st, fr, X):
        if n.value is Ellipsis:
            return [(st, NONE)]
        return [(st, const(n.value))]

    def e_Name(self, n, st, fr, X):
        v = self.lookup(n.id, st, fr)
        if v is None:
            X.append((st, self.mkexc(st, "builtins.NameError", n, fr, (const(n.id),))))
            return []
        if v.op == "missing":
            X.append((st, self.mkexc(st, "builtins.ImportError", n, fr)))
            return []
        return [(st, v)]

    def lookup(self, name, st, fr):
        if fr.clsns is not None and name in fr.clsns and not name.startswith("#"):
            v = fr.clsns[name]
            if isinstance(v, Term):
                return v
        f = fr
        while f is not None:
            if f.oid is not None:
                v = st.get(f.oid).f.get(name)
                if v is not None:
                    return v
            f = f.func.closure
        v = fr.mod.ns.get(name)
        if v is not None:
            return v
        if hasattr(builtins, name):
            o = getattr(builtins, name)
            if o is NotImplemented or isinstance(o, (int, str)):
                return const(o) if isinstance(o, (int, str)) else ext("builtins." + name)
            return ext("builtins." + getattr(o, "__name__", name)) if isinstance(o, type) else ext("builtins." + name)
        if name in ("__class__",) and fr.func.cls is not None:
            return fr.func.cls
        if name == "__file__":
            return const(fr.mod.path)
        return None

    def e_Tuple(self, n, st, fr, X):
        return [(s, self.mkseq("tuple", vs)) for s, vs in self.evs(n.elts, st, fr, X)]

    def mkseq(self, op, vs):
        if any(v.op == "star" for v in vs):
            parts = []
            for v in vs:
                parts.append(v.args[0] if v.op == "star" else T(op, v))
            return concat(*parts)
        return T(op, *vs)

    def e_List(self, n, st, fr, X):
        return [(s, s.new(ext("builtins.list"), p=self.mkseq("seq", vs))) for s, vs in self.evs(n.elts, st, fr, X)]

    def e_Set(self, n, st, fr, X):
        return [(s, T("setof", self.mkseq("tuple", vs))) for s, vs in self.evs(n.elts, st, fr, X)]

    def e_Dict(self, n, st, fr, X):
        out = []
        if any(k is None for k in n.keys):
            self.note("dict unpacking", n, fr)
            return [(st, self.fresh(st, "dict"))]
        for s, vs in self.evs([x for kv in zip(n.keys, n.values) for x in kv], st, fr, X):
            p = T("dict")
            for i in range(0, len(vs), 2):
                p = T("store", p, vs[i], vs[i + 1])
            out.append((s, s.new(ext("builtins.dict"), p=p)))
        return out

    def e_JoinedStr(self, n, st, fr, X):
        cur = [(st, [])]
        for v in n.values:
            nx = []
            for s, ps in cur:
                if isinstance(v, ast.Constant):
                    nx.append((s, ps + [const(v.value)]))
                else:
                    spec = None
                    if v.format_spec is not None and isinstance(v.format_spec, ast.JoinedStr) and \
                            all(isinstance(z, ast.Constant) for z in v.format_spec.values):
                        spec = "".join(z.value for z in v.format_spec.values)
                    for s2, x in self.ev(v.value, s, fr, X):
                        if v.conversion in (114, 97):
                            nx.append((s2, ps + [T("repr", x)]))
                        else:
                            nx.append((s2, ps + [self.X.text(self, x, s2, spec or "")]))
            cur = nx
        return [(s, concat(const(""), *ps)) for s, ps in cur]

    def e_Lambda(self, n, st, fr, X):
        return self.mkfunc(n, st, fr, X)

    def e_NamedExpr(self, n, st, fr, X):
        out = []
        for s, v in self.ev(n.value, st, fr, X):
            self.store_name(n.target.id, v, s, fr)
            out.append((s, v))
        return out

    def e_Starred(self, n, st, fr, X):
        return self.ev(n.value, st, fr, X)

    def e_IfExp(self, n, st, fr, X):
        out = []
        for s, b in self.cond(n.test, st, fr, X):
            out.extend(self.ev(n.body if b else n.orelse, s, fr, X))
        return out

    def e_BoolOp(self, n, st, fr, X):
        isand = isinstance(n.op, ast.And)
        cur = [st]
        out = []
        for i, e in enumerate(n.values):
            last = i == len(n.values) - 1
            nx = []
            for c in cur:
                for s, v in self.ev(e, c, fr, X):
                    if last:
                        out.append((s, v))
                    else:
                        for s2, b in self.truth(v, s, fr, e):
                            if b == isand:
                                nx.append(s2)
                            else:
                                out.append((s2, FALSE if isand and v.op == "cond" else TRUE if v.op == "cond" else v))
            cur = nx
        return out

    def e_UnaryOp(self, n, st, fr, X):
        if isinstance(n.op, ast.Not):
            return [(s, FALSE if b else TRUE) for s, b in self.cond(n.operand, st, fr, X)]
        out = []
        for s, v in self.ev(n.operand, st, fr, X):
            v = self.num(v)
            if isinstance(n.op, ast.USub):
                out.append((s, const(-cval(v)) if is_const(v) else scale(v, -1)))
            elif isinstance(n.op, ast.Invert):
                out.append((s, const(~cval(v)) if is_const(v) else lin_add(scale(v, -1), const(-1))))
            else:
                out.append((s, v))
        return out

    def num(self, v):
        return v

    def e_BinOp(self, n, st, fr, X):
        out = []
        for s, a in self.ev(n.left, st, fr, X):
            for s2, b in self.ev(n.right, s, fr, X):
                out.extend(self.binop(n.op, a, b, s2, fr, X, n))
        return out

    def val(self, v, st):
        """payload of a container object, else the value"""
        if v.op == "ref":
            o = st.get(v.args[0])
            if o.p is not None:
                return o.p
        return v

    def binop(self, op, a, b, st, fr, X, n):
        if isinstance(op, ast.Mod) and (ty(a) in ("str", "bytes")):
            return [(st, self.X.percent(self, a, b, st))]
        la = a.op == "ref" and extname(st.get(a.args[0]).cls) == "builtins.list"
        ba = a.op == "ref" and extname(st.get(a.args[0]).cls) == "builtins.bytearray"
        a, b = self.val(a, st), self.val(b, st)
        k = type(op).__name__
        if a is NONE or b is NONE:
            X.append((st, self.mkexc(st, "builtins.TypeError", n, fr)))
            return []
        if k == "Add":
            if (ty(a) == "str" and ty(b) in ("bytes", "bytearray", "int", "NoneType")) or (ty(b) == "str" and ty(a) in ("bytes", "bytearray", "int", "NoneType")):
                X.append((st, self.mkexc(st, "builtins.TypeError", n, fr)))
                return []
            r = add(a, b) if not (la or a.op in ("tuple", "seq")) else concat(a, b)
            if la:
                r = st.new(ext("builtins.list"), p=r)
            elif ba:
                r = st.new(ext("builtins.bytearray"), p=r)
        elif k == "Sub":
            r = sub(a, b)
        elif k == "Mult":
            r = mul(a, b)
            if la or a.op in ("tuple", "seq") and is_const(b):
                if is_const(b) and isinstance(cval(b), int) and len(a.args) * max(cval(b), 0) <= 4096:
                    r = T(a.op, *(a.args * max(cval(b), 0)))
                else:
                    r = T("rep", a, b)
                if la:
                    r = st.new(ext("builtins.list"), p=r)
        elif k == "FloorDiv":
            r = fdiv(a, b)
        elif k == "Mod":
            r = mod(a, b)
        elif k == "BitAnd":
            r = self.bool_bit("and_", a, b) or band(a, b)
        elif k == "BitOr":
            r = self.bool_bit("or_", a, b) or bor(a, b)
        elif k == "BitXor":
            r = bxor(a, b)
        elif k == "LShift":
            r = shl(a, b)
        elif k == "RShift":
            r = shr(a, b)
        elif k == "Div":
            if is_const(a) and is_const(b) and cval(b):
                r = const(cval(a) / cval(b))
            else:
                r = T("div", a, b)
        elif k == "Pow":
            r = const(cval(a) ** cval(b)) if is_const(a) and is_const(b) and abs(cval(b)) < 200 else T("pow", a, b)
        else:
            r = T(k, a, b)
        return [(st, r)]

    def bool_bit(self, op, a, b):
        if ty(a) == "bool" and ty(b) == "bool" and not (is_const(a) and is_const(b)):
            ca, cb = self.as_cond(a), self.as_cond(b)
            if op == "and_":
                if FALSE in (ca, cb):
                    return FALSE
                if ca is TRUE:
                    return b
                if cb is TRUE:
                    return a
            else:
                if TRUE in (ca, cb):
                    return TRUE
                if ca is FALSE:
                    return b
                if cb is FALSE:
                    return a
            return cond_val(T(op, ca, cb))
        return None

    def e_Compare(self, n, st, fr, X):
        if len(n.ops) == 1:
            out = []
            for s, a in self.ev(n.left, st, fr, X):
                for s2, b in self.ev(n.comparators[0], s, fr, X):
                    for s3, c in self.compare(n.ops[0], a, b, s2, fr, X, n):
                        r = s3.facts.ask(c)
                        out.append((s3, TRUE if r is True else FALSE if r is False else cond_val(c)))
            return out
        out = []
        cur = [(s, v) for s, v in self.ev(n.left, st, fr, X)]
        for i, (op, e) in enumerate(zip(n.ops, n.comparators)):
            nx = []
            for s, a in cur:
                for s2, b in self.ev(e, s, fr, X):
                    for s3, c in self.compare(op, a, b, s2, fr, X, n):
                        if i == len(n.ops) - 1:
                            out.append((s3, cond_val(c)))
                        else:
                            for s4, r in self.split(c, s3, fr, n):
                                if r:
                                    nx.append((s4, b))
                                else:
                                    out.append((s4, FALSE))
            cur = nx
        return out

    def compare(self, op, a, b, st, fr, X, n):
        k = type(op).__name__
        if k in ("Is", "IsNot"):
            if a is NONE or b is NONE:
                c = c_isnone(b if a is NONE else a)
            elif a is b:
                c = TRUE
            elif a.op in ("ref", "cls", "func", "ext", "const") and b.op in ("ref", "cls", "func", "ext", "const"):
                c = FALSE
            elif a in (TRUE, FALSE) or b in (TRUE, FALSE):
                x, y = (a, b) if b in (TRUE, FALSE) else (b, a)
                c = self.as_cond(x) if ty(x) == "bool" else T("is", x, y)
                if ty(x) == "bool" and y is FALSE:
                    c = c_not(c)
            else:
                c = T("is", *sorted((a, b), key=lambda t: t.id))
            return [(st, c if k == "Is" else c_not(c))]
        if k in ("In", "NotIn"):
            return [(s, c if k == "In" else c_not(c)) for s, c in self.contains(b, a, st, fr, X, n)]
        if a.op == "ref" and b.op == "ref" and a is not b:
            oa, ob = st.get(a.args[0]), st.get(b.args[0])
            if oa.p is None and ob.p is None and not oa.tag and not ob.tag and k in ("Eq", "NotEq"):
                return [(st, FALSE if k == "Eq" else TRUE)]
        a, b = self.val(a, st), self.val(b, st)
        if a.op == "as":
            a = a.args[0]
        if k == "Eq":
            c = self.eq(a, b)
        elif k == "NotEq":
            c = c_not(self.eq(a, b))
        else:
            if a.op == "cond" and is_const(b):
                c = c_not(a.args[0]) if (k, cval(b)) in (("LtE", 0), ("Lt", 1)) else \
                    a.args[0] if (k, cval(b)) in (("Gt", 0), ("GtE", 1)) else T("cmp", const(k), a, b)
            elif k == "Lt":
                c = c_lt(a, b)
            elif k == "LtE":
                c = c_le(a, b)
            elif k == "Gt":
                c = c_lt(b, a)
            else:
                c = c_le(b, a)
        return [(st, c)]

    def eq(self, a, b):
        if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
            return self.c_and([self.eq(x, y) for x, y in zip(a.args, b.args)])
        return c_eq(a, b)

    def c_and(self, cs):
        cs = [c for c in cs if c is not TRUE]
        if FALSE in cs:
            return FALSE
        if not cs:
            return TRUE
        return cs[0] if len(cs) == 1 else T("and_", *cs)

    def c_or(self, cs):
        cs = [c for c in cs if c is not FALSE]
        if TRUE in cs:
            return TRUE
        if not cs:
            return FALSE
        return cs[0] if len(cs) == 1 else T("or_", *cs)

    def contains(self, b, a, st, fr, X, n):
        if b.op == "ref":
            o = st.get(b.args[0])
            m = self.cls_lookup(o.cls, "__contains__") if o.cls.op == "cls" else None
            if m is not None and m.op == "func":
                return [(s, self.as_cond(v)) for s, v in self.call(T("bound", m, b), [a], {}, st, fr, X, n)]
            if o.p is not None:
                if o.p.op in ("dict", "store", "ddel"):
                    return [(st, self.dict_has(o.p, a))]
                b = o.p
            elif o.tag:
                mdl = self.opts.models.get(".__contains__")
                if mdl is not None:
                    return [(s, self.as_cond(v, s)) for s, v in mdl(self, st, [b, a], {}, fr, X, n)]
                return [(st, T("in", a, b))]
        if b.op in ("tuple", "seq"):
            return [(st, self.c_or([self.eq(self.val(a, st), self.val(x, st)) for x in b.args]))]
        if b.op in ("setof", "setsub", "setor", "setand"):
            r = self.set_elems(b)
            if r is not None:
                return [(st, self.c_or([self.eq(a, x) for x in r]))]
        if b.op == "range" and b.args[2] is const(1):
            return [(st, self.c_and([c_le(b.args[0], a), c_lt(a, b.args[1])]))]
        if is_const(a) and is_const(b):
            try:
                return [(st, TRUE if cval(a) in cval(b) else FALSE)]
            except TypeError:
                pass
        if b.op == "keysof":
            b = b.args[0]
        return [(st, T("in", a, b))]

    def dict_has(self, p, k):
        while p.op == "store":
            e = self.eq(p.args[1], k)
            if e is TRUE:
                return TRUE
            if e is not FALSE:
                return self.c_or([e, self.dict_has(p.args[0], k)])
            p = p.args[0]
        if p.op == "dict":
            return FALSE
        return T("in", k, p)

    def as_cond(self, v, st=None):
        """truthiness of a value as a condition"""
        op = v.op
        if op == "const":
            return TRUE if cval(v) else FALSE
        if op == "cond":
            return v.args[0]
        if op == "ref":
            if st is None:
                return TRUE
            o = st.get(v.args[0])
            if o.p is not None:
                if o.p.op in ("dict",):
                    return FALSE
                if o.p.op == "store":
                    return TRUE
                if ty(o.p) == "set":
                    return self.as_cond(o.p)
                return c_not(c_eq0(length(o.p)))
            if "#truth" in o.f:
                return o.f["#truth"]
            if o.tag and o.cls.op != "cls":
                return T("truth", v)
            return TRUE
        if op in ("func", "bound", "cls", "ext", "mod", "model", "partial", "bmeth"):
            return TRUE
        t = ty(v)
        if t == "set" and self.set_elems(v) is not None:
            return TRUE if self.set_elems(v) else FALSE
        if t == "int":
            return c_truth_int(v)
        if t == "bool":
            return T("truth", v)
        if t in ("str", "bytes", "list", "tuple", "bytearray", "buf", "memoryview"):
            return c_not(c_eq0(length(v)))
        if t == "NoneType":
            return FALSE
        if op in ("attr",):
            return T("truth", v)
        return T("truth", v)

    def truth(self, v, st, fr, node):
        """[(state, bool)]"""
        if v.op == "ref":
            o = st.get(v.args[0])
            if o.cls.op == "cls":
                for nm in ("__bool__", "__len__"):
                    m = self.cls_lookup(o.cls, nm)
                    if m is not None and m.op == "func":
                        X = []
                        out = []
                        for s, r in self.call(T("bound", m, v), [], {}, st, fr, X, node):
                            out.extend(self.truth(r, s, fr, node))
                        return out
        return self.split(self.as_cond(v, st), st, fr, node)

    def cond(self, n, st, fr, X):
        """evaluate n for its truth; [(state, bool)]"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            cur = [st]
            out = []
            for i, e in enumerate(n.values):
                nx = []
                for c in cur:
                    for s, b in self.cond(e, c, fr, X):
                        if b == isand and i < len(n.values) - 1:
                            nx.append(s)
                        else:
                            out.append((s, b))
                cur = nx
            return out
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, not b) for s, b in self.cond(n.operand, st, fr, X)]
        out = []
        for s, v in self.ev(n, st, fr, X):
            out.extend(self.truth(v, s, fr, n))
        return out

    def split(self, c, st, fr, node):
        if c is TRUE:
            return [(st, True)]
        if c is FALSE:
            return [(st, False)]
        if c.op == "not":
            return [(s, not b) for s, b in self.split(c.args[0], st, fr, node)]
        if c.op in ("and_", "or_"):
            isand = c.op == "and_"
            out = []
            cur = [st]
            for x in c.args:
                nx = []
                for s in cur:
                    for s2, b in self.split(x, s, fr, node):
                        if b == isand:
                            nx.append(s2)
                        else:
                            out.append((s2, b))
                cur = nx
            return out + [(s, isand) for s in cur]
        r = st.facts.ask(c)
        if r is not None:
            st.emit(Ev("assume", "known", (c, TRUE if r else FALSE), loc=self.loc(node, fr)))
            return [(st, r)]
        out = []
        a, b = st.fork(), st
        if a.facts.assume(c, True):
            a.emit(Ev("assume", "branch", (c, TRUE), loc=self.loc(node, fr)))
            out.append((a, True))
        if b.facts.assume(c, False):
            b.emit(Ev("assume", "branch", (c, FALSE), loc=self.loc(node, fr)))
            out.append((b, False))
        self.nstates += 1
        return out

    # ---------------------------------------------------------------- subscripts
    def ev_slice(self, n, st, fr, X):
        if isinstance(n, ast.Slice):
            parts = [n.lower, n.upper, n.step]
            cur = [(st, [])]
            for p in parts:
                nx = []
                for s, vs in cur:
                    if p is None:
                        nx.append((s, vs + [NONE]))
                    else:
                        for s2, v in self.ev(p, s, fr, X):
                            nx.append((s2, vs + [v]))
                cur = nx
            return [(s, T("sl", *vs)) for s, vs in cur]
        return self.ev(n, st, fr, X)

    def e_Subscript(self, n, st, fr, X):
        out = []
        for s, b in self.ev(n.value, st, fr, X):
            for s2, i in self.ev_slice(n.slice, s, fr, X):
                out.extend(self.getitem(b, i, s2, fr, X, n))
        return out

    def getitem(self, b, i, st, fr, X, n):
        islist = False
        if b.op == "ref":
            o = st.get(b.args[0])
            m = self.cls_lookup(o.cls, "__getitem__") if o.cls.op == "cls" else None
            if m is not None and m.op == "func":
                return self.call(T("bound", m, b), [i], {}, st, fr, X, n)
            if o.p is not None:
                if o.p.op in ("dict", "store", "ddel") or extname(o.cls) == "builtins.dict":
                    return self.dict_get(o.p, i, st, fr, X, n)
                islist = extname(o.cls) == "builtins.list" or "builtins.list" in self.ext_bases(o.cls)
                b = o.p
            elif extname(o.cls) == "mmap.mmap":
                b = T("as", b, "buf")
            elif o.tag and o.cls.op == "ext" and "." + "__getitem__" in self.opts.models:
                return self.opts.models[".__getitem__"](self, st, [b, i], {}, fr, X, n)
            elif o.tag is None and o.cls.op == "ext" and o.cls.args[0] == "#sha":
                pass
        elif b.op in ("dict", "store", "ddel"):
            return self.dict_get(b, i, st, fr, X, n)
        if b.op in ("cls", "ext"):
            return [(st, b)]      # typing subscripts
        if i.op == "sl":
            if i.args[2] is not NONE and i.args[2] is not const(1):
                return [(st, T("stepslice", b, *i.args))]
            r = slice_(b, i.args[0] if i.args[0] is not NONE else ZERO, i.args[1])
            if islist:
                r = st.new(ext("builtins.list"), p=T("seq", *r.args) if r.op in ("tuple", "seq") else r)
            return [(st, r)]
        if b.op == "rep" and is_const(b.args[0]):
            return [(st, index(b.args[0], ZERO))]
        if b.op == "lstore" and b.args[1] is i:
            return [(st, b.args[2])]
        if b.op in ("tuple", "seq") and is_const(i) and isinstance(cval(i), int) and not -len(b.args) <= cval(i) < len(b.args):
            X.append((st, self.mkexc(st, "builtins.IndexError", n, fr)))
            return []
        if b.op in ("map", "zip", "enum", "range", "sorted"):
            return [(st, self.elem_at(b, i))]
        if self.opts.implicit_index and ty(b) in BYTESY:
            s2 = st.fork()
            X.append((s2, self.mkexc(s2, "builtins.IndexError", n, fr)))
        return [(st, index(b, i))]

    def dict_get(self, p, k, st, fr, X, n, default=None):
        """[(state, value)], KeyError into X"""
        out = []
        cur = [st]
        while p.op in ("store", "ddel"):
            e = self.eq(p.args[1], k)
            nx = []
            for s in cur:
                for s2, b in self.split(e, s, fr, n):
                    if b:
                        if p.op == "store":
                            out.append((s2, p.args[2]))
                        else:
                            self.keyerr(s2, k, fr, X, n, default, out)
                    else:
                        nx.append(s2)
            cur = nx
            if not cur:
                return out
            p = p.args[0]
        for s in cur:
            if p.op == "dict":
                self.keyerr(s, k, fr, X, n, default, out)
            else:
                for s2, b in self.split(T("in", k, p), s, fr, n):
                    if b:
                        out.append((s2, T("get", p, k)))
                    else:
                        self.keyerr(s2, k, fr, X, n, default, out)
        return out

    def keyerr(self, st, k, fr, X, n, default, out):
        if default is not None:
            out.append((st, default))
        else:
            X.append((st, self.mkexc(st, "builtins.KeyError", n, fr, (k,))))

    def setitem(self, b, i, v, st, fr, X, n, raw=False):
        if b.op == "ref":
            o = st.get(b.args[0])
            m = self.cls_lookup(o.cls, "__setitem__") if o.cls.op == "cls" and not raw else None
            if m is not None and m.op == "func":
                return [s for s, _ in self.call(T("bound", m, b), [i, v], {}, st, fr, X, n)]
            if o.p is not None:
                o = st.w(b.args[0])
                p = o.p
                if p.op in ("dict", "store", "ddel") or extname(o.cls) == "builtins.dict":
                    o.p = T("store", p, i, v)
                elif p.op in ("seq", "tuple") and is_const(i) and isinstance(cval(i), int) and -len(p.args) <= cval(i) < len(p.args):
                    a = list(p.args)
                    a[cval(i)] = v
                    o.p = T(p.op, *a)
                elif i.op == "sl":
                    w = self.val(v, st)
                    if p.op == "seq" and w.op in ("seq", "tuple") and all(x is NONE or is_const(x) for x in i.args) and (len(i.args) < 3 or i.args[2] is NONE):
                        a = list(p.args)
                        a[slice(*[None if x is NONE else cval(x) for x in i.args[:2]])] = w.args
                        o.p = T("seq", *a)
                    else:
                        o.p = T("slstore", p, *i.args, w)
                else:
                    o.p = T("lstore", p, i, v)
                st.emit(Ev("setitem", "setitem", (b, i, v), loc=self.loc(n, fr)))
                return [st]
        st.emit(Ev("setitem", "setitem", (b, i, v), loc=self.loc(n, fr)))
        return [st]

    # ---------------------------------------------------------------- attributes
    def e_Attribute(self, n, st, fr, X):
        out = []
        for s, b in self.ev(n.value, st, fr, X):
            out.extend(self.getattr(b, n.attr, s, fr, X, n))
        return out

    def bind(self, v, obj, cls, st, fr, X, n):
        """descriptor protocol for a class attribute v found through obj (or through cls if obj is None)"""
        if v.op == "func":
            return [(st, T("bound", v, obj) if obj is not None else v)]
        if v.op == "classmethod":
            return [(st, T("bound", v.args[0], cls))]
        if v.op == "staticmethod":
            return [(st, v.args[0])]
        if v.op == "prop":
            if obj is None:
                return [(st, v)]
            return self.call(v.args[0], [obj], {}, st, fr, X, n)
        if v.op == "cprop":
            return self.call(v.args[0], [obj], {}, st, fr, X, n)
        return [(st, v)]

    def getattr(self, b, name, st, fr, X, n):
        op = b.op
        if op == "ref":
            o = st.get(b.args[0])
            if o.cls.op == "cls":
                v = self.cls_lookup(o.cls, name)
                if v is not None and v.op in ("prop",):
                    return self.bind(v, b, o.cls, st, fr, X, n)
                if name in o.f and o.f[name].op != "deleted":
                    return [(st, o.f[name])]
                if v is not None:
                    return self.bind(v, b, o.cls, st, fr, X, n)
                if name == "__class__":
                    return [(st, o.cls)]
                if name == "__dict__":
                    return [(st, T("dictof", b))]
                exb = self.ext_bases(o.cls)
                if any(self.subclass(ext(x), ext("builtins.BaseException")) for x in exb):
                    return [(st, T("attr", b, name))]
                if o.p is not None and (not name.startswith("__") or name in ("__setitem__", "__getitem__", "__len__", "__contains__")):
                    base = "list" if "builtins.list" in exb else "tuple" if "builtins.tuple" in exb else None
                    if base and hasattr(getattr(builtins, base), name):
                        return [(st, T("bmeth", b, name))]
                if o.tag and not (name in o.f and o.f[name].op == "deleted") and not name.startswith("__"):
                    v = self.sym_field(o, b, name)
                    st.w(b.args[0]).f[name] = v
                    return [(st, v)]
                g = self.cls_lookup(o.cls, "__getattr__")
                if g is not None and g.op == "func":
                    return self.call(T("bound", g, b), [const(name)], {}, st, fr, X, n)
                X.append((st, self.mkexc(st, "builtins.AttributeError", n, fr, (const(name),))))
                return []
            if name in o.f:
                return [(st, o.f[name])]
            en = extname(o.cls) or ""
            if self.is_exc_class(o.cls):
                if name == "errno":
                    return [(st, T("attr", b, name))]
                return [(st, T("attr", b, name))]
            if en.startswith("#") and o.tag:
                if "#attrs" in o.f and name not in cval(o.f["#attrs"]):
                    X.append((st, self.mkexc(st, "builtins.AttributeError", n, fr, (const(name),))))
                    return []
                return [(st, T("bmeth", b, name))]
            m = self.X.OBJ_ATTR.get((en, name))
            if m:
                return m(self, b, st, fr, X, n)
            return [(st, T("bmeth", b, name))]
        if op == "cls":
            v = self.cls_lookup(b, name)
            if v is not None:
                return self.bind(v, None, b, st, fr, X, n)
            if name in ("__name__", "__qualname__"):
                return [(st, const(self.ci(b).name))]
            for x in self.mro(b):
                if x.op == "ext":
                    return [(st, ext(x.args[0] + "." + name))]
            X.append((st, self.mkexc(st, "builtins.AttributeError", n, fr, (const(name),))))
            return []
        if op == "mod":
            m = self.mods[b.args[0]]
            v = m.ns.get(name)
            if v is None and b.args[0] + "." + name in self.mods:
                v = T("mod", b.args[0] + "." + name)
            if v is None:
                X.append((st, self.mkexc(st, "builtins.AttributeError", n, fr, (const(name),))))
                return []
            return [(st, v)]
        if op == "ext":
            v = self.ext_attr(b.args[0], name)
            if v.op == "missing":
                X.append((st, self.mkexc(st, "builtins.AttributeError", n, fr, (const(name),))))
                return []
            return [(st, v)]
        if op == "super":
            c, obj = b.args
            start = st.get(obj.args[0]).cls if obj.op == "ref" else obj
            v = self.cls_lookup_after(start, c, name)
            if v is not None:
                if obj.op == "ref":
                    return self.bind(v, obj, start, st, fr, X, n)
                if v.op == "classmethod":
                    return [(st, T("bound", v.args[0], obj))]
                return [(st, v.args[0] if v.op == "staticmethod" else v)]
            exb = [x for x in self.ext_bases(start) if x != "builtins.object"] or ["builtins.object"]
            if name == "__new__":
                return [(st, ext(exb[0] + ".__new__"))]
            return [(st, T("partial", ext(exb[0] + "." + name), tup(obj), T("dict")))]
        if op in ("func", "bound") and name in ("__name__", "__qualname__"):
            return [(st, const(self.fi(b if op == "func" else b.args[0]).qual.split(".")[-1]))]
        if op == "bound" and name == "__self__":
            return [(st, b.args[1])]
        if op == "bound" and name == "__func__":
            return [(st, b.args[0])]
        if op == "prop" and name in ("setter", "getter", "deleter"):
            return [(st, T("propset", b, name))]
        if b is NONE and not hasattr(None, name):
            X.append((st, self.mkexc(st, "builtins.AttributeError", n, fr, (const(name),))))
            return []
        if name == "nbytes" and ty(b) in ("bytes", "buf", "memoryview"):
            return [(st, length(b))]
        if op == "const" or ty(b) in ("str", "bytes", "int", "bytearray", "list", "dict", "set", "buf", "memoryview", "tuple") or op in ("tuple", "seq"):
            return [(st, T("bmeth", b, name))]
        if op == "model":
            return [(st, T("attr", b, name))]
        t = self.opts.opaque_types.get(name)
        if t:
            return [(st, T("as", T("attr", b, name), t))]
        return [(st, T("attr", b, name))]

    def sym_field(self, o, b, name):
        return sym("%s.%s" % (o.tag, name), self.opts.opaque_types.get(name))

    def setattr(self, b, name, v, st, fr, X, n):
        if b.op == "ref":
            o = st.get(b.args[0])
            if o.cls.op == "cls":
                d = self.cls_lookup(o.cls, name)
                if d is not None and d.op == "prop":
                    if len(d.args) > 1 and d.args[1] is not NONE:
                        return [s for s, _ in self.call(d.args[1], [b, v], {}, st, fr, X, n)]
                    X.append((st, self.mkexc(st, "builtins.AttributeError", n, fr)))
                    return []
            st.w(b.args[0]).f[name] = v
            st.emit(Ev("setattr", name, (b, v), loc=self.loc(n, fr)))
            return [st]
        if b.op == "cls":
            st.emit(Ev("setattr", name, (b, v), loc=self.loc(n, fr)))
            return [st]
        st.emit(Ev("setattr", name, (b, v), loc=self.loc(n, fr)))
        return [st]

    # ---------------------------------------------------------------- comprehension
    def e_ListComp(self, n, st, fr, X):
        return [(s, s.new(ext("builtins.list"), p=T("seq", *v.args) if v.op == "tuple" else v))
                for s, v in self.comp(n, n.elt, st, fr, X)]

    def e_GeneratorExp(self, n, st, fr, X):
        return self.comp(n, n.elt, st, fr, X)

    def e_SetComp(self, n, st, fr, X):
        return [(s, T("setof", v)) for s, v in self.comp(n, n.elt, st, fr, X)]

    def e_DictComp(self, n, st, fr, X):
        out = []
        for s, v in self.comp(n, ast.Tuple([n.key, n.value], ast.Load()), st, fr, X):
            p = T("dict")
            if v.op == "tuple":
                for kv in v.args:
                    p = T("store", p, kv.args[0], kv.args[1])
            else:
                p = T("dictfrom", v)
            out.append((s, s.new(ext("builtins.dict"), p=p)))
        return out

    def comp(self, n, elt, st, fr, X):
        out = []
        foid = st.new(ext("#frame"), {}).args[0]
        f2 = Fr(Func(None, fr.mod, fr.func.qual, fr if fr.oid is not None else None, fr.func.cls), foid, fr.mod,
                fr.depth, fr.stack, fr.hook)
        if fr.oid is None and fr.clsns is not None:
            f2.clsns = None
        g = n.generators[0]
        for s, src in self.ev(g.iter, st, fr, X):
            items = self.iterable(src, s)
            if items.op == "ref" and extname(s.get(items.args[0]).cls) == "#iter":
                items = s.get(items.args[0]).p
            seq = self.const_items(items)
            if len(n.generators) == 1 and seq is not None:
                cur = [(s, [])]
                for v in seq:
                    nx = []
                    for c, acc in cur:
                        for c2 in self.assign(g.target, v, c, f2, X):
                            conds = [(c2, True)]
                            for i in g.ifs:
                                conds = [(s3, b3) for s2, b2 in conds if b2 for s3, b3 in self.cond(i, s2, f2, X)] + \
                                        [(s2, b2) for s2, b2 in conds if not b2]
                            for c3, b in conds:
                                if b:
                                    nx.extend((c4, acc + [ev]) for c4, ev in self.ev(elt, c3, f2, X))
                                else:
                                    nx.append((c3, acc))
                    cur = nx
                out.extend((c, T("tuple", *acc)) for c, acc in cur)
                continue
            if len(n.generators) > 1:
                self.note("nested comprehension", n, fr)
                out.append((s, self.fresh(s, "comp")))
                continue
            # one symbolic element
            s.ctr += 1
            ix = T("sym", "ix%d" % s.ctr, "int", None)
            if items.op == "ref":
                o = s.get(items.args[0])
                src_t = T("genof", o.f["fn"], o.f["args"])
            else:
                src_t = items
            el0 = self.elem_at(src_t, ix)
            base_ctr = s.ctr
            var = T("sym", "el%d" % base_ctr, ty(el0), pm(el0))
            structured = el0.op not in ("elem", "idx")
            bindv = el0 if structured else var
            XX = []
            res = []
            for c2 in self.assign(g.target, bindv, s, f2, XX):
                conds = [(c2, True)]
                filt = TRUE
                for i in g.ifs:
                    vals = self.ev(i, c2, f2, XX)
                    filt = self.as_cond(vals[0][1], c2) if len(vals) == 1 and filt is TRUE else T("opaquefilter", base_ctr)
                    if vals:
                        c2 = vals[0][0]
                vals = self.ev(elt, c2, f2, XX)
                for c3, v in vals:
                    res.append((c3, T("map", src_t, v, filt, var, ix)))
            X.extend(XX)
            if len(res) > 1:
                res = res[:1] if all(v is res[0][1] for _, v in res) else [(res[0][0], T("map", src_t, T("cases", *[v.args[1] for _, v in res]), TRUE, var, ix))]
            out.extend(res)
        return out

    def e_Yield(self, n, st, fr, X):
        out = []
        vs = [(st, NONE)] if n.value is None else self.ev(n.value, st, fr, X)
        for s, v in vs:
            s.emit(Ev("yield", "yield", (v,), loc=self.loc(n, fr)))
            h = fr.hook
            if h is None:
                out.append((s, NONE))
                continue
            for k, s2, r in h(s, v):
                if k == "next":
                    out.append((s2, r))
                else:
                    X.append((s2, r))
        return out

    def e_YieldFrom(self, n, st, fr, X):
        f = ast.For(ast.Name("#yf", ast.Store()), n.value, [ast.Expr(ast.Yield(ast.Name("#yf", ast.Load())))], [])
        ast.copy_location(f, n)
        for x in ast.walk(f):
            if not hasattr(x, "lineno"):
                x.lineno, x.col_offset = n.lineno, 0
        out = []
        for k, s, v in self.s_For(f, st, fr):
            if k == "next":
                out.append((s, NONE))
            elif k == "exc":
                X.append((s, v))
        return out

    # ================================================================ calls
    def e_Call(self, n, st, fr, X):
        out = []
        for s, f in self.ev(n.func, st, fr, X):
            for s2, args in self.evs(n.args, s, fr, X):
                cur = [(s2, {})]
                for k in n.keywords:
                    nx = []
                    for s3, kw in cur:
                        for s4, v in self.ev(k.value, s3, fr, X):
                            if k.arg is None:
                                d = self.val(v, s4)
                                kw2 = dict(kw)
                                while d.op == "store" and is_const(d.args[1]):
                                    kw2.setdefault(cval(d.args[1]), d.args[2])
                                    d = d.args[0]
                                nx.append((s4, kw2))
                            else:
                                nx.append((s4, dict(kw, **{k.arg: v})))
                    cur = nx
                for s5, kw in cur:
                    if f.op == "ext" and f.args[0] == "builtins.super" and not args:
                        fo = fr
                        while fo.func.cls is None and fo.func.closure is not None:
                            fo = fo.func.closure
                        first = fo.func.node.args.args[0].arg
                        out.append((s5, T("super", fo.func.cls, s5.get(fo.oid).f[first])))
                        continue
                    if f.op == "ext" and f.args[0] == "builtins.globals":
                        out.append((s5, T("globals", fr.mod.name)))
                        continue
                    if f.op == "ext" and f.args[0] == "builtins.locals":
                        out.append((s5, T("locals")))
                        continue
                    out.extend(self.call(f, args, kw, s5, fr, X, n))
        return out

    def call(self, f, args, kw, st, fr, X, n):
        op = f.op
        if op == "func":
            return self.call_func(f, args, kw, st, fr, X, n)
        if op == "bound":
            return self.call(f.args[0], [f.args[1]] + list(args), kw, st, fr, X, n)
        if op in ("staticmethod",):
            return self.call(f.args[0], args, kw, st, fr, X, n)
        if op == "partial":
            k2 = {}
            d = f.args[2]
            while d.op == "store":
                k2.setdefault(cval(d.args[1]), d.args[2])
                d = d.args[0]
            k2.update(kw)
            return self.call(f.args[0], list(f.args[1].args) + list(args), k2, st, fr, X, n)
        if op == "cls":
            return self.instantiate(f, args, kw, st, fr, X, n)
        if op == "model":
            return self.opts.models[f.args[0]](self, st, args, kw, fr, X, n)
        if op == "ext":
            return self.call_ext(f.args[0], args, kw, st, fr, X, n)
        if op == "bmeth":
            return self.X.method(self, f.args[0], f.args[1], args, kw, st, fr, X, n)
        if op == "propset":
            p = f.args[0]
            return [(st, T("prop", p.args[0], args[0]) if f.args[1] == "setter" else p)]
        if op == "ctxfactory":
            return [(st, st.new(ext("#ctxgen"), {"fn": f.args[0], "args": tup(*args), "kw": T("kw", *kw.items())}))]
        if op == "ref":
            o = st.get(f.args[0])
            m = self.cls_lookup(o.cls, "__call__") if o.cls.op == "cls" else None
            if m is not None and m.op == "func":
                return self.call(T("bound", m, f), args, kw, st, fr, X, n)
        if op == "attr":
            return self.opaque_method(f.args[0], f.args[1], args, kw, st, fr, X, n)
        return self.effect("call:" + show(f), [f] + list(args), kw, st, fr, X, n)

    def opaque_method(self, recv, name, args, kw, st, fr, X, n):
        mdl = self.opts.models.get("." + name)
        if mdl:
            return mdl(self, st, [recv] + list(args), kw, fr, X, n)
        if name in self.opts.pure:
            r = T("mcall", recv, name, tup(*args))
            if self.opts.raises("." + name):
                self.may_raise("." + name, [recv] + list(args), kw, st, fr, X, n)
            return [(st, r)]
        return self.effect("." + name, [recv] + list(args), kw, st, fr, X, n)

    def may_raise(self, label, args, kw, st, fr, X, n):
        r = self.opts.raises(label)
        once = self.opts.once
        if r and once is not None and st.get(once.args[0]).f.get("#fault") is TRUE:
            return
        if r:
            for cls in (r if isinstance(r, (list, tuple)) else [r]):
                s2 = st.fork()
                if once is not None:
                    s2.w(once.args[0]).f["#fault"] = TRUE
                e = self.mkexc(s2, cls, n, fr)
                o = s2.w(e.args[0])
                o.f["#open"] = TRUE
                o.f["#from"] = const(label)
                s2.emit(Ev("call", label, tuple(args), kw, None, self.loc(n, fr), "raise:" + str(cls), fr.stack))
                X.append((s2, e))

    def effect(self, label, args, kw, st, fr, X, n, rty=None, res=None):
        self.may_raise(label, args, kw, st, fr, X, n)
        if res is None:
            res = self.fresh(st, label, rty)
        st.emit(Ev("call", label, tuple(args), kw, res, self.loc(n, fr), "ok", fr.stack))
        return [(st, res)]

    watch = None            # told about every call to the outside, before models apply

    def call_ext(self, name, args, kw, st, fr, X, n):
        if self.watch is not None:
            self.watch(name, args, kw, st, fr, n)
        mdl = self.opts.models.get(name)
        if mdl:
            return mdl(self, st, args, kw, fr, X, n)
        h = self.exts.get(name)
        if h:
            return h(self, st, args, kw, fr, X, n)
        if name.startswith("builtins.") and self.is_exc_class(ext(name)):
            return [(st, self.mkexc(st, name, n, fr, args))]
        if name.startswith("builtins.") and name.count(".") == 2:
            _, c, m = name.split(".")
            if m == "__init__":
                if c in ("object", "tuple", "bytes", "str", "int", "float") and (len(args) > 1 or kw) and args[0].op == "ref":
                    # its arguments were consumed by __new__; an overriding __init__ must not pass them on
                    X.append((st, self.mkexc(st, "builtins.TypeError", n, fr)))
                    return []
                if args and args[0].op == "ref" and c == "list" and len(args) > 1:
                    p = self.val(args[1], st)
                    st.w(args[0].args[0]).p = T("seq", *p.args) if p.op == "tuple" else p
                return [(st, NONE)]
            if m in ("__new__",):
                return self.ext_new(c, args, kw, st, fr, X, n)
            if m == "__init_subclass__":
                return [(st, NONE)]
            if c == "object" and m == "__getattribute__":
                b, nm = args
                o = st.get(b.args[0])
                if is_const(nm) and cval(nm) in o.f and o.f[cval(nm)].op != "deleted":
                    return [(st, o.f[cval(nm)])]
                v = self.cls_lookup(o.cls, cval(nm)) if is_const(nm) else None
                if v is not None:
                    return self.bind(v, b, o.cls, st, fr, X, n)
                X.append((st, self.mkexc(st, "builtins.AttributeError", n, fr, (nm,))))
                return []
            if m == "__setitem__" and len(args) == 3:
                return [(s, NONE) for s in self.setitem(args[0], args[1], args[2], st, fr, X, n, raw=True)]
            if c == "object" and m == "__setattr__" and is_const(args[1]):
                st.w(args[0].args[0]).f[cval(args[1])] = args[2]
                return [(st, NONE)]
            if args:
                return self.X.method(self, args[0], m, args[1:], kw, st, fr, X, n)
        if name.startswith("operator."):
            return self.X.operator_call(self, name[9:], args, st, fr, X, n)
        return self.effect(name, args, kw, st, fr, X, n)

    def ext_new(self, c, args, kw, st, fr, X, n):
        cls = args[0]
        p = None
        if c in ("tuple", "list"):
            p = self.iterable(args[1], st) if len(args) > 1 else T("tuple" if c == "tuple" else "seq")
            if c == "list" and p.op == "tuple":
                p = T("seq", *p.args)
        return [(st, st.new(cls, {}, p))]

    def instantiate(self, c, args, kw, st, fr, X, n):
        mdl = self.opts.models.get(c.args[0])
        if mdl:
            if kw:
                init = self.cls_lookup(c, "__init__")
                if init is None or init.op != "func":
                    init = self.cls_lookup(c, "__new__")
                    init = init.args[0] if init is not None and init.op == "staticmethod" else init
                if init is not None and init.op == "func":
                    args, kw = positional(self.fi(init), args, kw, 1)
            return mdl(self, st, args, kw, fr, X, n)
        new = self.cls_lookup(c, "__new__")
        if new is not None and new.op in ("func", "staticmethod"):
            f = new if new.op == "func" else new.args[0]
            objs = self.call(f, [c] + list(args), kw, st, fr, X, n)
        else:
            p = None
            exb = self.ext_bases(c)
            if "builtins.list" in exb:
                p = T("seq")
                if args and self.cls_lookup(c, "__init__") is None:
                    p = self.iterable(args[0], st)
            elif "builtins.tuple" in exb:
                p = self.iterable(args[0], st) if args else T("tuple")
            elif "builtins.dict" in exb:
                p = T("dict")
            f = {}
            if self.is_exc_class(c):
                f = {"args": tup(*args), "#loc": T("pyloc", self.loc(n, fr))}
            objs = [(st, st.new(c, f, p))]
        init = self.cls_lookup(c, "__init__")
        if init is None or init.op != "func":
            return objs
        out = []
        for s, o in objs:
            if o.op != "ref":
                out.append((s, o))
                continue
            for s2, _ in self.call(T("bound", init, o), args, kw, s, fr, X, n):
                out.append((s2, o))
        return out

    def call_func(self, f, args, kw, st, fr, X, n):
        fi = self.fi(f)
        mdl = self.opts.models.get(fi.qual)
        if mdl:
            if kw:
                args, kw = positional(fi, args, kw)
            r = mdl(self, st, args, kw, fr, X, n)
            if r is not None:
                return r
        if fi.is_gen:
            return [(st, st.new(ext("#gen"), {"fn": f, "args": tup(*args), "kw": T("kw", *kw.items())}))]
        out = []
        for k, s, v in self.exec_func(f, args, kw, st, fr, n, None):
            if k == "ret":
                out.append((s, v))
            else:
                X.append((s, v))
        return out

    def exec_func(self, f, args, kw, st, fr, n, hook):
        if f.op == "bound":
            args = [f.args[1]] + list(args)
            f = f.args[0]
        fi = self.fi(f)
        cnt = sum(1 for q, _ in fr.stack if q == fi.qual)
        if cnt > self.opts.recursion or fr.depth > 60:
            hm = self.opts.models.get("#rec:" + fi.qual)
            if hm and kw:
                args, kw = positional(fi, args, kw)
            X = []
            r = hm(self, st, args, kw, fr, X, n) if hm else self.effect("rec:" + fi.qual, args, kw, st, fr, X, n)
            return [("ret", s, v) for s, v in r] + [("exc", s, e) for s, e in X]
        loc = bind_args(fi, args, kw)
        if loc is None:
            return [("exc", st, self.mkexc(st, "builtins.TypeError", n, fr))]
        vals = {}
        for k, v in loc.items():
            if isinstance(v, Term):
                vals[k] = v
            elif v[0] == "*":
                vals[k] = self.mkseq("tuple", v[1])
            else:
                p = T("dict")
                for kk, vv in v[1].items():
                    p = T("store", p, const(kk), vv)
                vals[k] = st.new(ext("builtins.dict"), p=p)
        foid = st.new(ext("#frame"), vals).args[0]
        fr2 = Fr(fi, foid, fi.mod, fr.depth + 1, fr.stack + ((fi.qual, self.loc(n, fr)),), hook)
        outs = []
        saved = st.exc
        if isinstance(fi.node, ast.Lambda):
            X = []
            r = [("ret", s, v) for s, v in self.ev(fi.node.body, st, fr2, X)]
            return r + [("exc", s, e) for s, e in X]
        for k, s, v in self.block(fi.node.body, st, fr2):
            s.exc = saved
            if k == "next":
                outs.append(("ret", s, NONE))
            elif k in ("ret", "exc"):
                outs.append((k, s, v))
        return outs


def h_get(st, oid):
    o = st.heap.get(oid)
    if o is None:
        o = st.base[oid]
    return o


def is_generator(n):
    if isinstance(n, ast.Lambda):
        return False
    todo = list(n.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
            continue
        todo.extend(ast.iter_child_nodes(x))
    return False


def positional(fi, args, kw, skip=0):
    """the same call with keyword arguments passed by position, where that is possible"""
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args][skip:]
    args, kw = list(args), dict(kw)
    last = max([i for i, nm in enumerate(names) if nm in kw and i >= len(args)], default=-1)
    if last < 0 or any(x.op == "star" for x in args):
        return args, kw
    nd = len(fi.defaults)
    more = []
    for i in range(len(args), last + 1):
        j = i - (len(names) - nd)
        if names[i] in kw:
            more.append(kw.pop(names[i]))
        elif j >= 0:
            more.append(fi.defaults[j])
        else:
            return args, dict(kw, **dict(zip(names[len(args):], more)))
    return args + more, kw


def bind_args(fi, args, kw):
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    kw = dict(kw)
    args = list(args)
    if any(x.op == "star" for x in args):
        i = next(i for i, x in enumerate(args) if x.op == "star")
        star = args[i].args[0]
        args = args[:i] + [T("elem", star, const(j)) for j in range(max(0, len(names) - i))]
    for nm, v in zip(names, args):
        out[nm] = v
    rest = args[len(names):]
    if rest and not a.vararg:
        return None
    if a.vararg:
        out[a.vararg.arg] = ("*", rest)
    for nm in list(kw):
        if nm in names and nm not in out:
            out[nm] = kw.pop(nm)
        elif nm in [k.arg for k in a.kwonlyargs]:
            out[nm] = kw.pop(nm)
        elif nm in names:
            return None
    if kw and not a.kwarg:
        return None
    if a.kwarg:
        out[a.kwarg.arg] = ("**", kw)
    nd = len(fi.defaults)
    for i, nm in enumerate(names):
        if nm not in out:
            j = i - (len(names) - nd)
            if j < 0:
                return None
            out[nm] = fi.defaults[j]
    for k in a.kwonlyargs:
        if k.arg not in out:
            d = fi.kwdefaults.get(k.arg)
            if d is None:
                return None
            out[k.arg] = d
    return out
