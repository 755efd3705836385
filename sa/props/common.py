"""Scenario construction shared by the rules."""
from ..core import *
from ..interp import T, ext


def construct(c, dotted, args, st, kw=None, **opts):
    """instances of a repository class, built by its real constructor: [(state, ref)]"""
    cls = c.anchor(dotted)
    outs = c.I.run(cls, list(args), st, kw, Opts(**opts))
    r = [(s, v) for k, s, v in outs if k == "ret"]
    if not r:
        raise Anchor(dotted + " constructor")
    for s, v in r:
        s.trace = None
    return r


def one(c, dotted, args, st, kw=None, **opts):
    return construct(c, dotted, args, st, kw, **opts)[0]


def attr(c, st, obj, name):
    """value of a public attribute: [(state, value)] (property getters are analysed)"""
    X = []
    import ast
    from ..interp import Fr, Func
    node = ast.Pass()
    node.lineno = 0
    fr = Fr(Func(None, c.I.mods["gitdb"], "<driver>"), None, c.I.mods["gitdb"], 0, ())
    tr = st.trace
    r = c.I.getattr(obj, name, st, fr, X, node)
    for s, _ in r:
        s.trace = tr
    return r


def opaque(st, name, **f):
    """an object of an unknown class: every method call on it is an effect"""
    return st.new(ext("#opaque:" + name), {}, None, name)


def find(st, cls):
    """objects of a host class in a state"""
    out = []
    seen = set()
    for h in (st.heap,):
        for oid, o in h.items():
            if oid not in seen and o.cls.op == "ext" and o.cls.args[0] == cls:
                seen.add(oid)
                out.append((T("ref", oid), o))
    return out


def fdw(g):
    """model of os.write accumulating what was transferred, per descriptor"""
    from ..extmodels import m_oswrite

    def h(I, st, args, kw, fr, X, n):
        data = I.val(args[1], st)
        out = []
        for s, k in m_oswrite(I, st, args, kw, fr, X, n):
            ghost_add(s, g, slice_(data, ZERO, k))
            out.append((s, k))
        return out
    return h


def label_in(*labels):
    return lambda l: "builtins.OSError" if l in labels else None
