"""Models of everything outside the repository: builtins, the standard library calls it uses, builtin-type methods.

A model returns [(state, value)] and appends raised exceptions to X.  Calls with an effect on the outside world
(file system, descriptors, compressor state, opaque streams) emit an event carrying the dotted name of the callee.
"""
import zlib
import ast
import builtins
import struct

from .terms import *

TABLE = {}


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def E(name):
    return T("ext", name)


def b_(n):
    return "builtins." + n


# ------------------------------------------------------------------ text

def text(I, x, st, spec=""):
    """str(x) as a term"""
    x = I.val(x, st) if x.op == "ref" and st.get(x.args[0]).p is not None else x
    if is_const(x):
        try:
            return const(format(cval(x), spec))
        except Exception:
            return const(str(cval(x)))
    if ty(x) == "str" and spec in ("", "s"):
        return x
    if ty(x) == "int" and spec in ("", "d", "i"):
        return T("dec", x)
    if spec in ("d", "i"):
        return T("dec", x)
    return T("text", x, spec) if spec else T("text", x)


def as_bytes(p):
    """the bytes of a %-argument of a bytes template"""
    if is_const(p) and isinstance(cval(p), str):
        return const(cval(p).encode("latin-1"))
    if ty(p) in ("bytes", "buf", "memoryview", "bytearray"):
        return p
    return encode(p)


def percent(I, a, b, st):
    b = I.val(b, st)
    if not is_const(a):
        return T("fmt", a, b)
    isb = isinstance(cval(a), bytes)
    tmpl = cval(a).decode("latin-1") if isb else cval(a)
    args = list(b.args) if b.op == "tuple" else [b]
    out = []
    i = 0
    lit = ""
    ai = 0
    while i < len(tmpl):
        c = tmpl[i]
        if c == "%" and i + 1 < len(tmpl):
            d = tmpl[i + 1]
            if d == "%":
                lit += "%"
                i += 2
                continue
            j = i + 1
            while j < len(tmpl) and tmpl[j] in "0123456789.-+# ":
                j += 1
            d = tmpl[j] if j < len(tmpl) else ""
            flag = tmpl[i + 1:j]
            if ai >= len(args):
                return T("fmt", a, b)
            x = args[ai]
            ai += 1
            out.append(const(lit))
            lit = ""
            if isb and d in "sb" and not flag:
                out.append(x)
            elif d == "s" and not flag:
                out.append(text(I, x, st))
            elif d in "di" and not flag:
                out.append(const(str(cval(x))) if is_const(x) else T("dec", x))
            else:
                out.append(T("text", x, flag + d))
            i = j + 1
            continue
        lit += c
        i += 1
    out.append(const(lit))
    if isb:
        return concat(const(b""), *[as_bytes(p) for p in out])
    return concat(const(""), *out)


def encode(x):
    if is_const(x):
        return const(cval(x).encode("utf-8"))
    if x.op == "concat" and x.args[0] == "str":
        return concat(const(b""), *[encode(p) for p in x.args[1:]])
    if x.op == "decode":
        return x.args[0]
    if x.op == "hexstr":
        return x.args[0]
    return T("encode", x)


def decode(x):
    if is_const(x):
        try:
            return const(cval(x).decode("utf-8"))
        except Exception:
            return T("decode", x)
    if x.op == "concat":
        return concat(const(""), *[decode(p) for p in x.args[1:]])
    if x.op == "encode":
        return x.args[0]
    if x.op == "b2a":
        return T("hexstr", x)
    return T("decode", x)


# ------------------------------------------------------------------ builtins

@model(b_("len"))
def m_len(I, st, args, kw, fr, X, n):
    v = args[0]
    if v.op == "ref":
        o = st.get(v.args[0])
        m = I.cls_lookup(o.cls, "__len__") if o.cls.op == "cls" else None
        if m is not None and m.op == "func":
            return I.call(T("bound", m, v), [], {}, st, fr, X, n)
        if extn(o) in ("#iter", "#gen"):
            X.append((st, I.mkexc(st, "builtins.TypeError", n, fr)))
            return []
        if o.p is None:
            if o.tag and o.cls.op == "ext" and ".__len__" in I.opts.models:
                return I.opts.models[".__len__"](I, st, [v], {}, fr, X, n)
            ln = o.f.get("#len")
            return [(st, ln if ln is not None else T("len", v))]
        v = o.p
    if v.op in ("dict", "store", "ddel"):
        vs = static_items(v)
        return [(st, T("len", v) if vs is None else const(len(vs)))]
    il = I.iter_len(v)
    return [(st, il if il is not None else length(v))]


def class_of(I, v, st):
    if v.op == "ref":
        return st.get(v.args[0]).cls
    if v.op == "const":
        return E("builtins." + v.args[0])
    if v.op in ("tuple",):
        return E("builtins.tuple")
    if v.op in ("func", "bound", "model"):
        return E("builtins.function")
    t = ty(v)
    if t == "buf":
        return None
    if t in ("str", "bytes", "int", "bool", "list", "dict", "tuple", "set", "bytearray", "memoryview"):
        return E("builtins." + t)
    return None


def isinst(I, v, c, st):
    if c.op == "tuple":
        return I.c_or([isinst(I, v, x, st) for x in c.args])
    k = class_of(I, v, st)
    if k is not None and not (v.op == "ref" and st.get(v.args[0]).tag and k.op != "cls"):
        r = I.subclass(k, c)
        if r is not None:
            # a symbolic instance may belong to a subclass
            if r is False and v.op == "ref" and st.get(v.args[0]).tag and I.subclass(c, k) is True:
                return T("isinst", v, c)
            return TRUE if r else FALSE
    if ty(v) == "buf" and c.op == "ext":
        if c.args[0] in ("builtins.str", "builtins.int", "builtins.tuple", "builtins.list", "builtins.dict"):
            return FALSE
    return T("isinst", v, c)


@model(b_("isinstance"))
def m_isinstance(I, st, args, kw, fr, X, n):
    return [(st, cond_val(isinst(I, args[0], args[1], st)))]


@model(b_("issubclass"))
def m_issubclass(I, st, args, kw, fr, X, n):
    r = I.subclass(args[0], args[1])
    return [(st, TRUE if r else FALSE if r is False else cond_val(T("issub", args[0], args[1])))]


@model(b_("callable"))
def m_callable(I, st, args, kw, fr, X, n):
    v = args[0]
    return [(st, TRUE if v.op in ("func", "bound", "ext", "cls", "model", "bmeth", "partial") else cond_val(T("callable", v)))]


@model(b_("hasattr"))
def m_hasattr(I, st, args, kw, fr, X, n):
    v, nm = args
    if not is_const(nm):
        return [(st, cond_val(T("hasattr", v, nm)))]
    name = cval(nm)
    if v.op == "ext":
        r = I.ext_attr(v.args[0], name)
        return [(st, FALSE if r.op == "missing" else TRUE)]
    if v.op == "ref":
        o = st.get(v.args[0])
        if o.cls.op == "cls" and not (o.tag and I.cls_lookup(o.cls, name) is None and name not in o.f):
            XX = []
            r = [(s, TRUE) for s, _ in I.getattr(v, name, st, fr, XX, n)]
            for s, e in XX:
                if I.subclass(s.get(e.args[0]).cls, E("builtins.AttributeError")):
                    r.append((s, FALSE))
                else:
                    X.append((s, e))
            return r
        if "#attrs" in o.f:
            return [(st, TRUE if name in o.f or name in cval(o.f["#attrs"]) else FALSE)]
        if o.cls.op == "ext" and o.cls.args[0] == "mmap.mmap":
            return [(st, TRUE if name in ("close", "read", "write", "seek", "flush") else FALSE)]
        if o.cls.op == "ext" and not o.tag:
            h = I.hostclass(o.cls.args[0])
            if h is not None:
                return [(st, TRUE if hasattr(h, name) else FALSE)]
            if o.cls.args[0] in ZOBJ:
                return [(st, TRUE if name in ZOBJ[o.cls.args[0]] else FALSE)]
    if v.op == "cls":
        return [(st, TRUE if I.cls_lookup(v, name) is not None else FALSE)]
    t = ty(v)
    if t and hasattr(builtins, t):
        return [(st, TRUE if hasattr(getattr(builtins, t), name) else FALSE)]
    return [(st, cond_val(T("hasattr", v, const(name))))]


ZOBJ = {"#decompress": ("decompress", "unused_data", "unconsumed_tail", "eof", "flush", "copy"),
        "#compress": ("compress", "flush", "copy")}


@model(b_("getattr"))
def m_getattr(I, st, args, kw, fr, X, n):
    v, nm = args[0], args[1]
    if not is_const(nm):
        return [(st, T("dynattr", v, nm))]
    if len(args) == 2:
        return I.getattr(v, cval(nm), st, fr, X, n)
    if v.op != "ref" and ty(v) or v.op == "ref" and st.get(v.args[0]).cls.op == "ext" and st.get(v.args[0]).cls.args[0].startswith("#opaque"):
        h = m_hasattr(I, st, [v, nm], {}, fr, X, n)
        if len(h) == 1 and h[0][1] is FALSE:
            return [(st, args[2])]
    XX = []
    out = I.getattr(v, cval(nm), st, fr, XX, n)
    for s, e in XX:
        if I.subclass(s.get(e.args[0]).cls, E("builtins.AttributeError")) is True:
            out.append((s, args[2]))
        else:
            X.append((s, e))
    return out


@model(b_("setattr"))
def m_setattr(I, st, args, kw, fr, X, n):
    if is_const(args[1]):
        return [(s, NONE) for s in I.setattr(args[0], cval(args[1]), args[2], st, fr, X, n)]
    return I.effect("builtins.setattr", args, kw, st, fr, X, n)


@model(b_("delattr"))
def m_delattr(I, st, args, kw, fr, X, n):
    if is_const(args[1]) and args[0].op == "ref":
        st.w(args[0].args[0]).f.pop(cval(args[1]), None)
        return [(st, NONE)]
    return I.effect("builtins.delattr", args, kw, st, fr, X, n)


@model(b_("int"))
def m_int(I, st, args, kw, fr, X, n):
    if not args:
        return [(st, ZERO)]
    v = I.val(args[0], st)
    if all(is_const(a) for a in args):
        try:
            return [(st, const(int(*[cval(a) for a in [v] + args[1:]])))]
        except Exception:
            X.append((st, I.mkexc(st, "builtins.ValueError", n, fr)))
            return []
    if ty(v) == "int":
        return [(st, v)]
    if v.op == "cond":
        return [(st, v)]
    if I.opts.raises("builtins.int"):
        I.may_raise("builtins.int", args, kw, st, fr, X, n)
    if v.op == "div":
        return [(st, fdiv(*v.args))]
    return [(st, T("absint", v))]


@model(b_("float"))
def m_float(I, st, args, kw, fr, X, n):
    return [(st, const(float(cval(args[0]))) if is_const(args[0]) else T("float", args[0]))]


@model(b_("str"))
def m_str(I, st, args, kw, fr, X, n):
    if not args:
        return [(st, const(""))]
    if len(args) > 1 or "encoding" in kw:
        I.may_raise("builtins.bytes.decode", args, kw, st, fr, X, n)
        return [(st, decode(I.val(args[0], st)))]
    return [(st, text(I, args[0], st))]


@model(b_("repr"), b_("ascii"), b_("hex"), b_("format"), b_("chr"), b_("bin"), b_("oct"))
def m_repr(I, st, args, kw, fr, X, n):
    if is_const(args[0]):
        try:
            name = ast.unparse(n.func) if hasattr(n, "func") else "repr"
            f = {"hex": hex, "chr": chr}.get(name, repr)
            return [(st, const(f(cval(args[0]))))]
        except Exception:
            pass
    return [(st, T("text", args[0], "r"))]


@model(b_("bytes"))
def m_bytes(I, st, args, kw, fr, X, n):
    if not args:
        return [(st, const(b""))]
    v = args[0]
    p = I.iterable(v, st) if v.op == "ref" else v
    return [(st, tobytes(I, p, st))]


def tobytes(I, p, st):
    if is_const(p) and isinstance(cval(p), (bytes, bytearray)):
        return const(bytes(cval(p)))
    if is_const(p) and isinstance(cval(p), int):
        return const(bytes(cval(p))) if 0 <= cval(p) < 100000 else T("rep", const(b"\0"), p)
    if ty(p) == "int":
        return T("rep", const(b"\0"), p)
    if p.op in ("seq", "tuple"):
        return concat(const(b""), *[byte(x) for x in p.args])
    if ty(p) in ("bytes", "bytearray"):
        return p
    if p.op == "append":
        return concat(tobytes(I, p.args[0], st), byte(p.args[1]))
    if p.op == "concat" and p.args[0] in ("list", "tuple"):
        return concat(const(b""), *[tobytes(I, x, st) for x in p.args[1:]])
    if ty(p) in ("buf", "memoryview"):
        return T("tobytes", p)
    if p.op == "mu" and p.args[2] == "list":
        return T("tobytes", p)
    return T("tobytes", p)


def byte(x):
    if is_const(x) and 0 <= cval(x) < 256:
        return const(bytes([cval(x)]))
    return T("bytes1", x)


@model(b_("bytearray"))
def m_bytearray(I, st, args, kw, fr, X, n):
    p = const(b"")
    if args:
        p = tobytes(I, I.iterable(args[0], st) if args[0].op == "ref" else args[0], st)
    return [(st, st.new(E("builtins.bytearray"), p=p))]


@model(b_("memoryview"))
def m_memoryview(I, st, args, kw, fr, X, n):
    v = I.val(args[0], st)
    return [(st, v)]


@model(b_("bool"))
def m_bool(I, st, args, kw, fr, X, n):
    if not args:
        return [(st, FALSE)]
    v = args[0]
    if ty(v) == "bool":
        return [(st, v)]
    return [(s, TRUE if b else FALSE) for s, b in I.truth(v, st, fr, n)]


@model(b_("list"))
def m_list(I, st, args, kw, fr, X, n):
    p = T("seq")
    if args:
        p = I.iterable(args[0], st)
        if p.op == "ref":
            o = st.get(p.args[0])
            if extn(o) == "#iter":
                p = o.p
                st.w(args[0].args[0]).p = T("seq")
            elif extn(o) == "#gen":
                return list_of_gen(I, p, st, fr, X, n, "list")
        p = aslist(I, p)
    return [(st, st.new(E("builtins.list"), p=p))]


def extn(o):
    return o.cls.args[0] if o.cls.op == "ext" else None


def list_of_gen(I, g, st, fr, X, n, kind):
    """list(generator): analyse the generator body, collecting what it yields"""
    acc = st.new(E("builtins.list"), p=T("seq"))
    loop = ast.parse("for #x in #g: #acc.append(#x)".replace("#", "zz_")).body[0]
    for x in ast.walk(loop):
        if hasattr(x, "lineno") or isinstance(x, (ast.stmt, ast.expr)):
            x.lineno, x.col_offset = getattr(n, "lineno", 0), 0
    from .interp import Fr, Func
    f = Fr(Func(None, fr.mod, fr.func.qual, None, None), st.new(E("#frame"), {"zz_g": g, "zz_acc": acc}).args[0], fr.mod,
           fr.depth, fr.stack, None)
    out = []
    for k, s, v in I.s_For(loop, st, f):
        if k == "exc":
            X.append((s, v))
        else:
            if kind == "tuple":
                out.append((s, T("tuple", *s.get(acc.args[0]).p.args) if s.get(acc.args[0]).p.op == "seq" else s.get(acc.args[0]).p))
            else:
                out.append((s, acc))
    return out


def aslist(I, p):
    if p.op == "tuple":
        return T("seq", *p.args)
    if p.op == "seq" or p.op == "concat":
        return p
    seq = I.const_items(p)
    if seq is not None and p.op not in ("rep",):
        return T("seq", *seq)
    return p if ty(p) == "list" else T("listof", p)


@model(b_("tuple"))
def m_tuple(I, st, args, kw, fr, X, n):
    if not args:
        return [(st, T("tuple"))]
    p = I.iterable(args[0], st)
    if p.op == "ref":
        o = st.get(p.args[0])
        if extn(o) == "#iter":
            p = o.p
        elif extn(o) == "#gen":
            return list_of_gen(I, p, st, fr, X, n, "tuple")
    p = aslist(I, p)
    if p.op == "seq":
        p = T("tuple", *p.args)
    return [(st, p)]


@model(b_("dict"))
def m_dict(I, st, args, kw, fr, X, n):
    p = T("dict")
    if args:
        src = I.val(args[0], st)
        if src.op in ("dict", "store", "ddel"):
            p = src
        else:
            it = I.iterable(args[0], st)
            if it.op == "ref" and extn(st.get(it.args[0])) == "#iter" and st.get(it.args[0]).p is not None:
                it = st.get(it.args[0]).p
                st.w(args[0].args[0]).p = T("seq")
            pairs = [I.val(x, st) for x in it.args] if it.op in ("tuple", "seq") else [None]
            if all(x is not None and x.op in ("tuple", "seq") and len(x.args) == 2 for x in pairs):
                for x in pairs:
                    p = T("store", p, x.args[0], x.args[1])
            else:
                p = T("dictfrom", it)
    for k, v in kw.items():
        p = T("store", p, const(k), v)
    return [(st, st.new(E("builtins.dict"), p=p))]


@model(b_("dict.fromkeys"))
def m_fromkeys(I, st, args, kw, fr, X, n):
    out = []
    v = args[1] if len(args) > 1 else NONE
    for s, l in I.call_ext("builtins.list", [args[0]], {}, st, fr, X, n):
        it = I.val(l, s)
        p = T("dict")
        if it.op in ("tuple", "seq"):
            for x in it.args:
                p = T("store", p, x, v)
        else:
            p = T("dictfrom", T("map", it, NONE, v))
        out.append((s, s.new(E("builtins.dict"), p=p)))
    return out


@model(b_("set"))
def m_set(I, st, args, kw, fr, X, n):
    if not args:
        return [(st, st.new(E("builtins.set"), p=T("setof", T("tuple"))))]
    return [(st, st.new(E("builtins.set"), p=T("setof", I.iterable(args[0], st))))]


@model(b_("frozenset"))
def m_frozenset(I, st, args, kw, fr, X, n):
    return [(st, T("setof", I.iterable(args[0], st) if args else T("tuple")))]


@model(b_("range"))
def m_range(I, st, args, kw, fr, X, n):
    a = [I.val(x, st) for x in args]
    if len(a) == 1:
        return [(st, T("range", ZERO, a[0], const(1)))]
    if len(a) == 2:
        return [(st, T("range", a[0], a[1], const(1)))]
    return [(st, T("range", *a))]


def it(I, v, st):
    p = I.iterable(v, st)
    if p.op == "ref" and extn(st.get(p.args[0])) == "#iter":
        # taken from it later on, step by step
        st.w(p.args[0]).f["#lazy"] = TRUE
        return st.get(p.args[0]).p
    return p


@model(b_("enumerate"))
def m_enumerate(I, st, args, kw, fr, X, n):
    start = args[1] if len(args) > 1 else kw.get("start", ZERO)
    src = it(I, args[0], st)
    seq = I.const_items(src)
    if seq is not None:
        return [(st, T("tuple", *[tup(lin_add(start, const(i)), v) for i, v in enumerate(seq)]))]
    return [(st, T("enum", src, start))]


@model(b_("zip"))
def m_zip(I, st, args, kw, fr, X, n):
    srcs = [it(I, a, st) for a in args]
    seqs = [I.const_items(s) for s in srcs]
    if all(s is not None for s in seqs):
        return [(st, T("tuple", *[tup(*x) for x in zip(*seqs)]))]
    return [(st, T("zip", *srcs))]


@model(b_("reversed"))
def m_reversed(I, st, args, kw, fr, X, n):
    src = it(I, args[0], st)
    seq = I.const_items(src)
    if seq is not None:
        return [(st, T("tuple", *reversed(seq)))]
    return [(st, T("rev", src))]


@model(b_("sorted"))
def m_sorted(I, st, args, kw, fr, X, n):
    p = it(I, args[0], st)
    key = kw.get("key", NONE)
    r = sort_items(I, p, key, kw.get("reverse", FALSE), st, fr, n)
    if r is not None:
        return [(s, s.new(E("builtins.list"), p=T("seq", *l))) for s, l in r]
    t = T("sorted", p, keyterm(I, key, st, fr, n), kw.get("reverse", FALSE))
    return [(st, st.new(E("builtins.list"), p=t))]


def sort_items(I, p, key, reverse, st, fr, n):
    """stable sort of a list of known elements: [(state, elements)], one entry per order which the facts leave open"""
    els = I.const_items(p)
    if els is None or not is_const(reverse) or len(els) > 400:
        return None
    items = []
    for x in els:
        k = x
        if key is not NONE:
            X = []
            r = I.call(key, [x], {}, st.fork(), fr, X, n)
            if len(r) != 1 or X:
                return None
            k = r[0][1]
        items.append((k, x))
    rev = bool(cval(reverse))
    work = [(st, [])]
    for it_ in items:
        nx = []
        for s, l in work:
            todo = [(s, len(l))]
            while todo:
                s1, i = todo.pop()
                if i == 0:
                    nx.append((s1, [it_] + l))
                    continue
                prev = l[i - 1]
                c = c_lt(prev[0], it_[0]) if rev else c_lt(it_[0], prev[0])
                r = s1.facts.ask(c)
                if r is None:
                    if len(items) > 4:
                        return None
                    s2 = s1.fork()
                    if s2.facts.assume(c, True):
                        todo.append((s2, i - 1))
                    if not s1.facts.assume(c, False):
                        continue
                    r = False
                if r:
                    todo.append((s1, i - 1))
                else:
                    nx.append((s1, l[:i] + [it_] + l[i:]))
        work = nx
    return [(s, [x for _, x in l]) for s, l in work]


def keyterm(I, key, st, fr, n):
    """value of the sort key on a symbolic element"""
    if key is NONE:
        return NONE
    e = T("sym", "key_elem", None, None)
    X = []
    r = I.call(key, [e], {}, st.fork(), fr, X, n)
    return r[0][1] if len(r) == 1 else T("opaquekey", key)


@model(b_("min"), b_("max"))
def m_minmax(I, st, args, kw, fr, X, n):
    name = "min" if call_name(n).endswith("min") else "max"
    return minmax(I, st, name, args, kw, fr, X, n)


def call_name(n):
    f = getattr(n, "func", None)
    if isinstance(f, ast.Name):
        return f.id
    if isinstance(f, ast.Attribute):
        return f.attr
    return "?"


def minmax(I, st, name, args, kw, fr, X, n):
    if len(args) == 1:
        seq = I.const_items(it(I, args[0], st))
        if seq is None or "key" in kw:
            return [(st, T("red", const(name), it(I, args[0], st)))]
        args = seq
    vals = []
    for a in args:
        if a.op == name:
            vals.extend(a.args)
        else:
            vals.append(a)
    cs = [a for a in vals if is_const(a)]
    rest = [a for a in vals if not is_const(a)]
    if cs:
        try:
            c = const(getattr(builtins, name)(cval(x) for x in cs))
            rest = rest + [c] if rest else [c]
        except TypeError:
            rest = vals
    # drop dominated ones
    keep = []
    for i, a in enumerate(rest):
        dom = False
        for j, b in enumerate(rest):
            if i == j:
                continue
            d = lin_add(a, b, -1)
            k = d if name == "max" else scale(d, -1)
            # a - b <= 0 -> a is not needed for max
            if a is b:
                dom = dom or j < i
            elif st.facts.ask(c_le0(k)) is True and (st.facts.ask(c_le0(scale(k, -1))) is not True or j < i):
                dom = True
        if not dom:
            keep.append(a)
    if not keep:
        keep = rest[:1]
    if len(keep) == 1:
        return [(st, keep[0])]
    return [(st, T(name, *sorted(set(keep), key=lambda x: x.id)))]


def _mm(name):
    def f(I, st, args, kw, fr, X, n):
        return minmax(I, st, name, args, kw, fr, X, n)
    return f


TABLE[b_("min")] = _mm("min")
TABLE[b_("max")] = _mm("max")


@model(b_("sum"))
def m_sum(I, st, args, kw, fr, X, n):
    src = it(I, args[0], st)
    start = args[1] if len(args) > 1 else ZERO
    seq = I.const_items(src)
    if seq is not None:
        r = start
        for x in seq:
            r = add(r, x)
        return [(st, r)]
    return [(st, T("sumof", src, start))]


@model(b_("abs"))
def m_abs(I, st, args, kw, fr, X, n):
    return [(st, const(abs(cval(args[0]))) if is_const(args[0]) else T("abs", args[0]))]


@model(b_("divmod"))
def m_divmod(I, st, args, kw, fr, X, n):
    return [(st, tup(fdiv(*args), mod(*args)))]


@model(b_("ord"))
def m_ord(I, st, args, kw, fr, X, n):
    v = I.val(args[0], st)
    if is_const(v):
        try:
            return [(st, const(ord(cval(v))))]
        except TypeError:
            X.append((st, I.mkexc(st, "builtins.TypeError", n, fr)))
            return []
    if ty(v) in ("int", "bool", "NoneType"):
        X.append((st, I.mkexc(st, "builtins.TypeError", n, fr)))
        return []
    if ty(v) in ("bytes", "str", "buf", "memoryview", "bytearray"):
        return [(st, index(v, ZERO) if ty(v) != "str" else T("absint", v))]
    s2 = st.fork()
    X.append((s2, I.mkexc(s2, "builtins.TypeError", n, fr)))
    return [(st, T("absint", v))]


@model(b_("map"))
def m_map(I, st, args, kw, fr, X, n):
    src = it(I, args[1], st)
    if len(args) > 2:
        src = T("zip", *[it(I, a, st) for a in args[1:]])
    seq = I.const_items(src)
    if seq is not None:
        cur = [(st, [])]
        for v in seq:
            nx = []
            for s, acc in cur:
                aa = list(v.args) if len(args) > 2 else [v]
                nx.extend((s2, acc + [r]) for s2, r in I.call(args[0], aa, {}, s, fr, X, n))
            cur = nx
        return [(s, T("tuple", *acc)) for s, acc in cur]
    st.ctr += 1
    ix = T("sym", "ix%d" % st.ctr, "int", None)
    el = I.elem_at(src, ix)
    r = I.call(args[0], list(el.args) if len(args) > 2 and el.op == "tuple" else [el], {}, st, fr, X, n)
    if len(r) > 1 and not all(v is r[0][1] for _, v in r):
        r = [(r[0][0], T("cases", *[v for _, v in r]))]
    return [(s, T("map", src, v, TRUE, T("sym", "el%d" % st.ctr, None, None), ix)) for s, v in r[:1]]


@model(b_("filter"))
def m_filter(I, st, args, kw, fr, X, n):
    src = it(I, args[1], st)
    st.ctr += 1
    ix = T("sym", "ix%d" % st.ctr, "int", None)
    el = T("sym", "el%d" % st.ctr, None, None)
    c = T("truth", el)
    if args[0] is not NONE:
        r = I.call(args[0], [el], {}, st, fr, X, n)
        c = I.as_cond(r[0][1], r[0][0]) if len(r) == 1 else T("opaquefilter", st.ctr)
    return [(st, T("map", src, el, c, el, ix))]


@model(b_("iter"))
def m_iter(I, st, args, kw, fr, X, n):
    p = I.iterable(args[0], st)
    if p.op == "ref":
        return [(st, p)]
    return [(st, st.new(E("#iter"), p=p))]


@model(b_("next"))
def m_next(I, st, args, kw, fr, X, n):
    v = args[0]
    default = args[1] if len(args) > 1 else None
    if v.op == "ref":
        o = st.get(v.args[0])
        if extn(o) == "#iter":
            p = o.p
            if p.op in ("tuple", "seq"):
                if p.args:
                    st.w(v.args[0]).p = T(p.op, *p.args[1:])
                    return [(st, p.args[0])]
                if default is not None:
                    return [(st, default)]
                X.append((st, I.mkexc(st, "builtins.StopIteration", n, fr)))
                return []
            st.w(v.args[0]).p = slice_(p, const(1), NONE)
            out = []
            c = T("more", p, ZERO)
            if I.iter_len(p) is not None:
                c = c_not(c_le0(I.iter_len(p)))
            for s, b in I.split(c, st, fr, n):
                if b:
                    out.append((s, I.elem_at(p, ZERO)))
                elif default is not None:
                    out.append((s, default))
                else:
                    X.append((s, I.mkexc(s, "builtins.StopIteration", n, fr)))
            return out
    if v.op in ("tuple", "seq") and I.const_items(v) is not None:
        it = I.const_items(v)
        if it:
            return [(st, it[0])]
        if default is not None:
            return [(st, default)]
        X.append((st, I.mkexc(st, "builtins.StopIteration", n, fr)))
        return []
    if v.op in ("map", "zip", "tuple", "seq", "enum"):
        out = []
        for s, b in I.split(T("more", v, ZERO), st, fr, n):
            if b:
                out.append((s, I.elem_at(v, ZERO)))
            elif default is not None:
                out.append((s, default))
            else:
                X.append((s, I.mkexc(s, "builtins.StopIteration", n, fr)))
        return out
    if default is not None:
        s2 = st.fork()
        return [(st, I.fresh(st, "next")), (s2, default)]
    return I.effect("builtins.next", args, kw, st, fr, X, n)


def _anyall(name):
    def f(I, st, args, kw, fr, X, n):
        src = it(I, args[0], st)
        seq = I.const_items(src)
        if seq is not None:
            c = (I.c_or if name == "any" else I.c_and)([I.as_cond(x, st) for x in seq])
            return [(st, cond_val(c))]
        return [(st, cond_val(T(name + "_", src)))]
    return f


TABLE[b_("any")] = _anyall("any")
TABLE[b_("all")] = _anyall("all")


@model(b_("property"))
def m_property(I, st, args, kw, fr, X, n):
    g = args[0] if args else kw.get("fget", NONE)
    s = args[1] if len(args) > 1 else kw.get("fset", NONE)
    return [(st, T("prop", g, s))]


@model("functools.cached_property")
def m_cprop(I, st, args, kw, fr, X, n):
    return [(st, T("cprop", args[0]))]


@model(b_("classmethod"))
def m_classmethod(I, st, args, kw, fr, X, n):
    return [(st, T("classmethod", args[0]))]


@model(b_("staticmethod"))
def m_staticmethod(I, st, args, kw, fr, X, n):
    return [(st, T("staticmethod", args[0]))]


@model(b_("super"))
def m_super(I, st, args, kw, fr, X, n):
    return [(st, T("super", args[0], args[1]))]


@model(b_("type"))
def m_type(I, st, args, kw, fr, X, n):
    v = args[0]
    c = class_of(I, v, st)
    return [(st, c if c is not None else T("typeof", v))]


@model(b_("print"))
def m_print(I, st, args, kw, fr, X, n):
    return [(st, NONE)]


@model(b_("id"), b_("hash"))
def m_id(I, st, args, kw, fr, X, n):
    return [(st, T("idof", args[0]))]


@model(b_("slice"))
def m_slice(I, st, args, kw, fr, X, n):
    a = list(args) + [NONE] * 3
    if len(args) == 1:
        return [(st, T("sl", NONE, args[0], NONE))]
    return [(st, T("sl", a[0], a[1], a[2]))]


@model(b_("object"))
def m_object(I, st, args, kw, fr, X, n):
    return [(st, st.new(E("builtins.object")))]


@model("functools.reduce")
def m_reduce(I, st, args, kw, fr, X, n):
    src = it(I, args[1], st)
    seq = I.const_items(src)
    if seq is not None and len(args) > 2:
        cur = [(st, args[2])]
        for v in seq:
            nx = []
            for s, acc in cur:
                nx.extend(I.call(args[0], [acc, v], {}, s, fr, X, n))
            cur = nx
        return cur
    # a + b over all elements
    a, b = T("sym", "red_a", "int", None), T("sym", "red_b", "int", None)
    r = I.call(args[0], [a, b], {}, st.fork(), fr, [], n)
    if len(r) == 1 and r[0][1] is lin_add(a, b):
        return [(st, T("sumof", src, args[2] if len(args) > 2 else ZERO))]
    return [(st, T("reduce", r[0][1] if r else NONE, src, args[2] if len(args) > 2 else NONE))]


@model("functools.partial")
def m_partial(I, st, args, kw, fr, X, n):
    d = T("dict")
    for k, v in kw.items():
        d = T("store", d, const(k), v)
    return [(st, T("partial", args[0], tup(*args[1:]), d))]


@model("functools.wraps", "functools.lru_cache")
def m_wraps(I, st, args, kw, fr, X, n):
    return [(st, E("#identity"))]


@model("#identity")
def m_identity(I, st, args, kw, fr, X, n):
    return [(st, args[0])]


@model("itertools.chain")
def m_chain(I, st, args, kw, fr, X, n):
    if len(args) == 1 and args[0].op == "star":
        return [(st, T("chainof", args[0].args[0]))]
    return [(st, concat(T("tuple"), *[it(I, a, st) for a in args]) if args else T("tuple"))]


@model("itertools.chain.from_iterable")
def m_chainfrom(I, st, args, kw, fr, X, n):
    return [(st, T("chainof", it(I, args[0], st)))]


@model("itertools.islice")
def m_islice(I, st, args, kw, fr, X, n):
    src = it(I, args[0], st)
    a = args[1:]
    if len(a) == 1:
        return [(st, slice_(src, ZERO, a[0]))]
    return [(st, slice_(src, a[0] if a[0] is not NONE else ZERO, a[1]))]


@model("contextlib.suppress")
def m_suppress(I, st, args, kw, fr, X, n):
    return [(st, T("suppress", *args))]


@model("contextlib.contextmanager")
def m_ctxmgr(I, st, args, kw, fr, X, n):
    return [(st, T("ctxfactory", args[0]))]


@model("contextlib.closing")
def m_closing(I, st, args, kw, fr, X, n):
    return [(st, st.new(E("#closing"), {"obj": args[0]}))]


@model("contextlib.nullcontext")
def m_nullctx(I, st, args, kw, fr, X, n):
    return [(st, T("suppress"))]


def operator_call(I, name, args, st, fr, X, n):
    ops = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "and_": ast.BitAnd, "or_": ast.BitOr, "xor": ast.BitXor,
           "floordiv": ast.FloorDiv, "mod": ast.Mod, "lshift": ast.LShift, "rshift": ast.RShift}
    if name in ops:
        return I.binop(ops[name](), args[0], args[1], st, fr, X, n)
    cmps = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE}
    if name in cmps:
        return [(s, cond_val(c)) for s, c in I.compare(cmps[name](), args[0], args[1], st, fr, X, n)]
    if name == "itemgetter":
        return [(st, T("partial", E("#getitem"), tup(*args), T("dict")))]
    if name == "attrgetter":
        return [(st, T("partial", E("#attrget"), tup(*args), T("dict")))]
    return I.effect("operator." + name, args, {}, st, fr, X, n)


@model("#getitem")
def m_getitem(I, st, args, kw, fr, X, n):
    return I.getitem(args[-1], args[0], st, fr, X, n)


@model("#attrget")
def m_attrget(I, st, args, kw, fr, X, n):
    return I.getattr(args[-1], cval(args[0]), st, fr, X, n)


# ------------------------------------------------------------------ os.path, os

@model("os.path.join")
def m_join(I, st, args, kw, fr, X, n):
    parts = []
    for a in args:
        if a.op == "join_path":
            parts.extend(a.args)
        else:
            parts.append(a)
    if all(is_const(p) for p in parts):
        import os
        return [(st, const(os.path.join(*[cval(p) for p in parts])))]
    return [(st, T("join_path", *[p for p in parts]))]


@model("os.path.dirname")
def m_dirname(I, st, args, kw, fr, X, n):
    a = args[0]
    if a.op == "join_path" and len(a.args) > 1:
        return [(st, T("join_path", *a.args[:-1]) if len(a.args) > 2 else a.args[0])]
    if is_const(a) and isinstance(cval(a), (str, bytes)):
        import os
        return [(st, const(os.path.dirname(cval(a))))]
    return [(st, T("dirname", a))]


@model("os.path.basename")
def m_basename(I, st, args, kw, fr, X, n):
    a = args[0]
    if a.op == "join_path":
        return [(st, a.args[-1])]
    if is_const(a) and isinstance(cval(a), (str, bytes)):
        import os
        return [(st, const(os.path.basename(cval(a))))]
    return [(st, T("basename", a))]


@model("os.path.splitext")
def m_splitext(I, st, args, kw, fr, X, n):
    a = args[0]
    last = a.args[-1] if a.op == "join_path" else a
    if last.op == "concat" and is_const(last.args[-1]):
        s = cval(last.args[-1])
        i = s.rfind(".")
        if i >= 0 and "/" not in s[i:]:
            stem = concat(*(last.args[1:-1] + (const(s[:i]),)))
            if a.op == "join_path":
                stem = T("join_path", *(a.args[:-1] + (stem,)))
            return [(st, tup(stem, const(s[i:])))]
    if is_const(a):
        import os
        r = os.path.splitext(cval(a))
        return [(st, tup(const(r[0]), const(r[1])))]
    return [(st, tup(T("str", T("stem", a)), T("str", T("extension", a))))]


@model("os.path.split")
def m_split(I, st, args, kw, fr, X, n):
    return [(st, tup(m_dirname(I, st, args, kw, fr, X, n)[0][1], m_basename(I, st, args, kw, fr, X, n)[0][1]))]


@model("os.path.normpath", "os.path.abspath", "os.path.realpath", "os.path.expanduser", "os.fspath")
def m_norm(I, st, args, kw, fr, X, n):
    return [(st, args[0])]


@model("os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.lexists", "os.path.islink", "os.access")
def m_exists(I, st, args, kw, fr, X, n):
    name = "os.path." + call_name(n) if call_name(n) in ("exists", "isfile", "isdir", "lexists", "islink") else "os.path.exists"
    return I.effect(name, args, kw, st, fr, X, n, "bool")


for _nm in ("exists", "isfile", "isdir", "lexists", "islink"):
    def _mk(nm):
        return lambda I, st, args, kw, fr, X, n: I.effect("os.path." + nm, args, kw, st, fr, X, n, "bool")
    TABLE["os.path." + _nm] = _mk(_nm)


@model("os.open")
def m_osopen(I, st, args, kw, fr, X, n):
    return I.effect("os.open", args, kw, st, fr, X, n, "int")


def left(st, data):
    """length of data, in terms of what it was cut from"""
    if data.op == "slice" and data.args[2] is NONE:
        d, i = data.args[:2]
        if st.facts.ask(c_le0(scale(i, -1))) is True and st.facts.ask(c_le0(lin_add(i, length(d), -1))) is True:
            return lin_add(length(d), i, -1)
    return length(data)


@model("os.write")
def m_oswrite(I, st, args, kw, fr, X, n):
    data = I.val(args[1], st)
    ln = length(data)
    I.may_raise("os.write", [args[0], data], kw, st, fr, X, n)
    out = []
    if I.opts.short_writes:
        s2 = st.fork()
        s2.ctr += 1
        k = T("res", "os.write", s2.ctr, "int")
        ok = s2.facts.assume(c_le0(scale(k, -1))) and s2.facts.assume(c_le0(lin_add(lin_add(k, const(1)), left(st, data), -1))) and s2.facts.assume(c_le0(lin_add(lin_add(k, const(1)), ln, -1)))
        if ok:
            from .interp import Ev
            s2.emit(Ev("call", "os.write", (args[0], data), kw, k, I.loc(n, fr), "short", fr.stack))
            out.append((s2, k))
    r = I.effect2("os.write", [args[0], data], kw, st, fr, n, ln)
    return out + r


def _effect2(self, label, args, kw, st, fr, n, res):
    from .interp import Ev
    st.emit(Ev("call", label, tuple(args), kw, res, self.loc(n, fr), "ok", fr.stack))
    return [(st, res)]


@model("os.read")
def m_osread(I, st, args, kw, fr, X, n):
    return I.effect("os.read", args, kw, st, fr, X, n, "bytes")


@model("os.fdopen", b_("open"), "io.open", "codecs.open")
def m_fdopen(I, st, args, kw, fr, X, n):
    nm = "os.fdopen" if call_name(n) == "fdopen" else "builtins.open"
    I.may_raise(nm, args, kw, st, fr, X, n)
    mode = args[1] if len(args) > 1 else kw.get("mode", const("r"))
    o = st.new(E("#file"), {"src": args[0], "mode": mode, "kind": const(nm)}, None, None)
    st.w(o.args[0]).f["#line"] = T("res", "line", st.ctr, "str")
    from .interp import Ev
    st.emit(Ev("call", nm, tuple(args), kw, o, I.loc(n, fr), "ok", fr.stack))
    return [(st, o)]


TABLE["codecs.open"] = m_fdopen


@model("tempfile.mkstemp")
def m_mkstemp(I, st, args, kw, fr, X, n):
    I.may_raise("tempfile.mkstemp", args, kw, st, fr, X, n)
    st.ctr += 1
    r = tup(T("res", "tmpfd", st.ctr, "int"), T("res", "tmppath", st.ctr, "str"))
    st.facts.assume(c_le0(lin_add(const(1), length(r.args[1]), -1)), True)
    names = ("suffix", "prefix", "dir", "text")
    kw2 = dict(zip(names, args))
    kw2.update(kw)
    from .interp import Ev
    st.emit(Ev("call", "tempfile.mkstemp", tuple(args), kw2, r, I.loc(n, fr), "ok", fr.stack))
    return [(st, r)]


@model("os.fstat", "os.stat", "os.lstat")
def m_stat(I, st, args, kw, fr, X, n):
    nm = "os." + (call_name(n) if call_name(n) in ("fstat", "stat", "lstat") else "stat")
    return I.effect(nm, args, kw, st, fr, X, n)


@model("os.path.getsize", "os.path.getmtime")
def m_getsize(I, st, args, kw, fr, X, n):
    return I.effect("os.path.getsize", args, kw, st, fr, X, n, "int")


@model("glob.escape")
def m_globescape(I, st, args, kw, fr, X, n):
    import glob
    if is_const(args[0]) and isinstance(cval(args[0]), (str, bytes)):
        return [(st, const(glob.escape(cval(args[0]))))]
    return [(st, T("res", "glob.escape", (args[0],), "str"))]


@model("glob.glob", "os.listdir", "glob.iglob")
def m_glob(I, st, args, kw, fr, X, n):
    I.may_raise("glob.glob", args, kw, st, fr, X, n)
    st.ctr += 1
    g = T("glob", st.ctr, args[0] if args else NONE)
    from .interp import Ev
    st.emit(Ev("call", "glob.glob", tuple(args), kw, g, I.loc(n, fr), "ok", fr.stack))
    return [(st, g)]


@model("os.fsencode", "os.fsdecode")
def m_fsenc(I, st, args, kw, fr, X, n):
    return [(st, args[0])]


# ------------------------------------------------------------------ struct / binascii / zlib / hashlib / mmap / io

FMT = {"L": 4, "I": 4, "Q": 8, "H": 2, "B": 1}


def parse_fmt(f):
    """[(kind, size)] for big-endian formats made of unsigned ints and byte strings"""
    if f[0] not in ">!<":
        if f in ("B", "b"):
            return "big", [("u", 1)]
        return None
    order = "little" if f[0] == "<" else "big"
    i = 1
    out = []
    while i < len(f):
        j = i
        while j < len(f) and f[j].isdigit():
            j += 1
        cnt = int(f[i:j]) if j > i else None
        c = f[j]
        if c == "s":
            out.append(("s", cnt or 1))
        elif c == "c":
            out.extend([("s", 1)] * (cnt or 1))
        elif c in FMT:
            out.extend([("u", FMT[c])] * (1 if cnt is None else cnt))
        elif c == "x":
            out.extend([("x", 1)] * (1 if cnt is None else cnt))
        elif c == " ":
            pass
        else:
            return None
        i = j + 1
    return order, out


@model("struct.pack")
def m_pack(I, st, args, kw, fr, X, n):
    if is_const(args[0]):
        f = cval(args[0])
        if isinstance(f, bytes):
            f = f.decode()
        if all(is_const(a) for a in args[1:]):
            try:
                return [(st, const(struct.pack(f, *[cval(a) for a in args[1:]])))]
            except struct.error:
                X.append((st, I.mkexc(st, "struct.error", n, fr)))
                return []
        pf = parse_fmt(f)
        if pf and "x" not in [k for k, _ in pf[1]] and len(pf[1]) == len(args) - 1:
            order, items = pf
            parts = []
            for (k, w), v in zip(items, args[1:]):
                if k == "s":
                    parts.append(I.val(v, st))
                else:
                    parts.append(be_bytes(w, v, order))
            if I.opts.raises("struct.pack"):
                I.may_raise("struct.pack", args, kw, st, fr, X, n)
            return [(st, concat(const(b""), *parts))]
    return [(st, T("pack", *args))]


def be_bytes(w, v, order="big"):
    if is_const(v) and isinstance(cval(v), int) and 0 <= cval(v) < 1 << 8 * w:
        return const(cval(v).to_bytes(w, order))
    if w == 1:
        return T("bytes1", v)
    return T("bebytes" if order == "big" else "lebytes", w, v)


def unpack_at(I, f, data, ofs):
    pf = parse_fmt(f)
    if not pf:
        return None
    order, items = pf
    vals = []
    for k, w in items:
        if k == "u":
            if w == 1:
                vals.append(index(data, ofs))
            else:
                vals.append(beint(w, data, ofs) if order == "big" else T("le", w, data, ofs))
        elif k == "s":
            vals.append(slice_(data, ofs, lin_add(ofs, const(w))))
        ofs = lin_add(ofs, const(w))
    return tup(*vals)


@model("struct.unpack_from")
def m_unpack_from(I, st, args, kw, fr, X, n):
    ofs = args[2] if len(args) > 2 else kw.get("offset", ZERO)
    I.may_raise("struct.unpack_from", args, kw, st, fr, X, n)
    if is_const(args[0]):
        r = unpack_at(I, cval(args[0]), I.val(args[1], st), ofs)
        if r is not None:
            return [(st, r)]
    return [(st, T("unpackres", args[0], I.val(args[1], st), ofs))]


@model("struct.unpack")
def m_unpack(I, st, args, kw, fr, X, n):
    I.may_raise("struct.unpack", args, kw, st, fr, X, n)
    if is_const(args[0]):
        d = I.val(args[1], st)
        base, ofs = d, ZERO
        if d.op == "slice" and is_nonneg(d.args[1]):
            base, ofs = d.args[0], d.args[1]
        r = unpack_at(I, cval(args[0]), base, ofs)
        if r is not None:
            return [(st, r)]
    return [(st, T("unpackres", args[0], I.val(args[1], st), ZERO))]


@model("struct.calcsize")
def m_calcsize(I, st, args, kw, fr, X, n):
    return [(st, const(struct.calcsize(cval(args[0]))) if is_const(args[0]) else I.fresh(st, "calcsize", "int"))]


@model("binascii.b2a_hex", "binascii.hexlify")
def m_b2a(I, st, args, kw, fr, X, n):
    v = I.val(args[0], st)
    if ty(v) == "str" or is_const(v) and not isinstance(cval(v), (bytes, bytearray)):
        X.append((st, I.mkexc(st, "builtins.TypeError", n, fr)))
        return []
    if is_const(v):
        return [(st, const(cval(v).hex().encode()))]
    if v.op == "a2b":
        v2 = v.args[0]
        return [(st, encode(v2) if ty(v2) == "str" else v2)]
    return [(st, T("b2a", v))]


@model("binascii.a2b_hex", "binascii.unhexlify")
def m_a2b(I, st, args, kw, fr, X, n):
    v = I.val(args[0], st)
    if v.op == "hexstr":
        v = v.args[0]
    if v.op == "b2a":
        return [(st, v.args[0])]
    I.may_raise("binascii.a2b_hex", args, kw, st, fr, X, n)
    if is_const(v):
        try:
            return [(st, const(bytes.fromhex(cval(v) if isinstance(cval(v), str) else cval(v).decode())))]
        except ValueError:
            pass
    return [(st, T("a2b", v))]


@model("binascii.crc32", "zlib.crc32")
def m_crc32(I, st, args, kw, fr, X, n):
    d = I.val(args[0], st)
    start = args[1] if len(args) > 1 else ZERO
    return [(st, crc(d, start))]


def crc(d, start):
    """crc32 over the concatenation of everything fed so far"""
    if start is ZERO:
        acc = d
    elif start.op == "crc32":
        acc = concat(start.args[0], d)
    else:
        acc = concat(T("crcpre", start), d)
    return T("crc32", acc)


@model("hashlib.sha1", "hashlib.new", "hashlib.md5", "hashlib.sha256")
def m_sha1(I, st, args, kw, fr, X, n):
    nm = call_name(n)
    data = const(b"")
    if nm == "new":
        nm = cval(args[0])
        args = args[1:]
    if args:
        data = I.val(args[0], st)
    return [(st, st.new(E("#sha"), {"#algo": const(nm)}, data))]


for _a in ("sha1", "md5", "sha256"):
    def _mk(a):
        def f(I, st, args, kw, fr, X, n):
            data = I.val(args[0], st) if args else const(b"")
            return [(st, st.new(E("#sha"), {"#algo": const(a)}, data))]
        return f
    TABLE["hashlib." + _a] = _mk(_a)


@model("zlib.compressobj")
def m_compressobj(I, st, args, kw, fr, X, n):
    return [(st, st.new(E("#compress"), {"fed": const(b""), "out": const(b""), "flushed": FALSE}))]


@model("zlib.decompressobj")
def m_decompressobj(I, st, args, kw, fr, X, n):
    return [(st, st.new(E("#decompress"), {"n": ZERO}))]


@model("zlib.compress")
def m_zcompress(I, st, args, kw, fr, X, n):
    return [(st, T("bytes", T("zcompress", I.val(args[0], st))))]


@model("zlib.decompress")
def m_zdecompress(I, st, args, kw, fr, X, n):
    return I.effect("zlib.decompress", args, kw, st, fr, X, n, "bytes")


@model("mmap.mmap")
def m_mmap(I, st, args, kw, fr, X, n):
    I.may_raise("mmap.mmap", args, kw, st, fr, X, n)
    o = st.new(E("mmap.mmap"), {"#new": EMPTY, "#old": EMPTY, "#fd": args[0], "#len": args[1] if len(args) > 1 and args[1] is not ZERO else T("fsize", args[0]),
                                "#kw": T("kw", *sorted(kw))})
    from .interp import Ev
    st.emit(Ev("call", "mmap.mmap", tuple(args), kw, o, I.loc(n, fr), "ok", fr.stack))
    return [(st, o)]


@model("io.BytesIO")
def m_bytesio(I, st, args, kw, fr, X, n):
    d = I.val(args[0], st) if args else const(b"")
    return [(st, st.new(E("io.BytesIO"), {"#new": EMPTY, "#old": EMPTY, "data": d, "init": d}))]


@model("io.StringIO")
def m_stringio(I, st, args, kw, fr, X, n):
    return [(st, st.new(E("io.StringIO"), {"data": I.val(args[0], st) if args else const("")}))]


@model("array.array")
def m_array(I, st, args, kw, fr, X, n):
    import array as _a
    import sys
    size = _a.array(cval(args[0])).itemsize if is_const(args[0]) else 0
    o = st.new(E("#array"), {"size": const(size), "order": const(sys.byteorder)}, T("seq"))
    if len(args) > 1:
        p = it(I, args[1], st)
        if ty(p) in ("bytes", "buf", "memoryview"):
            st.w(o.args[0]).p = T("arr", size, sys.byteorder, p)
        else:
            st.w(o.args[0]).p = aslist(I, p)
    return [(st, o)]


@model("time.sleep")
def m_sleep(I, st, args, kw, fr, X, n):
    return [(st, NONE)]


@model("bisect.bisect_left", "bisect.bisect_right", "bisect.bisect")
def m_bisect(I, st, args, kw, fr, X, n):
    return I.effect("bisect." + call_name(n), args, kw, st, fr, X, n, "int")


# ------------------------------------------------------------------ methods of builtin types and modelled objects

OBJ_ATTR = {}


def objattr(cls, name):
    def d(f):
        OBJ_ATTR[(cls, name)] = f
        return f
    return d


@objattr("#decompress", "unused_data")
def a_unused(I, b, st, fr, X, n):
    o = st.get(b.args[0])
    return [(st, T("as", T("zattr", b, "unused_data", o.f["n"]), "bytes"))]


@objattr("#decompress", "unconsumed_tail")
def a_tail(I, b, st, fr, X, n):
    o = st.get(b.args[0])
    return [(st, T("as", T("zattr", b, "unconsumed_tail", o.f["n"]), "bytes"))]


@objattr("#decompress", "eof")
def a_eof(I, b, st, fr, X, n):
    o = st.get(b.args[0])
    return [(st, cond_val(T("truth", T("zattr", b, "eof", o.f["n"]))))]


def method(I, b, name, args, kw, st, fr, X, n):
    from .interp import Ev
    if b.op == "ref":
        o = st.get(b.args[0])
        en = extn(o)
        if "#lines" in o.f and name in ("read", "readlines") and not args and all(is_const(x) for x in o.f["#lines"].args):
            I.may_raise("%s.%s" % (en.lstrip("#"), name), [b], kw, st, fr, X, n)
            ls = o.f["#lines"]
            return [(st, const("".join(cval(x) for x in ls.args)) if name == "read" else st.new(E("builtins.list"), p=ls))]
        h = OBJ_METHODS.get((en, name))
        if h:
            return h(I, b, o, args, kw, st, fr, X, n)
        if en == "#sha" or en in ("#compress", "#decompress", "mmap.mmap", "io.BytesIO", "#file", "io.StringIO", "#gen"):
            return I.effect("%s.%s" % (en.lstrip("#"), name), [b] + list(args), kw, st, fr, X, n,
                            {"read": "bytes", "getvalue": "bytes"}.get(name))
        if o.p is not None:
            k = "dict" if o.p.op in ("dict", "store", "ddel") or en == "builtins.dict" else \
                "list" if en in ("builtins.list", "#array") or "builtins.list" in I.ext_bases(o.cls) else \
                "bytearray" if en == "builtins.bytearray" else "set" if en == "builtins.set" else None
            h = MUT.get((k, name))
            if h:
                return h(I, b, o, args, kw, st, fr, X, n)
            if name == "__setitem__":
                return [(s, NONE) for s in I.setitem(b, args[0], args[1], st, fr, X, n, raw=True)]
            return pure_method(I, o.p, name, args, kw, st, fr, X, n, b)
        return I.opaque_method(b, name, args, kw, st, fr, X, n)
    return pure_method(I, b, name, args, kw, st, fr, X, n, b)


MUT = {}


def mut(k, *names):
    def d(f):
        for nm in names:
            MUT[(k, nm)] = f
        return f
    return d


@mut("list", "append")
def l_append(I, b, o, args, kw, st, fr, X, n):
    p = o.p
    st.w(b.args[0]).p = T("seq", *(p.args + (args[0],))) if p.op in ("seq", "tuple") else T("append", p, args[0])
    return [(st, NONE)]


@mut("list", "extend")
def l_extend(I, b, o, args, kw, st, fr, X, n):
    p = it(I, args[0], st)
    if p.op == "ref":
        out = []
        for s, l in list_of_gen(I, p, st, fr, X, n, "list"):
            q = s.get(l.args[0]).p
            s.w(b.args[0]).p = concat(s.get(b.args[0]).p, q)
            out.append((s, NONE))
        return out
    if p.op == "tuple":
        p = T("seq", *p.args)
    st.w(b.args[0]).p = concat(o.p, p)
    return [(st, NONE)]


@mut("list", "insert")
def l_insert(I, b, o, args, kw, st, fr, X, n):
    if args[0] is ZERO and o.p.op in ("seq", "tuple"):
        st.w(b.args[0]).p = T("seq", args[1], *o.p.args)
    else:
        if o.p.op in ("seq", "tuple") and is_const(args[0]) and isinstance(cval(args[0]), int) and len(args) == 2:
            a = list(o.p.args)
            a.insert(cval(args[0]), args[1])
            st.w(b.args[0]).p = T("seq", *a)
            return [(st, NONE)]
        st.w(b.args[0]).p = T("linsert", o.p, *args)
    return [(st, NONE)]


@mut("list", "sort")
def l_sort(I, b, o, args, kw, st, fr, X, n):
    r = sort_items(I, o.p, kw.get("key", NONE), kw.get("reverse", FALSE), st, fr, n)
    if r is not None:
        for s, l in r:
            s.w(b.args[0]).p = T("seq", *l)
        return [(s, NONE) for s, l in r]
    k = keyterm(I, kw.get("key", NONE), st, fr, n)
    st.w(b.args[0]).p = T("sorted", o.p, k, kw.get("reverse", FALSE))
    return [(st, NONE)]


@mut("list", "reverse")
def l_reverse(I, b, o, args, kw, st, fr, X, n):
    p = o.p
    st.w(b.args[0]).p = T("seq", *reversed(p.args)) if p.op == "seq" else T("rev", p)
    return [(st, NONE)]


@mut("list", "pop")
def l_pop(I, b, o, args, kw, st, fr, X, n):
    p = o.p
    i = args[0] if args else const(-1)
    if p.op in ("seq", "tuple") and is_const(i):
        a = list(p.args)
        try:
            v = a.pop(cval(i))
        except IndexError:
            X.append((st, I.mkexc(st, "builtins.IndexError", n, fr)))
            return []
        st.w(b.args[0]).p = T(p.op, *a)
        return [(st, v)]
    st.w(b.args[0]).p = T("ldel", p, i)
    return [(st, index(p, i))]


def equal(I, st, a, b, d=0):
    """TRUE, FALSE, or None: are two values equal?"""
    if a is b:
        return TRUE
    if a.op == "ref" and b.op == "ref" and d < 4:
        oa, ob = st.get(a.args[0]), st.get(b.args[0])
        if oa.p is None and ob.p is None and not oa.tag and not ob.tag:
            return FALSE
        if oa.p is not None and ob.p is not None and oa.cls is ob.cls and extn(oa) == "builtins.list" and oa.p.op == "seq" and ob.p.op == "seq":
            a, b = oa.p, ob.p
        else:
            return None
    if a.op == b.op and a.op in ("seq", "tuple"):
        if len(a.args) != len(b.args):
            return FALSE
        rs = [equal(I, st, x, y, d + 1) for x, y in zip(a.args, b.args)]
        return FALSE if FALSE in rs else TRUE if all(r is TRUE for r in rs) else None
    if a.op == "ref" or b.op == "ref":
        return None
    r = c_eq(a, b)
    return r if r in (TRUE, FALSE) else None


@mut("list", "remove")
def l_remove(I, b, o, args, kw, st, fr, X, n):
    if o.p.op == "seq":
        for i, x in enumerate(o.p.args):
            r = equal(I, st, x, args[0])
            if r is TRUE:
                st.w(b.args[0]).p = T("seq", *(o.p.args[:i] + o.p.args[i + 1:]))
                return [(st, NONE)]
            if r is not FALSE:
                break
    st.w(b.args[0]).p = T("lremove", o.p, args[0])
    st.emit(_ev(I, "del", "remove", (b, args[0]), n, fr))
    return [(st, NONE)]


def _ev(I, kind, label, args, n, fr):
    from .interp import Ev
    return Ev(kind, label, args, loc=I.loc(n, fr))


@mut("list", "clear")
def l_clear(I, b, o, args, kw, st, fr, X, n):
    st.w(b.args[0]).p = T("seq")
    return [(st, NONE)]


@mut("list", "frombytes", "fromstring")
def l_frombytes(I, b, o, args, kw, st, fr, X, n):
    w = st.w(b.args[0])
    d = I.val(args[0], st)
    arr = T("arr", cval(o.f["size"]), cval(o.f["order"]), d)
    w.p = arr if o.p.op == "seq" and not o.p.args else concat(o.p, arr)
    return [(st, NONE)]


@mut("list", "byteswap")
def l_byteswap(I, b, o, args, kw, st, fr, X, n):
    if o.p.op == "arr":
        st.w(b.args[0]).p = T("arr", o.p.args[0], "big" if o.p.args[1] == "little" else "little", o.p.args[2])
    else:
        st.w(b.args[0]).p = T("byteswapped", o.p)
    return [(st, NONE)]


@mut("bytearray", "append")
def ba_append(I, b, o, args, kw, st, fr, X, n):
    st.w(b.args[0]).p = concat(o.p, byte(args[0]))
    return [(st, NONE)]


@mut("bytearray", "extend")
def ba_extend(I, b, o, args, kw, st, fr, X, n):
    st.w(b.args[0]).p = concat(o.p, tobytes(I, it(I, args[0], st), st))
    return [(st, NONE)]


@mut("dict", "clear")
def d_clear(I, b, o, args, kw, st, fr, X, n):
    st.w(b.args[0]).p = T("dict")
    st.emit(_ev(I, "clear", "clear", (b,), n, fr))
    return [(st, NONE)]


@mut("dict", "get")
def d_get(I, b, o, args, kw, st, fr, X, n):
    return I.dict_get(o.p, args[0], st, fr, X, n, args[1] if len(args) > 1 else NONE)


@mut("dict", "pop")
def d_pop(I, b, o, args, kw, st, fr, X, n):
    r = I.dict_get(o.p, args[0], st, fr, X, n, args[1] if len(args) > 1 else None)
    for s, v in r:
        s.w(b.args[0]).p = T("ddel", s.get(b.args[0]).p, args[0])
    return r


@mut("dict", "setdefault")
def d_setdefault(I, b, o, args, kw, st, fr, X, n):
    XX = []
    out = I.dict_get(o.p, args[0], st, fr, XX, n)
    for s, e in XX:
        dv = args[1] if len(args) > 1 else NONE
        s.w(b.args[0]).p = T("store", s.get(b.args[0]).p, args[0], dv)
        out.append((s, dv))
    return out


@mut("dict", "update")
def d_update(I, b, o, args, kw, st, fr, X, n):
    p = o.p
    if args:
        p = T("dupdate", p, I.val(args[0], st))
    for k, v in kw.items():
        p = T("store", p, const(k), v)
    st.w(b.args[0]).p = p
    return [(st, NONE)]


@mut("dict", "keys")
def d_keys(I, b, o, args, kw, st, fr, X, n):
    vs = static_items(o.p)
    if vs is not None:
        return [(st, T("tuple", *[k for k, v in vs]))]
    return [(st, T("keysof", o.p))]


@mut("dict", "values")
def d_values(I, b, o, args, kw, st, fr, X, n):
    vs = static_items(o.p)
    return [(st, T("tuple", *[v for k, v in vs]) if vs is not None else T("values", o.p))]


def static_items(p):
    """keys and values of a dictionary in order, if all of its keys are known to be equal or different"""
    ops = []
    while p.op in ("store", "ddel"):
        ops.append(p)
        p = p.args[0]
    if p.op != "dict" or p.args or len(ops) > 64:
        return None
    out = []
    for o in reversed(ops):
        k = o.args[1]
        at = None
        for i, (x, _) in enumerate(out):
            e = TRUE if x is k else c_eq(x, k)
            if e is TRUE:
                at = i
            elif e is not FALSE:
                return None
        if o.op == "ddel":
            if at is None:
                return None
            del out[at]
        elif at is None:
            out.append((k, o.args[2]))
        else:
            out[at] = (out[at][0], o.args[2])
    return out


@mut("dict", "items")
def d_items(I, b, o, args, kw, st, fr, X, n):
    vs = static_items(o.p)
    return [(st, T("tuple", *[tup(k, v) for k, v in vs]) if vs is not None else T("items", o.p))]


@mut("dict", "copy")
def d_copy(I, b, o, args, kw, st, fr, X, n):
    return [(st, st.new(E("builtins.dict"), p=o.p))]


@mut("set", "add")
def s_add(I, b, o, args, kw, st, fr, X, n):
    es = I.set_elems(o.p)
    x = args[0]
    if es is not None and len(es) <= 4 and x.op != "ref" and ty(x) in ("bytes", "str", "int") and I.set_elems(T("setof", T("tuple", *(es + [x])))) is None:
        # decide whether it is one of the known elements
        cur, out = [st], []
        for y in es:
            nx = []
            for s in cur:
                for s2, eq in I.split(c_eq(x, y), s, fr, n):
                    if eq:
                        out.append((s2, NONE))
                    else:
                        nx.append(s2)
            cur = nx
        for s in cur:
            s.w(b.args[0]).p = T("setof", T("tuple", *(es + [x])), "D")
            out.append((s, NONE))
        return out
    st.w(b.args[0]).p = T("setor", o.p, T("setof", T("tuple", args[0])))
    return [(st, NONE)]


@mut("set", "pop")
def s_pop(I, b, o, args, kw, st, fr, X, n):
    es = I.set_elems(o.p)
    if es is None:
        return I.effect("set.pop", [b], kw, st, fr, X, n)
    if not es:
        X.append((st, I.mkexc(st, "builtins.KeyError", n, fr)))
        return []
    st.w(b.args[0]).p = T("setof", T("tuple", *es[:-1]), "D")
    return [(st, es[-1])]


@mut("set", "update")
def s_update(I, b, o, args, kw, st, fr, X, n):
    for a in args:
        p = it(I, a, st)
        st.w(b.args[0]).p = T("setor", st.get(b.args[0]).p, p if ty(p) == "set" else T("setof", p))
    return [(st, NONE)]


@mut("set", "discard", "remove", "difference_update")
def s_discard(I, b, o, args, kw, st, fr, X, n):
    if call_name(n) == "difference_update":
        p = it(I, args[0], st)
        p = p if ty(p) == "set" else T("setof", p)
    else:
        p = T("setof", T("tuple", args[0]))
    st.w(b.args[0]).p = T("setsub", o.p, p)
    return [(st, NONE)]


@mut("list", "copy")
def l_copy(I, b, o, args, kw, st, fr, X, n):
    return [(st, st.new(E("builtins.list"), p=o.p))]


def pure_method(I, b, name, args, kw, st, fr, X, n, recv):
    args = [I.val(a, st) for a in args]
    if all(is_const(x) for x in [b] + args) and not kw and is_const(b):
        try:
            r = getattr(cval(b), name)(*[cval(a) for a in args])
            if isinstance(r, (int, str, bytes, bool, float)) or r is None:
                return [(st, const(r))]
            if isinstance(r, (list, tuple)) and all(isinstance(x, (int, str, bytes)) for x in r):
                t = T("seq", *[const(x) for x in r])
                return [(st, st.new(E("builtins.list"), p=t) if isinstance(r, list) else T("tuple", *t.args))]
        except Exception:
            pass
    t = ty(b)
    if b.op in ("dict", "store", "ddel"):
        if name == "get":
            return I.dict_get(b, args[0], st, fr, X, n, args[1] if len(args) > 1 else NONE)
        if name in ("keys", "values", "items"):
            vs = static_items(b)
            if vs is not None:
                f = {"keys": lambda k, v: k, "values": lambda k, v: v, "items": lambda k, v: tup(k, v)}[name]
                return [(st, T("tuple", *[f(k, v) for k, v in vs]))]
            return [(st, T({"keys": "keysof", "values": "values", "items": "items"}[name], b))]
    if name == "encode":
        I.may_raise("builtins.str.encode", [b], kw, st, fr, X, n)
        return [(st, encode(b))]
    if name == "decode":
        I.may_raise("builtins.bytes.decode", [b], kw, st, fr, X, n)
        return [(st, decode(b))]
    if name == "tobytes":
        if I.watch is not None:
            I.watch(".tobytes", [b], kw, st, fr, n)
        return [(st, b if t in ("bytes",) else T("tobytes", b))]
    if name == "hex":
        return [(st, b.args[0].args[0] if False else T("hexstr", m_b2a(I, st, [b], {}, fr, X, n)[0][1]))]
    if name == "join":
        src = it(I, args[0], st)
        seq = I.const_items(src)
        if seq is not None and len(seq) <= 400 and is_const(b):
            parts = []
            for i, x in enumerate(seq):
                if i and cval(b):
                    parts.append(b)
                parts.append(x)
            return [(st, concat(const(cval(b)[:0]), *parts))]
        return [(st, T("joinseq", t, b, src))]
    if name == "find" or name == "index":
        if name == "index" and t in ("list",):
            if b.op in ("seq", "tuple") and len(args) == 1:
                for i, x in enumerate(b.args):
                    r = equal(I, st, x, args[0])
                    if r is TRUE:
                        return [(st, const(i))]
                    if r is not FALSE:
                        break
                else:
                    X.append((st, I.mkexc(st, "builtins.ValueError", n, fr)))
                    return []
            return [(st, T("absint", T("lindex", b, *args)))]
        if len(args) == 1 and is_const(args[0]) and type(cval(args[0])) in (bytes, str):
            # the first part decides if it contains what is looked for
            h = b.args[1] if b.op == "concat" else b
            if is_const(h) and type(cval(h)) is type(cval(args[0])) and (h is b or args[0].args[1] in cval(h)):
                i = cval(h).find(cval(args[0]))
                if i < 0 and name == "index":
                    X.append((st, I.mkexc(st, "builtins.ValueError", n, fr)))
                    return []
                return [(st, const(i))]
        return [(st, T("find", b, *args))]
    if name in ("startswith", "endswith"):
        if len(args) == 1 and is_const(args[0]) and isinstance(cval(args[0]), (str, bytes)):
            if b.op == "concat":
                e = b.args[1] if name == "startswith" else b.args[-1]
                if is_const(e) and getattr(cval(e), name)(cval(args[0])):
                    return [(st, TRUE)]
        if name == "startswith":
            return [(st, cond_val(T("prefix", args[0], b)))]
        return [(st, cond_val(T(name, b, *args)))]
    if name in ("strip", "rstrip", "lstrip", "lower", "upper", "replace", "title"):
        return [(st, T("str" if t == "str" else "bytes" if t == "bytes" else "strm", T("m_" + name, b, *args)))]
    if name in ("ljust", "rjust") and args and is_const(args[0]) and is_const(length(b)) and (len(args) == 1 or is_const(args[1])):
        f = cval(args[1]) if len(args) > 1 else (" " if t == "str" else b" ")
        f = const(f * max(0, cval(args[0]) - cval(length(b))))
        return [(st, concat(b, f) if name == "ljust" else concat(f, b))]
    if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
        if name == "partition" and b.op == "concat" and is_const(b.args[1]) and len(args) == 1 and is_const(args[0]) and cval(args[0]) in cval(b.args[1]):
            x, y, z = cval(b.args[1]).partition(cval(args[0]))
            return [(st, tup(const(x), const(y), concat(const(z), *b.args[2:])))]
        if name == "split" and b.op == "concat" and is_const(b.args[1]) and len(args) == 2 and args[1] is const(1) and is_const(args[0]) and args[0] is not NONE and cval(args[0]) in cval(b.args[1]):
            x, y, z = cval(b.args[1]).partition(cval(args[0]))
            return [(st, st.new(E("builtins.list"), p=T("seq", const(x), concat(const(z), *b.args[2:]))))]
        if name in ("partition", "rpartition"):
            x = T("split", b, *args)
            mk = (lambda i: T("bytes" if t == "bytes" else "str", T("part", x, i)))
            return [(st, tup(mk(0), mk(1), mk(2)))]
        return [(st, T("listof", T("split", b, *args)))]
    if name == "count":
        return [(st, T("count", b, *args))]
    if name == "format":
        if is_const(b) and isinstance(cval(b), str) and cval(b).count("{}") == len(args) and not kw:
            parts = cval(b).split("{}")
            out = [const(parts[0])]
            for p, a in zip(parts[1:], args):
                out += [text(I, a, st), const(p)]
            return [(st, concat(const(""), *out))]
        return [(st, T("fmt", b, *args))]
    if name == "to_bytes":
        if is_const(args[0]) and len(args) > 1 and is_const(args[1]):
            return [(st, be_bytes(cval(args[0]), b, cval(args[1])))]
    if name == "from_bytes" and args:
        d = args[0]
        order = cval(args[1]) if len(args) > 1 and is_const(args[1]) else cval(kw["byteorder"]) if "byteorder" in kw else "big"
        w = length(d)
        if is_const(w):
            return [(st, beint(cval(w), d, ZERO) if order == "big" else T("le", cval(w), d, ZERO))]
        return [(st, T("absint", T("frombytes", d, order)))]
    if name == "bit_length":
        return [(st, T("absint", T("bitlen", b)))]
    if name in ("isdigit", "isalnum", "isalpha", "isspace"):
        return [(st, cond_val(T(name, b)))]
    if name in ("__len__",):
        return [(st, length(b))]
    if name == "fromhex":
        return m_a2b(I, st, args, kw, fr, X, n)
    if name in ("difference", "__sub__"):
        return [(st, T("setsub", b, T("setof", args[0]) if ty(args[0]) != "set" else args[0]))]
    if name in ("union",):
        return [(st, T("setor", b, args[0]))]
    if name in ("intersection",):
        return [(st, T("setand", b, args[0]))]
    if name in ("release",):
        return [(st, NONE)]
    if name == "__contains__":
        return [(s, cond_val(c)) for s, c in I.contains(b, args[0], st, fr, X, n)]
    if name == "__getitem__":
        return I.getitem(b, args[0], st, fr, X, n)
    if name == "copy":
        return [(st, b)]
    return I.opaque_method(b, name, args, kw, st, fr, X, n)


OBJ_METHODS = {}


def om(cls, *names):
    def d(f):
        for nm in names:
            OBJ_METHODS[(cls, nm)] = f
        return f
    return d


@om("#sha", "update")
def sha_update(I, b, o, args, kw, st, fr, X, n):
    d = I.val(args[0], st)
    st.w(b.args[0]).p = concat(o.p, d)
    return I.effect2("sha.update", [b, d], kw, st, fr, n, NONE)


@om("#sha", "digest")
def sha_digest(I, b, o, args, kw, st, fr, X, n):
    return [(st, T("sha1", o.p) if cval(o.f["#algo"]) == "sha1" else T("bytes", T("digest", o.f["#algo"], o.p)))]


@om("#sha", "hexdigest")
def sha_hexdigest(I, b, o, args, kw, st, fr, X, n):
    d = sha_digest(I, b, o, args, kw, st, fr, X, n)[0][1]
    return [(st, T("hexstr", T("b2a", d)))]


@om("#sha", "copy")
def sha_copy(I, b, o, args, kw, st, fr, X, n):
    return [(st, st.new(o.cls, dict(o.f), o.p))]


@om("#compress", "compress")
def z_compress(I, b, o, args, kw, st, fr, X, n):
    d = I.val(args[0], st)
    I.may_raise("compress.compress", [b, d], kw, st, fr, X, n)
    r = I.fresh(st, "deflated", "bytes")
    w = st.w(b.args[0])
    w.f["fed"] = concat(w.f["fed"], d)
    w.f["out"] = concat(w.f["out"], r)
    return I.effect2("compress.compress", [b, d], kw, st, fr, n, r)


@om("#compress", "flush")
def z_flush(I, b, o, args, kw, st, fr, X, n):
    I.may_raise("compress.flush", [b], kw, st, fr, X, n)
    r = I.fresh(st, "deflated", "bytes")
    w = st.w(b.args[0])
    w.f["out"] = concat(w.f["out"], r)
    if not args or is_const(args[0]) and cval(args[0]) == zlib.Z_FINISH:
        w.f["flushed"] = TRUE
    return I.effect2("compress.flush", [b], kw, st, fr, n, r)


@om("#decompress", "decompress")
def z_decompress(I, b, o, args, kw, st, fr, X, n):
    I.may_raise("decompress.decompress", [b] + list(args), kw, st, fr, X, n)
    w = st.w(b.args[0])
    w.f["n"] = lin_add(w.f["n"], const(1))
    r = I.fresh(st, "inflated", "bytes")
    mx = args[1] if len(args) > 1 else kw.get("max_length", ZERO)
    if not (is_const(mx) and cval(mx) == 0):
        # max_length is an upper bound for positive values; 0 means unlimited
        s0 = st.facts.ask(c_le0(lin_add(const(1), mx, -1)))
        if s0 is True:
            st.facts.assume(c_le0(lin_add(length(r), mx, -1)))
        else:
            s2 = st.fork()
            if s2.facts.assume(c_le0(mx)):
                return I.effect2("decompress.decompress", [b] + [I.val(a, s2) for a in args], kw, s2, fr, n, r) + \
                    (z_dec2(I, b, args, kw, st, fr, n, r, mx))
            return z_dec2(I, b, args, kw, st, fr, n, r, mx)
    return I.effect2("decompress.decompress", [b] + [I.val(a, st) for a in args], kw, st, fr, n, r)


def z_dec2(I, b, args, kw, st, fr, n, r, mx):
    if not st.facts.assume(c_le0(lin_add(const(1), mx, -1))):
        return []
    st.facts.assume(c_le0(lin_add(length(r), mx, -1)))
    return I.effect2("decompress.decompress", [b] + [I.val(a, st) for a in args], kw, st, fr, n, r)


@om("io.BytesIO", "write")
def bio_write(I, b, o, args, kw, st, fr, X, n):
    d = I.val(args[0], st)
    mem_write(st, b, d)
    w = st.w(b.args[0])
    w.f["data"] = concat(w.f["data"], d)
    return I.effect2("BytesIO.write", [b, d], kw, st, fr, n, length(d))


@om("io.BytesIO", "getvalue", "getbuffer")
def bio_getvalue(I, b, o, args, kw, st, fr, X, n):
    return [(st, o.f["data"])]


@om("io.BytesIO", "read")
def bio_read(I, b, o, args, kw, st, fr, X, n):
    f = o.f
    if (not args or args[0] is NONE or st.facts.ask(c_le0(lin_add(args[0], const(1)))) is True) and f.get("#rd", ZERO) is ZERO \
            and f.get("#new", EMPTY) is EMPTY and f.get("#old", EMPTY) in (EMPTY, f["data"]):
        # all of it
        r = f["data"]
        st.w(b.args[0]).f["#rd"] = length(r)
        return I.effect2("BytesIO.read", [b] + args, kw, st, fr, n, r)
    r = I.fresh(st, "bioread", "bytes")
    mem_read(I, st, b, args, "BytesIO.read", r)
    return I.effect2("BytesIO.read", [b] + args, kw, st, fr, n, r)


@om("io.BytesIO", "close")
def bio_close(I, b, o, args, kw, st, fr, X, n):
    return I.effect2("BytesIO.close", [b] + args, kw, st, fr, n, NONE)


@om("io.BytesIO", "seek")
def bio_seek(I, b, o, args, kw, st, fr, X, n):
    mem_seek(st, b, args)
    return I.effect2("BytesIO.seek", [b] + args, kw, st, fr, n, NONE)


@om("io.StringIO", "write")
def sio_write(I, b, o, args, kw, st, fr, X, n):
    d = I.val(args[0], st)
    if ty(d) in ("bytes", "buf", "memoryview", "bytearray"):
        X.append((st, I.mkexc(st, "builtins.TypeError", n, fr)))
        return []
    w = st.w(b.args[0])
    w.f["data"] = concat(w.f["data"], d)
    return [(st, length(d))]


@om("io.StringIO", "getvalue")
def sio_getvalue(I, b, o, args, kw, st, fr, X, n):
    return [(st, o.f["data"])]


EMPTY = const(b"")


def mem_content(o):
    """bytes at [0:n) of a memory block: what was written since the last rewind, or before it"""
    c = o.f.get("#new", EMPTY)
    return c if c is not EMPTY else o.f.get("#old", EMPTY)


def mem_write(st, b, d):
    w = st.w(b.args[0])
    w.f["#new"] = concat(w.f.get("#new", EMPTY), d)


def mem_seek(st, b, args):
    w = st.w(b.args[0])
    if args and args[0] is ZERO and (len(args) < 2 or args[1] is ZERO):
        if w.f.get("#new", EMPTY) is not EMPTY:
            w.f["#old"] = w.f["#new"]
            w.f["#new"] = EMPTY
        w.f["#rd"] = ZERO
    else:
        w.f["#rd"] = T("res", "seekpos", st.ctr, "int")


def mem_tell(I, st, b):
    o = st.get(b.args[0])
    if o.f.get("#rd", ZERO) is ZERO:
        return length(o.f.get("#new", EMPTY))
    if o.f.get("#new", EMPTY) is EMPTY:
        return o.f["#rd"]
    return I.fresh(st, "tell", "int")


def mem_read(I, st, b, args, label, r):
    if args and args[0] is not NONE:
        k = args[0]
        if st.facts.ask(c_le0(scale(k, -1))) is True:
            st.facts.assume(c_le0(lin_add(length(r), k, -1)))
    w = st.w(b.args[0])
    w.f["#rd"] = lin_add(w.f.get("#rd", ZERO), length(r))


@om("mmap.mmap", "write")
def mm_write(I, b, o, args, kw, st, fr, X, n):
    d = I.val(args[0], st)
    I.may_raise("mmap.write", [b, d], kw, st, fr, X, n)
    mem_write(st, b, d)
    return I.effect2("mmap.write", [b, d], kw, st, fr, n, length(d))


@om("mmap.mmap", "read")
def mm_read(I, b, o, args, kw, st, fr, X, n):
    r = I.fresh(st, "mmread", "bytes")
    mem_read(I, st, b, args, "mmap.read", r)
    return I.effect2("mmap.read", [b] + args, kw, st, fr, n, r)


@om("mmap.mmap", "seek")
def mm_seek(I, b, o, args, kw, st, fr, X, n):
    mem_seek(st, b, args)
    return I.effect2("mmap.seek", [b] + args, kw, st, fr, n, NONE)


@om("mmap.mmap", "tell")
def mm_tell(I, b, o, args, kw, st, fr, X, n):
    return I.effect2("mmap.tell", [b] + args, kw, st, fr, n, mem_tell(I, st, b))


@om("io.BytesIO", "tell")
def bio_tell(I, b, o, args, kw, st, fr, X, n):
    return I.effect2("BytesIO.tell", [b] + args, kw, st, fr, n, mem_tell(I, st, b))


@om("mmap.mmap", "close")
def mm_close(I, b, o, args, kw, st, fr, X, n):
    return I.effect2("mmap.close", [b] + args, kw, st, fr, n, NONE)


@om("#iter", "__next__")
def iter_next(I, b, o, args, kw, st, fr, X, n):
    return m_next(I, st, [b], kw, fr, X, n)


@om("#array", "tolist")
def arr_tolist(I, b, o, args, kw, st, fr, X, n):
    return [(st, st.new(E("builtins.list"), p=o.p))]


@om("#file", "write")
def file_write(I, b, o, args, kw, st, fr, X, n):
    d = I.val(args[0], st)
    m = I.opts.models.get("file.write")
    if m:
        return m(I, st, [b, d], kw, fr, X, n)
    return I.effect("file.write", [b, d], kw, st, fr, X, n, "int", length(d))


@om("#file", "fileno")
def file_fileno(I, b, o, args, kw, st, fr, X, n):
    return [(st, o.f["src"] if cval(o.f["kind"]) == "os.fdopen" else T("absint", b))]


# globals() used as a membership test:  'name' in globals()
def globals_has(I, mod, name):
    return name in I.mods[mod].ns


from . import interp as _interp  # noqa: E402
_interp.Interp.effect2 = _effect2
_old_contains = _interp.Interp.contains


def _contains(self, b, a, st, fr, X, n):
    if b.op == "globals" and is_const(a):
        return [(st, TRUE if cval(a) in self.mods[b.args[0]].ns else FALSE)]
    return _old_contains(self, b, a, st, fr, X, n)


_interp.Interp.contains = _contains
