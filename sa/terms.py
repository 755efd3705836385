"""Hash-consed value terms with a normal form.

Every abstract value is a Term.  Two terms are the same object iff they are syntactically the same
after normalisation, so equality of values is a pointer comparison (global value numbering).  The
constructors below normalise integer arithmetic to linear forms, mask/shift arithmetic to bit-fields
and byte/text building to concatenations.
"""


class Term:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def T(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.args = op, args
        _n[0] += 1
        t.id = _n[0]
        _tab[k] = t
    return t


def const(v):
    return T("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[1]


def sym(name, ty=None, pm=None):
    return T("sym", name, ty, pm)


def tup(*ts):
    return T("tuple", *ts)


def app(op, *args):
    return T(op, *args)


# ------------------------------------------------------------------ types

INT_OPS = {"lin", "bits", "shr", "shl", "len", "be", "le", "fdiv", "mod", "and", "or", "xor", "crc32", "mul",
           "count", "absint", "find"}
MCALL_TY = {"map": "buf", "buffer": "buf", "file_size": "int", "window_size": "int"}
BYTESY = ("bytes", "bytearray", "memoryview", "buf")


def ty(t):
    op = t.op
    if op == "const":
        return t.args[0]
    if op in INT_OPS:
        return "int"
    if op == "sym":
        return t.args[1]
    if op in ("res", "mu"):
        return t.args[2]
    if op == "idx":
        return "int" if ty(t.args[0]) in BYTESY else None
    if op in ("slice",):
        x = ty(t.args[0])
        return x
    if op == "concat":
        return t.args[0]
    if op == "tuple":
        return "tuple"
    if op in ("min", "max"):
        return "int"
    if op == "pack":
        return "bytes"
    if op in ("cond",):
        return "bool"
    if op in ("str", "fmt", "text", "join_path", "dirname", "basename", "dec", "hexstr", "decode", "pathlike"):
        return "str"
    if op in ("bytes", "b2a", "a2b", "encode", "tobytes", "bytes1", "bebytes", "lebytes", "sha1", "rep8"):
        return "bytes"
    if op == "mcall":
        return MCALL_TY.get(t.args[1])
    if op == "rep":
        return ty(t.args[0])
    if op in ("keysof", "glob"):
        return "list"
    if op in ("setof", "setsub", "setand", "setor", "setmap"):
        return "set"
    if op in ("seq", "map", "append", "sorted", "listof"):
        return "list"
    if op in ("dict", "store"):
        return "dict"
    if op == "elem":
        it = t.args[0]
        if it.op in ("range",) or ty(it) in BYTESY:
            return "int"
        return None
    if op == "ix":
        return "int"
    if op == "joinseq":
        return t.args[0]
    if op == "as":
        return t.args[1]
    return None


def pm(t):
    """Possible-bits mask of a non-negative int term, or None."""
    op = t.op
    if op == "const":
        v = t.args[1]
        if isinstance(v, bool):
            return int(v)
        return v if isinstance(v, int) and v >= 0 else None
    if op == "sym":
        return t.args[2]
    if op == "idx" and ty(t.args[0]) in BYTESY:
        return 0xFF
    if op == "elem" and ty(t.args[0]) in BYTESY:
        return 0xFF
    if op == "bits":
        return (1 << t.args[2]) - 1
    if op == "crc32":
        return 0xFFFFFFFF
    if op in ("be", "le"):
        return (1 << (8 * t.args[0])) - 1
    if op == "lin":
        b = bitform(t)
        if b is None:
            return None
        m = 0
        for part, sh, w in b:
            m |= ((1 << w) - 1) << sh
        return m
    if op == "cond":
        return 1
    return None


def width(t):
    m = pm(t)
    return None if m is None else m.bit_length()


# ------------------------------------------------------------------ linear arithmetic

def lin_parts(t):
    """(c0, {atom: coef}) for any int-ish term."""
    if t.op == "const":
        return int(t.args[1]), {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def mk_lin(c0, d):
    items = [(a, c) for a, c in d.items() if c]
    if not items:
        return const(c0)
    if c0 == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda ac: ac[0].id)
    return T("lin", c0, tuple(items))


def is_num(t):
    if t.op == "const":
        return isinstance(t.args[1], (int, bool))
    return True


def lin_add(a, b, k=1):
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    for x, c in d2.items():
        d1[x] = d1.get(x, 0) + k * c
    return mk_lin(c1 + k * c2, d1)


def scale(a, k):
    c, d = lin_parts(a)
    return mk_lin(c * k, {x: v * k for x, v in d.items()})


SEQ_TY = ("buf", "str", "bytes", "bytearray", "list", "tuple", "memoryview")


def add(a, b):
    ta, tb = ty(a), ty(b)
    if ta in SEQ_TY or tb in SEQ_TY:
        return concat(a, b)
    return lin_add(a, b)


def sub(a, b):
    if ty(a) in ("set",) or ty(b) in ("set",):
        return T("setsub", a, b)
    return lin_add(a, b, -1)


def mul(a, b):
    if is_const(a) and isinstance(cval(a), int):
        if is_const(b) and isinstance(cval(b), (str, bytes)):
            return const(cval(a) * cval(b))
        return scale(b, int(cval(a)))
    if is_const(b) and isinstance(cval(b), int):
        if is_const(a) and isinstance(cval(a), (str, bytes)):
            return const(cval(a) * cval(b))
        if ty(a) in SEQ_TY:
            return T("rep", a, b)
        return scale(a, int(cval(b)))
    if (is_const(a) and isinstance(cval(a), (bytes, str))):
        return T("rep", a, b)
    if (is_const(b) and isinstance(cval(b), (bytes, str))):
        return T("rep", b, a)
    x, y = sorted((a, b), key=lambda t: t.id)
    return T("mul", x, y)


def bitform(t):
    """Disjoint sum of (part, shift, width) with width-known parts, or None."""
    if t.op == "const":
        v = t.args[1]
        if not isinstance(v, int) or v < 0:
            return None
        return [(const(1), i, 1) for i in range(v.bit_length()) if v >> i & 1]
    c0, d = lin_parts(t)
    if c0 < 0:
        return None
    out = [(const(1), i, 1) for i in range(c0.bit_length()) if c0 >> i & 1]
    for a, k in d.items():
        if k <= 0:
            return None
        if a.op == "lin":
            return None
        m = a_pm(a)
        if m is None:
            return None
        w = m.bit_length()
        # contiguity is not needed: the part occupies [0,w)
        if k & (k - 1) == 0:
            out.append((a, k.bit_length() - 1, w))
        elif w <= 1:
            for i in range(k.bit_length()):
                if k >> i & 1:
                    out.append((a, i, 1))
        else:
            return None
    used = 0
    for p, s, w in out:
        m = ((1 << w) - 1) << s
        if used & m:
            return None
        used |= m
    return out


def a_pm(a):
    if a.op == "lin":
        return None
    return pm(a)


def from_parts(parts):
    r = ZERO
    for p, s, w in parts:
        r = lin_add(r, scale(p, 1 << s))
    return r


def bits(x, lo, w):
    """(x >> lo) & ((1<<w)-1)"""
    if w <= 0:
        return ZERO
    if is_const(x):
        return const((int(cval(x)) >> lo) & ((1 << w) - 1))
    if x.op == "bits":
        y, l0, w0 = x.args
        if lo >= w0:
            return ZERO
        return bits_atom(y, l0 + lo, min(w, w0 - lo))
    if x.op == "shr":
        return bits(x.args[0], x.args[1] + lo, w)
    if x.op == "lin":
        bf = bitform(x)
        if bf is not None:
            r = ZERO
            for p, s, pw in bf:
                # overlap of [s, s+pw) with [lo, lo+w)
                a, b = max(s, lo), min(s + pw, lo + w)
                if a < b:
                    r = lin_add(r, scale(bits(p, a - s, b - a), 1 << (a - lo)))
            return r
        # drop multiples of 2**(lo+w)
        c0, d = lin_parts(x)
        M = 1 << (lo + w)
        d2 = {a: k for a, k in d.items() if k % M}
        c2 = c0 % M
        if d2 != d or c2 != c0:
            y = mk_lin(c2, d2)
            if y is not x and y.op != "lin":
                return bits(y, lo, w)
            if y is not x:
                return bits(y, lo, w)
        return T("bits", x, lo, w)
    m = pm(x)
    if m is not None:
        bl = m.bit_length()
        if lo >= bl:
            return ZERO
        w = min(w, bl - lo)
        if lo == 0 and w == bl:
            return x
    return bits_atom(x, lo, w)


def bits_atom(x, lo, w):
    m = pm(x)
    if m is not None:
        bl = m.bit_length()
        if lo >= bl:
            return ZERO
        w = min(w, bl - lo)
        if lo == 0 and w == bl:
            return x
        if (m >> lo) & ((1 << w) - 1) == 0:
            return ZERO
    return T("bits", x, lo, w)


def band(a, b):
    if is_const(a) and not is_const(b):
        a, b = b, a
    if is_const(a) and is_const(b):
        return const(cval(a) & cval(b))
    if is_const(b) and isinstance(cval(b), int):
        m = int(cval(b))
        if m >= 0:
            r = ZERO
            i = 0
            while m >> i:
                if m >> i & 1:
                    j = i
                    while m >> j & 1:
                        j += 1
                    r = lin_add(r, scale(bits(a, i, j - i), 1 << i))
                    i = j
                else:
                    i += 1
            return r
        # a & ~m : a - (a & m')   for m = ~m'
        inv = ~m
        return lin_add(a, band(a, const(inv)), -1)
    if ty(a) == "set" or ty(b) == "set":
        return T("setand", a, b)
    x, y = sorted((a, b), key=lambda t: t.id)
    return T("and", x, y)


def disjoint(a, b):
    fa, fb = bitform(a), bitform(b)
    if fa is None or fb is None:
        # a multiple of 2**k and something narrower than k bits
        for x, y in ((a, b), (b, a)):
            wy = width(y)
            if wy is not None and trailing(x) >= wy:
                return True
        return False
    ma = mb = 0
    for p, s, w in fa:
        ma |= ((1 << w) - 1) << s
    for p, s, w in fb:
        mb |= ((1 << w) - 1) << s
    return not (ma & mb)


def trailing(x):
    c0, d = lin_parts(x)
    vals = [c0] + list(d.values())
    vals = [v for v in vals if v]
    if not vals:
        return 1 << 30
    return min((v & -v).bit_length() - 1 for v in vals)


def bor(a, b):
    if is_const(a) and is_const(b):
        return const(cval(a) | cval(b))
    if is_const(a) and cval(a) == 0 and not isinstance(cval(a), bool):
        return b
    if is_const(b) and cval(b) == 0 and not isinstance(cval(b), bool):
        return a
    if a is b:
        return a
    if ty(a) == "set" or ty(b) == "set":
        return T("setor", a, b)
    if disjoint(a, b):
        return lin_add(a, b)
    x, y = sorted((a, b), key=lambda t: t.id)
    return T("or", x, y)


def bxor(a, b):
    if is_const(a) and is_const(b):
        return const(cval(a) ^ cval(b))
    if a is b:
        return ZERO
    x, y = sorted((a, b), key=lambda t: t.id)
    return T("xor", x, y)


def shl(a, b):
    if is_const(b):
        return scale(a, 1 << int(cval(b)))
    return T("shl", a, b)


def shr(a, b):
    if not is_const(b):
        return T("shrv", a, b)
    k = int(cval(b))
    if k == 0:
        return a
    if is_const(a):
        return const(int(cval(a)) >> k)
    if a.op == "shr":
        return T("shr", a.args[0], a.args[1] + k)
    if a.op == "bits":
        x, lo, w = a.args
        return bits(x, lo + k, w - k) if k < w else ZERO
    if a.op == "lin":
        bf = bitform(a)
        if bf is not None:
            top = max(s + w for p, s, w in bf)
            return bits(a, k, max(top - k, 0))
        c0, d = lin_parts(a)
        M = 1 << k
        if all(v % M == 0 for v in d.values()):
            return mk_lin(c0 >> k, {x: v >> k for x, v in d.items()})
    w = width(a)
    if w is not None:
        return bits(a, k, w - k) if k < w else ZERO
    return T("shr", a, k)


def fdiv(a, b):
    if is_const(a) and is_const(b) and cval(b):
        return const(cval(a) // cval(b))
    if is_const(b) and isinstance(cval(b), int) and cval(b) > 0:
        v = cval(b)
        if v & (v - 1) == 0:
            return shr(a, const(v.bit_length() - 1))
        c0, d = lin_parts(a)
        if all(x % v == 0 for x in d.values()):
            return mk_lin(c0 // v, {x: y // v for x, y in d.items()})
    return T("fdiv", a, b)


def mod(a, b):
    if is_const(a) and is_const(b) and isinstance(cval(a), int) and cval(b):
        return const(cval(a) % cval(b))
    if is_const(b) and isinstance(cval(b), int) and cval(b) > 0:
        v = cval(b)
        if v & (v - 1) == 0:
            return band(a, const(v - 1))
    return T("mod", a, b)


# ------------------------------------------------------------------ sequences

def concat(*parts):
    flat = []
    for p in parts:
        if p.op == "concat":
            flat.extend(p.args[1:])
        else:
            flat.append(p)
    t = None
    for p in flat:
        t = t or ty(p)
    out = []
    for p in flat:
        if is_const(p) and isinstance(cval(p), (str, bytes, bytearray)):
            if len(cval(p)) == 0:
                continue
            if out and is_const(out[-1]) and type(cval(out[-1])) is type(cval(p)):
                out[-1] = const(cval(out[-1]) + cval(p))
                continue
        if p.op in ("tuple", "seq") and len(p.args) == 0:
            continue
        if out and p.op == out[-1].op and p.op in ("tuple", "seq"):
            out[-1] = T(p.op, *(out[-1].args + p.args))
            continue
        if out and p.op == out[-1].op == "slice" and p.args[0] is out[-1].args[0] and p.args[1] is out[-1].args[2] \
                and (p.args[2] is NONE or is_nonneg(out[-1].args[1]) and is_nonneg(p.args[1]) and p.args[1] is not NONE):
            # d[a:k] ++ d[k:]  with 0 <= a <= k
            if is_nonneg(p.args[1]) and (out[-1].args[1] is ZERO or is_nonneg(lin_add(p.args[1], out[-1].args[1], -1))) \
                    and p.args[2] is NONE:
                out[-1] = slice_(p.args[0], out[-1].args[1], NONE)
                continue
        out.append(p)
    if not out:
        return flat[0]
    if len(out) == 1:
        return out[0]
    return T("concat", t, *out)


def length(t):
    if is_const(t) and hasattr(cval(t), "__len__"):
        return const(len(cval(t)))
    if t.op in ("tuple", "seq"):
        return const(len(t.args))
    if t.op == "concat":
        r = ZERO
        for p in t.args[1:]:
            r = lin_add(r, length(p))
        return r
    if t.op == "pack":
        import struct
        try:
            return const(struct.calcsize(t.args[0]))
        except struct.error:
            pass
    if t.op == "bytes1":
        return const(1)
    if t.op in ("bebytes", "lebytes"):
        return const(t.args[0])
    if t.op == "sha1":
        return const(20)
    if t.op == "b2a":
        return scale(length(t.args[0]), 2)
    if t.op == "hexstr":
        return length(t.args[0])
    if t.op == "rep" and is_const(t.args[0]) and len(cval(t.args[0])) == 1:
        return T("max", *sorted((t.args[1], ZERO), key=lambda x: x.id))
    if t.op == "arr":
        l = length(t.args[2])
        return fdiv(l, const(t.args[0]))
    if t.op == "slice" and t.op == "slice" and t.args[2] is not NONE and is_nonneg(t.args[1]) and ty(t.args[0]) == "buf":
        # a window into a mapped file: in range by assumption
        return lin_add(t.args[2], t.args[1], -1)
    if t.op == "a2b" and is_const(length(t.args[0])):
        return fdiv(length(t.args[0]), const(2))
    if t.op == "append":
        return lin_add(length(t.args[0]), const(1))
    if t.op == "range" and is_const(t.args[0]) and cval(t.args[0]) == 0 and cval(t.args[2]) == 1:
        return T("max", *sorted((t.args[1], ZERO), key=lambda x: x.id))
    if t.op == "tobytes":
        return length(t.args[0])
    if t.op == "map" and t.args[2] is TRUE:
        return length(t.args[0])
    if t.op == "sorted":
        return length(t.args[0])
    if t.op == "as":
        return length(t.args[0])
    if t.op == "slice":
        d, a, b = t.args
        # only a slice that is known to be in range has a closed length
    return T("len", t)


def index(d, i):
    if d.op in ("tuple", "seq") and is_const(i) and isinstance(cval(i), int):
        v = cval(i)
        if -len(d.args) <= v < len(d.args):
            return d.args[v]
    if d.op == "append" and is_const(i) and cval(i) == -1:
        return d.args[1]
    if is_const(d) and is_const(i):
        try:
            r = cval(d)[cval(i)]
        except Exception:
            return T("idx", d, i)
        return const(r)
    if d.op == "slice" and is_nonneg(i) and is_nonneg(d.args[1]):
        return index(d.args[0], lin_add(d.args[1], i))
    if d.op == "tobytes" or d.op == "as":
        return index(d.args[0], i)
    if d.op == "range" and is_nonneg(i) and is_const(d.args[2]):
        return lin_add(d.args[0], mul(i, d.args[2]))
    if d.op == "arr":
        n, order, data = d.args
        return beint(n, data, scale(i, n)) if order == "big" else T("le", n, data, scale(i, n))
    if d.op == "bytes1" and i is ZERO:
        return d.args[0]
    if d.op == "concat" and is_const(i) and isinstance(cval(i), int) and cval(i) >= 0:
        k = cval(i)
        for p in d.args[1:]:
            lp = length(p)
            if not is_const(lp):
                break
            if k < cval(lp):
                return index(p, const(k))
            k -= cval(lp)
    return T("idx", d, i)


def beint(n, d, ofs):
    """n-byte big-endian integer at offset ofs of d"""
    if d.op == "slice" and is_nonneg(d.args[1]) and is_nonneg(ofs):
        return beint(d.args[0], n, ZERO) if False else beint(n, d.args[0], lin_add(d.args[1], ofs))
    if d.op in ("tobytes", "as"):
        return beint(n, d.args[0], ofs)
    if is_const(d) and is_const(ofs):
        return const(int.from_bytes(cval(d)[cval(ofs):cval(ofs) + n], "big"))
    return T("be", n, d, ofs)


def is_nonneg(i):
    if is_const(i):
        return isinstance(cval(i), int) and cval(i) >= 0
    c0, d = lin_parts(i)
    return c0 >= 0 and all(k > 0 for k in d.values())


def slice_(d, a, b):
    if is_const(d) and is_const(a) and is_const(b):
        try:
            return const(cval(d)[cval(a):cval(b)])
        except Exception:
            pass
    if d.op in ("tuple", "seq") and is_const(a) and is_const(b):
        return T(d.op, *d.args[cval(a):cval(b)])
    if a is NONE:
        a = ZERO
    if a is ZERO and b is NONE:
        return d if d.op != "list" else T("copy", d)
    if ty(d) in ("bytes", "str", "buf", "list"):
        ld = length(d)
        if a is ZERO and b is ld:
            return d
        if a is ld and not is_const(ld):
            return const("" if ty(d) == "str" else b"") if ty(d) != "list" else T("seq")
        if a is b and is_nonneg(a) and ty(d) != "list":
            return const("" if ty(d) == "str" else b"")
    if d.op == "slice" and is_nonneg(a) and is_nonneg(d.args[1]):
        base = d.args[1]
        if b is NONE:
            return slice_(d.args[0], lin_add(base, a), d.args[2])
        if is_nonneg(b) and d.args[2] is NONE:
            return slice_(d.args[0], lin_add(base, a), lin_add(base, b))
    if d.op in ("tobytes", "as"):
        return slice_(d.args[0], a, b)
    if d.op == "concat" and is_const(a) and (b is NONE or is_const(b)) and is_const(d.args[1]) and isinstance(cval(a), int) and cval(a) >= 0:
        # within the first part, or from there to the end
        h = len(cval(d.args[1]))
        if b is NONE and cval(a) <= h:
            return concat(const(cval(d.args[1])[cval(a):]), *d.args[2:])
        if b is not NONE and 0 <= cval(b) <= h:
            return const(cval(d.args[1])[cval(a):cval(b)])
    return T("slice", d, a, b)


# ------------------------------------------------------------------ conditions
# A condition is a Term; 'not' wraps.  Atoms: le0(lin) eq0(lin) eq(a,b) lt(a,b) isnone(t) is(a,b) in(a,b)
# truth(t) isinst(t,cls) hasattr(t,n)

def c_not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return T("not", c)


def inty(t):
    return ty(t) in ("int", "bool")


def c_le0(x):
    if is_const(x):
        return TRUE if cval(x) <= 0 else FALSE
    # normalise a one-bit or byte threshold test: x - k >= 0 etc.
    c0, d = lin_parts(x)
    from math import gcd
    g = 0
    for v in d.values():
        g = gcd(g, v)
    if g > 1:
        # sum*g + c0 <= 0  <=>  sum <= floor(-c0/g)
        b = (-c0) // g
        x = mk_lin(-b, {a: v // g for a, v in d.items()})
        c0, d = lin_parts(x)
    if len(d) == 1:
        (a, k), = d.items()
        m = pm(a)
        if m is not None and k == -1 and c0 > 0 and c0 & (c0 - 1) == 0 and m.bit_length() == c0.bit_length():
            # c0 - a <= 0  <=> a >= 2**top  <=> top bit set
            return c_truth_int(bits(a, c0.bit_length() - 1, 1))
        if m is not None and k == 1 and c0 <= 0 and (-c0 + 1) & (-c0) == 0 and m.bit_length() == (-c0 + 1).bit_length():
            # a <= 2**top - 1  <=> top bit clear
            return c_not(c_truth_int(bits(a, (-c0 + 1).bit_length() - 1, 1)))
    return T("le0", x)


def c_truth_int(x):
    return c_not(c_eq0(x))


def c_eq0(x):
    if is_const(x):
        return TRUE if cval(x) == 0 else FALSE
    c0, d = lin_parts(x)
    # canonical sign
    first = min(d.items(), key=lambda ac: ac[0].id)
    if first[1] < 0:
        x = scale(x, -1)
        c0, d = lin_parts(x)
    from math import gcd
    g = 0
    for v in d.values():
        g = gcd(g, v)
    if g > 1:
        if c0 % g:
            return FALSE
        x = mk_lin(c0 // g, {a: v // g for a, v in d.items()})
        c0, d = lin_parts(x)
    if len(d) == 1 and c0 == -1:
        (a, k), = d.items()
        if pm(a) == 1 and k == 1:
            return c_not(c_eq0(a))
    return T("eq0", x)


def c_eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return TRUE if cval(a) == cval(b) else FALSE
    if a is NONE:
        return c_isnone(b)
    if b is NONE:
        return c_isnone(a)
    if inty(a) or inty(b):
        if ty(a) in (None, "int", "bool") and ty(b) in (None, "int", "bool"):
            if a.op == "cond" and is_const(b):
                return a.args[0] if cval(b) else c_not(a.args[0])
            if b.op == "cond" and is_const(a):
                return b.args[0] if cval(a) else c_not(b.args[0])
            return c_eq0(lin_add(a, b, -1))
        return FALSE
    if a.op == "tuple" and b.op == "tuple" and len(a.args) != len(b.args):
        return FALSE
    ta, tb = ty(a), ty(b)
    if ta and tb and ta != tb and {ta, tb} <= {"str", "bytes", "int", "NoneType"}:
        return FALSE
    # empty string / bytes comparison is a length test
    for x, y in ((a, b), (b, a)):
        if is_const(x) and isinstance(cval(x), (str, bytes)) and not cval(x) and ty(y) == ty(x):
            return c_eq0(length(y))
    if ta == tb and ta in ("str", "bytes") and "concat" in (a.op, b.op) and lead_cmp(a, b):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return T("eq", a, b)


def c_lt(a, b):
    if a is b:
        return FALSE
    if is_const(a) and is_const(b):
        try:
            return TRUE if cval(a) < cval(b) else FALSE
        except TypeError:
            pass
    if inty(a) or inty(b):
        return c_le0(lin_add(lin_add(a, b, -1), const(1)))
    if ty(a) == ty(b) and ty(a) in ("str", "bytes"):
        r = lead_cmp(a, b)
        if r:
            return TRUE if r < 0 else FALSE
    if a.op in ("tuple", "seq") and b.op == a.op and a.args and b.args:
        if a.args[0] is b.args[0]:
            return c_lt(T(a.op, *a.args[1:]), T(b.op, *b.args[1:]))
        r = c_lt(a.args[0], b.args[0])
        if r is TRUE or c_eq(a.args[0], b.args[0]) is FALSE:
            return r
    return T("lt", a, b)


def lead(t):
    """constant prefix of a string"""
    if is_const(t):
        return cval(t)
    if t.op == "concat" and len(t.args) > 1:
        return lead(t.args[1]) if is_const(t.args[1]) else (b"" if ty(t) == "bytes" else "")
    return b"" if ty(t) == "bytes" else ""


def lead_cmp(a, b):
    """order of two strings as far as their constant prefixes decide it (0: undecided)"""
    x, y = lead(a), lead(b)
    if type(x) is not type(y):
        return 0
    n = min(len(x), len(y))
    return (x[:n] > y[:n]) - (x[:n] < y[:n])


def c_le(a, b):
    if inty(a) or inty(b):
        return c_le0(lin_add(a, b, -1))
    return c_not(c_lt(b, a))


NONNULL_OPS = {"bytes1", "bebytes", "lebytes", "sha1", "arr", "setof", "bmeth", "partial", "zip", "enum", "rev", "chain",
               "iter", "super", "min", "max", "model", "hexstr", "text", "concat", "keysof", "glob", "mcall", "lin", "tuple", "seq", "concat", "pack", "func", "bound", "cls", "mod", "ext", "ref", "new", "obj", "len",
               "bits", "dict", "store", "append", "range", "map", "cond", "exc", "slice", "b2a", "a2b", "fmt", "text",
               "joinseq", "join_path", "dirname", "basename", "str", "ix", "be", "le", "crc32", "prop", "encode", "decode",
               "sorted", "rep", "setmap", "setsub", "gen", "dec"}


def c_isnone(t):
    if t is NONE:
        return TRUE
    if t.op == "const" or t.op in NONNULL_OPS:
        return FALSE
    x = ty(t)
    if x is not None and x != "NoneType":
        return FALSE
    return T("isnone", t)


def cond_val(c):
    """condition as a value"""
    if c is TRUE or c is FALSE:
        return c
    return T("cond", c)


# ------------------------------------------------------------------ misc

def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def mentions(t, x):
    return x in subterms(t)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return tuple(subst(x, m, memo) for x in t)
        return t
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.op == "const" or t.op in ("sym", "res", "mu"):
        return t
    if t.op == "lin":
        r = const(t.args[0])
        for a, k in t.args[1]:
            r = lin_add(r, scale(subst(a, m, memo), k))
    elif t.op == "idx":
        r = index(subst(t.args[0], m, memo), subst(t.args[1], m, memo))
    elif t.op == "slice":
        r = slice_(*[subst(a, m, memo) for a in t.args])
    elif t.op == "bits":
        r = bits(subst(t.args[0], m, memo), t.args[1], t.args[2])
    elif t.op == "shr":
        r = shr(subst(t.args[0], m, memo), const(t.args[1]))
    elif t.op == "len":
        r = length(subst(t.args[0], m, memo))
    else:
        r = T(t.op, *[subst(a, m, memo) for a in t.args])
    memo[t] = r
    return r


def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 9:
        return "..."
    op = t.op
    if op == "const":
        return repr(t.args[1])
    if op == "sym":
        return str(t.args[0])
    if op == "res":
        return "%s#%s" % (t.args[0], t.args[1])
    if op == "mu":
        return "mu(%s@%s)" % (t.args[1], t.args[0][0] if isinstance(t.args[0], tuple) else t.args[0])
    if op == "lin":
        s = []
        for a, k in t.args[1]:
            s.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + show(a, d + 1))
        if t.args[0]:
            s.append(str(t.args[0]))
        return "(" + " + ".join(s) + ")"
    if op == "idx":
        return "%s[%s]" % (show(t.args[0], d + 1), show(t.args[1], d + 1))
    if op == "slice":
        return "%s[%s:%s]" % (show(t.args[0], d + 1), show(t.args[1], d + 1),
                              "" if t.args[2] is NONE else show(t.args[2], d + 1))
    if op == "attr":
        return "%s.%s" % (show(t.args[0], d + 1), t.args[1])
    if op == "ref":
        return "&%s" % (t.args[0],)
    if op == "func":
        return "func(%s)" % (t.args[0],)
    if op == "bits":
        return "bits(%s,%d,%d)" % (show(t.args[0], d + 1), t.args[1], t.args[2])
    if op == "not":
        return "not " + show(t.args[0], d + 1)
    if op == "cond":
        return show(t.args[0], d + 1)
    return "%s(%s)" % (op, ", ".join(show(a, d + 1) for a in t.args))
