"""C32: lists of delta chunks."""
import random
from .common import *
from ..facts import decide, empty, key_of, witness
from ..core import parts
from .deltas import gp
from .zstream import eq

F = "gitdb.fun."
W = "gitdb/fun.py "
BASE = sym("base", "bytes")
NAMES = ("to", "ts", "so", "data")


class Piece:
    """what a chunk stands for"""

    def __init__(self, to, ts, so, data):
        self.to, self.ts, self.so, self.data = to, ts, so, data


def linear(t, known):
    return all(a in known for a in lin_parts(t)[1])


def same_int(f, a, b, known):
    """are two numbers equal for all values the path allows? False only if values which make them differ exist"""
    if decide(f, c_eq0(lin_add(a, b, -1))) is True:
        return True
    if not linear(a, known) or not linear(b, known):
        return None
    r = True
    for x in (c_le0(lin_add(lin_add(a, const(1)), b, -1)), c_le0(lin_add(lin_add(b, const(1)), a, -1))):
        g = f.copy()
        if g.assume(x, True) and not empty(g):
            w = witness(g)
            if w is not None:
                return False
            r = None
    return r


def cases(f, terms, known):
    """the least or greatest of some numbers is one of them: [(facts, known numbers)]"""
    atoms = []
    for t in terms + list(f.b) + [k for k, v in f.ne]:
        for y in subterms(t):
            if isinstance(y, Term) and y.op in ("min", "max") and y not in atoms:
                atoms.append(y)
    out = [f]
    for y in sorted(atoms, key=lambda y: len(show(y))):
        nx = []
        for g in out:
            for z in y.args:
                h = g.copy()
                if all(h.assume(c_le0(lin_add(z, o, -1) if y.op == "min" else lin_add(o, z, -1)), True) for o in y.args if o is not z) \
                        and h.assume(c_eq0(lin_add(y, z, -1)), True):
                    # where it is known already, it is not among the linear facts
                    c0, sg, k = key_of(lin_add(y, z, -1))
                    h.b[k] = (-c0 * sg, -c0 * sg)
                    h.memo = {}
                    if not empty(h):
                        nx.append(h)
        out = nx
    for k, v in f.ne:
        nx = []
        for g in out:
            for t in (lin_add(k, const(1 - v)), lin_add(const(v + 1), k, -1)):
                h = g.copy()
                if h.assume(c_le0(t), True) and not empty(h):
                    nx.append(h)
        out = nx
    return [(g, known | set(atoms)) for g in out]


def locate(f, p, pieces, d=0):
    """[(facts, piece or None)]: in which piece does the byte at position p lie?"""
    out = []
    for x in pieces:
        end = lin_add(x.to, x.ts)
        g = f.copy()
        if g.assume(c_le0(lin_add(x.to, p, -1)), True) and g.assume(c_le0(lin_add(lin_add(p, const(1)), end, -1)), True) and not empty(g):
            out.append((g, x))
    return out


def flat_text(s, pieces):
    return concat(const(b""), *[slice_(BASE, x.so, lin_add(x.so, x.ts)) if x.data is NONE else slice_(x.data, ZERO, x.ts) for x in pieces])


def c32(c):
    c.rule("slice", "a section of a list consists of chunks which stand for exactly the bytes of this section, in order, at their positions; the list itself stays as it was")
    c.rule("merge", "connecting a list with the one it is based on replaces each copy by what it copies, which may be parts of several chunks, and leaves the data alone")
    c.rule("done", "connecting reports that nothing is left to do only if no copy is left")
    c.rule("compress", "joining data chunks doesn't change what a list stands for")
    c.rule("apply", "applying a list writes what its chunks stand for, in order")
    c.rule("bounds", "lbound, rbound and size are the first position, the one behind the last byte, and the difference")
    c.rule("chain", "the merged list of a chain of deltas, applied to the base, gives the same bytes as the deltas applied one after the other")
    I = c.I

    def make(st, kinds, name, off=ZERO, cls="DeltaChunkList", limit=None):
        """a list of chunks of the given kinds ('c' or 'd'): (state, list, pieces, symbols)"""
        ps, refs, syms = [], [], set()
        to = off
        for i, k in enumerate(kinds):
            ts = sym("%s_ts%d" % (name, i), "int")
            syms.add(ts)
            st.facts.assume(c_le0(lin_add(const(1), ts, -1)), True)
            if k == "c":
                so, data = sym("%s_so%d" % (name, i), "int"), NONE
                syms.add(so)
                st.facts.assume(c_le0(scale(so, -1)), True)
                if limit is not None:
                    st.facts.assume(c_le0(lin_add(lin_add(so, ts), limit, -1)), True)
            else:
                so, data = ZERO, sym("%s_data%d" % (name, i), "bytes")
                syms.add(length(data))
                st.facts.assume(c_le0(lin_add(ts, length(data), -1)), True)
            ps.append(Piece(to, ts, so, data))
            st, ref = one(c, F + "DeltaChunk", [to, ts, so, data], st)
            refs.append(ref)
            to = lin_add(to, ts)
        st, lst = one(c, F + cls, [tup(*refs)], st)
        return st, lst, ps, syms, to

    def read(s, lst):
        """[Piece] of a list, or None"""
        items = I.const_items(I.iterable(lst, s))
        if items is None:
            return None
        out = []
        for x in items:
            if x.op != "ref":
                return None
            v = []
            for n in NAMES:
                r = attr(c, s, x, n)
                if len(r) != 1:
                    return None
                v.append(r[0][1])
            out.append(Piece(*v))
        return out

    def compare(rule, w, s, got, start, total, origins, known, what, path):
        """does the list of pieces stand for total bytes from start, as composed from origins?"""
        if got is None:
            c.ob(rule, None, w, what + ": the chunks are not known", path)
            return
        for f, k in cases(s.facts, [v for x in got for v in (x.to, x.ts, x.so, x.data)], known):
            compare1(rule, w, f, got, start, total, origins, k, what, path)

    def compare1(rule, w, f, got, start, total, origins, known, what, path):
        p = start
        for i, x in enumerate(got):
            txt = "%s: chunk %d of %d" % (what, i, len(got))
            c.ob(rule, same_int(f, x.to, p, known), w, "%s: lies at %s, expected %s" % (txt, show(x.to)[:60], show(p)[:60]), path)
            ts = x.ts
            # the whole chunk lies within one part, on every level
            cur = [(f, p, None)]
            for ps in origins:
                nx = []
                for g, q, y in cur:
                    if y is not None and y.data is not NONE:
                        nx.append((g, q, y))
                        continue
                    cases = locate(g, q, ps)
                    if not cases and not empty(g):
                        c.ob(rule, False if linear(q, known) else None, w, "%s: there is nothing at %s" % (txt, show(q)[:60]), path)
                    for h, z in cases:
                        d = lin_add(q, z.to, -1)
                        end = lin_add(lin_add(q, ts), lin_add(z.to, z.ts), -1)
                        r = decide(h, c_le0(end))
                        if r is None and linear(end, known):
                            g2 = h.copy()
                            r = not (g2.assume(c_le0(end), False) and not empty(g2))
                        c.ob(rule, r, w, "%s: ends within the chunk it is a part of" % txt, path)
                        nx.append((h, lin_add(z.so, d) if z.data is NONE else d, z))
                cur = nx
            for h, q, z in cur:
                if z.data is NONE:
                    c.ob(rule, (None if unknown(x.data) else False) if x.data is not NONE else same_int(h, x.so, q, known), w, "%s: copies from %s, expected %s" % (txt, show(x.so)[:60], show(q)[:60]), path)
                else:
                    # at least ts bytes of the data, from q on
                    if x.data is NONE:
                        c.ob(rule, False, w, "%s: is a copy, and should be data" % txt, path)
                        continue
                    b, lo, hi = (x.data.args[0], x.data.args[1], x.data.args[2]) if x.data.op == "slice" else (x.data, ZERO, NONE)
                    r = None if unknown(x.data) else False
                    if b is z.data:
                        r = same_int(h, lo, q, known)
                        if hi is not NONE:
                            g2 = h.copy()
                            e2 = lin_add(lin_add(lo, ts), hi, -1)
                            r = r if r is not True else (True if decide(g2, c_le0(e2)) is True else False if linear(e2, known) else None)
                    c.ob(rule, r, w, "%s: is data %s, expected that from %s on" % (txt, show(x.data)[:60], show(q)[:60]), path)
            p = lin_add(p, ts)
        c.ob(rule, same_int(f, p, lin_add(start, total), known), w, "%s: %d chunks stand for %s bytes, expected %s" % (what, len(got), show(lin_add(p, start, -1))[:60], show(total)[:60]), path)

    def slices(c):
        f = c.anchor(F + "delta_list_slice")
        w = W + "delta_list_slice"
        pats = ["c", "d", "cd", "dc", "cc", "dd", "cdc", "dcd"] + (["ccc", "ddd", "cdcd", "dccd", "cddc"] if c.thorough else [])
        for kinds in pats:
            st, lst, ps, known, total = make(I.fresh_state(), kinds, "x")
            a, n = sym("absofs", "int"), sym("size", "int")
            known |= {a, n}
            st.facts.assume(c_le0(scale(a, -1)), True)
            st.facts.assume(c_le0(lin_add(const(1), n, -1)), True)
            st.facts.assume(c_le0(lin_add(lin_add(a, n), total, -1)), True)
            out = st.new(ext("builtins.list"), p=T("seq"))
            cnt = 0
            for k, s, v in c.run("delta_list_slice(%s)" % kinds, f, [lst, a, n, out], st, unroll={"*": 8}):
                if empty(s.facts):
                    continue
                path = s.events()
                if k != "ret":
                    c.ob("slice", False, w, "list %s: raises %s" % (kinds, c.excname(s, v)), path)
                    continue
                cnt += 1
                compare("slice", w, s, read(s, out), a, n, [ps], known, "list %s" % kinds, path)
                compare("slice", w, s, read(s, lst), ZERO, total, [ps], known, "the list %s afterwards" % kinds, path)
            c.ob("slice", True if cnt else None, w, "list %s: %d paths" % (kinds, cnt))

    def merges(c):
        w = W + "TopdownDeltaChunkList.connect_with_next_base"
        tops = ["c", "cd", "dc", "d", "dd", "cc"] + (["cdc", "dcd"] if c.thorough else [])
        for base in ["c", "d", "cd", "dc", "cc"] + (["cdc", "dcd"] if c.thorough else []):
            for kinds in tops:
                if len(base) > 2 and len(kinds) > 2:
                    continue
                st, bl, bps, known, btotal = make(I.fresh_state(), base, "b")
                st, lst, ps, k2, total = make(st, kinds, "t", cls="TopdownDeltaChunkList", limit=btotal)
                known |= k2
                what = "list %s on %s" % (kinds, base)
                cnt = 0
                for k, s, v in c.run("connect_with_next_base(%s, %s)" % (kinds, base), c.method(lst, st, "connect_with_next_base"), [bl], st, unroll={"*": 8}, max_states=1000000):
                    if empty(s.facts):
                        continue
                    path = s.events()
                    if k != "ret":
                        c.ob("merge", False, w, "%s: raises %s" % (what, c.excname(s, v)), path)
                        continue
                    cnt += 1
                    got = read(s, lst)
                    compare("merge", w, s, got, ZERO, total, [ps, bps], known, what, path)
                    r = I.as_cond(v, s)
                    if got is not None:
                        left = any(x.data is NONE for x in got)
                        c.ob("done", None if is_const(v) is False and s.facts.ask(r) is None else s.facts.ask(r) is True or not left, w, "%s: returns %s, copies are left: %s" % (what, show(v)[:40], left), path)
                c.ob("merge", True if cnt else None, w, "%s: %d paths" % (what, cnt))

    def compress(c):
        import itertools
        w = W + "DeltaChunkList.compress"
        for n in range(0, 7 if c.thorough else 6):
            for kinds in itertools.product("cd", repeat=n):
                st, lst, ps, known, total = make(I.fresh_state(), kinds, "x")
                want = flat_text(st, ps)
                what = "list " + "".join(kinds)
                for k, s, v in c.run("compress(%s)" % "".join(kinds), c.method(lst, st, "compress"), [], st, unroll={"*": 12}):
                    if k != "ret":
                        c.ob("compress", False, w, "%s: raises %s" % (what, c.excname(s, v)), s.events())
                        continue
                    got = read(s, lst)
                    if got is None:
                        c.ob("compress", None, w, what + ": the chunks are not known")
                        continue
                    t = flat_text(s, got)
                    c.ob("compress", True if t is want else None if unknown(t) else False, w, "%s: stands for %s" % (what, show(t)[:100]), s.events())
                    p = ZERO
                    # the first ts bytes of a chunk's data are ts bytes
                    full = {length(slice_(x.data, ZERO, x.ts)): x.ts for x in ps if x.data is not NONE}
                    for x in got:
                        x.to, x.ts = subst(x.to, full), subst(x.ts, full)
                        c.ob("compress", same_int(s.facts, x.to, p, known), w, "%s: a chunk lies at %s, expected %s" % (what, show(x.to)[:60], show(p)[:60]), s.events())
                        p = lin_add(p, x.ts)
                    c.ob("compress", v is lst, w, "%s: the list itself is returned" % what, s.events())

    def apply(c):
        w = W + "DeltaChunkList.apply"
        for kinds in ("", "c", "d", "cd", "dcc", "ddcd"):
            for how in ("method", "function"):
                st, lst, ps, known, total = make(I.fresh_state(), kinds, "x")
                for x in ps:
                    if x.data is NONE:
                        st.facts.assume(c_le0(lin_add(lin_add(x.so, x.ts), length(BASE), -1)), True)
                g = ghost(st)
                sink = opaque(st, "sink")

                def wr(I, st, args, kw, fr, X, n):
                    ghost_add(st, g, I.val(args[-1], st))
                    return [(st, NONE)]
                wf = T("attr", sink, "write")
                if how == "method":
                    outs = c.run("apply(%s)" % kinds, c.method(lst, st, "apply"), [BASE, wf], st, models={".write": wr}, unroll={"*": 8})
                else:
                    outs = c.run("delta_list_apply(%s)" % kinds, c.anchor(F + "delta_list_apply"), [lst, BASE, wf], st, models={".write": wr}, unroll={"*": 8})
                for k, s, v in outs:
                    if k != "ret":
                        c.ob("apply", False, w, "list %s: raises %s" % (kinds, c.excname(s, v)), s.events())
                        continue
                    t = gp(s, g)
                    # data of exactly the size of a chunk is written as a whole
                    want = concat(const(b""), *[slice_(BASE, x.so, lin_add(x.so, x.ts)) if x.data is NONE else
                                    x.data if s.facts.ask(c_le0(lin_add(length(x.data), x.ts, -1))) is True else slice_(x.data, ZERO, x.ts) for x in ps])
                    c.ob("apply", True if t is want else None if unknown(t) else False, w, "list %s: writes %s" % (kinds, show(t)[:100]), s.events())

    def bounds(c):
        for off in (ZERO, sym("off", "int")):
            for kinds in ("", "c", "d", "cd", "dcc"):
                st = I.fresh_state()
                if off is not ZERO:
                    st.facts.assume(c_le0(scale(off, -1)), True)
                st, lst, ps, known, total = make(st, kinds, "x", off)
                known.add(off)
                end = total if kinds else ZERO
                want = {"lbound": off if kinds else ZERO, "rbound": end, "size": lin_add(end, off, -1) if kinds else ZERO}
                for m, x in want.items():
                    for k, s, v in c.run(m, c.method(lst, st, m), [], st.fork()):
                        c.ob("bounds", k == "ret" and same_int(s.facts, v, x, known), W + "DeltaChunkList." + m, "list %s: is %s, expected %s" % (kinds, show(v)[:60], show(x)[:60]), s.events())

    def chain(c):
        w = W + "connect_deltas"
        rnd = random.Random(5)
        for case in range(40 if c.thorough else 16):
            n = 1 + case % 4
            # a copy of 65536 bytes has no size
            base = 66000 if case == 1 else rnd.choice((30, 100, 300))
            level = [("b", i) for i in range(base)]
            ds = []
            for i in range(n):
                src = len(level)
                cmd, res = b"", []
                if case == 1:
                    o = rnd.randrange(src - 65536 + 1)
                    cmd += copy(o, 65536, rnd)
                    res += level[o:o + 65536]
                for j in range(rnd.choice((1, 2, 4, 6))):
                    if rnd.random() < .5:
                        o = rnd.randrange(src)
                        z = rnd.randrange(1, min(src - o, 300) + 1)
                        cmd += copy(o, z, rnd)
                        res += level[o:o + z]
                    else:
                        d = bytes(rnd.randrange(256) for _ in range(rnd.choice((1, 2, 5, 127))))
                        cmd += bytes([len(d)]) + d
                        res += [("d", x) for x in d]
                ds.append(msb(src) + msb(len(res)) + cmd)
                level = res
            st = I.fresh_state()
            st.facts.assume(eq(length(BASE), const(base)), True)
            zs = []
            data = {}
            for d in reversed(ds):
                o = opaque(st, "dstream")
                st.w(o.args[0]).f["size"] = const(len(d))
                data[o] = const(d)
                zs.append(o)

            def rd(I, st, args, kw, fr, X, nn):
                if args[0] in data and (len(args) == 1 or is_const(args[1]) and cval(args[1]) is not None and cval(args[1]) < 0):
                    return [(st, data[args[0]])]
                return I.effect2(".read", list(args), kw, st, fr, nn, I.fresh(st, "part", "bytes"))
            g = ghost(st)
            sink = opaque(st, "sink")

            def wr(I, st, args, kw, fr, X, nn):
                ghost_add(st, g, I.val(args[-1], st))
                return [(st, NONE)]
            what = "chain %d of %d deltas" % (case, n)
            M = {".read": rd, ".write": wr}
            for k, s, v in c.run("connect_deltas(%s)" % what, c.anchor(F + "connect_deltas"), [tup(*zs)], st, models=M, unroll={"*": 4000}, max_states=3000000):
                if k != "ret":
                    c.ob("chain", False, w, "%s: raises %s" % (what, c.excname(s, v)), s.events())
                    continue
                for k2, s2, v2 in c.run("apply", c.method(v, s, "apply"), [BASE, T("attr", sink, "write")], s, models=M, unroll={"*": 4000}, max_states=3000000):
                    if k2 != "ret":
                        c.ob("chain", False, w, "%s: apply raises %s" % (what, c.excname(s2, v2)), s2.events())
                        continue
                    got = expand(gp(s2, g))
                    if got is None:
                        c.ob("chain", None, w, "%s: writes %s" % (what, show(gp(s2, g))[:100]))
                        continue
                    bad = next((i for i, (x, y) in enumerate(zip(got, level)) if x != y), None)
                    c.ob("chain", got == level, w, "%s: %d bytes, %d expected%s" % (what, len(got), len(level), "" if bad is None else ", byte %d differs" % bad), s2.events())

    return [("slices", slices), ("merges", merges), ("compress", compress), ("apply", apply), ("bounds", bounds), ("chain", chain)]


def expand(t):
    out = []
    for x in parts(t):
        if is_const(x) and isinstance(cval(x), bytes):
            out += [("d", b) for b in cval(x)]
        elif x.op == "slice" and x.args[0] is BASE and is_const(x.args[1]) and is_const(x.args[2]) and cval(x.args[2]) is not None:
            out += [("b", i) for i in range(cval(x.args[1]), cval(x.args[2]))]
        elif x is BASE:
            return None
        else:
            return None
    return out


def msb(n):
    r = b""
    while True:
        b = n & 0x7f
        n >>= 7
        r += bytes([b | (0x80 if n else 0)])
        if not n:
            return r


def copy(o, z, rnd):
    c, r = 0x80, b""
    for i in range(4):
        b = (o >> 8 * i) & 255
        if b or rnd.random() < .1:
            c |= 1 << i
            r += bytes([b])
    for i in range(3) if z != 65536 else ():
        b = (z >> 8 * i) & 255
        if b or rnd.random() < .1:
            c |= 0x10 << i
            r += bytes([b])
    return bytes([c]) + r
