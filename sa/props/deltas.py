"""C09-C11: delta opcodes, delta chains, base resolution."""
from .common import *


# ------------------------------------------------------------------ C09

def flag(f, c, k):
    """truth of bit k of an opcode on a path"""
    r = f.ask(c_eq0(bits(c, k, 1)))
    return None if r is None else not r


def decode(f, d, m):
    """reference decoding of the command at position m: [(facts, meaning)], one entry per combination of flag bits
    which the facts of the path leave open.  A meaning is ('copy', offset, size, next), ('insert', lo, hi, next) or ('zero',)"""
    c = index(d, m)
    out = []
    p0 = lin_add(m, const(1))

    def go(g, k, acc):
        if k < 0:
            p, off, size = p0, ZERO, ZERO
            for j in range(7):
                if acc[j]:
                    v = index(d, p)
                    p = lin_add(p, const(1))
                    if j < 4:
                        off = lin_add(off, scale(v, 1 << (8 * j)))
                    else:
                        size = lin_add(size, scale(v, 1 << (8 * (j - 4))))
            out.append((g, ("copy", off, size, p)))
            return
        b = flag(g, c, k)
        for v in ((True, False) if b is None else (b,)):
            g2 = g
            if b is None:
                g2 = g.copy()
                if not g2.assume(c_eq0(bits(c, k, 1)), not v):
                    continue
            go(g2, k - 1, {**acc, k: v})

    top = flag(f, c, 7)
    if f.ask(c_eq0(c)) is True:
        return [(f, ("zero",))]
    for t in ((True, False) if top is None else (top,)):
        g = f
        if top is None:
            g = f.copy()
            if not g.assume(c_eq0(bits(c, 7, 1)), not t):
                continue
        if t:
            go(g, 6, {})
            continue
        z = g.ask(c_eq0(c))
        n = lin_add(p0, c)
        if z is not True:
            out.append((g, ("insert", p0, n, n)))
        if z is not False:
            out.append((g, ("zero",)))
    return out


def sizes(f, size):
    """possible meanings of an encoded size: [(facts, size)]"""
    out = []
    for val in (True, False):
        g = f.copy()
        if g.assume(c_eq0(size), val):
            out.append((g, const(0x10000) if val else size))
    return out


def cursors(info, d, f):
    """integer loop variables by which the delta is indexed"""
    used = set()
    for evs, s, bv in info.backs:
        for x in [k for k in s.facts.c] + list(s.facts.b) + [t for t, _ in s.facts.ne] + list(bv.values()):
            for t in subterms(x):
                if isinstance(t, Term) and t.op in ("idx", "slice") and t.args[0] is d:
                    for a in lin_parts(t.args[1])[1]:
                        used.add(a)
    out = []
    for l, (m, iv) in info.mus.items():
        for a in lin_parts(m)[1]:
            if a in used and a.op == "mu" and ty(a) == "int" and a not in out:
                out.append(a)
    return out


def nxt(info, bv, m):
    for l, (x, iv) in info.mus.items():
        if x is m:
            return bv[l]
    return None


def c09(c):
    c.rule("copy-range", "for each combination of the seven flag bits: the copied source range is [offset, offset+size) with offset and size "
           "assembled little-endian from exactly the bytes that are present, and size 0 meaning 0x10000")
    c.rule("copy-bounds", "a copy is performed only if the range lies inside the source buffer")
    c.rule("insert-range", "an opcode 1..127 appends exactly the following opcode bytes of the delta")
    c.rule("advance", "the position in the delta advances by exactly the bytes belonging to the command")
    c.rule("zero-rejected", "opcode 0 is an error")
    c.rule("consumed", "success implies that the delta was consumed exactly to its end")
    c.rule("accepts", "an error implies opcode 0, a copy outside of the source, or a command that reaches beyond the end of the delta")

    def apply(c):
        I = c.I
        st = I.fresh_state()
        src, delta = sym("src", "bytes"), sym("delta", "bytes")
        ss, ds = sym("srcsize", "int"), sym("deltasize", "int")
        o = opaque(st, "sink")
        g = ghost(st)

        def w(I, st, args, kw, fr, X, n):
            ghost_add(st, g, I.val(args[-1], st))
            I.effect2(".write", list(args), kw, st, fr, n, NONE)
            return [(st, NONE)]
        outs = c.run("apply_delta_data", c.anchor("gitdb.fun.apply_delta_data"), [src, ss, delta, ds, T("attr", o, "write")], st, models={".write": w})
        gl = (g.args[0], "p", None)
        seen = set()
        for k, s, v in outs:
            path = s.events()
            main = None
            for e in path:
                if e.kind == "loop" and gl in e.out.mus:
                    cs = cursors(e.out, delta, s.facts)
                    if len(cs) == 1:
                        main = (e, cs[0])
            if main is None:
                # no iteration at all?
                if k == "ret" and gp(s, g) is const(b"") and s.facts.ask(c_le0(ds)) is True:
                    continue
                c.ob("advance", None, "gitdb/fun.py apply_delta_data", "command loop not identified")
                continue
            e, m = main
            info = e.out
            if id(info) not in seen:
                seen.add(id(info))
                for evs, b, bv in info.backs:
                    back(c, info, evs, b, bv, m, delta, src, ss, gl)
            last(c, k, s, path, e, m, delta, src, ss, ds, gl, g)

    def back(c, info, evs, b, bv, m, delta, src, ss, gl):
        wl = ([x for x in flat(evs) if x.kind == "call" and x.label == ".write"] or [None])[-1]
        where = wl or "gitdb/fun.py apply_delta_data"
        got = bv[gl]
        gm = info.mus[gl][0]
        nx = nxt(info, bv, m)
        for f, d in decode(b.facts, delta, m):
            if d[0] == "zero":
                c.ob("zero-rejected", False, where, "opcode 0 is accepted", evs)
            elif d[0] == "insert":
                want = concat(gm, slice_(delta, d[1], d[2]))
                c.ob("insert-range", same(got, want), where, "insert writes %s" % show(tail(got, gm) or got)[:100], evs)
                c.ob("advance", int_same(nx, d[3], f), where, "position after insert: %s" % show(nx)[:80], evs)
            else:
                _, off, size, p = d
                for g2, sz in sizes(f, size):
                    hi = lin_add(off, sz)
                    t = tail(got, gm)
                    c.ob("copy-range", same_slice(t, src, off, hi, g2), where, "copy (size %s) writes %s" % (show(sz)[:60], show(t)[:120] if t is not None else "?"), evs)
                    r = g2.ask(c_le0(lin_add(hi, ss, -1)))
                    c.ob("copy-bounds", True if r is True else False, where, "copied range inside the source: %s" % r, evs)
                c.ob("advance", int_same(nx, p, f), where, "position after copy: %s" % show(nx)[:80], evs)

    def last(c, k, s, path, e, m, delta, src, ss, ds, gl, g):
        where = e
        f = s.facts.copy()
        # regular end of the loop?
        if f.assume(c_le0(lin_add(ds, m, -1)), True):
            if k == "ret":
                c.ob("consumed", True if f.ask(c_eq0(lin_add(m, ds, -1))) is True else False, where, "position == size of the delta at the end", path)
            else:
                c.ob("accepts", f.ask(c_eq0(lin_add(m, ds, -1))) is False, where, "error only if the position is beyond the end", path)
        # or within a command?
        f = s.facts.copy()
        if not f.assume(c_le0(lin_add(ds, m, -1)), False):
            return
        for f, d in decode(f, delta, m):
            if d[0] == "zero":
                c.ob("zero-rejected", k == "exc", where, "opcode 0 %s" % ("raises" if k == "exc" else "ends the delta without an error"), path)
            elif d[0] == "insert":
                c.ob("accepts", False, where, "leaves the loop at an insert command", path)
            else:
                for g2, sz in sizes(f, d[2]):
                    r = g2.ask(c_le0(lin_add(lin_add(d[1], sz), ss, -1)))
                    c.ob("accepts", r is False, where, "leaves the loop early only at a copy outside of the source", path)
                c.ob("copy-bounds", gp(s, g) is e.out.mus[gl][0], where, "nothing is written for a copy outside of the source", path)

    return [("apply_delta_data", apply), ("connect_deltas", connect), ("chunks", chunks)]


def gp(s, g):
    return s.get(g.args[0]).p


def tail(got, gm):
    """what was appended to a loop string in one iteration"""
    ps = got.args[1:] if got.op == "concat" else (got,)
    if ps and ps[0] is gm:
        return concat(*ps[1:]) if len(ps) > 1 else const(b"")
    return None


def same(a, b):
    if a is b:
        return True
    return None if unknown(a) or unknown(b) else False


def int_same(a, b, f):
    if a is None:
        return None
    r = f.ask(c_eq0(lin_add(a, b, -1)))
    return r if r is not None else (None if unknown(a) else False)


def same_slice(t, base, lo, hi, f):
    if t is None:
        return None
    if t.op != "slice" or t.args[0] is not base:
        if t is const(b""):
            return False
        # several writes of adjacent pieces
        return None if unknown(t) or t.op == "concat" else False
    a, b = t.args[1], t.args[2]
    if b is NONE:
        return False
    r1, r2 = f.ask(c_eq0(lin_add(a, lo, -1))), f.ask(c_eq0(lin_add(b, hi, -1)))
    if r1 is True and r2 is True:
        return True
    return None if unknown(a) or unknown(b) else False


def chunk_model(I, st, args, kw, fr, X, n):
    names = ("to", "ts", "so", "data")
    vals = list(args) + [None] * (4 - len(args))
    for i, nm in enumerate(names):
        if nm in kw:
            vals[i] = kw[nm]
    st.emit(Ev("chunk", "chunk", tuple(v or NONE for v in vals), {}, None, I.loc(n, fr), "ok", fr.stack))
    return [(st, T("chunk", *[v or NONE for v in vals]))]


def connect(c):
    """decoding of one delta into chunks"""
    I = c.I
    st = I.fresh_state()
    delta, ds = sym("delta", "bytes"), sym("deltasize", "int")
    o = opaque(st, "dstream")
    st.w(o.args[0]).f["size"] = ds
    pos = {}

    def rd(I, st, args, kw, fr, X, n):
        return I.effect2(".read", list(args), kw, st, fr, n, delta)

    def msb(I, st, args, kw, fr, X, n):
        st.ctr += 1
        r = tup(T("res", "msbpos", st.ctr, "int"), T("res", "msbsize", st.ctr, "int"))
        st.emit(Ev("msb", "msb", tuple(args), kw, r, I.loc(n, fr), "ok", fr.stack))
        return [(st, r)]

    outs = c.run("connect_deltas", c.anchor("gitdb.fun.connect_deltas"), [tup(o)], st,
                 models={".read": rd, "gitdb.fun.msb_size": msb, "gitdb.fun.DeltaChunk": chunk_model,
                         "gitdb.fun.DeltaChunkList.compress": lambda I, st, args, kw, fr, X, n: [(st, args[0])]})
    seen = set()
    for k, s, v in outs:
        path = s.events()
        main = None
        ms = [e for e in path if e.kind == "msb"]
        for e in path:
            if e.kind == "loop" and any(x.kind == "chunk" for b in e.out.backs for x in flat(b[0])):
                cs = cursors(e.out, delta, s.facts)
                if len(cs) == 1:
                    main = (e, cs[0])
        if main is None or len(ms) != 2:
            c.ob("advance", None, "gitdb/fun.py connect_deltas", "command loop not identified")
            continue
        e, m = main
        ss = ms[0].res.args[1]
        for l, (x, iv) in e.out.mus.items():
            if x is m:
                c.ob("advance", iv is ms[1].res.args[0] and ms[1].args[-1] is ms[0].res.args[0], e, "commands start behind the two sizes", path)
        if id(e.out) in seen:
            continue
        seen.add(id(e.out))
        for evs, b, bv in e.out.backs:
            ch = [x for x in flat(evs) if x.kind == "chunk"]
            where = ch[-1] if ch else e
            nx = nxt(e.out, bv, m)
            for f, d in decode(b.facts, delta, m):
                if d[0] == "zero":
                    c.ob("zero-rejected", False, where, "opcode 0 is accepted", evs)
                    continue
                if len(ch) != 1:
                    c.ob("copy-range" if d[0] == "copy" else "insert-range", False if not ch else None, where, "%d chunks for one command" % len(ch), evs)
                    continue
                to, ts, so, data = ch[0].args
                tn = None
                for l, (x, iv) in e.out.mus.items():
                    if x is to:
                        tn = bv[l]
                if d[0] == "insert":
                    c.ob("insert-range", same(data, slice_(delta, d[1], d[2])), where, "chunk data %s" % show(data)[:100], evs)
                    c.ob("insert-range", int_same(ts, index(delta, m), f), where, "chunk size %s" % show(ts)[:100], evs)
                    c.ob("advance", int_same(nx, d[3], f), where, "position after insert", evs)
                    c.ob("advance", int_same(tn, lin_add(to, index(delta, m)), f), where, "target position after insert", evs)
                else:
                    _, off, size, p = d
                    for g2, sz in sizes(f, size):
                        c.ob("copy-range", data is NONE and int_same(so, off, g2), where, "chunk offset %s" % show(so)[:100], evs)
                        c.ob("copy-range", int_same(ts, sz, g2), where, "chunk size %s" % show(ts)[:100], evs)
                        c.ob("copy-bounds", True if g2.ask(c_le0(lin_add(lin_add(off, sz), ss, -1))) is True else False, where, "range inside the source", evs)
                        c.ob("advance", int_same(tn, lin_add(to, sz), g2), where, "target position after copy", evs)
                    c.ob("advance", int_same(nx, p, f), where, "position after copy", evs)


def chunks(c):
    """applying a single chunk"""
    I = c.I
    for nm in ("copy", "insert"):
        st = I.fresh_state()
        base, data = sym("base", "bytes"), sym("data", "bytes")
        to, ts, so = sym("to", "int"), sym("ts", "int"), sym("so", "int")
        for x in (to, ts, so):
            st.facts.assume(c_le0(scale(x, -1)), True)
        g = ghost(st)
        sink = opaque(st, "sink")

        def w(I, st, args, kw, fr, X, n):
            ghost_add(st, g, I.val(args[-1], st))
            I.effect2(".write", list(args), kw, st, fr, n, NONE)
            return [(st, NONE)]
        st, dc = one(c, "gitdb.fun.DeltaChunk", [to, ts, so, NONE if nm == "copy" else data], st)
        for k, s, v in c.run("delta_chunk_apply(%s)" % nm, c.anchor("gitdb.fun.delta_chunk_apply"), [dc, base, T("attr", sink, "write")], st, models={".write": w}):
            got = gp(s, g)
            where = "gitdb/fun.py delta_chunk_apply"
            if k != "ret":
                c.ob("copy-range", False, where, "raises", s.events())
            elif nm == "copy":
                c.ob("copy-range", same_slice(got, base, so, lin_add(so, ts), s.facts), where, "copies %s" % show(got), s.events())
            else:
                whole = s.facts.ask(c_le0(lin_add(length(data), ts, -1)))
                r = True if got is slice_(data, ZERO, ts) or (got is data and whole is True) else (None if unknown(got) else False)
                c.ob("insert-range", r, where, "inserts %s" % show(got), s.events())


# ------------------------------------------------------------------ C10

def mem_obj(s, ref, d=0):
    """the host memory block behind an object (wrappers are looked through)"""
    if ref.op == "bmeth":
        ref = ref.args[0]
    if ref.op == "attr":
        ref = ref.args[0]
    if ref.op == "bound":
        ref = ref.args[1]
    if ref.op != "ref" or d > 3:
        return None
    o = s.get(ref.args[0])
    if o.cls.op == "ext" and o.cls.args[0] in ("mmap.mmap", "io.BytesIO"):
        return ref, o
    out = [mem_obj(s, v, d + 1) for v in o.f.values() if isinstance(v, Term) and v.op == "ref"]
    out = [x for x in out if x]
    return out[0] if len(out) == 1 else None


def m_content(s, ref):
    from ..extmodels import mem_content
    if ty(ref) in ("bytes", "buf"):
        return ref
    m = mem_obj(s, ref)
    return mem_content(m[1]) if m else None


def m_capacity(s, ref):
    m = mem_obj(s, ref)
    if m is None:
        return None
    return m[1].f.get("#len", True) if m[1].cls.args[0] == "mmap.mmap" else True


def msb_model(I, st, args, kw, fr, X, n):
    d = args[0]
    o = args[1] if len(args) > 1 else kw.get("offset", ZERO)
    p, z = T("res", "msbpos", (d, o), "int"), T("res", "msbsize", (d, o), "int")
    st.facts.assume(c_le0(lin_add(lin_add(o, const(1)), p, -1)), True)
    st.facts.assume(c_le0(scale(z, -1)), True)
    return [(st, tup(p, z))]


class Chain:
    pass


def chain_scenario(c, n):
    I = c.I
    st = I.fresh_state()
    x = Chain()
    x.n = n
    x.streams, x.G, x.sizes = [], {}, []
    for i in range(n + 1):
        o = opaque(st, "stream%d" % i)
        w = st.w(o.args[0])
        w.f["size"], w.f["type"], w.f["type_id"] = sym("size%d" % i, "int"), sym("type%d" % i, "bytes"), const(3 if i == n else 6)
        st.facts.assume(c_le0(scale(w.f["size"], -1)), True)
        x.streams.append(o)
        x.sizes.append(w.f["size"])
        x.G[o] = ghost(st)

    def rd(I, st, args, kw, fr, X, nn):
        return reader(x.G[args[0]])(I, st, args, kw, fr, X, nn)

    def ap(I, st, args, kw, fr, X, nn):
        st.ctr += 1
        r = T("res", "result", st.ctr, "bytes")
        names = ("src_buf", "src_buf_size", "delta_buf", "delta_buf_size", "write")
        a = list(args) + [None] * (5 - len(args))
        for i, nm in enumerate(names):
            if nm in kw:
                a[i] = kw[nm]
        if any(v is None for v in a):
            st.emit(Ev("apply?", "apply", tuple(args), kw, r, I.loc(nn, fr), "ok", fr.stack))
            return [(st, NONE)]
        info = dict(src=m_content(st, a[0]), delta=m_content(st, a[2]), dcap=m_capacity(st, a[2]), scap=m_capacity(st, a[0]),
                    tcap=m_capacity(st, a[4]), told=(mem_obj(st, a[4]) or (None, None))[1], same=mem_obj(st, a[0]) and mem_obj(st, a[4]) and mem_obj(st, a[0])[0] is mem_obj(st, a[4])[0],
                    G={o: st.get(g.args[0]).p for o, g in x.G.items()},
                    last={o: (st.get(g.args[0]).f.get("last"), st.get(g.args[0]).f.get("req")) for o, g in x.G.items()})
        st.emit(Ev("apply", "apply", tuple(a), info, r, I.loc(nn, fr), "ok", fr.stack))
        return [(s, NONE) for s, _ in I.call(a[4], [r], {}, st, fr, X, nn)]
    x.models = {".read": rd, "gitdb.fun.msb_size": msb_model, "gitdb.fun.apply_delta_data": ap}
    cls = c.anchor("gitdb.stream.DeltaApplyReader")
    m = I.cls_lookup(cls, "new")
    f = m.args[0] if m is not None and m.op in ("classmethod", "staticmethod") else None
    if f is None:
        raise Anchor("DeltaApplyReader.new")
    outs = c.run("DeltaApplyReader.new(%d deltas)" % n, T("bound", f, cls), [T("seq", *x.streams)], st)
    r = [(s, v) for k, s, v in outs if k == "ret"]
    if len(r) != 1:
        c.ob("accepts", False if not r else None, "DeltaApplyReader.new", "a chain of %d deltas and a base is accepted" % n, outs[0][1].events() if outs else None)
        raise Anchor("DeltaApplyReader.new result")
    x.st, x.dr = r[0]
    return x


def first_reads(path, streams):
    out = {}
    for e in flat(path):
        if e.kind == "call" and e.label == ".read" and e.args and e.args[0] in streams and e.args[0] not in out and e.out == "ok":
            out[e.args[0]] = e
    return out


def last_reads(path, streams):
    """the last read of each stream on a path (loop bodies are followed by the final iteration)"""
    out = {}
    for e in path:
        if e.kind == "call" and e.label == ".read" and e.args and e.args[0] in streams and e.out == "ok":
            out[e.args[0]] = e
    return out


def num_arg(e):
    num = [a for a in e.args[1:] if ty(a) == "int" or a.op in ("lin", "min", "max")]
    return num[-1] if num else None


def c10(c):
    c.rule("order", "deltas are applied from the last one in the list to the first, each exactly once")
    c.rule("source", "the source of the first delta is the complete base, the source of each other delta is the result of the one before")
    c.rule("delta-bytes", "each delta's commands are exactly the bytes of its stream behind the two sizes, read to the end")
    c.rule("header", "the two sizes are taken from the start of the delta stream, from a read large enough to contain them")
    c.rule("sizes-checked", "a result is only delivered if each delta's declared source size equals the size of its source, and its declared target size the size of its result")
    c.rule("capacity", "the buffers hold the base, and every intermediate result")
    c.rule("result", "size() is the target size of the first delta, and reading delivers its result from the start")
    c.rule("type", "type and type id are the base's")
    c.rule("accepts", "a chain whose declared sizes agree is not refused")
    c.rule("refuses", "less than two streams, or a list ending in a delta, are refused with ValueError")
    c.rule("read-bounds", "read returns at most the requested bytes and at most what is left, and advances by what it returned; seek(0) starts over")
    c.assumptions += ["a stream's read returns less than requested only at its end", "apply_delta_data is covered by C09, msb_size by C12"]

    def chains(c):
        for n in (1, 2, 3) + ((4, 5) if c.thorough else ()):
            x = chain_scenario(c, n)
            f = c.I.cls_lookup(x.st.get(x.dr.args[0]).cls, "size")
            if f is None or f.op != "prop":
                raise Anchor("DeltaApplyReader.size")
            outs = c.run("size of a chain of %d" % n, f.args[0], [x.dr], x.st, models=x.models)
            rets = 0
            done = 0
            for k, s, v in outs:
                path = s.events()
                if k == "exc":
                    refused(c, x, s, path)
                    continue
                rets += 1
                check_chain(c, x, s, path, v)
                # reading the whole result, for some of the paths
                key = tuple(e.label for e in path if e.kind == "call")
                if done < 24 and n < 3 or done < 6:
                    done += 1
                    reads(c, x, s, v)
            c.ob("order", True if rets else None, "DeltaApplyReader", "%d successful paths" % rets)
            for nm in ("type", "type_id"):
                for s, v in attr(c, x.st.fork(), x.dr, nm):
                    c.ob("type", v is x.st.get(x.streams[-1].args[0]).f[nm], "DeltaApplyReader.%s" % nm, "is %s" % show(v))

    def new(c):
        I = c.I
        cls = c.anchor("gitdb.stream.DeltaApplyReader")
        m = I.cls_lookup(cls, "new")
        f = T("bound", m.args[0], cls)
        for nm, tids in (("one stream", (3,)), ("no stream", ()), ("OFS base", (6, 6)), ("REF base", (6, 7)), ("REF base", (6, 6, 7))):
            st = I.fresh_state()
            l = []
            for t in tids:
                o = opaque(st, "s")
                st.w(o.args[0]).f.update(type_id=const(t), type=sym("t", "bytes"), size=sym("z", "int"))
                l.append(o)
            for k, s, v in c.run("new(%s)" % nm, f, [T("seq", *l)], st):
                ok = k == "exc" and c.is_exc(s, v, "ValueError")
                c.ob("refuses", ok, "gitdb/stream.py DeltaApplyReader.new", "%s: %s" % (nm, "ValueError" if ok else "accepted" if k == "ret" else c.excname(s, v)), s.events())
    return [("chains", chains), ("new", new)]


def headers(x, path):
    """(first read event, offset of the commands, source size, target size) per delta stream"""
    out = []
    fr = first_reads(path, x.streams)
    for o in x.streams[:-1]:
        e = fr.get(o)
        if e is None:
            out.append(None)
            continue
        d = e.res
        p1 = T("res", "msbpos", (d, ZERO), "int")
        out.append((e, T("res", "msbpos", (d, p1), "int"), T("res", "msbsize", (d, ZERO), "int"), T("res", "msbsize", (d, p1), "int")))
    return out


def refused(c, x, s, path):
    hs = headers(x, path)
    ap = [e for e in path if e.kind == "apply"]
    where = (ap[-1] if ap else None) or ([e for e in path if e.kind == "call" and e.loc] or [None])[-1] or "DeltaApplyReader"
    if any(h is None for h in hs):
        c.ob("accepts", None, where, "fails before the sizes were read", path)
        return
    prev = x.sizes[-1]
    bad = False
    for i in range(x.n - 1, -1, -1):
        if s.facts.ask(c_eq0(lin_add(hs[i][2], prev, -1))) is False:
            bad = True
        prev = hs[i][3]
    for j, e in enumerate(ap):
        i = x.n - 1 - j
        if i >= 0 and s.facts.ask(c_eq0(lin_add(length(e.res), hs[i][3], -1))) is False:
            bad = True
    c.ob("accepts", bad, where, "refused although the declared sizes agree" if not bad else "refused because of a size mismatch", path)


def check_chain(c, x, s, path, v):
    hs = headers(x, path)
    loops = loops_of(path)
    ap = [e for e in path if e.kind == "apply"]
    un = [e for e in flat(path) if e.kind == "apply?"]
    if un or any(h is None for h in hs):
        c.ob("order", None, "DeltaApplyReader", "applications not identified", path)
        return
    if len(ap) != x.n:
        c.ob("order", False if len([e for e in flat(path) if e.kind == "apply"]) == len(ap) else None, ap[-1] if ap else "DeltaApplyReader", "%d of %d deltas applied" % (len(ap), x.n), path)
        return
    f = s.facts
    lr = last_reads(path, x.streams)
    prev_res, prev_size = None, x.sizes[-1]
    for j, e in enumerate(ap):
        i = x.n - 1 - j
        o = x.streams[i]
        he, off, src, tgt = hs[i]
        info = e.kw
        # which delta?
        mine = None
        if info["delta"] is not None:
            for q, oq in enumerate(x.streams[:-1]):
                if hs[q][0].res in reach(info["delta"], loops):
                    mine = q
        c.ob("order", mine == i if mine is not None else None, e, "application %d uses delta %s" % (j, mine), path)
        if mine != i:
            return
        n0 = num_arg(he)
        c.ob("header", None if n0 is None else f.ask(c_le0(lin_add(const(20), n0, -1))) is True, he, "first read of %s bytes" % (show(n0) if n0 is not None else "?"), path)
        Gi = info["G"][o]
        c.ob("delta-bytes", seq_eq(concat(slice_(he.res, ZERO, off), info["delta"]), Gi, loops, f), e, "commands of delta %d" % i, path)
        le = lr.get(o)
        c.ob("delta-bytes", drained(le, Gi, x.sizes[i], f, loops, info["last"][o]), le or e, "delta %d is read to its end" % i, path)
        cap = info["dcap"]
        if cap is not None and cap is not True:
            c.ob("capacity", int_le(lin_add(x.sizes[i], off, -1), cap, f, loops) or False, e, "buffer of delta %d" % i, path)
            r = int_eq(e.args[3], lin_add(x.sizes[i], off, -1), f, loops)
            c.ob("delta-bytes", r, e, "size of delta %d: %s" % (i, show(e.args[3])[:80]), path)
        # source
        if j == 0:
            Gb = info["G"][x.streams[-1]]
            c.ob("source", None if info["src"] is None else seq_eq(info["src"], Gb, loops, f), e, "base content", path)
            c.ob("source", drained(lr.get(x.streams[-1]), Gb, x.sizes[-1], f, loops, info["last"][x.streams[-1]]), e, "the base is read to its end", path)
            if info["scap"] not in (None, True):
                c.ob("capacity", int_le(x.sizes[-1], info["scap"], f, loops) or False, e, "buffer of the base: %s" % show(info["scap"])[:80], path)
        else:
            c.ob("source", None if info["src"] is None else info["src"] is prev_res or (None if unknown(info["src"]) else False), e, "result of the previous delta", path)
        c.ob("source", not info["same"], e, "source and target are different buffers", path)
        c.ob("sizes-checked", f.ask(c_eq0(lin_add(src, prev_size, -1))) is True, e, "declared source size of delta %d equals the actual one" % i, path)
        c.ob("sizes-checked", f.ask(c_eq0(lin_add(length(e.res), tgt, -1))) is True, e, "declared target size of delta %d equals the actual one" % i, path)
        r = int_eq(e.args[1], prev_size, f, loops)
        c.ob("source", r if r is not None or unknown(e.args[1]) else False, e, "size of the source: %s" % show(e.args[1])[:80], path)
        if info["tcap"] not in (None, True):
            c.ob("capacity", int_le(tgt, info["tcap"], f, loops) or False, e, "buffer of the result of delta %d: %s" % (i, show(info["tcap"])[:80]), path)
        if info["told"] is not None:
            from ..extmodels import EMPTY
            c.ob("source", info["told"].f.get("#new", EMPTY) is EMPTY and info["told"].f.get("#rd", ZERO) is ZERO, e, "the target buffer is rewound", path)
        prev_res, prev_size = e.res, tgt
    c.ob("result", int_eq(v, hs[0][3], f, loops) or False, ap[-1], "reported size %s" % show(v)[:80], path)


def reach(t, loops):
    """the terms a term consists of; loop variables are looked through to their initial values"""
    ini = {m: x[2] for m, x in loops.items()}
    seen, todo = set(), [t]
    while todo:
        for u in subterms(todo.pop()):
            if isinstance(u, Term) and u not in seen:
                seen.add(u)
                if u in ini:
                    todo.append(ini[u])
    return seen


def drained(e, G, size, f, loops, last):
    """was a stream read to its end?"""
    if ended_(last[0], last[1], f) is True:
        return True
    if e is None:
        return None
    n = num_arg(e)
    if n is None:
        return True
    if f.ask(c_le0(lin_add(lin_add(length(e.res), const(1)), n, -1))) is True:
        return True
    r = int_le(size, length(G), f, loops)
    return True if r is True else False


def reads(c, x, s, size):
    """read(n), read(), seek(0) after the result was computed"""
    I = c.I
    ap = [e for e in s.events() if e.kind == "apply"][-1]
    n = sym("n", "int")
    s0 = s.fork()
    s0.trace = None
    left0 = size

    def one_read(st, arg, left, pos, what):
        out = []
        for k, s2, v in c.run("read(%s)" % what, c.method(x.dr, st, "read"), [arg] if arg is not None else [], st):
            path = s2.events()
            rd = [e for e in flat(path) if e.kind == "call" and e.label in ("mmap.read", "BytesIO.read")]
            if k != "ret" or len(rd) != 1:
                c.ob("read-bounds", None if k == "ret" else False, "DeltaApplyReader.read", "one read of the result buffer", path)
                continue
            e = rd[0]
            want = m_content(s2, e.args[0])
            c.ob("result", want is ap.res or (None if want is None or unknown(want) else False), e, "reads from the result of the last delta", path)
            c.ob("result", v is e.res or (None if unknown(v) else False), e, "returns what was read", path)
            cnt = e.args[1] if len(e.args) > 1 else None
            if cnt is None:
                c.ob("read-bounds", None, e, "unlimited read", path)
                continue
            f = s2.facts
            c.ob("read-bounds", f.ask(c_le0(lin_add(cnt, left, -1))) is True, e, "read(%s) reads at most what is left" % what, path)
            if arg is not None:
                neg = f.ask(c_le0(arg))
                fit = f.ask(c_le0(lin_add(arg, left, -1)))
                if neg is True or fit is False:
                    w = left
                elif neg is False and fit is True:
                    w = arg
                else:
                    w = None
                if neg is not True:
                    c.ob("read-bounds", f.ask(c_le0(lin_add(cnt, arg, -1))) is True, e, "read(%s) reads at most what was requested" % what, path)
                if w is not None:
                    c.ob("read-bounds", f.ask(c_eq0(lin_add(cnt, w, -1))) is True, e, "read(%s) delivers as much as possible" % what, path)
            else:
                c.ob("read-bounds", f.ask(c_eq0(lin_add(cnt, left, -1))) is True, e, "read() delivers the rest", path)
            m = mem_obj(s2, e.args[0])
            r = lin_add(lin_add(m[1].f.get("#rd", ZERO), length(m[1].f.get("#new", const(b"")))), lin_add(pos, length(e.res)), -1) if m else None
            c.ob("result", None if r is None else f.ask(c_eq0(r)) is True, e, "continues where the previous read ended", path)
            out.append((s2, v))
        return out
    for s1, v1 in one_read(s0.fork(), n, left0, ZERO, "n"):
        s1.trace = None
        l2, p2 = lin_add(left0, length(v1), -1), length(v1)
        for s2, v2 in one_read(s1.fork(), None, l2, p2, "") + one_read(s1.fork(), sym("n2", "int"), l2, p2, "n2"):
            s2.trace = None
            one_read(s2.fork(), sym("n3", "int"), lin_add(l2, length(v2), -1), lin_add(p2, length(v2)), "n3")
            for k, s3, v3 in c.run("seek(0)", c.method(x.dr, s2, "seek"), [ZERO], s2):
                if k != "ret":
                    c.ob("read-bounds", False, "DeltaApplyReader.seek", "seek(0) fails", s3.events())
                    continue
                s3.trace = None
                one_read(s3, None, left0, ZERO, "after seek")
            break
    one_read(s0.fork(), None, left0, ZERO, "")
    for a in ([const(1)], [ZERO, const(1)]):
        for k, s3, v3 in c.run("seek", c.method(x.dr, s0, "seek"), a, s0.fork()):
            c.ob("read-bounds", k == "exc" and c.is_exc(s3, v3, "ValueError"), "gitdb/stream.py DeltaApplyReader.seek", "only seek(0) is accepted", s3.events())
