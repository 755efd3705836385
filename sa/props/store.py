"""C01-C06: storing an object (LooseObjectDB.store and its writers)."""
from .common import *
from ..facts import empty

FS_FAIL = {"tempfile.mkstemp", "os.write", "os.close", "os.rename", "os.replace", "os.link", "os.makedirs", "os.mkdir",
           "compress.compress", "compress.flush", "file.write", "os.fsync", "os.fdopen"}
MOVES = {"os.rename", "os.replace", "os.link", "shutil.move", "os.renames"}
REMOVES = {"os.remove", "os.unlink"}
EXISTS = {"os.path.isfile", "os.path.exists", "os.path.lexists", "os.access", "os.stat", "os.lstat"}
MUST_PROPAGATE = {".read", "os.write", "compress.compress", "compress.flush", "tempfile.mkstemp", "os.close", "file.write",
                  "os.rename", "os.replace", "os.link"}
MUTATE = {"tempfile.mkstemp", "os.open", "builtins.open", "os.makedirs", "os.mkdir", "os.rename", "os.replace", "os.link", "os.remove",
          "os.unlink", "os.chmod", "os.truncate", "os.symlink", "os.rmdir", "shutil.move", "shutil.copy", "shutil.copyfile",
          "os.write", "os.ftruncate", "os.utime"}


def raises_all(label):
    if label == ".read":
        return "builtins.Exception"
    return "builtins.OSError" if label in FS_FAIL else None


def raises_any(label):
    # an interrupt is a failure as well, it usually hits while waiting for the source
    return ("builtins.Exception", "builtins.KeyboardInterrupt") if label == ".read" else raises_all(label)


def raises_chmod(label):
    return "builtins.PermissionError" if label in ("os.chmod", "os.fchmod") else None


def mover(w):
    """publication: remember what the file contains at that moment"""
    def mk(lbl):
        def h(I, st, args, kw, fr, X, n):
            I.may_raise(lbl, args, kw, st, fr, X, n)
            st.emit(Ev("call", lbl, tuple(args), kw, NONE, I.loc(n, fr), "ok", fr.stack))
            z = [o for _, o in find(st, "#compress")]
            st.emit(Ev("pub", lbl, (args[0], args[1], st.get(w.args[0]).p,
                                    tup(*[tup(o.f["fed"], o.f["out"], o.f["flushed"]) for o in z])), None, None, I.loc(n, fr), "ok", fr.stack))
            return [(st, NONE)]
        return h
    return {l: mk(l) for l in MOVES}


class Sc:
    pass


def store_scenario(c, name, raw=False, ostream=None, raises=None, short=False, typ="bytes"):
    I = c.I
    st = I.fresh_state()
    root = sym("root", "str")
    st, db = one(c, "gitdb.db.loose.LooseObjectDB", [root], st)
    src = opaque(st, "source")
    t, size = sym("type", typ), sym("size", "int")
    st.facts.assume(c_le0(scale(size, -1)), True)
    sha = sym("givensha", "bytes")
    st.facts.assume(c_eq0(lin_add(length(sha), const(-20))), True)
    args = [t, size, src] + ([sha] if raw else [])
    st, ist = one(c, "gitdb.base.IStream", args, st)
    x = Sc()
    g, w = ghost(st), ghost(st)
    x.writer = None
    if ostream:
        st, x.writer = ostream(c, st)
        for s, v in c.I.run(c.method(db, st, "set_ostream"), [x.writer], st, None, Opts()) and \
                [(s, v) for k, s, v in c.I.run(c.method(db, st, "set_ostream"), [x.writer], st, None, Opts()) if k == "ret"]:
            st = s
        st.trace = None
    models = {".read": reader(g), "os.write": fdw(w), "file.write": fdw_file(w)}
    models.update(mover(w))
    x.outs = c.run(name, c.method(db, st, "store"), [ist], st, models=models, raises=raises, short_writes=short)
    x.db, x.ist, x.src, x.g, x.w, x.root, x.type, x.size, x.sha, x.raw = db, ist, src, g, w, root, t, size, sha, raw
    hdr_t = t
    x.header = lambda: concat(bytes_of_type(t), const(b" "), T("encode", T("dec", size)) if False else dec_bytes(size), const(b"\0"))
    return x


def bytes_of_type(t):
    from ..extmodels import encode, text
    return t if ty(t) == "bytes" else encode(t)


def dec_bytes(size):
    from ..extmodels import encode
    return encode(T("dec", size))


def fdw_file(w):
    def h(I, st, args, kw, fr, X, n):
        I.may_raise("file.write", args, kw, st, fr, X, n)
        st.emit(Ev("call", "file.write", tuple(args), kw, length(args[1]), I.loc(n, fr), "ok", fr.stack))
        ghost_add(st, w, args[1])
        return [(st, length(args[1]))]
    return h


def gp(s, g):
    return s.get(g.args[0]).p


def where_of(c, s, default="gitdb/db/loose.py store"):
    """a location for an end-of-path finding: the last effect of the path"""
    ev = [e for e in flat(s.events()) if e.kind == "call" and e.loc]
    return ev[-1].loc if ev else default


def first_loc(evs, *labels):
    for e in flat(evs):
        if e.kind == "call" and e.label in labels:
            return e.loc
    return None


def strip_hex(t):
    """payload of a textual or binary sha value: sha1(P) -> P"""
    from ..extmodels import m_a2b
    while t.op in ("hexstr", "a2b", "b2a", "bytes", "str", "as", "encode", "decode") and t.args:
        t = t.args[-1] if isinstance(t.args[-1], Term) else t.args[0]
    return t


def seq_final(a, b, loops, facts):
    return seq_eq(a, b, loops, facts)


def published_at(evs):
    return [e for e in flat(evs) if e.kind == "pub"]


def unwrap(t):
    while t.op in ("decode", "encode", "as", "str", "bytes", "tobytes", "hexstr") and t.args:
        t = t.args[-1] if isinstance(t.args[-1], Term) else t.args[0]
    return t


def path_name(dst):
    """(directory terms, 2-character part, rest) of an object path root/xx/yyyy"""
    if dst.op != "join_path" or len(dst.args) < 3:
        return None
    return dst.args[:-2], unwrap(dst.args[-2]), unwrap(dst.args[-1])


def named_by(dst, root, binsha):
    """is dst == root/hex(binsha)[:2]/hex(binsha)[2:]?"""
    p = path_name(dst)
    if p is None:
        return None
    d, a, b = p
    if a.op != "slice" or b.op != "slice":
        return None if unknown(a) or unknown(b) else False
    if not (a.args[1] is ZERO and is_const(a.args[2]) and cval(a.args[2]) == 2 and is_const(b.args[1]) and cval(b.args[1]) == 2
            and (b.args[2] is NONE or is_const(b.args[2]) and cval(b.args[2]) == 40)):
        return False
    x, y = unwrap(a.args[0]), unwrap(b.args[0])
    if x is not y:
        return False
    if not (len(d) == 1 and d[0] is root):
        return None if any(unknown(q) for q in d) else False
    return (x.op == "b2a" and x.args[0] is binsha) or (x.op == "sha1" and False) or (x.op == "b2a" and strip_hex(x) is strip_hex(binsha)) \
        or (None if unknown(x) else False)


# ------------------------------------------------------------------ C01

def check_object(c, x, s, path):
    loops = loops_of(path)
    G = gp(s, x.g)
    P = concat(x.header(), G)
    for s2, b in attr(c, s, x.ist, "binsha"):
        h = strip_hex(b)
        wl = first_loc(path, "sha.update") or where_of(c, s)
        if x.raw:
            c.ob("id-given", b is x.sha or h is x.sha, wl, "the id of a raw stream is the given one, is %s" % show(b)[:80], path)
            continue
        if h.op != "sha1":
            c.ob("id-is-sha1", False if not unknown(h) else None, where_of(c, s), "the resulting id is not the SHA-1 of the object: %s" % show(b)[:120], path)
            continue
        r = seq_eq(h.args[0], P, loops)
        c.ob("id-is-sha1", r, wl, "SHA-1 is taken over '<type> <size>\\0' followed by exactly the bytes read from the source", path)
        r = int_eq(length(G), x.size, s.facts, loops)
        c.ob("complete", r, first_loc(path, ".read") or where_of(c, s), "success is only reported if exactly the declared amount of bytes was consumed", path)


def check_file(c, x, s, path, e):
    """content of the file at the moment it is published"""
    loops = loops_of(path)
    src, dst, W, zs = e.args
    for s2, b in attr(c, s, x.ist, "binsha"):
        c.ob("file-name", named_by(dst, x.root, b), e, "the file is published as <root>/<2 hex digits>/<38 hex digits> of the id", path)
    G = gp(s, x.g)
    if x.raw:
        r = seq_final(W, G, loops, s.facts)
        c.ob("file-content", r, e, "the published file holds exactly the bytes of the raw stream", path)
        return
    P = concat(x.header(), G)
    if W.op == "bytes" and W.args[0].op == "zcompress":
        c.ob("file-content", seq_eq(W.args[0].args[0], P, loops), e, "the published file holds the compressed object", path)
        return
    if len(zs.args) != 1:
        c.ob("file-content", None, e, "compression object not identified (%d)" % len(zs.args), path)
        return
    fed, out, fl = zs.args[0].args
    c.ob("file-compressed", seq_eq(fed, P, loops), e, "exactly the hashed bytes are compressed", path)
    c.ob("file-content", seq_final(W, out, loops, s.facts), e, "all of the compressed bytes are in the published file", path)
    c.ob("file-flushed", fl is TRUE, e, "the compressor is flushed before the file is published", path)


def c01(c):
    c.rule("id-is-sha1", "on every successful path the id is sha1('<type> <size>\\0' ++ bytes read), proved by loop induction over the copy loop")
    c.rule("complete", "on every successful path the amount of bytes read equals the declared size")
    c.rule("file-compressed", "the byte string fed to the compressor equals the byte string that was hashed")
    c.rule("file-content", "the bytes written to the published file equal the compressor's output (or the raw stream)")
    c.rule("file-flushed", "the compressor is flushed before publication")
    c.rule("file-name", "the name of the published file is the id")
    c.rule("no-overread", "no read asks the source for more than what remains of the declared size")
    c.rule("accepts", "a failing path without a failing effect is one on which the source ended early")
    c.rule("id-given", "raw streams keep their id")
    c.rule("raw-eof", "raw streams are copied until the source signals its end")
    c.assumptions += ["read(n) of the source returns at most n bytes", "zlib.compressobj/hashlib.sha1 behave as documented"]

    def loose(c):
        for t in ("bytes", "str"):
            x = store_scenario(c, "store(%s type)" % t, typ=t, raises=raises_all, short=True)
            n = 0
            for k, s, v in x.outs:
                if k == "exc":
                    spurious(c, x, s, s.events())
                if k == "ret":
                    n += 1
                    path = s.events()
                    check_object(c, x, s, path)
                    overread(c, x, s, path)
                    for e in published_at(path):
                        check_file(c, x, s, path, e)
            c.ob("id-is-sha1", True if n else None, "LooseObjectDB.store", "%d successful paths" % n)

    def raw(c):
        x = store_scenario(c, "store(raw)", raw=True, raises=raises_all, short=True)
        for k, s, v in x.outs:
            if k == "ret":
                path = s.events()
                check_object(c, x, s, path)
                for e in published_at(path):
                    check_file(c, x, s, path, e)
                raw_eof(c, x, s, path)

    def memory(c):
        for nm in ("Sha1Writer", "FlexibleSha1Writer", "ZippedStoreShaWriter"):
            x = store_scenario(c, "store(%s)" % nm, ostream=mk_writer(nm))
            for k, s, v in x.outs:
                if k == "ret":
                    check_object(c, x, s, s.events())

    return [("loose", loose), ("raw", raw), ("memory", memory)]


def overread(c, x, s, path):
    """no read requests more than what remains of the declared size"""
    loops = loops_of(path)

    def go(evs, facts):
        for e in evs:
            if e.kind == "loop":
                for b in e.out.backs:
                    go(b[0], b[1].facts)
            elif e.kind == "call" and e.label == ".read" and "#before" in e.kw:
                num = [a for a in e.args[1:] if ty(a) == "int" or a.op in ("lin", "min", "max")]
                if not num:
                    c.ob("no-overread", None, e, "size of the read not identified", path)
                    continue
                r = int_le(num[-1], lin_add(x.size, length(e.kw["#before"]), -1), facts, loops)
                c.ob("no-overread", r, e, "reads at most the remaining %s" % show(num[-1]), path)
    go(path, s.facts)


def spurious(c, x, s, path):
    if any(e.kind == "call" and (str(e.out).startswith("raise") or e.out == "short") for e in flat(path)):
        return
    rd = [e for e in path if e.kind == "call" and e.label == ".read" and e.out == "ok"]
    if not rd:
        # an empty object needs no reading, but it isn't refused
        c.ob("accepts", False if s.facts.ask(c_eq0(x.size)) is True else None, where_of(c, s), "fails without reading", path)
        return
    e = rd[-1]
    num = [a for a in e.args[1:] if ty(a) == "int" or a.op in ("lin", "min", "max")]
    r = s.facts.ask(c_le0(lin_add(lin_add(length(e.res), const(1)), num[-1], -1))) if num else None
    c.ob("accepts", r, e, "an object is only refused if its source delivers less than the declared size", path)


def raw_eof(c, x, s, path):
    rd = [e for e in path if e.kind == "call" and e.label == ".read" and e.out == "ok"]
    last = s.get(x.g.args[0]).f.get("last")
    if ended(s, x.g) is True or last is not None and s.facts.ask(c_eq0(length(last))) is True:
        c.ob("raw-eof", True, rd[-1] if rd else where_of(c, s), "the copy loop ends only when the source is exhausted", path)
        return
    if not rd:
        c.ob("raw-eof", None, where_of(c, s), "no read on the path", path)
        return
    e = rd[-1]
    num = [a for a in e.args[1:] if ty(a) == "int" or a.op in ("lin", "min", "max")]
    r = s.facts.ask(c_eq0(length(e.res)))
    if r is not True and num:
        r2 = s.facts.ask(c_le0(lin_add(lin_add(length(e.res), const(1)), num[-1], -1)))
        if r2 is True:
            r = True
        else:
            r = None if r is None and r2 is None else False
            # everything up to the platform's maximum was requested
            srcs = [num[-1]] + [iv for m, (i, l, iv) in loops_of(path).items() if iv is not None] + [e2.args[0] for e2 in path if e2.kind == "assume"]
            sub = [y for q in srcs for y in subterms(q) if isinstance(y, Term)]
            for m in [cval(y) for y in sub if is_const(y) and isinstance(cval(y), int)] + [abs(lin_parts(y)[0]) for y in sub if y.op == "lin"]:
                if m >= 2 ** 31 - 1 and int_eq(length(gp(s, x.g)), const(m), s.facts, loops_of(path)) is True:
                    r = True
            if r is None and (is_const(num[-1]) or num[-1].op in ("sym", "attr")):
                # a full read is possible here
                g = s.facts.copy()
                if g.assume(c_eq0(lin_add(length(e.res), num[-1], -1)), True) and not empty(g):
                    r = False
    c.ob("raw-eof", r if r is not None else None, e, "the copy loop ends only when the source is exhausted", path)


def mk_writer(nm):
    def f(c, st):
        if nm == "FlexibleSha1Writer":
            sink = opaque(st, "sink")
            return one(c, "gitdb.stream." + nm, [T("attr", sink, "write")], st)
        return one(c, "gitdb.stream." + nm, [], st)
    return f


# ------------------------------------------------------------------ typestate of the temporary file

def tmp_of(path):
    for e in flat(path):
        if e.kind == "call" and e.label == "tempfile.mkstemp" and e.out == "ok":
            return e
    return None


def c02(c):
    c.rule("temp-in-root", "the temporary file is created inside the database root, so that publishing is a rename within one filesystem")
    c.rule("publish-by-rename", "the final name only comes into existence by renaming/linking the temporary file")
    c.rule("closed-before-publish", "the temporary file is flushed and closed before it gets its final name")
    c.rule("no-write-after-publish", "no byte is written once the file has its final name")
    c.rule("complete-content", "the file is complete at the moment it is published")

    def part(c):
        for raw in (False, True):
            x = store_scenario(c, "store(raw=%s)" % raw, raw=raw, raises=raises_all, short=True)
            for k, s, v in x.outs:
                path = s.events()
                tm = tmp_of(path)
                if tm is None:
                    continue
                fd, tp = tm.res.args
                d = tm.kw.get("dir")
                ok = d is x.root if d is not None and (d.op in ("sym", "const")) else (False if d is None else None)
                if ok is not True and d is not None and mentions(d, x.root):
                    ok = True
                if ok is None and d.op == "res" and str(d.args[0]).startswith("tempfile."):
                    ok = False
                c.ob("temp-in-root", ok, tm, "directory of the temporary file: %s" % (show(d) if d is not None else "system default"), path)

                def delta(q, e):
                    if e.kind == "pub":
                        return "pub" if q in ("closed", "pub") else "pubopen"
                    if e.kind != "call":
                        return q
                    if e.label == "os.close" and e.args and e.args[0] is fd:
                        return "closed" if q == "open" else q
                    if e.label in ("file.close",):
                        return "closed" if q == "open" else q
                    if e.label in ("os.write", "file.write") and q == "pub":
                        return "late"
                    if e.label == "tempfile.mkstemp" and e.out == "ok":
                        return "open"
                    return q
                qs = fold(path, delta, {"none"})
                for e in published_at(path):
                    src, dst, W, zs = e.args
                    c.ob("publish-by-rename", src is tp or (None if unknown(src) else False), e, "source of the publication is the temporary file", path)
                    c.ob("closed-before-publish", "pubopen" not in qs, e, "closed before it is published", path)
                    c.ob("no-write-after-publish", "late" not in qs, e, "no later write", path)
                    loops = loops_of(path)
                    if not x.raw:
                        check_file2(c, x, s, path, e)
                    else:
                        c.ob("complete-content", seq_final(W, gp(s, x.g), loops, s.facts), e, "published content is the whole raw stream", path)
                for e in flat(path):
                    if e.kind != "call" or e.out != "ok":
                        continue
                    bad = None
                    if e.label in ("builtins.open", "os.fdopen") and e.args and e.args[0] is not fd:
                        mode = e.args[1] if len(e.args) > 1 else e.kw.get("mode", const("r"))
                        if is_const(mode) and set(str(cval(mode))) & set("wax+"):
                            bad = "file opened for writing under its final name"
                    elif e.label == "os.open" and e.args:
                        fl = e.args[1] if len(e.args) > 1 else ZERO
                        if is_const(fl) and (cval(fl) & 3 or cval(fl) & 0o100):
                            bad = "file opened for writing under its final name"
                    elif e.label in ("shutil.copy", "shutil.copyfile", "shutil.copy2", "os.truncate", "os.symlink", "shutil.move"):
                        bad = "%s is not atomic" % e.label
                    if bad:
                        c.ob("publish-by-rename", False, e, bad, path)
    return [("store", part)]


def check_file2(c, x, s, path, e):
    loops = loops_of(path)
    src, dst, W, zs = e.args
    P = concat(x.header(), gp(s, x.g))
    if len(zs.args) != 1:
        c.ob("complete-content", None, e, "compression object not identified", path)
        return
    fed, out, fl = zs.args[0].args
    ok = [seq_eq(fed, P, loops), seq_final(W, out, loops, s.facts), fl is TRUE, int_eq(length(gp(s, x.g)), x.size, s.facts, loops)]
    r = False if False in ok else None if None in ok else True
    c.ob("complete-content", r, e, "at publication the file holds the flushed compression of the whole object", path)


def c03(c):
    c.rule("temp-removed", "on every failing path the temporary file is removed (or was already published)")
    c.rule("fd-closed", "on every path the temporary file's descriptor is closed")
    c.rule("propagates", "a failing read, write, compress, close or rename never leads to a successful return")
    c.rule("id-unset", "on every failing path the caller's stream still has no id")
    c.rule("incomplete-unpublished", "nothing is published on paths on which the source failed")

    def part(c):
        for raw in (False, True):
            for short in (False, True):
                x = store_scenario(c, "store(raw=%s, short=%s)" % (raw, short), raw=raw, raises=raises_any, short=short)
                for k, s, v in x.outs:
                    path = s.events()
                    tm = tmp_of(path)
                    if tm is not None:
                        fd, tp = tm.res.args

                        def delta(q, e):
                            if e.kind != "call":
                                return q
                            f, t = q
                            if e.label == "tempfile.mkstemp" and e.out == "ok":
                                return ("open", "live")
                            if e.label == "os.close" and e.args and e.args[0] is fd:
                                f = "closed" if f == "open" else "double"
                            if e.label in ("file.close",) and f == "open":
                                f = "closed"
                            if e.label in REMOVES and e.args and e.args[0] is tp:
                                t = "gone"
                            if e.label in MOVES and e.args and e.args[0] is tp and e.out == "ok" and e.label != "os.link":
                                t = "gone"
                            return (f, t)
                        qs = fold(path, delta, {("none", "none")})
                        live = [q for q in qs if q[1] == "live"]
                        opn = [q for q in qs if q[0] == "open"]
                        esc = any(e.kind == "call" and any(a is tp for a in e.args) and e.label not in KNOWN_TMP for e in flat(path))
                        w = tm.loc if k == "ret" else raise_loc(path) or tm.loc
                        c.ob("temp-removed", True if not live else None if esc else False, w,
                             "%s path %s" % ("failing" if k == "exc" else "successful", "removes the temporary file" if not live else "keeps the temporary file"), path)
                        escf = any(e.kind == "call" and any(a is fd for a in e.args) and e.label not in KNOWN_FD for e in flat(path))
                        c.ob("fd-closed", True if not opn else None if escf else False, w, "the descriptor is closed" if not opn else "the descriptor stays open", path)
                    if k == "ret":
                        for e in flat(path):
                            if e.kind == "call" and str(e.out).startswith("raise") and e.label in MUST_PROPAGATE:
                                c.ob("propagates", False, e, "an error of %s ends in a successful return" % e.label, path)
                        c.ob("propagates", True, "store", "successful path without swallowed errors")
                    else:
                        if not raw:
                            for s2, b in attr(c, s, x.ist, "binsha"):
                                c.ob("id-unset", True if b is NONE else None if unknown(b) else False, raise_loc(path) or "store", "id of the caller's stream after a failure: %s" % show(b)[:60], path)
                        srcfail = any(e.kind == "call" and e.label in (".read", "os.write", "compress.compress", "compress.flush")
                                      and str(e.out).startswith("raise") for e in flat(path))
                        if srcfail:
                            pub = published_at(path)
                            c.ob("incomplete-unpublished", not pub, pub[0] if pub else raise_loc(path) or "store", "no publication after a failed transfer", path)
    return [("store", part)]


KNOWN_TMP = MOVES | REMOVES | EXISTS | {"os.chmod", "tempfile.mkstemp", "os.stat"}
KNOWN_FD = {"os.write", "os.close", "os.fsync", "os.fstat", "os.fchmod", "tempfile.mkstemp"}


def raise_loc(path):
    r = None
    for e in flat(path):
        if e.kind == "call" and str(e.out).startswith("raise") and e.loc:
            r = e.loc
    return r


def c04(c):
    c.rule("no-overwrite", "a file is only renamed into place on paths on which the destination was found not to exist")
    c.rule("existing-untouched", "on paths on which the object exists it is neither removed nor replaced, and the new copy is discarded")
    c.rule("read-only", "every successful store makes the object file read-only (0444) as its last mode change")

    def part(c):
        for raw in (False, True):
            x = store_scenario(c, "store(raw=%s)" % raw, raw=raw, raises=raises_chmod)
            for k, s, v in x.outs:
                path = s.events()
                tm = tmp_of(path)
                if tm is None:
                    continue
                fd, tp = tm.res.args
                fl = flat(path)
                pubs = published_at(path)
                known = {}
                for e in fl:
                    if e.kind == "call" and e.label in EXISTS and e.args and e.out == "ok":
                        r = s.facts.ask(c.I.as_cond(e.res, s))
                        if r is not None:
                            known.setdefault(e.args[0], set()).add(r)
                    if e.kind == "call" and e.label in ("os.stat", "os.lstat") and str(e.out).startswith("raise") and e.args:
                        known.setdefault(e.args[0], set()).add(False)
                for e in pubs:
                    if e.label == "os.link":
                        c.ob("no-overwrite", True, e, "link never replaces")
                        continue
                    dst = e.args[1]
                    c.ob("no-overwrite", known.get(dst) == {False} or False, e, "destination known not to exist: %s" % known.get(dst), path)
                exist = [p for p, r in known.items() if r == {True} and p is not tp]
                for p in exist:
                    bad = [e for e in fl if e.kind == "call" and e.label in REMOVES and e.args and e.args[0] is p]
                    bad += [e for e in pubs if e.args[1] is p]
                    c.ob("existing-untouched", not bad, bad[0] if bad else tm, "the existing object is left alone", path)
                if k == "ret":
                    targets = [e.args[1] for e in pubs] or exist
                    ch = [e for e in fl if e.kind == "call" and e.label in ("os.chmod", "os.fchmod") and e.out == "ok"]
                    ch = [e for e in ch if (e.args[0] in targets) or e.args[0] is fd or (e.args[0] is tp and pubs)]
                    if not ch:
                        c.ob("read-only", False, pubs[0] if pubs else tm, "object stored without making it read-only", path)
                    else:
                        m = ch[-1].args[1] if len(ch[-1].args) > 1 else ch[-1].kw.get("mode", NONE)
                        r = cval(m) == 0o444 if is_const(m) else None
                        if r is None:
                            # where it depends on what the file had: a temporary file begins as 0600
                            fm = {x: const(0o100600) for x in subterms(m) if x.op == "attr" and x.args[1] == "st_mode"}
                            m2 = subst(m, fm) if fm else m
                            if fm and is_const(m2):
                                r = cval(m2) & 0o777 == 0o444
                        c.ob("read-only", r, ch[-1], "mode %s" % (oct(cval(m)) if is_const(m) else show(m)), path)
    return [("store", part)]


# ------------------------------------------------------------------ C05

def c05(c):
    c.rule("no-files", "a store with a custom output stream has no filesystem effect")
    c.rule("same-id", "the id equals the one of a file store: sha1 of header and content")
    c.rule("forwarded", "the custom writer receives exactly the hashed bytes")
    c.rule("reported-length", "writers report the amount of bytes they were given")
    c.rule("rejects", "a stream which cannot produce an id is rejected with TypeError and the current one is kept")
    c.rule("returns-previous", "set_ostream returns the previous stream, and ostream() the new one")
    c.rule("memory-refuses", "the memory database refuses custom output streams")

    def store(c):
        for nm in ("Sha1Writer", "FlexibleSha1Writer", "ZippedStoreShaWriter"):
            fw = {}

            def mk(c, st, nm=nm):
                if nm == "FlexibleSha1Writer":
                    sink = opaque(st, "sink")
                    fw["g"] = ghost(st)

                    def sinkw(I, st, args, kw, fr, X, n):
                        ghost_add(st, fw["g"], I.val(args[-1], st))
                        I.effect2(".write", list(args), kw, st, fr, n, NONE)
                        return [(st, NONE)]
                    fw["m"] = sinkw
                    return one(c, "gitdb.stream." + nm, [T("attr", sink, "write")], st)
                return one(c, "gitdb.stream." + nm, [], st)
            x = store_scenario2(c, "store into " + nm, mk, fw)
            n = 0
            for k, s, v in x.outs:
                path = s.events()
                bad = [e for e in flat(path) if e.kind == "call" and (e.label in MUTATE or e.label == "os.close")]
                c.ob("no-files", not bad, bad[0] if bad else "store into " + nm, "no filesystem effect", path)
                if k != "ret":
                    continue
                n += 1
                loops = loops_of(path)
                G = gp(s, x.g)
                P = concat(x.header(), G)
                for s2, b in attr(c, s, x.ist, "binsha"):
                    h = strip_hex(b)
                    r = seq_eq(h.args[0], P, loops) if h.op == "sha1" else None if unknown(h) else False
                    c.ob("same-id", r, first_loc(path, "sha.update") or "store", "id is sha1(header ++ content)", path)
                if "g" in fw:
                    c.ob("forwarded", seq_eq(gp(s, fw["g"]), P, loops), first_loc(path, ".write") or "store", "all bytes are passed on", path)
                if nm == "ZippedStoreShaWriter":
                    z = find(s, "#compress")
                    bio = find(s, "io.BytesIO")
                    if len(z) == 1 and len(bio) == 1:
                        c.ob("forwarded", seq_eq(z[0][1].f["fed"], P, loops), first_loc(path, "compress.compress") or "store", "all bytes are compressed", path)
                        c.ob("forwarded", seq_eq(bio[0][1].f["data"], z[0][1].f["out"], loops), first_loc(path, "compress.compress") or "store", "the compressed bytes are buffered", path)
            c.ob("same-id", True if n else None, nm, "%d successful paths" % n)

    def writers(c):
        I = c.I
        for nm in ("Sha1Writer", "FlexibleSha1Writer", "ZippedStoreShaWriter", "FDCompressedSha1Writer"):
            st = I.fresh_state()
            if nm == "FDCompressedSha1Writer":
                st, w = one(c, "gitdb.stream." + nm, [sym("fd", "int")], st)
            else:
                st, w = mk_writer(nm)(c, st)
            d = sym("data", "bytes")
            for k, s, v in c.run(nm + ".write", c.method(w, st, "write"), [d], st):
                if k == "ret":
                    c.ob("reported-length", v is length(d) or (None if unknown(v) else False), nm + ".write", "returns %s" % show(v), s.events())
            for hexa in (TRUE, FALSE):
                st2 = st.fork()
                for k, s, v in c.I.run(c.method(w, st2, "write"), [d], st2, None, Opts()):
                    if k != "ret":
                        continue
                    for k2, s2, v2 in c.run(nm + ".sha", c.method(w, s, "sha"), [hexa], s):
                        if k2 == "ret":
                            h = strip_hex(v2)
                            r = h.op == "sha1" and h.args[0] is d and ((v2.op != "sha1") == (hexa is TRUE))
                            c.ob("same-id", r or (None if unknown(v2) else False), nm + ".sha", "sha(%s) is the digest of the written bytes" % show(hexa), s2.events())

    def setos(c):
        I = c.I
        st = I.fresh_state()
        st, db = one(c, "gitdb.db.loose.LooseObjectDB", [sym("root", "str")], st)
        st, w1 = mk_writer("Sha1Writer")(c, st)
        st, w2 = mk_writer("ZippedStoreShaWriter")(c, st)
        bad = st.new(ext("io.BytesIO"), {"data": const(b"")})
        st, fds = one(c, "gitdb.stream.FDStream", [sym("fd", "int")], st)
        for k, s, v in c.run("set_ostream(writer)", c.method(db, st, "set_ostream"), [w1], st):
            c.ob("returns-previous", k == "ret" and v is NONE, "set_ostream", "first redirection returns None", s.events())
            if k != "ret":
                continue
            for k2, s2, v2 in c.run("set_ostream(other)", c.method(db, s, "set_ostream"), [w2], s.fork()):
                c.ob("returns-previous", k2 == "ret" and v2 is w1, "set_ostream", "returns the stream set before", s2.events())
                for k3, s3, v3 in c.run("ostream", c.method(db, s2, "ostream"), [], s2.fork()):
                    c.ob("returns-previous", k3 == "ret" and v3 is w2, "ostream", "is the stream set last", s3.events())
                for k3, s3, v3 in c.run("set_ostream(None)", c.method(db, s2, "set_ostream"), [NONE], s2.fork()):
                    c.ob("returns-previous", k3 == "ret" and v3 is w2, "set_ostream", "resetting returns the stream", s3.events())
                    for k4, s4, v4 in c.run("ostream", c.method(db, s3, "ostream"), [], s3.fork()):
                        c.ob("returns-previous", k4 == "ret" and v4 is NONE, "ostream", "is None after a reset", s4.events())
            for b in (bad, fds):
                for k2, s2, v2 in c.run("set_ostream(no sha writer)", c.method(db, s, "set_ostream"), [b], s.fork()):
                    ok = k2 == "exc" and c.is_exc(s2, v2, "TypeError")
                    c.ob("rejects", ok, "set_ostream", "raises TypeError" if ok else "accepted", s2.events())
                    for k3, s3, v3 in c.run("ostream", c.method(db, s2, "ostream"), [], s2.fork()):
                        c.ob("rejects", k3 == "ret" and v3 is w1, "set_ostream", "keeps the current stream", s3.events())

    def memory(c):
        I = c.I
        st = I.fresh_state()
        st, db = one(c, "gitdb.db.mem.MemoryDB", [], st)
        st, w1 = mk_writer("Sha1Writer")(c, st)
        for k, s, v in c.run("MemoryDB.set_ostream", c.method(db, st, "set_ostream"), [w1], st):
            c.ob("memory-refuses", k == "exc" and c.is_exc(s, v, "gitdb.exc.UnsupportedOperation"), "MemoryDB.set_ostream", "raises UnsupportedOperation", s.events())
    return [("store", store), ("writers", writers), ("set_ostream", setos), ("memory", memory)]


def store_scenario2(c, name, mk, fw):
    I = c.I
    st = I.fresh_state()
    st, db = one(c, "gitdb.db.loose.LooseObjectDB", [sym("root", "str")], st)
    src = opaque(st, "source")
    x = Sc()
    x.type, x.size = sym("type", "bytes"), sym("size", "int")
    st.facts.assume(c_le0(scale(x.size, -1)), True)
    st, x.ist = one(c, "gitdb.base.IStream", [x.type, x.size, src], st)
    x.g = ghost(st)
    st, x.writer = mk(c, st)
    r = [(s, v) for k, s, v in c.I.run(c.method(db, st, "set_ostream"), [x.writer], st, None, Opts()) if k == "ret"]
    if not r:
        raise Anchor("set_ostream")
    st = r[0][0]
    st.trace = None
    models = {".read": reader(x.g)}
    if "m" in fw:
        models[".write"] = fw["m"]
    x.outs = c.run(name, c.method(db, st, "store"), [x.ist], st, models=models, raises=lambda l: "builtins.Exception" if l == ".read" else None)
    x.header = lambda: concat(x.type, const(b" "), dec_bytes(x.size), const(b"\0"))
    return x


# ------------------------------------------------------------------ C06

def c06(c):
    c.rule("all-or-error", "whenever the operating system accepts only part of a buffer, the rest is written or an error is raised")

    def fdstream(c):
        I = c.I
        st = I.fresh_state()
        st, w = one(c, "gitdb.stream.FDStream", [sym("fd", "int")], st)
        g = ghost(st)
        d = sym("data", "bytes")
        for k, s, v in c.run("FDStream.write", c.method(w, st, "write"), [d], st, short_writes=True, models={"os.write": fdw(g)}):
            path = s.events()
            if k == "ret":
                c.ob("all-or-error", seq_final(gp(s, g), d, loops_of(path), s.facts), first_loc(path, "os.write") or "FDStream.write", "everything reaches the descriptor", path)

    def fdcomp(c):
        I = c.I
        st = I.fresh_state()
        st, w = one(c, "gitdb.stream.FDCompressedSha1Writer", [sym("fd", "int")], st)
        g = ghost(st)
        d = sym("data", "bytes")
        for k, s, v in c.run("FDCompressedSha1Writer.write", c.method(w, st, "write"), [d], st, short_writes=True, models={"os.write": fdw(g)}):
            path = s.events()
            if k == "ret":
                z = find(s, "#compress")
                r = seq_final(gp(s, g), z[0][1].f["out"], loops_of(path), s.facts) if len(z) == 1 else None
                c.ob("all-or-error", r, first_loc(path, "os.write") or "FDCompressedSha1Writer.write", "the compressed bytes reach the descriptor", path)
                for k2, s2, v2 in c.run("FDCompressedSha1Writer.close", c.method(w, s, "close"), [], s, short_writes=True, models={"os.write": fdw(g)}):
                    path = s2.events()
                    if k2 == "ret":
                        z = find(s2, "#compress")
                        r = seq_final(gp(s2, g), z[0][1].f["out"], loops_of(path), s2.facts) if len(z) == 1 else None
                        if len(z) == 1 and z[0][1].f["flushed"] is not TRUE:
                            r = False
                        c.ob("all-or-error", r, first_loc(path, "compress.flush") or first_loc(path, "os.close") or "close", "the remainder reaches the descriptor before it is closed", path)

    def whole(c):
        for raw in (False, True):
            x = store_scenario(c, "store(raw=%s)" % raw, raw=raw, short=True)
            for k, s, v in x.outs:
                path = s.events()
                if k != "ret":
                    continue
                loops = loops_of(path)
                W = gp(s, x.w)
                if raw:
                    r = seq_final(W, gp(s, x.g), loops, s.facts)
                else:
                    z = find(s, "#compress")
                    r = seq_final(W, z[0][1].f["out"], loops, s.facts) if len(z) == 1 else None
                c.ob("all-or-error", r, first_loc(path, "os.write") or "store", "a successful store wrote every byte", path)

    def pack(c):
        from . import packwrite
        packwrite.short(c)
    return [("FDStream", fdstream), ("FDCompressedSha1Writer", fdcomp), ("store", whole)]
