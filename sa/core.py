"""Check runner: obligations, evidence, reports, and the trace/loop reasoning shared by the rules."""
import json
import os
import sys
import time
import traceback

from .terms import *
from .interp import (Interp, Opts, Ev, TooBig, fmt_loc, ext, extname, c_le0, c_eq0, c_eq, c_lt, c_le, c_isnone, c_not)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Anchor(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.I = Interp(REPO)
        self.I.load_all()
        self.obs = []          # (rule, status, where, msg)
        self.viol = []         # dicts
        self.und = []
        self.scen = []
        self.paths = 0
        self.events = 0
        self.visited = set()
        self.notes = []
        self.assumptions = []
        self.loops = 0
        self.callsites = set()
        self.samples = []
        self.rules = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------ obligations
    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, ok, where, msg, path=None, scen=None):
        """record one obligation; ok True/False/None(undecided)"""
        if isinstance(where, Ev):
            where = where.loc
        w = fmt_loc(where) if isinstance(where, tuple) else str(where)
        st = "holds" if ok is True else "violated" if ok is False else "undecided"
        if ok is False and self.tainted(path):
            st = "undecided"
            msg += " (path contains a construct the analysis does not model)"
        self.obs.append((rule, st, w, msg))
        if st == "violated":
            key = (rule, w)
            for v in self.viol:
                if v["key"] == key:
                    return False
            self.viol.append({"key": key, "rule": rule, "where": w, "loc": where if isinstance(where, tuple) else None,
                              "msg": msg, "scenario": scen or (self.scen[-1][0] if self.scen else ""),
                              "path": [repr(e) for e in flat(path)][:120] if path else []})
            return False
        if st == "undecided":
            if (rule, w, msg) not in self.und:
                self.und.append((rule, w, msg))
        return ok

    def tainted(self, path):
        return False

    # ------------------------------------------------------------ running
    def anchor(self, dotted):
        t = self.I.get(dotted)
        if t is None:
            raise Anchor(dotted)
        return t

    def run(self, name, f, args, st, kw=None, **opts):
        """run one scenario from an entry point; returns outcomes"""
        I = self.I
        n0 = len(I.notes)
        I.visited = set()
        l0 = len(I.loops)
        while True:
            try:
                outs = I.run(f, args, st.fork(), kw, Opts(**opts))
                break
            except TooBig as e:
                # judge what a smaller bound reaches, the rest is undecided
                un = opts.get("unroll") or {}
                if "time" in str(e) or not un or not 2 < max(un.values()) <= 8:
                    raise
                self.ob("budget", None, name, "analysis budget exceeded with %d rounds per loop: %s" % (max(un.values()), str(e)[:160]))
                opts["unroll"] = {k: max(1, v - 1) for k, v in un.items()}
        self.visited |= I.visited
        self.loops += len(I.loops) - l0
        self.paths += len(outs)
        evs = 0
        for _, s, _ in outs:
            for e in flat(s.events()):
                evs += 1
                if e.loc:
                    self.callsites.add((e.kind, e.label, e.loc))
        self.events += evs
        self.scen.append((name, len(outs), sorted(set(q for _, q in I.visited))))
        for x in I.notes[n0:]:
            if x not in self.notes:
                self.notes.append(x)
        return outs

    def probe(self, src):
        """functions of a client of the code, to be analysed together with it"""
        import ast
        from .interp import Fr, Func, Mod
        I = self.I
        m = Mod("#client", "(client)", ast.parse(src))
        m.done = True
        f = Func(None, m, "<module #client>")
        I.block(m.tree.body, I.fresh_state(), Fr(f, None, m, 0, ()))
        return m.ns

    def method(self, obj, st, name):
        """bound method term for a public method of an abstract object"""
        o = st.get(obj.args[0])
        f = self.I.cls_lookup(o.cls, name)
        if f is None or f.op != "func":
            raise Anchor("%s.%s" % (o.cls.args[0], name))
        return T("bound", f, obj)

    def excname(self, s, v):
        return self.I.excname(s, v)

    def is_exc(self, s, v, dotted):
        """is the exception certainly an instance of the class?"""
        c = self.I.get(dotted) if dotted.startswith("gitdb") else ext("builtins." + dotted)
        if c is None or v.op != "ref":
            return None
        return self.I.subclass(s.get(v.args[0]).cls, c) is True


# ---------------------------------------------------------------- traces

def flat(evs):
    """all events of a path, loop bodies included once per back edge"""
    out = []
    for e in evs or ():
        if e.kind == "loop":
            out.append(e)
            for b in e.out.backs:
                out.extend(flat(b[0]))
        else:
            out.append(e)
    return out


def fold(evs, delta, states):
    """set of automaton states after a trace; loop bodies iterate to a fixpoint"""
    cur = set(states)
    for e in evs:
        if e.kind == "loop":
            todo = list(cur)
            while todo:
                s = todo.pop()
                for b in e.out.backs:
                    for s2 in fold(b[0], delta, {s}):
                        if s2 not in cur:
                            cur.add(s2)
                            todo.append(s2)
        else:
            nx = set()
            for s in cur:
                r = delta(s, e)
                if isinstance(r, (set, list)):
                    nx.update(r)
                else:
                    nx.add(r)
            cur = nx
    return cur


def calls(evs, *labels):
    return [e for e in flat(evs) if e.kind == "call" and (not labels or e.label in labels)]


# ---------------------------------------------------------------- loop-inductive equality of byte strings

def parts(t):
    if t.op == "concat":
        return list(t.args[1:])
    if t.op == "const" and cval(t) in (b"", ""):
        return []
    return [t]


def loops_of(evs):
    out = {}
    for e in flat(evs):
        if e.kind == "loop":
            for l, (m, iv) in e.out.mus.items():
                if m.op == "mu":
                    out.setdefault(m, (e.out, l, iv))
    return out


def nconst(ps):
    """normal form of a list of parts"""
    return parts(concat(*ps)) if ps else []


def strip(a, b):
    a, b = nconst(a), nconst(b)
    while a and b:
        x, y = a[-1], b[-1]
        if x is y:
            a.pop()
            b.pop()
        elif is_const(x) and is_const(y) and (cval(x).endswith(cval(y)) or cval(y).endswith(cval(x))):
            m = min(len(cval(x)), len(cval(y)))
            a[-1] = const(cval(x)[:-m])
            b[-1] = const(cval(y)[:-m])
            a, b = nconst(a), nconst(b)
        else:
            break
    while a and b:
        x, y = a[0], b[0]
        if x is y:
            a.pop(0)
            b.pop(0)
        elif is_const(x) and is_const(y) and (cval(x).startswith(cval(y)) or cval(y).startswith(cval(x))):
            m = min(len(cval(x)), len(cval(y)))
            a[0] = const(cval(x)[m:])
            b[0] = const(cval(y)[m:])
            a, b = nconst(a), nconst(b)
        else:
            break
    return a, b


def inside(p, loops):
    """loop values in the bounds of a slice"""
    return [x for x in subterms(p) if isinstance(x, Term) and x in loops] if p.op == "slice" else []


def to_end(p, facts):
    """a part which reaches the end of what it is part of, as such"""
    if p.op == "slice" and p.args[2] is not NONE and facts.ask(c_le0(lin_add(length(p.args[0]), p.args[2], -1))) is True:
        return slice_(p.args[0], p.args[1], NONE)
    return p


def cut(a, b, facts):
    """both strings end with parts of the same string which end alike: remove what they share"""
    if facts is None or not a or not b:
        return a, b
    x, y = [to_end(p, facts) for p in (a[-1], b[-1])]
    if x is y:
        return a[:-1], b[:-1]
    if x.op == "slice" and x.args[0] is y:
        y = T("slice", y, ZERO, NONE)
    elif y.op == "slice" and y.args[0] is x:
        x = T("slice", x, ZERO, NONE)
    if x.op == "slice" and y.op == "slice" and x.args[0] is y.args[0] and x.args[2] is y.args[2] and x.args[1] is not y.args[1]:
        for p, q, swap in ((x, y, False), (y, x, True)):
            if facts.ask(c_le0(lin_add(p.args[1], q.args[1], -1))) is True and (q.args[2] is NONE or facts.ask(c_le0(lin_add(q.args[1], q.args[2], -1))) is True):
                # p begins before q
                r = slice_(p.args[0], p.args[1], q.args[1])
                if swap:
                    return a[:-1], nconst(b[:-1] + [r])
                return nconst(a[:-1] + [r]), b[:-1]
    return a, b


def seq_eq(a, b, loops, facts=None, hyp=()):
    """Do two byte-string terms denote the same string?  Loop values are compared by induction over the
    iterations: entry values equal, and preserved by every back edge.  A loop value known to be empty on the
    path may be added to either side (the part of a buffer that remains to be transferred)."""
    return _seq(parts(a), parts(b), loops, frozenset(hyp), facts, frozenset())


def _seq(a, b, loops, hyp, facts, tried):
    a, b = strip(a, b)
    a, b = strip(*cut(a, b, facts))
    if not a and not b:
        return True
    if (tuple(a), tuple(b)) in hyp:
        return True
    if facts is not None and any(p.op == "res" and facts.ask(c_eq0(length(p))) is True for p in a + b):
        # parts which are empty on this path
        a, b = [nconst([p for p in x if p.op != "res" or facts.ask(c_eq0(length(p))) is not True]) for x in (a, b)]
        a, b = strip(a, b)
        if not a and not b or (tuple(a), tuple(b)) in hyp:
            return True
    r = _seq1(a, b, loops, hyp, facts, tried)
    if r is True or facts is None:
        return r
    for m in loops:
        if m not in tried and m not in a and m not in b and ty(m) in ("bytes", "buf") and facts.ask(c_eq0(length(m))) is True:
            t2 = tried | {m}
            for x, y in ((a + [m], b), (a, b + [m])):
                r2 = _seq(x, y, loops, hyp, facts, t2)
                if r2 is True:
                    return True
                if r2 is None:
                    r = None
        if m not in tried and ty(m) == "int":
            # all of a string is what comes before a position at its end
            for p, q, swap in ((a, b, False), (b, a, True)):
                if p and p[-1] not in loops and facts.ask(c_le0(lin_add(length(p[-1]), m, -1))) is True:
                    x = p[:-1] + [T("slice", p[-1], ZERO, m)]
                    r2 = _seq(*((q, x) if swap else (x, q)), loops, hyp, facts, tried | {m})
                    if r2 is True:
                        return True
    return r


def _seq1(a, b, loops, hyp, facts, tried):
    # one side contains a loop value
    for x, y in ((a, b), (b, a)):
        for m in [loopval(p) for p in x if loopval(p) in loops]:
            info, loc, iv = loops[m]
            # all loop values of this loop on both sides are advanced together
            ms = [loopval(p) for p in a + b if loopval(p) in loops and loops[loopval(p)][0] is info]
            ms += [q for p in a + b for q in inside(p, loops) if loops[q][0] is info and q not in ms]
            h2 = hyp | {(tuple(a), tuple(b))}
            init = {p: loops[p][2] for p in ms}
            if any(v is None for v in init.values()):
                return None
            r = _seq(expand(a, init), expand(b, init), loops, h2, info.facts, tried)
            if r is not True:
                return r
            for evs, s, bv in info.backs:
                nx = {}
                for p in ms:
                    v = bv.get(loops[p][1])
                    if v is None:
                        return None
                    nx[p] = v
                l2 = dict(loops)
                l2.update(loops_of(evs))
                r = _seq(expand(a, nx), expand(b, nx), l2, h2, grown(info, s.facts), frozenset())
                if r is not True:
                    return r
            return True
    if any(unknown(p) for p in a + b):
        return None
    return False


def grown(info, facts):
    """facts of an iteration, and that its counters are not less than initially, where every iteration preserves this"""
    out = facts
    for loc, (m, iv) in info.mus.items():
        if m.op != "mu" or ty(m) != "int" or iv is None:
            continue
        low = c_le0(lin_add(iv, m, -1))
        for evs, s, bv in info.backs:
            g = s.facts.copy()
            if loc not in bv or g.assume(low, True) and g.ask(c_le0(lin_add(iv, bv[loc], -1))) is not True:
                break
        else:
            if out is facts:
                out = facts.copy()
            out.assume(low, True)
    return out


def loopval(p):
    """the loop value which stands for a part of a string; a checksum stands for the string it was computed from"""
    return p.args[0] if p.op == "crcpre" else p


def crc_of(v):
    """parts of the string which a checksum was computed from"""
    if v.op == "crc32":
        return parts(v.args[0])
    if v is ZERO:
        return []
    return [T("crcpre", v)]


def expand(ps, m):
    out = []
    for p in ps:
        if p.op == "crcpre" and p.args[0] in m:
            out.extend(crc_of(m[p.args[0]]))
        elif p in m:
            out.extend(parts(m[p]))
        else:
            q = subst(p, m)
            out.extend(parts(q) if q is not p else [p])
    return out


UNKNOWN_OPS = {"unpack", "stepslice", "cases", "opaquefilter", "fidx", "genof", "iterof", "joinseq"}


def unknown(t, d=0):
    """does a term contain something the analysis could not interpret?"""
    if d > 30:
        return True
    if t.op in UNKNOWN_OPS:
        return True
    if t.op == "res" and (str(t.args[0]).startswith(("unsupported", "call:", "comp", "dict", "rec:"))):
        return True
    for x in t.args:
        if isinstance(x, Term) and unknown(x, d + 1):
            return True
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term) and unknown(y, d + 1):
                    return True
                if isinstance(y, tuple) and any(isinstance(z, Term) and unknown(z, d + 1) for z in y):
                    return True
    return False


def int_eq(a, b, facts, loops):
    """a == b for integers on a path: by the facts of the path, modulo loop values that advance together"""
    d = lin_add(a, b, -1)
    if is_const(d):
        return cval(d) == 0
    r = facts.ask(c_eq0(d))
    if r is not None:
        return r
    for d2 in by_counter(d, loops):
        if is_const(d2):
            return cval(d2) == 0
        r = facts.ask(c_eq0(d2))
        if r is not None:
            return r
    return None


def int_eq_all(a, b, facts, loops):
    """as int_eq, for sums over several loops"""
    todo, seen = [lin_add(a, b, -1)], set()
    while todo and len(seen) < 200:
        d = todo.pop()
        if d in seen:
            continue
        seen.add(d)
        r = cval(d) == 0 if is_const(d) else facts.ask(c_eq0(d))
        if r is not None:
            return r
        todo += by_counter(d, loops)
    return None


def by_counter(d, loops):
    """variants of d in which the length of a loop string is replaced by an integer loop variable that grows
    by the same amounts"""
    out = []
    c0, dd = lin_parts(d)
    for x in list(dd):
        if x.op == "len" and x.args[0] in loops:
            m = x.args[0]
            info, loc, iv = loops[m]
            for l2, (m2, iv2) in info.mus.items():
                if m2.op != "mu" or ty(m2) != "int" or iv is None or iv2 is None:
                    continue
                # the counter counts up, or down from what is left
                for sign in (1, -1):
                    k0 = lin_add(iv2, scale(length(iv), sign), -1)
                    ok = True
                    for evs, s, bv in info.backs:
                        v1, v2 = bv.get(loc), bv.get(l2)
                        if v1 is None or v2 is None or lin_add(lin_add(v2, m2, -1), scale(lin_add(length(v1), length(m), -1), sign), -1) is not ZERO:
                            ok = False
                            break
                    if ok:
                        out.append(subst(d, {x: scale(lin_add(m2, k0, -1), sign)}))
                        continue
                    # a counter which lags behind by what a variable holds
                    for l3, (m3, iv3) in info.mus.items():
                        if m3.op != "mu" or ty(m3) not in ("bytes", "buf") or m3 is m or iv3 is None:
                            continue
                        for evs, s, bv in info.backs:
                            v1, v2, v3 = bv.get(loc), bv.get(l2), bv.get(l3)
                            if v1 is None or v2 is None or v3 is None:
                                break
                            g = lin_add(lin_add(length(v1), length(m), -1), lin_add(length(v3), length(m3), -1), -1)
                            if lin_add(lin_add(v2, m2, -1), scale(g, sign), -1) is not ZERO:
                                break
                        else:
                            k3 = lin_add(lin_add(length(iv), length(iv3), -1), scale(iv2, sign), -1)
                            out.append(subst(d, {x: lin_add(lin_add(scale(m2, sign), length(m3)), k3)}))
    return out


def int_le(a, b, facts, loops):
    """a <= b"""
    d = lin_add(a, b, -1)
    r = facts.ask(c_le0(d))
    for d2 in by_counter(d, loops):
        if r is None:
            r = facts.ask(c_le0(d2))
    return r


# ---------------------------------------------------------------- ghosts

def ghost(st, label="bytes"):
    """an object outside the program that accumulates what an effect transferred"""
    return st.new(ext("#ghost"), {}, const(b""))


def ghost_add(st, g, v):
    o = st.w(g.args[0])
    o.p = concat(o.p, v)


def reader(g=None, label=".read", short=True, name="data", maxlen=True):
    """model of an external stream's read: at most n bytes, arbitrary content, appended to the ghost"""
    def h(I, st, args, kw, fr, X, n):
        I.may_raise(label, list(args), kw, st, fr, X, n)
        st.ctr += 1
        r = T("res", name, st.ctr, "bytes")
        if g is not None:
            kw = dict(kw)
            kw["#before"] = st.get((g(st) if callable(g) else g).args[0]).p
        st.emit(Ev("call", label, tuple(args), kw, r, I.loc(n, fr), "ok", fr.stack))
        num = [a for a in args if ty(a) == "int" or a.op in ("lin", "min", "max")]
        if num and maxlen:
            st.facts.assume(c_le0(lin_add(length(r), num[-1], -1)), True)
        if g is not None:
            gr = g(st) if callable(g) else g
            ghost_add(st, gr, r)
            # the last read, which a loop may have done in the iteration before
            st.w(gr.args[0]).f.update(last=r, req=num[-1] if num else NONE)
        return [(st, r)]
    return h


def ended(st, g):
    """did the last read of a stream deliver less than was asked for? None: not known"""
    f = st.get(g.args[0]).f
    return ended_(f.get("last"), f.get("req"), st.facts)


def ended_(last, req, facts):
    if last is None or req is None:
        return None
    if req is NONE:
        return True
    return facts.ask(c_le0(lin_add(lin_add(length(last), const(1)), req, -1)))


# ---------------------------------------------------------------- runner

def load_known():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = {}
                rest = []
                for w in l[8:].split():
                    if "=" in w and w.split("=")[0] in ("property", "rule", "func", "call") and not rest:
                        k, v = w.split("=", 1)
                        d[k] = v
                    else:
                        rest.append(w)
                d["text"] = " ".join(rest)
                out.append(d)
    return out


def main(pid, fn, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.setrecursionlimit(20000)
    c = None
    err = None
    out = os.environ.get("VERIF_OUT", HERE)
    evp = os.path.join(out, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    try:
        c = Ctx(pid, tier)
    except SyntaxError as e:
        print("cannot parse the repository: %s" % e)
        return 2
    parts_ = fn(c)
    c.I.deadline = t0 + 700
    for name, part in parts_:
        try:
            if time.time() > c.I.deadline:
                raise TooBig("time budget exceeded")
            part(c)
        except Anchor as e:
            c.ob("anchor", None, str(e), "entry point not found in %s" % name)
        except (TooBig, RecursionError) as e:
            c.ob("budget", None, name, "analysis budget exceeded: %s" % str(e)[:200])
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            c.ob("internal", None, name, "analysis failed: %s %s (%s:%s)" % (type(e).__name__, str(e)[:200],
                                                                         os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
    known = load_known()
    viol = []
    kf = []
    for v in c.viol:
        hit = None
        for k in known:
            if k.get("property") == pid and k.get("rule") == v["rule"] and (
                    not k.get("func") or v["where"].endswith(k["func"])):
                hit = k
        (kf if hit else viol).append((v, hit))
    replay = os.path.join(out, "evidence", pid + ".replay.txt")
    for v, hit in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, hit["text"] or v["msg"]))
    holds = sum(1 for o in c.obs if o[1] == "holds")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis (abstract interpretation of the current source; nothing is executed). "
                           "%d entry scenarios, %d functions analysed in context, %d paths, %d loops (fixpoints), %d distinct effect/branch "
                           "sites; %d obligations: %d hold, %d violated, %d undecided." % (
                               len(c.scen), len(c.visited), c.paths, c.loops, len(c.callsites), len(c.obs), holds,
                               len([o for o in c.obs if o[1] == "violated"]), len([o for o in c.obs if o[1] == "undecided"])),
            "rules": c.rules,
            "obligations": len(c.obs),
            "discharged": holds,
            "undecided": [{"rule": r, "where": w, "why": m} for r, w, m in c.und][:40],
            "scenarios": [{"name": n, "paths": p, "functions": len(f)} for n, p, f in c.scen],
            "functions": sorted("%s %s" % x for x in c.visited),
            "sites": len(c.callsites),
            "events": c.events,
            "not_modelled": c.notes,
            "samples": [{"rule": r, "status": s, "where": w, "what": m} for r, s, w, m in pick(c.obs)],
        },
        "assumptions": c.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        with open(replay, "w") as f:
            for v, _ in viol:
                f.write("property %s, rule %s: %s\n  at %s\n  %s\n  scenario: %s\n  path:\n" % (
                    pid, v["rule"], c.rules.get(v["rule"], ""), v["where"], v["msg"], v["scenario"]))
                for p in v["path"]:
                    f.write("    %s\n" % p)
                f.write("\n")
        for v, _ in viol:
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            print("  rule %s at %s: %s" % (v["rule"], v["where"], v["msg"]))
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    print("property %s: %s" % (pid, ev["coverage"]["explanation"]))
    for r, w, m in c.und[:20]:
        print("  undecided: %s at %s: %s" % (r, w, m))
    if not holds:
        print("  nothing could be decided")
        return 2
    return 0


def pick(obs):
    seen = {}
    for o in obs:
        seen.setdefault(o[0], []).append(o)
    out = []
    for r, l in seen.items():
        out.extend(l[:2])
    return out[:30]
