"""The numeric/boolean part of the abstract state: intervals on linear keys, order sets on opaque pairs,
and truth values of atomic predicates.  A weakly relational interval domain with one-step closure; every
query answers True, False or None (not known).  No solver is involved."""
from .terms import *

INF = None


def key_of(x):
    """x = c0 + sign*K  with K canonical (c0 = 0, first coefficient positive)."""
    c0, d = lin_parts(x)
    if not d:
        return c0, 1, None
    first = min(d.items(), key=lambda ac: ac[0].id)
    s = 1 if first[1] > 0 else -1
    return c0, s, mk_lin(0, {a: s * k for a, k in d.items()})


def nat(a):
    """natural bounds of an atom"""
    op = a.op
    if op == "len" or op == "find" and False:
        return 0, INF
    if op == "find":
        return -1, INF
    if op in ("ix",):
        return 0, INF
    m = pm(a)
    if m is not None:
        return 0, m
    if op == "shr" or op == "fdiv":
        return None, INF
    if op == "mu" and a.args[1] == "#it":
        return 0, INF
    if op == "mod" and is_const(a.args[1]) and isinstance(cval(a.args[1]), int) and cval(a.args[1]) > 0:
        return 0, cval(a.args[1]) - 1
    return None, INF


class Facts:
    __slots__ = ("b", "ne", "c", "ordr", "bad", "memo")

    def __init__(self):
        self.b = {}
        self.ne = frozenset()
        self.c = {}
        self.ordr = {}
        self.bad = False
        self.memo = {}          # bounds of sums, for the current bounds of keys

    def copy(self):
        f = Facts()
        f.b, f.ne, f.c, f.ordr, f.bad, f.memo = dict(self.b), self.ne, dict(self.c), dict(self.ordr), self.bad, dict(self.memo)
        return f

    # ---------------------------------------------------------------- bounds
    def atom_bounds(self, a):
        lo, hi = nat(a)
        r = self.b.get(a)
        if r:
            lo = r[0] if lo is None else lo if r[0] is None else max(lo, r[0])
            hi = r[1] if hi is None else hi if r[1] is None else min(hi, r[1])
        if a.op == "min":
            for x in a.args:
                h = self.sum_bounds(x)[1]
                if h is not None:
                    hi = h if hi is None else min(hi, h)
            ls = [self.sum_bounds(x)[0] for x in a.args]
            if None not in ls:
                lo = min(ls) if lo is None else max(lo, min(ls))
        elif a.op == "len" and a.args[0].op == "slice" and a.args[0].args[2] is NONE:
            # what is left of d from i on
            d, i = a.args[0].args[:2]
            l = self.sum_bounds(i)[0]
            if l is not None and l >= 0:
                rest = lin_add(length(d), i, -1)
                l, h = self.ub(scale(rest, -1), 1), self.ub(rest, 1)
                if l is not None:
                    lo = -l if lo is None else max(lo, -l)
                if h is not None:
                    hi = max(h, 0) if hi is None else min(hi, max(h, 0))
        elif a.op == "max":
            for x in a.args:
                l = self.sum_bounds(x)[0]
                if l is not None:
                    lo = l if lo is None else max(lo, l)
            hs = [self.sum_bounds(x)[1] for x in a.args]
            if None not in hs:
                hi = max(hs) if hi is None else min(hi, max(hs))
        elif a.op in ("mod", "fdiv") and is_const(a.args[1]) and isinstance(cval(a.args[1]), int) and cval(a.args[1]) > 0:
            l, h = self.sum_bounds(a.args[0])
            k = cval(a.args[1])
            if a.op == "fdiv":
                if l is not None:
                    lo = l // k if lo is None else max(lo, l // k)
                if h is not None:
                    hi = h // k if hi is None else min(hi, h // k)
            elif l is not None and h is not None and l // k == h // k:
                lo, hi = l % k, h % k
        elif a.op == "bits" and isinstance(a.args[0], Term):
            l, h = self.sum_bounds(a.args[0])
            k, w = a.args[1], a.args[2]
            if l is not None and h is not None and l >> (k + w) == h >> (k + w):
                m = (1 << w) - 1
                lo, hi = (l >> k) & m, (h >> k) & m
        elif a.op == "shr":
            l, h = self.sum_bounds(a.args[0])
            k = a.args[1]
            if l is not None:
                lo = l >> k if lo is None else max(lo, l >> k)
            if h is not None:
                hi = h >> k if hi is None else min(hi, h >> k)
        return lo, hi

    def sum_bounds(self, x):
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self.sum_bounds1(x)
        return r

    def sum_bounds1(self, x):
        c0, d = lin_parts(x)
        lo = hi = c0
        if len(d) > 1:
            k0, s, k = key_of(x)
            r = self.b.get(k)
        else:
            r = None
        for a, k in d.items():
            l, h = self.atom_bounds(a)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        if r:
            l, h = r
            if s < 0:
                l, h = (None if h is None else -h), (None if l is None else -l)
            if l is not None:
                lo = c0 + l if lo is None else max(lo, c0 + l)
            if h is not None:
                hi = c0 + h if hi is None else min(hi, c0 + h)
        return lo, hi

    def ub(self, x, depth=1):
        k = (x, depth)
        if k not in self.memo:
            self.memo[k] = self.ub1(x, depth)
        return self.memo[k]

    def ub1(self, x, depth):
        h = self.sum_bounds(x)[1]
        if is_const(x) or depth <= 0:
            return h
        c0, d = lin_parts(x)
        best = h

        def cand(v):
            nonlocal best
            if v is not None and (best is None or v < best):
                best = v
        # replace a min() atom with positive coefficient by one of its args, a max() with negative coefficient
        for a, k in d.items():
            if (a.op == "min" and k > 0) or (a.op == "max" and k < 0):
                for y in a.args:
                    cand(self.ub(lin_add(lin_add(x, scale(a, k), -1), scale(y, k)), depth - 1))
        # the length of d[i:] is at least that of d less i, and not more if i is within d
        for a, k in d.items():
            if a.op == "len" and a.args[0].op == "slice" and a.args[0].args[2] is NONE:
                y, i = a.args[0].args[:2]
                l = self.sum_bounds(i)[0]
                if l is not None and l >= 0:
                    rest = lin_add(length(y), i, -1)
                    h = self.sum_bounds(scale(rest, -1))[1] if k > 0 else 0
                    if h is not None and h <= 0:
                        cand(self.ub(lin_add(lin_add(x, scale(a, k), -1), scale(rest, k)), depth - 1))
        # 2^k * (y >> k) lies between y - 2^k + 1 and y
        for a, m in d.items():
            if a.op == "shr" and isinstance(a.args[1], int) and depth > 1:
                k = a.args[1]
                r = self.ub(lin_add(scale(lin_add(x, scale(a, m), -1), 1 << k), scale(a.args[0], m)), depth - 1)
                if r is not None:
                    cand((r + (-m * ((1 << k) - 1) if m < 0 else 0)) >> k)
        for f, (l, h) in self.b.items():
            fd = lin_parts(f)[1]
            if not any(a in d for a in fd):
                continue
            a0 = next(a for a in fd if a in d)
            # subtract m*f for the coefficient that cancels a0
            if d[a0] % fd[a0]:
                continue
            m = d[a0] // fd[a0]
            b = h if m > 0 else l
            if b is None:
                continue
            r = self.ub(lin_add(x, scale(f, m), -1), depth - 1)
            if r is not None:
                cand(r + m * b)
        return best

    # ---------------------------------------------------------------- queries
    def ask(self, c, split=3):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        op = c.op
        if op == "not":
            r = self.ask(c.args[0])
            return None if r is None else not r
        if c in self.c:
            return self.c[c]
        if op == "le0":
            x = c.args[0]
            h = self.ub(x, 2)
            if h is not None and h <= 0:
                return True
            h = self.ub(scale(x, -1), 2)
            if h is not None and -h > 0:
                return False
            # the least or greatest of several values is one of them
            for a, k in lin_parts(x)[1].items() if split else ():
                if a.op in ("min", "max") and len(a.args) <= 4:
                    rest = lin_add(x, a, -k)
                    rs = [self.ask(c_le0(lin_add(rest, y, k)), split - 1) for y in a.args]
                    down = (k > 0) == (a.op == "min")
                    if down and True in rs or all(r is True for r in rs):
                        return True
                    if not down and False in rs or all(r is False for r in rs):
                        return False
            return None
        if op == "eq0":
            x = c.args[0]
            c0, s, k = key_of(x)
            if (k, -c0 * s) in self.ne:
                return False
            u = self.ub(x, 2)
            if u is not None and u < 0:
                return False
            v = self.ub(scale(x, -1), 2)
            if v is not None and v < 0:
                return False
            if u is not None and v is not None and u == 0 and v == 0:
                return True
            if any(a.op in ("min", "max") for a in lin_parts(x)[1]):
                r, q = self.ask(c_le0(x), split), self.ask(c_le0(scale(x, -1)), split)
                if r is False or q is False:
                    return False
                if r is True and q is True:
                    return True
            return None
        if op in ("eq", "lt"):
            a, b = c.args
            poss, flip = self.get_ord(a, b)
            if op == "eq":
                if poss == frozenset("="):
                    return True
                if "=" not in poss:
                    return False
                return None
            w = ">" if flip else "<"
            if poss == frozenset(w):
                return True
            if w not in poss:
                return False
            return None
        if op == "truth":
            x = c.args[0]
            r = self.c.get(T("isnone", x))
            if r is True:
                return False
            return None
        if op == "isnone":
            x = c.args[0]
            if self.c.get(T("truth", x)) is True:
                return False
            return None
        if op == "isinst":
            x = c.args[0]
            if self.c.get(T("isnone", x)) is True:
                return False
        if op == "and_":
            rs = [self.ask(x) for x in c.args]
            if False in rs:
                return False
            if all(r is True for r in rs):
                return True
            return None
        if op == "or_":
            rs = [self.ask(x) for x in c.args]
            if True in rs:
                return True
            if all(r is False for r in rs):
                return False
            return None
        return None

    def get_ord(self, a, b):
        flip = False
        if a.id > b.id:
            a, b, flip = b, a, True
        return self.ordr.get((a, b), frozenset("<=>")), flip

    # ---------------------------------------------------------------- updates
    def add_le(self, x, hi=0, split=3):
        """x <= hi"""
        c0, s, k = key_of(x)
        if k is None:
            if c0 > hi:
                self.bad = True
            return
        lo_, hi_ = self.b.get(k, (None, None))
        if s > 0:
            h = hi - c0
            hi_ = h if hi_ is None else min(hi_, h)
        else:
            l = c0 - hi
            lo_ = l if lo_ is None else max(lo_, l)
        while lo_ is not None and (k, lo_) in self.ne:
            lo_ += 1
        while hi_ is not None and (k, hi_) in self.ne:
            hi_ -= 1
        if lo_ is not None and hi_ is not None and lo_ > hi_:
            self.bad = True
        if self.b.get(k) != (lo_, hi_):
            self.b[k] = (lo_, hi_)
            self.memo = {}
        # a bound on a maximum bounds each of its operands
        for a, m in lin_parts(x)[1].items() if split else ():
            if (a.op == "max" and m > 0) or (a.op == "min" and m < 0):
                for y in a.args:
                    self.add_le(lin_add(lin_add(x, scale(a, m), -1), scale(y, m)), hi, split - 1)

    def assume(self, c, val=True):
        """add the fact; returns False if it is certainly contradictory"""
        while c.op == "not":
            c, val = c.args[0], not val
        r = self.ask(c)
        if r is not None:
            return r is val
        op = c.op
        if op == "le0":
            if val:
                self.add_le(c.args[0])
            else:
                self.add_le(lin_add(scale(c.args[0], -1), const(1)))
        elif op == "eq0":
            x = c.args[0]
            if val:
                self.add_le(x)
                self.add_le(scale(x, -1))
            else:
                c0, s, k = key_of(x)
                v = -c0 * s
                self.ne = self.ne | {(k, v)}
                lo, hi = self.sum_bounds(k)
                if lo is not None and lo == v:
                    self.add_le(scale(k, -1), -v - 1)
                elif hi is not None and hi == v:
                    self.add_le(k, v - 1)
        elif op in ("eq", "lt"):
            a, b = c.args
            poss, flip = self.get_ord(a, b)
            w = frozenset("=") if op == "eq" else frozenset(">" if flip else "<")
            poss = poss & w if val else poss - w
            if not poss:
                return False
            k = (b, a) if flip else (a, b)
            self.ordr[k] = poss
            if op == "eq" and val:
                la, lb = length(a), length(b)
                if ty(a) in ("str", "bytes") and ty(b) in ("str", "bytes"):
                    self.assume(c_eq0(lin_add(la, lb, -1)))
        elif op == "and_" and val:
            for x in c.args:
                if not self.assume(x):
                    return False
        elif op == "or_" and not val:
            for x in c.args:
                if not self.assume(x, False):
                    return False
        else:
            self.c[c] = val
        return not self.bad

    def drop(self, pred):
        """forget every fact that mentions a term satisfying pred"""
        def hit(t):
            return any(pred(x) for x in subterms(t) if isinstance(x, Term))
        self.b = {k: v for k, v in self.b.items() if not hit(k)}
        self.memo = {}
        self.c = {k: v for k, v in self.c.items() if not hit(k)}
        self.ordr = {k: v for k, v in self.ordr.items() if not (hit(k[0]) or hit(k[1]))}
        self.ne = frozenset(x for x in self.ne if not hit(x[0]))


def empty(f, limit=1500):
    """is the polyhedron of the linear facts empty? (elimination of one variable after the other; over the
    rationals, so that True means that no values satisfy the facts)"""
    if f.bad:
        return True
    rows, atoms = rows_of(f)
    from math import gcd

    def norm(r):
        c, d = r
        g = 0
        for v in d.values():
            g = gcd(g, v)
        if g > 1:
            d = {a: v // g for a, v in d.items()}
            c = -((-c) // g)        # integers: round towards the tighter bound
        return c, d
    cur = {}

    def put(r):
        c, d = norm(r)
        if not d:
            return c <= 0
        k = frozenset(d.items())
        if k not in cur or cur[k] < c:
            cur[k] = c
        return True
    for r in rows:
        if not put(r):
            return True
    while cur:
        cnt = {}
        for k in cur:
            for a, v in k:
                p = cnt.setdefault(a, [0, 0])
                p[v < 0] += 1
        a = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1])
        pos = [(c, dict(k)) for k, c in cur.items() if dict(k).get(a, 0) > 0]
        neg = [(c, dict(k)) for k, c in cur.items() if dict(k).get(a, 0) < 0]
        cur = {k: c for k, c in cur.items() if a not in dict(k)}
        for c1, d1 in pos:
            for c2, d2 in neg:
                m1, m2 = -d2[a], d1[a]
                d = {}
                for x, v in d1.items():
                    d[x] = d.get(x, 0) + m1 * v
                for x, v in d2.items():
                    d[x] = d.get(x, 0) + m2 * v
                d = {x: v for x, v in d.items() if v}
                if not put((m1 * c1 + m2 * c2, d)):
                    return True
        if len(cur) > limit:
            return False
    return False


def rows_of(f):
    """the linear facts as rows (c, d): c + sum(d) <= 0"""
    rows, atoms = [], set()
    for k, (lo, hi) in f.b.items():
        c0, d = lin_parts(k)
        atoms.update(d)
        if hi is not None:
            rows.append((c0 - hi, dict(d)))
        if lo is not None:
            rows.append((lo - c0, {a: -v for a, v in d.items()}))
    for a in atoms:
        lo, hi = nat(a)
        if lo is not None:
            rows.append((lo, {a: -1}))
        if hi is not None:
            rows.append((-hi, {a: 1}))
    return rows, atoms


def witness(f, limit=1500):
    """values of the atoms which satisfy all linear facts (integers), or None if none were found"""
    if f.bad:
        return None
    rows, atoms = rows_of(f)
    cur = {}
    for c, d in rows:
        k = frozenset(d.items())
        cur[k] = max(cur.get(k, c), c)
    stages = []
    while any(cur):
        if any(not k and c > 0 for k, c in cur.items()) or len(cur) > limit:
            return None
        cnt = {}
        for k in cur:
            for a, v in k:
                p = cnt.setdefault(a, [0, 0])
                p[v < 0] += 1
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x.id))
        mine = [(c, dict(k)) for k, c in cur.items() if a in dict(k)]
        cur = {k: c for k, c in cur.items() if a not in dict(k)}
        stages.append((a, mine))
        for c1, d1 in mine:
            for c2, d2 in mine:
                if d1[a] > 0 > d2[a]:
                    m1, m2 = -d2[a], d1[a]
                    d = {}
                    for x, v in d1.items():
                        d[x] = d.get(x, 0) + m1 * v
                    for x, v in d2.items():
                        d[x] = d.get(x, 0) + m2 * v
                    d = {x: v for x, v in d.items() if v}
                    k = frozenset(d.items())
                    c = m1 * c1 + m2 * c2
                    cur[k] = max(cur.get(k, c), c)
    if any(c > 0 for c in cur.values()):
        return None
    val = {}
    for a, mine in reversed(stages):
        lo = hi = None
        for c, d in mine:
            r = c + sum(v * val.get(x, 0) for x, v in d.items() if x is not a)
            if d[a] > 0:
                h = -r // d[a]
                hi = h if hi is None else min(hi, h)
            else:
                l = -(-r // -d[a]) if r > 0 else -((-r) // -d[a])
                lo = l if lo is None else max(lo, l)
        if lo is not None and hi is not None and lo > hi:
            return None
        val[a] = lo if lo is not None else hi if hi is not None else 0
    for c, d in rows:
        if c + sum(v * val.get(x, 0) for x, v in d.items()) > 0:
            return None
    for k, v in f.ne:
        c0, d = lin_parts(k)
        if all(x in val for x in d) and c0 + sum(n * val[x] for x, n in d.items()) == v:
            return None
    return val


def decide(f, c):
    """as ask, with all linear facts together; anything holds on a path which cannot be taken"""
    r = decide1(f, c)
    return True if r is False and empty(f) else r


def decide1(f, c):
    r = f.ask(c)
    if r is not None:
        return r
    if c.op == "eq0":
        x = c.args[0]
        a, b = decide1(f, c_le0(x)), decide1(f, c_le0(scale(x, -1)))
        return False if False in (a, b) else True if a is True and b is True else None
    for v in (True, False):
        g = f.copy()
        if not g.assume(c, v) or empty(g):
            return not v
    return None
