exec(open("/verif/tools/seeds2.py").read().split("\nS = [")[0])
CH = PRE + """
from gitdb.fun import *
from gitdb.fun import DeltaChunk, DeltaChunkList, TopdownDeltaChunkList, connect_deltas, delta_list_slice
def msb(n):
    r = b""
    while True:
        b = n & 0x7f
        n >>= 7
        r += bytes([b | (0x80 if n else 0)])
        if not n:
            return r
def cp(o, n):
    return bytes([0xb3, o & 255, o >> 8, n & 255, n >> 8])
def ins(d):
    return bytes([len(d)]) + d
class D:
    def __init__(self, src, cmds):
        # cmds: (offset, size) or bytes
        self.res = b"".join(src[c[0]:c[0] + c[1]] if isinstance(c, tuple) else c for c in cmds)
        self.buf = msb(len(src)) + msb(len(self.res)) + b"".join(cp(*c) if isinstance(c, tuple) else ins(c) for c in cmds)
        self.size = len(self.buf)
    def read(self, n=-1):
        return self.buf
def merged(base, *levels):
    src, ds = base, []
    for cmds in levels:
        d = D(src, cmds)
        src = d.res
        ds.insert(0, d)
    out = []
    connect_deltas(ds).apply(base, out.append)
    check(b"".join(out) == src, "%d deltas: %r, expected %r" % (len(ds), b"".join(out)[:60], src[:60]))
base = bytes(range(256))
"""
S = [
("C31-listing-live", "C31", [("db/pack.py", "        for entity in self.entities():\n            index = entity.index()\n", "        for item in self._entities:\n            index = item[1].index()\n")], ENT + """
from gitdb.db import PackedDB
ids = []
for i in range(3):
    os.makedirs(T + "/p%d" % i)
    l = []
    for j in range(3):
        d = b"object %d of pack %d" % (j, i)
        l.append((obj(b"blob", d), entry(3, d)))
    stem = write_pack(T + "/p%d" % i, l)
    for x in (".pack", ".idx"):
        os.rename(stem + x, T + "/pack-%040d" % i + x)
    ids.append([x[0] for x in l])
db = PackedDB(T)
every = sorted(x for l in ids for x in l)
check(sorted(db.sha_iter()) == every, "plain listing")
last = [e for e in db.entities()][-1]
target = next(last.index().sha(0) for _ in (0,))
seen = []
for x in db.sha_iter():
    seen.append(x)
    for i in range(600):
        db.has_object(target)
check(sorted(seen) == every, "listed %d ids, %d different ones of %d" % (len(seen), len(set(seen)), len(every)))
""", "lookups between the steps of sha_iter, enough of them (500) to make the database sort its packs by hits", "the order of the packs changes under the iteration: ids of one pack are listed twice, and those of another never"),
("C31-size-kept", "C31", [("db/pack.py", "        sizes = [item[1].index().size() for item in self._entities]\n        return reduce(lambda x, y: x + y, sizes, 0)\n", "        if not self._hit_count:\n            sizes = [item[1].index().size() for item in self._entities]\n            return reduce(lambda x, y: x + y, sizes, 0)\n        # END nothing looked up yet\n        return reduce(lambda x, y: x + y, [item[1].index().size() for item in self._entities if item[0] > 1], 0)\n")], ENT + """
from gitdb.db import PackedDB
for i in range(2):
    os.makedirs(T + "/p%d" % i)
    d = b"object of pack %d" % i
    stem = write_pack(T + "/p%d" % i, [(obj(b"blob", d), entry(3, d))])
    for x in (".pack", ".idx"):
        os.rename(stem + x, T + "/pack-%040d" % i + x)
db = PackedDB(T)
check(db.size() == 2, "size before")
db.has_object(next(iter(db.sha_iter())))
check(db.size() == 2, "size is %d after a lookup" % db.size())
""", "size() after an object of one of several packs was looked up", "packs which weren't hit yet are not counted"),
("C32-slice-edits-base", "C32", [("fun.py", "    if cd.to != absofs:\n        tcd = DeltaChunk(cd.to, cd.ts, cd.so, cd.data)\n", "    if cd.to != absofs:\n        tcd = cd\n")], CH + """
merged(base, [(0, 100), b"abcdef"], [(0, 106), (10, 20)])
merged(base, [(0, 100), b"abcdef"], [(10, 20), (10, 20), (0, 50)])
""", "two copies from the same piece of the base's delta, where the first doesn't start at the beginning of it", "the first copy changes the chunk of the base, so that the second one gets other bytes, or none"),
("C32-slice-not-capped", "C32", [("fun.py", "        tcd.ts = min(tcd.ts, size)\n        lappend(tcd)\n        size -= tcd.ts\n", "        lappend(tcd)\n        size = max(0, size - tcd.ts)\n")], CH + """
merged(base, [(0, 200)], [(0, 200), b"x"])
merged(base, [(0, 100), (150, 50)], [(100, 50), b"x"])
merged(base, [(0, 200)], [(10, 20), b"x"])
""", "a copy which starts and ends within one piece of the base's delta", "everything up to the end of the piece is copied"),
("C32-boundary-chunk", "C32", [("fun.py", "        if dc.to > absofs:\n            hi = mid\n", "        if dc.to >= absofs and mid:\n            hi = mid\n")], CH + """
merged(base, [(0, 100), b"abcdef", (7, 30)], [(10, 100), b"y"])
merged(base, [(0, 100), b"abcdef", (7, 30)], [(100, 36), (0, 100)])
""", "a copy which starts exactly where a piece of the base's delta starts", "it starts with the piece before"),
("C32-done-early", "C32", [("fun.py", "        if nfc == slen:\n            return False\n", "        if nfc and self[-1].data is not None and self[0].data is not None:\n            return False\n")], CH + """
merged(base, [(5, 100), b"1"], [(3, 50), b"2"], [b"a", (1, 20)])
merged(base, [(5, 100), b"1"], [(3, 50), b"2"], [b"a", (1, 20), b"b"])
""", "a chain of three deltas of which the last begins and ends with inserted data", "the merge stops although copies are left, which then copy from the wrong base"),
("C32-compress-untruncated", "C32", [("fun.py", "                        nd.write(xdc.data[:xdc.ts])\n", "                        nd.write(xdc.data)\n")], CH + """
l = DeltaChunkList([DeltaChunk(0, 2, 0, b"abcd"), DeltaChunk(2, 3, 0, b"efg"), DeltaChunk(5, 1, 0, b"h"), DeltaChunk(6, 4, 0, None)])
def text(x):
    o = []
    x.apply(base, o.append)
    return b"".join(o)
want = text(l)
check(text(l.compress()) == want, "%r, expected %r" % (text(l), want))
""", "data chunks which were cut by delta_list_slice, whose size is smaller than their data", "joining them brings back the bytes which were cut off"),
]
