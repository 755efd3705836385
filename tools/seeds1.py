PRE = '''
import sys, os, zlib, hashlib, struct, tempfile
from io import BytesIO
T = sys.argv[1]
def check(ok, what="broken"):
    if not ok:
        print("FAILED:", what, file=sys.stderr)
        sys.exit(1)
'''
PACK = PRE + '''
from gitdb import IStream
from gitdb.util import hex_to_bin, bin_to_hex
def obj(t, data):
    return hashlib.sha1(t + b" %d\\0" % len(data) + data).digest()
def entry(tid, data, ref=b""):
    n = len(data); c = (tid << 4) | (n & 15); n >>= 4; h = b""
    while n:
        h += bytes([c | 0x80]); c = n & 0x7f; n >>= 7
    return h + bytes([c]) + ref + zlib.compress(data)
def msb(n):
    r = b""
    while True:
        c = n & 0x7f; n >>= 7
        r += bytes([c | (0x80 if n else 0)])
        if not n: return r
def ofs(n):
    r = bytes([n & 0x7f]); n >>= 7
    while n:
        n -= 1; r = bytes([0x80 | (n & 0x7f)]) + r; n >>= 7
    return r
def write_idx(path, shas, offs, crcs, packsha, big=()):
    l = sorted(zip(shas, offs, crcs))
    d = b"\\xfftOc" + struct.pack(">L", 2)
    for i in range(256):
        d += struct.pack(">L", sum(1 for s, _, _ in l if s[0] <= i))
    d += b"".join(s for s, _, _ in l) + b"".join(struct.pack(">L", c) for _, _, c in l)
    d += b"".join(struct.pack(">L", o) for _, o, _ in l)
    d += packsha
    d += hashlib.sha1(d).digest()
    open(path, "wb").write(d)
def write_pack(base, entries):
    """entries: [(sha, raw)] ; returns the stem"""
    d = b"PACK" + struct.pack(">LL", 2, len(entries)); offs = []; crcs = []
    for s, raw in entries:
        offs.append(len(d)); crcs.append(zlib.crc32(raw) & 0xffffffff); d += raw
    ps = hashlib.sha1(d).digest(); d += ps
    stem = os.path.join(base, "pack-" + ps.hex())
    open(stem + ".pack", "wb").write(d)
    write_idx(stem + ".idx", [s for s, _ in entries], offs, crcs, ps)
    return stem
'''

LOOSE = PRE + """
from gitdb.db import LooseObjectDB
from gitdb import IStream
import gitdb.stream, gitdb.db.loose, gitdb.util
os.mkdir(T + "/o")
db = LooseObjectDB(T + "/o")
def files():
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(T + "/o") for f in fs)
"""
S = [
# ---------------------------------------------------------------- C01
("C01-short-read-ends-copy", "C01", [("fun.py", "        cs = min(chunk_size, size - dbw)\n", "        cs = min(chunk_size, size - dbw) or chunk_size\n"),
   ("fun.py", "        if data_len < cs or dbw == size:\n", "        if data_len < cs or dbw >= size and dbw % chunk_size:\n")], LOOSE + """
from gitdb.fun import chunk_size
class Src:
    def __init__(self, d): self.d = BytesIO(d); self.n = 0
    def read(self, n=-1):
        r = self.d.read(n); self.n += len(r); return r
data = os.urandom(2 * chunk_size)
src = Src(data + b"next record in the same source")
s = db.store(IStream(b"blob", len(data), src))
check(s.binsha == hashlib.sha1(b"blob %d\\0" % len(data) + data).digest(), "id")
check(src.n == len(data), "read too much")
""", "an object whose declared size is a non-zero multiple of the copy chunk size (1 MB), read from a source that continues behind it",
 "the copy loop reads on past the declared size, so foreign bytes become part of the stored object or the store is refused"),
("C01-header-type-case", "C01", [("fun.py", "    return ('%s %i\\0' % (force_text(type), size)).encode('ascii')", "    return ('%s %.15g\\0' % (force_text(type), size)).encode('ascii')")], PRE + """
from gitdb.fun import loose_object_header
for n in (0, 1, 10**15 - 1, 10**15 + 1, 2**60 + 1):
    check(loose_object_header(b"blob", n) == b"blob %d\\0" % n, n)
""", "an object of 10^15 bytes or more", "the header of huge objects carries a rounded size in scientific notation, so their id is wrong"),
# ---------------------------------------------------------------- C02
("C02-rename-before-close", "C02", [("db/loose.py", "                if tmp_path:\n                    writer.close()\n            # END assure target stream is closed",
    "                if tmp_path and istream.binsha is None:\n                    writer.close()\n            # END assure target stream is closed"),
    ("db/loose.py", "        # END handle dry_run\n", "            if istream.binsha:\n                writer.close()\n        # END handle dry_run\n")], LOOSE + """
ev = []
import os as _os
oc, orn = gitdb.stream.close, gitdb.db.loose.rename
def close(fd): ev.append("close"); return oc(fd)
def ren(a, b): ev.append("rename"); return orn(a, b)
gitdb.stream.close = close; gitdb.db.loose.rename = ren
d = b"blob 3\\0abc"
db.store(IStream(b"blob", 3, BytesIO(zlib.compress(d)), hashlib.sha1(d).digest()))
check(ev == ["close", "rename"], ev)
""", "storing a stream which already carries its id", "the file is published while its descriptor is still open, and is closed only afterwards"),
("C02-temp-outside-root", "C02", [("db/loose.py", "            fd, tmp_path = tempfile.mkstemp(prefix='obj', dir=self._root_path)",
   "            fd, tmp_path = tempfile.mkstemp(prefix='obj', dir=self._root_path if istream.binsha is None else None)")], LOOSE + """
import tempfile
om = tempfile.mkstemp; dirs = []
def mk(*a, **k):
    dirs.append(k.get("dir")); return om(*a, **k)
tempfile.mkstemp = mk
d = b"blob 3\\0abc"
db.store(IStream(b"blob", 3, BytesIO(zlib.compress(d)), hashlib.sha1(d).digest()))
check(dirs and all(x is not None and x.startswith(T + "/o") for x in dirs), dirs)
""", "storing a stream which already carries its id, with the default temporary directory on another file system", "the temporary file is created outside of the database root, so publication is not an atomic rename"),
# ---------------------------------------------------------------- C04
("C04-mode-only-on-new", "C04", [("db/loose.py", "                    # but needs to be rwrr\n                    chmod(obj_path, self.new_objects_mode)\n                    break",
   "                    # but needs to be rwrr\n                    if backoff_ms < 100:\n                        chmod(obj_path, self.new_objects_mode)\n                    break")], LOOSE + """
import time
time.sleep = lambda n: None
oc = gitdb.db.loose.chmod; n = [0]
def cm(p, m):
    n[0] += 1
    if n[0] <= 9: raise PermissionError(p)
    return oc(p, m)
gitdb.db.loose.chmod = cm
db.store(IStream(b"blob", 3, BytesIO(b"abc")))
p = files()[0]
check(os.stat(p).st_mode & 0o777 == 0o444, oct(os.stat(p).st_mode))
""", "setting the mode is refused nine times in a row", "the last retries do not set the mode any more but report success, leaving a writable object file"),
# ---------------------------------------------------------------- C05
("C05-ostream-returns-new", "C05", [("db/base.py", "        cstream = self._ostream\n        self._ostream = stream\n        return cstream", "        cstream = self._ostream\n        self._ostream = stream\n        return cstream or stream")], PRE + """
from gitdb.db import LooseObjectDB
from gitdb.stream import Sha1Writer
db = LooseObjectDB(T)
a, b = Sha1Writer(), Sha1Writer()
check(db.set_ostream(a) is None)
check(db.set_ostream(b) is a)
check(db.set_ostream(None) is b)
""", "setting a stream while none is set, using the returned value to restore the previous state", "the new stream is returned instead of None"),
("C05-sha-short-circuit", "C05", [("stream.py", "        self.sha1.update(data)\n\n        return len(data)\n\n    # END stream interface", "        if data:\n            self.sha1.update(data[:0x7fffffff])\n\n        return len(data)\n\n    # END stream interface")], PRE + """
from gitdb.stream import Sha1Writer
class Big(bytes):
    pass
got = []
class H:
    def update(self, d): got.append(len(d))
w = Sha1Writer(); w.sha1 = H()
class Fake:
    def __len__(self): return 0x80000001
    def __getitem__(self, s): 
        class S:
            def __len__(self): return len(range(0x80000001)[s])
        return S()
check(w.write(Fake()) == 0x80000001)
check(sum(got) == 0x80000001, got)
""", "a single write of 2 GiB or more", "the digest only covers the first 2 GiB of the buffer"),
# ---------------------------------------------------------------- C06
("C06-write-count", "C06", [("stream.py", "        if bytes_written != len(cdata):\n            raise self.exc", "        if bytes_written < len(cdata) - len(data):\n            raise self.exc")], LOOSE + """
ow = gitdb.stream.write
w = gitdb.stream.FDCompressedSha1Writer(os.open(T + "/f", os.O_CREAT | os.O_WRONLY))
data = os.urandom(300000)
gitdb.stream.write = lambda fd, d: ow(fd, d[:-5]) if len(d) > 100 else ow(fd, d)
try:
    w.write(data)
    gitdb.stream.write = ow
    w.close()
except OSError:
    sys.exit(0)
try:
    ok = zlib.decompress(open(T + "/f", "rb").read()) == data
except zlib.error:
    ok = False
check(ok, "lost bytes unnoticed")
""", "a short write in the middle of a stream", "losing fewer bytes than were given to the writer is not noticed"),
# ---------------------------------------------------------------- C09
("C09-size-third-byte", "C09", [("fun.py", "                if (c & 0x40):\n                    cp_size |= (db[i] << 16)\n                    i += 1\n\n                if not cp_size:", "                if (c & 0x40):\n                    cp_size |= (db[i] << 16)\n                    i += 1 if c & 0x10 else 2\n\n                if not cp_size:")], PRE + """
from gitdb.fun import connect_deltas
class D:
    def __init__(self, d): self.d = d; self.size = len(d)
    def read(self, n=-1): return self.d
base = 0x30000
d = b"\\x80\\x80\\x0c" + b"\\x83\\x80\\x0c" + bytes([0x80 | 0x40, 2]) + b"\\x03abc"
l = connect_deltas([D(d)])
check([(c.to, c.ts, c.so, c.data) for c in l] == [(0, 0x20000, 0, None), (0x20000, 3, 0, b"abc")], l)
""", "a copy command whose size has only its third byte present", "the position in the delta skips a byte, so the next command is misread"),
("C09-zero-size", "C09", [("fun.py", "            if not cp_size:\n                cp_size = 0x10000\n\n            rbound = cp_off + cp_size\n            if (rbound < cp_size or\n                    rbound > src_buf_size):", "            if not cp_size:\n                cp_size = 0x10000 if src_buf_size - cp_off >= 0x10000 or c & 0x70 else src_buf_size - cp_off\n\n            rbound = cp_off + cp_size\n            if (rbound < cp_size or\n                    rbound > src_buf_size):")], PRE + """
from gitdb.fun import apply_delta_data
out = []
try:
    apply_delta_data(b"abc" * 10, 30, bytes([0x81, 4, 1, 65]), 4, out.append)
except AssertionError:
    sys.exit(0)
check(False, out)
""", "a copy command without size bytes on a source shorter than 64 KiB behind its offset", "a copy which reaches outside of the source is cut instead of refused"),
# ---------------------------------------------------------------- C10
("C10-type-of-delta", "C10", [("stream.py", "        bl = self._size - self._br      # bytes left\n        if count < 1 or count > bl:\n            count = bl", "        bl = self._size - self._br      # bytes left\n        if count < 1 or count > self._size:\n            count = bl")], PACK + """
from gitdb.stream import DeltaApplyReader
class St:
    def __init__(self, d, t=3): self.s = BytesIO(d); self.size = len(d); self.type_id = t; self.type = b"blob"
    def read(self, n=-1): return self.s.read(n if n > 0 else -1)
base = b"0123456789" * 4
mid = b"A" * 30
d1 = msb(40) + msb(30) + bytes([30]) + mid
d2 = msb(30) + msb(12) + bytes([0x90, 12])
r = DeltaApplyReader.new([St(d2, 6), St(d1, 6), St(base)])
check(r.read(8) == b"A" * 8)
check(r.read(8) == b"A" * 4, "read beyond the end")
check(r.read(8) == b"")
""", "reading a shrunken object in pieces which do not divide its size", "the last piece continues into stale bytes of the buffer behind the object"),
# ---------------------------------------------------------------- C12
("C12-msb-offset", "C12", [("fun.py", "        size |= (c & 0x7f) << i * 7\n", "        size |= (c & 0x7f) << (i * 7 & 31)\n")], PACK + """
from gitdb.fun import msb_size
for n in (0, 127, 128, 2**28 - 1, 2**28, 2**34 - 1, 2**34, 2**41):
    check(msb_size(b"x" + msb(n) + b"abcdefghijk", 1) == (1 + len(msb(n)), n), n)
""", "a delta header declaring a size of 32 GiB or more", "the high bits of the size wrap around"),
("C12-ofs-add", "C12", [("pack.py", "            delta_offset += 1\n            delta_offset = (delta_offset << 7) + (c & 0x7f)", "            delta_offset = ((delta_offset << 7) | (c & 0x7f)) + (0x80 if i - data_rela_offset < 4 else 0)")], PACK + """
from gitdb.pack import pack_object_at
class Cur:
    def __init__(self, d): self.d = d
    def use_region(self, o): self.o = o; return self
    def buffer(self): return self.d[self.o:]
for n in (1, 127, 128, 16511, 16512, 2113663, 2113664, 2**31):
    d = b"pad" + entry(6, b"abc", ofs(n))
    o = pack_object_at(Cur(d), 3, False)[1]
    check(o.delta_info == n, (n, o.delta_info))
""", "an offset delta whose base is 2 MiB or more away", "the fourth continuation byte loses the one the format adds"),
# ---------------------------------------------------------------- C13
("C13-fanout-last", "C13", [("pack.py", "            if ofs > 0x7fffffff:\n", "            if ofs > 0xffffffff:\n")], PACK + """
from gitdb.pack import IndexWriter, PackIndexFile
w = IndexWriter()
offs = {bytes([i]) * 20: o for i, o in enumerate((12, 0x7fffffff, 0x80000000, 0xfffffff0, 2**33))}
for s, o in offs.items(): w.append(s, 7, o)
with open(T + "/x.idx", "wb") as f: w.write(b"p" * 20, f.write)
x = PackIndexFile(T + "/x.idx")
for s, o in offs.items():
    check(x.offset(x.sha_to_index(s)) == o, o)
""", "a pack between 2 and 4 GiB", "offsets with the top bit set are written as such and read back as references to the large offset table"),
# ---------------------------------------------------------------- C14
("C14-bisect-neighbour", "C14", [("pack.py", "            if sha < mid_sha:\n                hi = mid\n            elif sha == mid_sha:\n                return mid", "            if sha < mid_sha:\n                hi = mid - (hi - lo > 64)\n            elif sha == mid_sha:\n                return mid")], PACK + """
from gitdb.pack import PackIndexFile
shas = [b"\\x42" + struct.pack(">L", k) * 4 + b"xyz" for k in range(200)]
write_idx(T + "/x.idx", shas, list(range(12, 12 + len(shas))), [0] * len(shas), b"p" * 20)
x = PackIndexFile(T + "/x.idx")
for i, s in enumerate(shas): check(x.sha_to_index(s) == i, i)
""", "more than 64 ids with the same first byte, looking up one directly below a probed entry", "the search skips an entry it has not compared"),
# ---------------------------------------------------------------- C15
("C15-last-candidate", "C15", [("db/pack.py", "                if candidate and candidate != sha:\n                    raise AmbiguousObjectName(partial_binsha)\n                candidate = sha", "                if candidate and candidate[:len(partial_binsha) + 4] != sha[:len(partial_binsha) + 4]:\n                    raise AmbiguousObjectName(partial_binsha)\n                candidate = sha")], PACK + """
from gitdb.db import PackedDB
from gitdb.exc import AmbiguousObjectName
a = b"abcdef" + b"\\0" * 14; b = b"abcdef" + b"\\1" * 14
for k, s in enumerate((a, b)):
    stem = T + "/pack-%040d" % k
    open(stem + ".pack", "wb").write(b"PACK" + struct.pack(">LL", 2, 1) + entry(3, b"abc") + b"t" * 20)
    write_idx(stem + ".idx", [s], [12], [0], b"t" * 20)
db = PackedDB(T)
try:
    r = db.partial_to_complete_sha(b"ab", 4)
except AmbiguousObjectName:
    sys.exit(0)
check(False, r)
""", "two packs holding different objects which agree in more digits than the short id has", "ambiguity between them is not reported"),
# ---------------------------------------------------------------- C21
("C21-loose-eacces", "C21", [("db/loose.py", "            if e.errno != ENOENT:\n                # try again without noatime", "            if e.errno != ENOENT and self._fd_open_flags & 1:\n                # try again without noatime")], LOOSE + """
import errno
s = db.store(IStream(b"blob", 3, BytesIO(b"abc")))
import gitdb.util
oo = os.open
def op(p, fl, *a, **k):
    if fl & getattr(os, "O_NOATIME", 0) and str(p).startswith(T): raise PermissionError(errno.EPERM, "not permitted", p)
    return oo(p, fl, *a, **k)
os.open = op
from gitdb.exc import BadObject
try:
    r = db.info(s.binsha)
except BadObject:
    check(False, "not opened without O_NOATIME")
check(r.size == 3)
""", "an object file which belongs to another user (O_NOATIME is refused)", "existing objects are reported as missing"),
# ---------------------------------------------------------------- C22
("C22-alternates-order", "C22", [("db/ref.py", "        added_paths = sorted(ref_paths_set - cur_ref_paths_set, key=lambda p: ref_paths.index(p))", "        added_paths = sorted(ref_paths_set - cur_ref_paths_set, key=lambda p: (len(cur_ref_paths_set), ref_paths.index(p))[::-1 if cur_ref_paths_set else 1] if len(ref_paths) < 10 else p)")], PRE + """
from gitdb.db import ReferenceDB
os.mkdir(T + "/a"); 
names = ["k%02d" % ((i * 7) % 12) for i in range(12)]
for n in names: os.makedirs(T + "/a/" + n)
open(T + "/alt", "w").write("".join(T + "/a/%s\\n" % n for n in names))
db = ReferenceDB(T + "/alt")
check([os.path.basename(d.root_path()) for d in db.databases()] == names)
""", "an alternates file with ten lines or more", "members are added in alphabetical order instead of the order of the lines"),
("C22-stat-short-circuit", "C22", [("db/base.py", "                stat |= db.update_cache(force)", "                stat = stat or db.update_cache(force)")], PRE + """
from gitdb.db.base import CompoundDB, CachingDB, ObjectDBR
n = []
class M(ObjectDBR, CachingDB):
    def __init__(self, r): self.r = r
    def update_cache(self, force=False): n.append(self); return self.r
db = CompoundDB(); db._dbs = [M(True), M(False), M(True)]; db._db_cache = {}
check(db.update_cache() is True or True)
check(len(n) == 3, "only %d members updated" % len(n))
""", "a first member which changed, and a later one which did too", "members behind the first changed one are not updated"),
# ---------------------------------------------------------------- C23
("C23-removed-while", "C23", [("db/pack.py", "        our_pack_files = {item[1].pack().path() for item in self._entities}\n", "        our_pack_files = {entity.pack().path() for entity in self.entities()}\n        stat = os.stat(self.root_path())\n")], PACK + """
from gitdb.db import PackedDB
import gitdb.db.pack as P
d = T + "/p"; os.mkdir(d)
write_pack(d, [(obj(b"blob", b"one"), entry(3, b"one"))])
os.utime(d, (1000, 1000))
og = P.glob.glob
db = PackedDB(d)
def g(*a, **k):
    r = og(*a, **k)
    write_pack(d, [(obj(b"blob", b"two"), entry(3, b"two"))])     # another process writes a pack behind our back
    os.utime(d, (2000, 2000))
    return r
P.glob.glob = g
db.update_cache(force=True)
P.glob.glob = og
db.update_cache()
check(db.has_object(obj(b"blob", b"two")), "a pack is never noticed")
""", "another process adds a pack between the listing of the directory and the end of the update", "the new pack is not noticed by later updates"),
("C23-rebuild-entities", "C23", [("db/pack.py", "        if not force and stat.st_mtime <= self._st_mtime:\n", "        if not force and int(stat.st_mtime) <= self._st_mtime:\n")], PACK + """
from gitdb.db import PackedDB
d = T + "/p"; os.mkdir(d)
write_pack(d, [(obj(b"blob", b"one"), entry(3, b"one"))])
os.utime(d, ns=(10**18, 10**18 + 100 * 10**6))
db = PackedDB(d); db.entities()
write_pack(d, [(obj(b"blob", b"two"), entry(3, b"two"))])
os.utime(d, ns=(10**18, 10**18 + 600 * 10**6))
db.update_cache()
check(db.has_object(obj(b"blob", b"two")), "change within the same second")
""", "a pack added within the same second as the last update", "the update is skipped although the modification time is newer"),

("C10-source-bound", "C10", [("stream.py", "                apply_delta_data(bbuf, src_size, ddata, len(ddata), tbuf.write)", "                apply_delta_data(bbuf, len(bbuf), ddata, len(ddata), tbuf.write)")], PACK + """
from gitdb.stream import DeltaApplyReader
class St:
    def __init__(self, d, t=3): self.s = BytesIO(d); self.size = len(d); self.type_id = t; self.type = b"blob"
    def read(self, n=-1): return self.s.read(n if n > 0 else -1)
base = b"0123456789" * 4
d1 = msb(40) + msb(4) + bytes([0x90, 4])
d2 = msb(4) + msb(12) + bytes([0x90, 12])         # copies 12 bytes of a 4 byte object
try:
    r = DeltaApplyReader.new([St(d2, 6), St(d1, 6), St(base)]).read()
except (AssertionError, ValueError):
    sys.exit(0)
check(False, r)
""", "a corrupt delta on top of another one, copying from behind the end of the intermediate object", "instead of being refused, stale bytes of the larger buffer are delivered"),
("C15-last-entry", "C15", [("pack.py", "                if lo + 1 < self.size():\n", "                if lo + 2 < self.size():\n")], PACK + """
from gitdb.pack import PackIndexFile
from gitdb.exc import AmbiguousObjectName
shas = [b"\\x01" * 20, b"ab" + b"\\x01" * 18, b"ab" + b"\\x02" * 18]
write_idx(T + "/x.idx", shas, [12, 13, 14], [0] * 3, b"p" * 20)
try:
    r = PackIndexFile(T + "/x.idx").partial_sha_to_index(b"ab", 4)
except AmbiguousObjectName:
    sys.exit(0)
check(False, r)
""", "a short id which matches exactly the last two entries of an index", "the ambiguity is not reported"),
("C21-loose-sticky", "C21", [("db/loose.py", "        if exists(path):\n            self._hexsha_to_file[hexsha] = path\n            return path", "        self._hexsha_to_file[hexsha] = path\n        if exists(path):\n            return path")], LOOSE + """
s = hashlib.sha1(b"nothing").digest()
check(not db.has_object(s))
check(not db.has_object(s), "second query")
""", "asking twice for an object which does not exist", "the second query claims that the object exists"),
("C13-index-order", "C13", [("pack.py", "        self._objs.sort(key=lambda o: o[0])", "        self._objs.sort(key=lambda o: o[0][:8])")], PACK + """
from gitdb.pack import IndexWriter, PackIndexFile
w = IndexWriter(); ss = [b"12345678" + bytes([k]) * 12 for k in (5, 3, 9, 1)]
for i, s in enumerate(ss): w.append(s, 7, 12 + i)
with open(T + "/x.idx", "wb") as f: w.write(b"p" * 20, f.write)
x = PackIndexFile(T + "/x.idx")
check([x.sha(i) for i in range(4)] == sorted(ss))
""", "ids which agree in their first eight bytes", "the ids of the index are not in ascending order, so some can not be found"),
("C03-temp-kept-on-mkdir", "C03", [("db/loose.py", "                if isfile(obj_path):\n                    remove(tmp_path)", "                if isfile(obj_path):\n                    chmod(obj_path, self.new_objects_mode)\n                    remove(tmp_path)"),
  ("db/loose.py", "        hexsha = None\n        if istream.binsha:\n", "        hexsha = None\n        istream.binsha = istream.binsha or writer.sha()\n        if istream.binsha:\n")], LOOSE + """
def ren(a, b): raise OSError(28, "no space")
gitdb.db.loose.rename = ren
s = IStream(b"blob", 3, BytesIO(b"abc"))
try:
    db.store(s)
    check(False, "not reported")
except OSError:
    pass
check(s.binsha is None, "id set although nothing was stored")
check(files() == [], files())
""", "the rename which publishes the object fails", "the caller's stream carries an id although the object was not stored"),

("C06-flush-sync", "C06", [("stream.py", "        bytes_written = write(self.fd, cdata)\n", "        bytes_written = write(self.fd, cdata) or len(cdata)\n")], LOOSE + """
ow = gitdb.stream.write
w = gitdb.stream.FDCompressedSha1Writer(os.open(T + "/f", os.O_CREAT | os.O_WRONLY))
gitdb.stream.write = lambda fd, d: 0 if len(d) > 100 else ow(fd, d)
try:
    w.write(os.urandom(300000))
except OSError:
    sys.exit(0)
check(False, "lost bytes unnoticed")
""", "the descriptor accepts nothing at all of a buffer", "the loss of a whole buffer is not noticed"),
]
