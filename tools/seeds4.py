exec(open("/verif/tools/seeds2.py").read().split("\nS = [")[0])
S = [
("C07-unreadable-keeps-lock", "C07", [("util.py", "            except:\n                # assure we release our lockfile\n                remove(self._lockfilepath())\n                raise\n            # END handle lockfile\n        # END open descriptor for reading\n",
  "            except FileNotFoundError:\n                # assure we release our lockfile\n                remove(self._lockfilepath())\n                raise\n            # END handle lockfile\n        # END open descriptor for reading\n")], PRE + """
from gitdb.util import LockedFD
p = T + "/loop"
os.symlink(p, p)
try:
    LockedFD(p).open()
    check(False, "opened")
except OSError:
    pass
check(not os.path.lexists(p + ".lock"), "lock is left")
os.remove(p)
open(p, "wb").write(b"x")
l = LockedFD(p)
os.read(l.open(), 1)
l.rollback()
""", "a file which can't be opened for reading for another reason than being absent, as a symlink loop", "the lock of the failed reader stays, and the file can't be locked by anyone anymore"),
("C08-lookup-fixes-mode", "C08", [("db/loose.py", "        if exists(path):\n            self._hexsha_to_file[hexsha] = path\n", "        if exists(path):\n            if os.stat(path).st_mode & 0o222:\n                chmod(path, self.new_objects_mode)\n            self._hexsha_to_file[hexsha] = path\n")], LOOSE + """
data = b"blob 3\\0abc"
sha = hashlib.sha1(data).hexdigest()
os.mkdir(T + "/o/" + sha[:2])
p = T + "/o/" + sha[:2] + "/" + sha[2:]
open(p, "wb").write(zlib.compress(data))
os.chmod(p, 0o640)
b = os.stat(p)
check(db.has_object(bytes.fromhex(sha)), "has")
check(db.stream(bytes.fromhex(sha)).read() == b"abc", "read")
a = os.stat(p)
check((a.st_mode, a.st_ctime_ns) == (b.st_mode, b.st_ctime_ns), "a lookup changed the file")
""", "an object file with write permission, as other tools leave it, which is looked up by id", "a query changes the file's mode (and fails for those who may only read)"),
("C08-iteration-cleans-up", "C08", [("db/loose.py", "                if len(f) != 38:\n                    continue\n", "                if len(f) != 38:\n                    if f.startswith('tmp_obj'):\n                        # git leaves those if it gets interrupted\n                        remove(join(root, f))\n                    continue\n")], LOOSE + """
o = db.store(IStream(b"blob", 3, BytesIO(b"abc")))
d = os.path.dirname([f for f in files()][0])
t = d + "/tmp_obj_a1b2c3"
open(t, "wb").write(b"in progress")
check(list(db.sha_iter()) == [o.binsha], "iteration")
check(db.size() == 1)
check(os.path.isfile(t), "the file of another writer is gone")
""", "a temporary file of a git process within one of the object directories, while the objects are listed", "listing or counting objects deletes files other writers are still working on"),
("C25-loose-map-stays", "C25", [("db/loose.py", "        type, size, stream = DecompressMemMapReader.new(m, close_on_deletion=True)\n        return OStream(sha, type, size, stream)\n", "        type, size, stream = DecompressMemMapReader.new(m)\n        return OStream(sha, type, size, stream)\n")], LOOSE + """
maps = []
orig = gitdb.util.file_contents_ro_filepath
def rec(*a, **k):
    m = orig(*a, **k); maps.append(m); return m
gitdb.db.loose.file_contents_ro_filepath = rec
o = db.store(IStream(b"blob", 3, BytesIO(b"abc")))
s = db.stream(o.binsha)
check(s.read() == b"abc")
s.stream.close()
check(len(maps) == 1 and maps[0].closed, "the map is still open")
""", "many streams of loose objects which are closed by their user while references to them remain", "closing the stream doesn't release its memory map"),
("C25-fd-on-failed-map", "C25", [("util.py", "    try:\n        return file_contents_ro(fd, stream, allow_mmap)\n    finally:\n        close(fd)\n    # END assure file is closed\n", "    contents = file_contents_ro(fd, stream, allow_mmap)\n    close(fd)\n    # END assure file is closed\n    return contents\n")], PRE + """
from gitdb.util import file_contents_ro_filepath
p = T + "/empty"
open(p, "wb").close()
n = len(os.listdir("/proc/self/fd"))
for i in range(5):
    try:
        file_contents_ro_filepath(p)
    except ValueError:
        pass
check(len(os.listdir("/proc/self/fd")) == n, "descriptors leak")
""", "an empty file (or any other failure to map or read it)", "the descriptor of the file stays open forever"),
("C25-info-of-broken", "C25", [("db/loose.py", "        try:\n            typ, size = loose_object_header_info(m)\n            return OInfo(sha, typ, size)\n        finally:\n            if hasattr(m, 'close'):\n                m.close()\n        # END assure release of system resources\n", "        typ, size = loose_object_header_info(m)\n        if hasattr(m, 'close'):\n            m.close()\n        # END assure release of system resources\n        return OInfo(sha, typ, size)\n")], LOOSE + """
maps = []
orig = gitdb.util.file_contents_ro_filepath
def rec(*a, **k):
    m = orig(*a, **k); maps.append(m); return m
gitdb.db.loose.file_contents_ro_filepath = rec
o = db.store(IStream(b"blob", 3, BytesIO(b"abc")))
f = files()[0]
check(db.info(o.binsha).size == 3)
os.remove(f)
open(f, "wb").write(b"this is no loose object")
try:
    db.info(o.binsha)
    check(False, "info of garbage")
except Exception:
    pass
check(len(maps) == 2 and all(m.closed for m in maps), "the map is still open")
""", "a corrupt loose object whose header can't be parsed", "the map of the file isn't closed if info fails"),
("C26-binary-looks-hex", "C26", [("util.py", "    if len(sha) == 20:\n        return sha\n    return hex_to_bin(sha)\n", "    try:\n        return hex_to_bin(sha)\n    except ValueError:\n        return sha\n")], PRE + """
from gitdb.util import to_bin_sha, to_hex_sha
b = b"0123456789abcdef0123"
check(to_bin_sha(b) == b, "binary id changed: %r" % to_bin_sha(b))
check(to_bin_sha(b.hex()) == b)
check(to_bin_sha(bytes(range(20))) == bytes(range(20)))
""", "a binary id whose 20 bytes all are ASCII hex digits", "the id is taken for hex and turned into 10 bytes"),
("C26-delta-size-of-header", "C26", [("base.py", "    @property\n    def size(self):\n        return self[3].size\n", "    @property\n    def size(self):\n        return self[2] or self[3].size\n")], PRE + """
from gitdb.base import ODeltaStream
class R:
    size = 1000
    def read(self, n=-1): return b""
check(ODeltaStream(b"a" * 20, b"blob", None, R()).size == 1000)
check(ODeltaStream(b"a" * 20, b"blob", 12, R()).size == 1000, "size of the delta")
""", "a delta stream which was created with the size found in the pack header, which is the one of the delta", "the size of the object is reported as the size of its delta"),
("C26-error-shares-slot", "C26", [("base.py", "        return list.__new__(cls, (sha, type, size, stream, None))\n\n    def __init__(self, type, size, stream, sha=None):\n        list.__init__(self, (sha, type, size, stream, None))\n", "        return list.__new__(cls, (sha, type, size, stream))\n\n    def __init__(self, type, size, stream, sha=None):\n        list.__init__(self, (sha, type, size, stream))\n"),
   ("base.py", "        return self[4]\n\n    def _set_error(self, exc):", "        return self[4] if len(self) > 4 else None\n\n    def _set_error(self, exc):"),
   ("base.py", "        self[4] = exc\n", "        self.append(exc)\n")], PRE + """
from gitdb import IStream
i = IStream(b"blob", 3, BytesIO(b"abc"))
check(i.error is None)
e = ValueError("x")
i.error = e
check(i.error is e)
i.error = None
check(i.error is None, "the error can't be reset")
""", "an input stream whose error is set twice, as when it is reset before the next try", "the second assignment of the error is ignored"),
("C27-rewind-if-depleted", "C27", [("db/mem.py", "            ostream.stream.seek(0)\n", "            if ostream.stream._br == ostream.size:\n                ostream.stream.seek(0)\n")], PRE + """
from gitdb.db import MemoryDB
from gitdb import IStream
db = MemoryDB()
o = db.store(IStream(b"blob", 6, BytesIO(b"abcdef")))
check(db.stream(o.binsha).read() == b"abcdef")
check(db.stream(o.binsha).read(2) == b"ab", "first part")
check(db.stream(o.binsha).read() == b"abcdef", "second query starts within the object")
""", "a stream of an in-memory object of which only a part was read before the object is queried again", "the second query yields the rest of the object only"),
("C27-copy-stops-at-known", "C27", [("db/mem.py", "            if odb.has_object(sha):\n                continue\n            # END check object existence\n", "            if count and odb.has_object(sha):\n                break\n            elif odb.has_object(sha):\n                continue\n            # END check object existence\n")], PRE + """
from gitdb.db import MemoryDB, LooseObjectDB
from gitdb import IStream
os.mkdir(T + "/o")
db, to = MemoryDB(), LooseObjectDB(T + "/o")
s = [db.store(IStream(b"blob", 1, BytesIO(c))).binsha for c in (b"a", b"b", b"c")]
to.store(IStream(b"blob", 1, BytesIO(b"b")))
check(db.stream_copy(iter(s), to) == 2, "count")
check(all(to.has_object(x) for x in s), "object is missing")
""", "a target which already has an object that comes after the first one copied", "the objects after the known one aren't copied"),
("C28-chunk-of-size", "C28", [("fun.py", "    tbw += stream_copy(read, write, size, chunk_size)\n", "    tbw += stream_copy(read, write, size, max(size, chunk_size))\n")], LOOSE + """
big = []
class Src:
    left = 40 << 20
    def read(self, n=-1):
        if n < 0 or n > self.left: n = self.left
        big.append(n); self.left -= n
        return bytes(n)
db.store(IStream(b"blob", 40 << 20, Src()))
check(max(big) <= 4 << 20, "%i bytes were asked for at once" % max(big))
""", "an object larger than the memory which is available", "the whole object is read into memory at once when it is stored"),
("C28-window-to-the-end", "C28", [("stream.py", "            self._cws = self._cwe - len(tail)\n            self._cwe = self._cws + size\n", "            self._cws = self._cwe - len(tail)\n            self._cwe = len(self._m)\n")], PRE + """
from gitdb.stream import DecompressMemMapReader
taken = []
class M:
    def __init__(self, d): self.d = d
    def __len__(self): return len(self.d)
    def __getitem__(self, i):
        r = self.d[i]; taken.append(len(r)); return r
data = bytes(os.urandom(64)) * 4 + os.urandom(1 << 20)
r = DecompressMemMapReader(M(zlib.compress(data)), False, len(data))
out = b""
while True:
    c = r.read(1000)
    if not c: break
    out += c
check(out == data, "content")
check(max(taken) < 20000, "%i bytes of the map are copied" % max(taken))
""", "reading a big object in small parts", "every read copies the rest of the compressed object, and all of the pack behind it, into memory"),
("C29-usual-levels-only", "C29", [("fun.py", "    return b0 == 0x78 and (word % 31) == 0\n", "    return b0 == 0x78 and b1 in (0x01, 0x9c, 0xda)\n")], PRE + """
from gitdb.fun import is_loose_object
for level in range(-1, 10):
    check(is_loose_object(zlib.compress(b"blob 3\\0abc", level)), "level %i isn't recognized" % level)
check(not is_loose_object(b"\\x78\\x00"))
""", "an object written with a compression level from 2 to 5, whose flag byte is 0x5e", "it isn't recognized as loose object"),
("C29-short-header", "C29", [("fun.py", "    decompress_size = 8192      # is used in cgit as well\n", "    decompress_size = 16\n")], PRE + """
from gitdb.fun import loose_object_header_info
check(loose_object_header_info(zlib.compress(b"commit 5\\0")) == (b"commit", 5))
for n in (10, 10 ** 8, 10 ** 10 + 1, 2 ** 40):
    r = loose_object_header_info(zlib.compress(b"commit %d\\0" % n + b"x" * 100))
    check(r == (b"commit", n), "%s for %s" % (r, n))
""", "a header which is longer than 16 bytes, as the one of a tree or commit with a size of 10 digits", "the end of the header isn't seen, and the last digit of the size is lost"),
("C29-foreign-file-ends-dir", "C29", [("db/loose.py", "                if len(f) != 38:\n                    continue\n", "                if len(f) != 38:\n                    break\n")], LOOSE + """
s = set(db.store(IStream(b"blob", 1, BytesIO(c))).binsha for c in (b"a", b"b", b"c"))
for d in set(os.path.dirname(f) for f in files()):
    for i in range(40):
        open(d + "/tmp_obj_%i" % i, "wb").close()
check(set(db.sha_iter()) == s and db.size() == 3, "objects aren't listed")
""", "a file which is no object in the directory of one, and listed before it", "the objects which follow in the directory aren't listed or counted, and can't be found by short ids"),
]
