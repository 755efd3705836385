PRE = """
import sys, os, io, zlib, hashlib
T = sys.argv[1]
def check(ok, msg=""):
    if not ok:
        print("FAILED: %s" % (msg,), file=sys.stderr)
        sys.exit(1)
"""
S = [
("C34-partial-flush", "C34", [("stream.py", "            if write(self.fd, remainder) != len(remainder):\n                raise self.exc", "            if write(self.fd, remainder) <= 0:\n                raise self.exc")], PRE + """
import gitdb.stream as G
real = os.write
n = [0]
def part(fd, data):
    n[0] += 1
    return real(fd, bytes(data)[:-1]) if len(data) > 4 and n[0] == 2 else real(fd, data)
fd = os.open(T + "/f", os.O_RDWR | os.O_CREAT)
w = G.FDCompressedSha1Writer(fd)
G.write = part
failed = False
try:
    w.write(b"x" * 100)
    w.close()
except OSError:
    failed = True
if not failed:
    try:
        check(zlib.decompress(open(T + "/f", "rb").read()) == b"x" * 100)
    except zlib.error:
        check(False, "truncated file reported as complete")
""", "a file system which takes the last bytes only in part (disk almost full)", "close reports success for a truncated file"),
("C34-leak", "C34", [("stream.py", "            if write(self.fd, remainder) != len(remainder):\n                raise self.exc\n        finally:\n            close(self.fd)", "            if write(self.fd, remainder) != len(remainder):\n                raise self.exc\n        except OSError:\n            close(self.fd)\n            raise\n        close(self.fd)")], PRE + """
import gitdb.stream as G
fd = os.open(T + "/f", os.O_RDWR | os.O_CREAT)
w = G.FDCompressedSha1Writer(fd)
w.write(b"x" * 100)
class Z:
    def flush(self): raise MemoryError()
w.zip = Z()
try:
    w.close()
except MemoryError:
    pass
try:
    os.fstat(fd)
except OSError:
    sys.exit(0)
check(False, "descriptor left open")
""", "the compressor fails when it is flushed (not with an OSError)", "the descriptor is not closed"),
("C34-tell-asked", "C34", [("stream.py", "        bytes = os.read(self._fd, count)\n        self._pos += len(bytes)", "        bytes = os.read(self._fd, count)\n        self._pos += count")], PRE + """
from gitdb.stream import FDStream
open(T + "/f", "wb").write(b"abc")
s = FDStream(os.open(T + "/f", os.O_RDONLY))
check(s.read(10) == b"abc" and s.tell() == 3, s.tell())
""", "asking for more bytes than the file has left", "tell gives a position behind the end"),
("C34-zip-position", "C34", [("stream.py", "        return self.buf.getvalue()", "        return self.buf.getvalue() if self.buf.tell() else self.buf.read()")], PRE + """
from gitdb.stream import ZippedStoreShaWriter
w = ZippedStoreShaWriter(); w.write(b"abc" * 9); w.close(); w.seek(0)
a = w.getvalue()
check(a and w.read() == a, "nothing left to be read after getvalue")
""", "getvalue after seek(0), followed by read", "read gives nothing"),
("C34-block-size", "C34", [("util.py", "        return _RandomAccessBytesIO(b\"\\0\" * size)", "        return _RandomAccessBytesIO(b\"\\0\" * (size & ~(mmap.PAGESIZE - 1)))")], PRE + """
import gitdb.util as U
class M:
    PAGESIZE = 4096
    @staticmethod
    def mmap(*a, **k): raise OSError("no mappings")
U.mmap = M
b = U.allocate_memory(5000)
check(len(b) == 5000, len(b))
""", "a system which refuses the anonymous mapping, and a size which is no multiple of a page", "the block is too small"),
("C33-stem", "C33", [("pack.py", "        basename, ext = os.path.splitext(pack_or_index_path)\n", "        basename, ext = pack_or_index_path.partition('.pack')[0].partition('.idx')[0], ''\n")], PRE + """
import gitdb.pack as P
seen = []
class F:
    def __init__(self, p): seen.append(p)
E = type("E", (P.PackEntity,), {"PackFileCls": F, "IndexFileCls": F})
d = T + "/repo.packed/pack-1"
E(d + ".idx")
check(sorted(seen) == [d + ".idx", d + ".pack"], seen)
""", "a directory whose name contains .pack or .idx", "the wrong files are opened"),
]
