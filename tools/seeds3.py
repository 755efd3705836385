exec(open("/verif/tools/seeds2.py").read().split("\nS = [")[0])
Z = ENT + """
import zlib, random
from gitdb.stream import DecompressMemMapReader as R
rnd = random.Random(5)
"""
S = [
("C18-buffer-reads-uncounted", "C18", [("stream.py", "                self._buflen -= size\n                self._br += size\n", "                self._buflen -= size\n")], Z + """
# the compressed stream goes on behind the declared size
m = zlib.compress(b"blob 10\\0" + b"0123456789" + b"garbage" * 10)
t, n, r = R.new(m)
got = r.read(6) + r.read(6) + r.read(6)
check(got == b"0123456789", "read %r" % got)
""", "a stream longer than the size its header declares, read in several pieces which the header buffer can serve", "reading goes on beyond the declared size"),
("C19-whence-ignored", "C19", [("stream.py", "        :raise ValueError: If offset and whence are not 0\"\"\"\n        if offset != 0 or whence != getattr(os, 'SEEK_SET', 0):\n            raise ValueError(\"Can only seek to position 0\")\n        # END handle offset\n\n        self._zip", "        :raise ValueError: If offset and whence are not 0\"\"\"\n        if offset != 0 or whence == getattr(os, 'SEEK_END', 2):\n            raise ValueError(\"Can only seek to position 0\")\n        # END handle offset\n\n        self._zip")], Z + """
m = zlib.compress(b"content" * 10)
r = R(m, False, 70)
r.read(5)
for args in ((0, 1), (0, 2), (1, 2), (3,)):
    try:
        r.seek(*args)
    except ValueError:
        continue
    check(False, "seek%s accepted" % (args,))
""", "a seek to the end, or relative to it", "the reader is rewound, or nothing is reported, instead of raising ValueError"),
("C19-refused-seek-drops-buffer", "C19", [("stream.py", "        if offset != 0 or whence != getattr(os, 'SEEK_SET', 0):\n            raise ValueError(\"Can only seek to position 0\")\n        # END handle offset\n\n        self._zip = zlib.decompressobj()\n        self._buf = None\n", "        self._buf = None\n        if offset != 0 or whence != getattr(os, 'SEEK_SET', 0):\n            raise ValueError(\"Can only seek to position 0\")\n        # END handle offset\n\n        self._zip = zlib.decompressobj()\n")], Z + """
data = bytes(rnd.randrange(256) for i in range(20000))
m = zlib.compress(b"blob %d\\0" % len(data) + data)
t, n, r = R.new(m)
a = r.read(10)
try:
    r.seek(100)
except ValueError:
    pass
b = r.read(10)
check(a + b == data[:20], "content after a refused seek")
""", "a refused seek while decompressed bytes are buffered behind the header", "the buffered part of the content is skipped"),
("C30-offset-of-empty", "C30", [("pack.py", "            cur_offset += (data_offset - ostream.pack_offset) + ostream.stream.compressed_bytes_read()\n", "            cur_offset = data_offset + (ostream.stream.compressed_bytes_read() or len(ostream.stream.data()))\n"), ("stream.py", "                while not self._zip.unused_data and self._cbr != len(self._m):\n", "                while self._s and not self._zip.unused_data and self._cbr != len(self._m):\n")], ENT + """
a, b, c = b"first", b"", b"third"
sa, sb, sc = obj(b"blob", a), obj(b"blob", b), obj(b"blob", c)
stem = write_pack(T, [(sa, entry(3, a)), (sb, entry(3, b)), (sc, entry(3, c))])
got = [o.read() for o in PackFile(stem + ".pack").stream_iter()]
check(got == [a, b, c], "streams %r" % got)
""", "an empty object in the pack", "the iteration ends, or finds no entry, behind an empty object"),
("C30-footer-is-an-entry", "C30", [("pack.py", "        while cur_offset < content_size:\n            data_offset, ostream", "        while cur_offset < content_size or not start_offset and cur_offset == content_size and self._size < 2:\n            data_offset, ostream")], ENT + """
a = b"only"
sa_ = obj(b"blob", a)
for objs in ([(sa_, entry(3, a))], [(sa_, entry(3, a)), (obj(b"blob", b"two"), entry(3, b"two"))]):
    stem = write_pack(T, objs)
    n = 0
    try:
        for o in PackFile(stem + ".pack").stream_iter():
            n += 1
    except Exception as e:
        check(False, "%s after %d entries" % (e, n))
    check(n == len(objs), "%d entries" % n)
""", "a pack with a single entry", "the trailing checksum is taken for an entry"),
("C30-start-offset-relative", "C30", [("pack.py", "        cur_offset = start_offset or self.first_object_offset\n", "        cur_offset = max(start_offset, self.first_object_offset)\n        if start_offset > content_size // 2:\n            content_size += self.footer_size\n")], ENT + """
a, b = b"first" * 50, b"x"
stem = write_pack(T, [(obj(b"blob", a), entry(3, a)), (obj(b"blob", b), entry(3, b))])
pf = PackFile(stem + ".pack")
offs = [o.pack_offset for o in pf.stream_iter()]
try:
    got = [o.read() for o in pf.stream_iter(offs[1])]
except Exception as e:
    check(False, "%s" % e)
check(got == [b], "%d" % len(got))
""", "iterating from an offset in the second half of the pack", "the trailing checksum is taken for an entry"),
]
