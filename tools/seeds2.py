exec(open("/verif/tools/seeds1.py").read().split("\nS = [")[0])
ENT = PACK + """
from gitdb.pack import PackEntity, PackFile
from gitdb.exc import *
def ostream(data, binsha=None, n=None, src=None):
    from gitdb import OStream
    return OStream(binsha or obj(b"blob", data), b"blob", len(data) if n is None else n, src or BytesIO(data))
"""
S = [
("C11-base-at-index-zero", "C11", [("pack.py", "                    if sindex is None:\n", "                    if not sindex:\n")], ENT + """
base = b"the base of the delta" * 3
shas = obj(b"blob", base)
new = base + b"!"
delta = msb(len(base)) + msb(len(new)) + b"\\x90" + bytes([len(base)]) + b"\\x01!"
nsha = obj(b"blob", new)
# the base needs to be the first one of the index
k = 0
while not shas < nsha:
    k += 1
    new = base + b"%d" % k
    delta = msb(len(base)) + msb(len(new)) + b"\\x90" + bytes([len(base)]) + bytes([len(b"%d" % k)]) + b"%d" % k
    nsha = obj(b"blob", new)
stem = write_pack(T, [(shas, entry(3, base)), (nsha, entry(7, delta, shas))])
e = PackEntity(stem + ".pack")
check(e.index().sha_to_index(shas) == 0, "setup")
try:
    check(e.info(nsha).size == len(new), "size")
    check(e.stream(nsha).read() == new, "content")
except BadObject:
    check(False, "base not found")
""", "a reference delta whose base has the smallest id of the pack, so that it is entry 0 of the index", "the base of the delta is taken for missing, and the object can't be read"),
("C11-pack-chain-for-info", "C11", [("pack.py", "            streams = self.collect_streams_at_offset(offset)\n            buf = streams[0].read(512)\n", "            streams = self._pack.collect_streams(offset)\n            buf = streams[0].read(512)\n")], ENT + """
base = b"the base of the delta" * 3
shas = obj(b"tree", base)
new = base + b"!"
delta = msb(len(base)) + msb(len(new)) + b"\\x90" + bytes([len(base)]) + b"\\x01!"
nsha = obj(b"tree", new)
stem = write_pack(T, [(shas, entry(2, base)), (nsha, entry(7, delta, shas))])
e = PackEntity(stem + ".pack")
check(e.stream(nsha).read() == new, "content")
try:
    i = e.info(nsha)
    check(i.type == b"tree" and i.size == len(new), "info")
except BadObject:
    check(False, "info refused")
""", "info of an object stored as reference delta to a base in the same pack", "info raises BadObject although the object can be streamed"),
("C16-count-reads-one-more", "C16", [("pack.py", "            if actual_count == object_count:\n                break\n            # END abort once we are done\n", ""),
   ("pack.py", "        for obj in objs:\n            actual_count += 1\n            crc = 0\n", "        for obj in objs:\n            if actual_count and actual_count == object_count:\n                break\n            # END abort once we are done\n            actual_count += 1\n            crc = 0\n")], ENT + """
taken = []
def source():
    for i in range(3):
        taken.append(i)
        yield ostream(b"object %d" % i)
out = []
PackEntity.write_pack(source(), out.append, None, object_count=2)
check(taken == [0, 1], "took %s" % taken)
""", "an iterator which delivers more objects than the object count says", "one more object than promised is taken from the iterator, and lost for the caller"),
("C16-crc-of-chunks", "C16", [("pack.py", "            crc = crc32(compressed, crc)\n        # END handle crc\n", "            crc = crc32(compressed, base_crc)\n        # END handle crc\n")], ENT + """
from gitdb.fun import chunk_size
data = os.urandom(chunk_size + 5)
small = b"small one"
e = PackEntity.create([ostream(small), ostream(data)], T)
check(e.is_valid_stream(obj(b"blob", small), use_crc=True), "small object")
check(e.is_valid_stream(obj(b"blob", data), use_crc=True), "object of two chunks")
""", "an object of more than one chunk (4096000 bytes)", "the checksum in the index covers the entry header and the last chunk only, so that intact entries are reported as broken"),
("C16-crc-with-object", "C16", [("pack.py", "            if index_write:\n                crc = crc32(hdr)\n", "            if index_write and not index.__dict__.get('hdr'):\n                crc = crc32(hdr)\n")], ENT + "", "", ""),
("C20-crc-not-chained", "C20", [("pack.py", "this_crc_value = crc_update(pack_data[cur_pos:cur_pos + size], this_crc_value)", "this_crc_value = crc_update(pack_data[cur_pos:rbound], this_crc_value if size == chunk_size else 0)")], ENT + """
data = os.urandom(5000000)
a = b"small"
stem = write_pack(T, [(obj(b"blob", a), entry(3, a)), (obj(b"blob", data), entry(3, data))])
e = PackEntity(stem + ".pack")
check(e.is_valid_stream(obj(b"blob", a), use_crc=True), "small")
check(e.is_valid_stream(obj(b"blob", data), use_crc=True), "large entry")
""", "an entry whose compressed size exceeds one chunk (4096000 bytes)", "the checksum of the last chunk isn't chained to the one of those before, so that intact large entries are reported as broken"),
("C20-last-entry-end", "C20", [("pack.py", "        last_offset = len(self._pack.data()) - self._pack.footer_size\n", "        last_offset = len(self._pack.data()) - (self._pack.footer_size if self._index.size() > 1 else 0)\n")], ENT + """
a = b"the only object"
stem = write_pack(T, [(obj(b"blob", a), entry(3, a))])
e = PackEntity(stem + ".pack")
check(e.is_valid_stream(obj(b"blob", a), use_crc=True), "only entry")
""", "a pack with a single object, verified by checksum", "the trailing checksum of the pack is taken for a part of the only entry, which is reported as broken"),
("C24-broken-pack-skipped", "C24", [("db/pack.py", "            entity = PackEntity(pack_file)\n            self._entities.append([entity.pack().size(), entity, entity.index().sha_to_index])\n",
   "            entity = PackEntity(pack_file)\n            try:\n                item = [entity.pack().size(), entity, entity.index().sha_to_index]\n            except OSError:\n                # it was just removed\n                continue\n            # END handle removed pack\n            self._entities.append(item)\n")], ENT + """
import errno, smmap.util
from gitdb.db import PackedDB
a, b = b"first object", b"second object"
write_pack(T, [(obj(b"blob", a), entry(3, a))])
write_pack(T, [(obj(b"blob", b), entry(3, b))])
db = PackedDB(T)
orig = os.open
n = []
def fail(path, *args, **kw):
    if str(path).startswith(T) and (not n or path == n[0]) and len(n) < 10:
        n.append(path)
        raise OSError(errno.EMFILE, "too many open files")
    return orig(path, *args, **kw)
os.open = fail
try:
    r = db.has_object(obj(b"blob", a)) and db.has_object(obj(b"blob", b))
    check(r, "failure not reported")
except OSError:
    pass
check(n, "setup")
os.open = orig
check(db.has_object(obj(b"blob", a)) and db.has_object(obj(b"blob", b)), "incomplete list is kept")
""", "an operating system error (too many open files) while one of several packs is opened on first access", "the pack is left out of the list without any report, and its objects are missing from then on"),
("C24-version-low-half", "C24", [("pack.py", "                version_id = unpack_from(\">L\", mmap, 4)[0]\n", "                version_id = unpack_from(\">L\", mmap, 4)[0] & 0xff\n")], ENT + """
a = b"the only object"
stem = write_pack(T, [(obj(b"blob", a), entry(3, a))])
d = bytearray(open(stem + ".idx", "rb").read())
d[4:8] = struct.pack(">L", 0x0102)
open(stem + ".idx", "wb").write(d)
for name in ("version", "size", "offsets", "sha_to_index"):
    e = PackEntity(stem + ".pack").index()
    try:
        getattr(e, name)(*((obj(b"blob", a),) if name == "sha_to_index" else ()))
    except Exception:
        continue
    check(False, name + " of an index of unknown version")
""", "an index whose version number differs from 2 only above its lowest byte", "an index of an unsupported version is accepted and interpreted as version 2"),
]
S = [x for x in S if x[5]]
