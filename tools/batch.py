"""Developer tool: apply behaviour-preserving edits in batches to scratch copies, run every check, and attribute alarms to single edits.
usage: batch.py FILE [batch size]"""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.props import REG

def edits(m):
    e = m[1:]
    return [e] if isinstance(e[0], str) else list(e)

def tree(ms):
    d = tempfile.mkdtemp(prefix="bat")
    shutil.copytree("/repo/gitdb", d + "/gitdb", ignore=shutil.ignore_patterns("test", "ext", "__pycache__"))
    done, rest = [], []
    for m in ms:
        files = {}
        ok = True
        for f, old, new in edits(m):
            p = os.path.join(d, "gitdb", f)
            s = files.get(p) or open(p).read()
            if s.count(old) < 1:
                ok = False
                break
            files[p] = s.replace(old, new, 1)
        if ok and not (len(done) and len(done) >= SIZE):
            for p, s in files.items():
                compile(s, p, "exec")
                open(p, "w").write(s)
            done.append(m)
        else:
            rest.append(m)
    return d, done, rest

def check(d, pid):
    o = tempfile.mkdtemp(prefix="bat")
    os.makedirs(o + "/v/evidence")
    os.symlink(ROOT + "/sa", o + "/v/sa")
    t0 = time.time()
    r = subprocess.run(["timeout", "900", "python3", "-m", "sa", pid], cwd=ROOT, env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=o + "/v"), capture_output=True, text=True)
    shutil.rmtree(o)
    return r.returncode, time.time() - t0, [l for l in r.stdout.splitlines() if l.startswith("  rule")][:3] or r.stderr.splitlines()[-3:]

ns = {}
exec(open(sys.argv[1]).read(), ns)
SIZE = int(sys.argv[2]) if len(sys.argv) > 2 else 10
PIDS = os.environ.get("PIDS", "").split(",") if os.environ.get("PIDS") else sorted(REG)
todo = ns["M"]
with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
    n = 0
    while todo:
        d, done, todo = tree(todo)
        if not done:
            print("cannot apply", [m[0] for m in todo])
            break
        n += 1
        fut = {p: ex.submit(check, d, p) for p in PIDS}
        bad = {p: f.result() for p, f in fut.items()}
        slow = {p: int(r[1]) for p, r in bad.items() if r[1] > 200}
        bad = {p: r for p, r in bad.items() if r[0] != 0}
        shutil.rmtree(d)
        print("batch %d: %s" % (n, " ".join(m[0] for m in done)), "SLOW %s" % slow if slow else "", flush=True)
        for p, r in bad.items():
            print("   ", p, "rc%d" % r[0], "\n        ".join(r[2]))
        if bad:
            jobs = []
            save = SIZE
            for m in done:
                dd = tree([m])[0]
                jobs.append((m[0], dd, {p: ex.submit(check, dd, p) for p in bad}))
            for name, dd, fs in jobs:
                for p, f in fs.items():
                    r = f.result()
                    if r[0] != 0:
                        print("  **", name, p, "rc%d" % r[0], "\n        ".join(r[2]), flush=True)
                shutil.rmtree(dd)
