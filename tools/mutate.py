"""Developer tool: apply textual edits to scratch copies of the repository and list which checks report a violation.
usage: mutate.py FILE [name-substring] ; FILE defines M = [(name, file, old, new)] (or old/new lists)"""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.props import REG

def run(m):
    name, edits = m[0], m[1:]
    if isinstance(edits[0], str):
        edits = [edits]
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo/gitdb", d + "/gitdb", ignore=shutil.ignore_patterns("test", "ext", "__pycache__"))
        for f, old, new in edits:
            p = os.path.join(d, "gitdb", f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, "EDIT NOT FOUND %r" % old[:60], ""
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
            try:
                compile(s, p, "exec")
            except SyntaxError as e:
                return name, "SYNTAX %s" % e, ""
        out = []
        det = []
        os.makedirs(d + "/v/evidence")
        os.symlink(ROOT + "/sa", d + "/v/sa")
        for pid in ([name.split("-")[0]] if os.environ.get("PREFIX") else os.environ.get("PIDS", "").split(",") if os.environ.get("PIDS") else sorted(REG)):
            t0 = time.time()
            r = subprocess.run(["timeout", "1500", "python3", "-m", "sa", pid], cwd=ROOT, env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + "/v"), capture_output=True, text=True)
            if time.time() - t0 > 300:
                out.append("%s:%ds" % (pid, time.time() - t0))
            if r.returncode != 0:
                out.append("%s%s" % (pid, "" if r.returncode == 1 else "(rc%d)" % r.returncode))
                det += [l for l in r.stdout.splitlines() if l.startswith("  rule")][:3] if r.returncode == 1 else r.stdout.splitlines()[-3:] + r.stderr.splitlines()[-3:]
        return name, " ".join(out) or "-", "\n      ".join(det)
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ms = [m for m in ns["M"] if len(sys.argv) < 3 or sys.argv[2] in m[0]]
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        for name, r, det in ex.map(run, ms):
            print("%-40s %s" % (name, r), flush=True)
            if det and ("-v" in sys.argv or os.environ.get("V")):
                print("      " + det)
