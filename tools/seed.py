"""Developer tool: writes and confirms planted changes.
usage: seed.py FILE [id...] ; FILE defines S = [(id, property, [(file, old, new)...], demo.py text, needs, what it breaks)]
Every change is confirmed in a scratch copy: the tests pass with it, the demonstration passes without and fails with it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

OUT = "/verif/seeded"


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def one(s):
    sid, prop, edits, demo, needs, breaks = s
    d = tempfile.mkdtemp(prefix="seed")
    try:
        w = d + "/repo"
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns("__pycache__"), symlinks=True)
        for f, old, new in edits:
            p = w + "/gitdb/" + f
            t = open(p).read()
            if t.count(old) != 1:
                return sid, "EDIT FOUND %d TIMES: %r" % (t.count(old), old[:50])
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], cwd=w).stdout
        o = os.path.join(OUT, sid)
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.py", "w").write(demo.lstrip("\n"))
        open(o + "/demo.sh", "w").write('#!/bin/bash\n# fails if: %s\nhere=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d)\n'
                                        'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" TMPDIR="$t" timeout 250 /opt/venv/bin/python "$here/demo.py" "$t"\nr=$?\n'
                                        'rm -rf -- "$t"\nexit $r\n' % breaks.replace("\n", " "))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
        a = sh(["bash", o + "/demo.sh"], cwd="/repo")
        b = sh(["bash", o + "/demo.sh"], cwd=w)
        r = []
        if a.returncode != 0:
            r.append("DEMO FAILS ON CLEAN: " + (a.stdout + a.stderr)[-300:])
        if b.returncode == 0:
            r.append("DEMO PASSES WITH PATCH")
        # the tests
        t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + w)
        open(d + "/test.sh", "w").write(t)
        sh(["bash", d + "/test.sh", d + "/out.json"])
        try:
            res = json.load(open(d + "/out.json"))
        except Exception as e:
            return sid, "TESTS: %s" % e
        base = json.load(open("/opt/vp/BASELINE.json"))
        txt = json.dumps(res)
        st = base.get("stable") or base.get("tests") or base.get("passed") or []
        bad = [x for x in st if x not in (res.get("passed") or res.get("pass") or [])]
        if bad:
            r.append("TESTS FAIL: %s" % bad[:3])
        if not st:
            r.append("?? baseline keys %s, result keys %s" % (list(base)[:6], list(res)[:6]))
        v = sh(["python3", "-m", "sa", prop], cwd="/verif", env=dict(os.environ, VERIF_REPO=w, VERIF_OUT=d + "/v"))
        r.append("caught" if v.returncode == 1 else "MISSED rc=%d" % v.returncode)
        return sid, "; ".join(r) + "   [" + (b.stderr.strip().splitlines() or b.stdout.strip().splitlines() or ["-"])[-1][:100] + "]"
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(6) as ex:
        for sid, r in ex.map(one, [s for s in ns["S"] if len(sys.argv) < 3 or s[0] in sys.argv[2:]]):
            print("%-28s %s" % (sid, r), flush=True)
