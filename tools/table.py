"""Developer tool: writes the table of planted changes into DESIGN.md.
usage: table.py   (runs every check which belongs to a planted change against it, in scratch copies)"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

S = "/verif/seeded"


def one(s):
    d = tempfile.mkdtemp(prefix="tab")
    try:
        w = d + "/repo"
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns("__pycache__"), symlinks=True)
        subprocess.run(["git", "apply", "%s/%s/patch.diff" % (S, s)], cwd=w, check=True)
        m = json.load(open("%s/%s/meta.json" % (S, s)))
        got = []
        for p in [m["property"]] + sys.argv[1:]:
            v = subprocess.run(["python3", "-m", "sa", p], cwd="/verif", capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=w, VERIF_OUT=d + "/v"))
            if v.returncode == 1:
                got.append(p)
        return "| %s | %s | %s | %s |" % (s, m["needs"], m["what_it_breaks"], ", ".join(got) or "none")
    finally:
        shutil.rmtree(d)


with cf.ThreadPoolExecutor(8) as ex:
    rows = list(ex.map(one, sorted(os.listdir(S))))
t = open("/verif/DESIGN.md").read()
i = t.index("<!-- seeds -->")
open("/verif/DESIGN.md", "w").write(t[:i] + "<!-- seeds -->\n\n| change | needs | breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
print(sum(r.endswith("none |") for r in rows), "missed of", len(rows))
