"""tools/runseeds.py [id ...]: runs the check of each seeded change against it, in scratch copies."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(HERE, "seeded")))
tmp = tempfile.mkdtemp(prefix="seeds_")
try:
    v = os.path.join(tmp, "verif")
    shutil.copytree(HERE, v, ignore=shutil.ignore_patterns("seeded", ".git", "__pycache__", "evidence"))
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        w = os.path.join(tmp, "repo")
        shutil.copytree("/repo", w, symlinks=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w, check=True)
        meta = json.load(open(d + "/meta.json"))
        props = [meta["property"]] + [a[1:] for a in sys.argv if a.startswith("-C")]
        for p in props:
            t = time.time()
            r = subprocess.run(["bin/check", p, "quick"], cwd=v, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1"))
            vio = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            ob = [l for l in r.stdout.splitlines() if l.startswith(("failed ob", "not decided", "failing"))]
            print("%s %s: exit %d %.0f s %s | %s" % (i, p, r.returncode, time.time() - t,
                  "no input" if vio and "no-failing" in vio[0] else ("input" if vio else "MISSED"),
                  ob[0][:150] if ob else ""), flush=True)
        shutil.rmtree(w)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
