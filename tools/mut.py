"""tools/mut.py PROP FILE OLD NEW: runs a check against /repo with one edit, in a scratch copy."""
import os, shutil, subprocess, sys, tempfile, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, f, old, new = sys.argv[1:5]
old, new = old.replace("\\n", "\n"), new.replace("\\n", "\n")
tmp = tempfile.mkdtemp(prefix="mut_")
try:
    w, v = tmp + "/repo", tmp + "/verif"
    shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    shutil.copytree(HERE, v, ignore=shutil.ignore_patterns("seeded", ".git", "__pycache__", "evidence"))
    p = w + "/python/lsst/skymap/" + f
    s = open(p).read()
    assert s.count(old) >= 1, "text not found"
    open(p, "w").write(s.replace(old, new, 1))
    r = subprocess.run(["bin/check", prop, "quick"], cwd=v, capture_output=True, text=True,
                       env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1"))
    print("EXIT", r.returncode)
    print("\n".join(l[:260] for l in (r.stdout + r.stderr).splitlines()[-8:]))
    try:
        ev = json.load(open(v + "/evidence/%s.json" % prop))
        for c in ev["coverage"]["contracts"]:
            if c["status"] != "ok":
                print("   ", c["contract"], c["status"], c["reason"][:200])
    except Exception as exc:
        print("no evidence", exc)
    print("EXIT", r.returncode, *[l for l in r.stdout.splitlines() if l.startswith("VIOL")][:1])
finally:
    shutil.rmtree(tmp, ignore_errors=True)
