"""Developer view: tools/v.py C01 [index|substring ...] — runs contracts in parallel, prints a summary."""
import json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, ".")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
prop = sys.argv[1]
r = subprocess.run([sys.executable, "-c", "import sys;sys.path[:0]=['.'];from pyvc import worker;worker.setup();m,c=worker.load('%s');print('\\n'.join(x.name for x in c))" % prop], capture_output=True, text=True)
if r.returncode:
    print(r.stderr[-3000:]); sys.exit(1)
names = r.stdout.strip().split("\n")
sel = [i for i, n in enumerate(names) if len(sys.argv) == 2 or any((a.isdigit() and int(a) == i) or (not a.isdigit() and a in n) for a in sys.argv[2:])]
def go(i):
    f = tempfile.mktemp()
    p = subprocess.run([sys.executable, "-m", "pyvc.worker", prop, str(i), os.environ.get("VERIF_TIER", "quick"), f], capture_output=True, text=True, timeout=1500)
    if not os.path.exists(f):
        return {"name": names[i], "status": "crash", "reason": p.stderr[-2000:]}
    d = json.load(open(f)); os.unlink(f)
    return d
with ThreadPoolExecutor(7) as ex:
    for i, d in zip(sel, ex.map(go, sel)):
        ob = d.get("obligations") or {}
        print("[%d] %s: %s | obl %d/%d paths %s/%s restarts %s wall %.1f" % (
            i, d["name"], d["status"], sum(a["proved"] for a in ob.values()), sum(a["count"] for a in ob.values()),
            d.get("completed"), d.get("paths"), d.get("restarts"), d.get("wall", 0)))
        if d["status"] != "ok":
            print("   REASON", d["reason"][-1800:])
        for f in d.get("failures", [])[:1]:
            print("   FAIL %s [%s] %s\n        %s" % (f["name"], f["status"], " ".join(f["detail"].split())[:300], str(f["model"])[:300]))
        if "-o" in sys.argv:
            for n, a in ob.items():
                print("     %-60s %d/%d %s" % (n, a["proved"], a["count"], a["backends"]))
