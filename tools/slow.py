"""tools/slow.py PROP INDEX [SECONDS]: slow queries of one contract."""
import os, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, '.')
from pyvc import solve
solve.SLOW = float(sys.argv[3]) if len(sys.argv) > 3 else 1.5
from pyvc import worker
r = worker.run(sys.argv[1], int(sys.argv[2]), 'quick')
print(r['status'], r['wall'], r['solver'])
for n, a in r['obligations'].items():
    print(n, a["proved"], a["count"], round(a["wall"], 2))
