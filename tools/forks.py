"""tools/forks.py PROP INDEX: where paths of one contract fork."""
import os, sys, traceback, collections
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, '.')
from pyvc import core, worker
C = collections.Counter()
real = core.Engine.decide


def decide(self, c):
    n = self.pos
    was = len(self.decisions)
    v = real(self, c)
    if len(self.decisions) > was and self.decisions[-1][1] and n >= len(self.prefix):
        fr = [f for f in traceback.extract_stack()[:-1] if "pyvc/" not in f.filename]
        C[" < ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in fr[-3:][::-1])] += 1
    return v


core.Engine.decide = decide
if len(sys.argv) > 3:
    import props
r = worker.run(sys.argv[1], int(sys.argv[2]), 'quick')
print(r['status'], r['wall'], r['paths'])
for k, n in C.most_common(25):
    print(n, k)
