"""Makes seeded/<id>/ from edits and a demonstration, after confirming in a scratch copy that the
change builds, passes the stable tests, and that the demonstration tells the two trees apart.

mk(id, property, edits=[(file, old, new)], demo="python source", needs=..., breaks=...)"""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = None

HEAD = '''import os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, here)
repo = os.getcwd()
sys.path.insert(0, os.path.join(repo, "python"))
import warnings
warnings.simplefilter("ignore")
import standin
standin.install()
import lsst
d = os.path.join(repo, "python", "lsst")
if d not in list(lsst.__path__):
    lsst.__path__.insert(0, d)
import lsst.skymap
assert os.path.realpath(lsst.skymap.__file__).startswith(os.path.realpath(repo) + os.sep), lsst.skymap.__file__
import math
import lsst.geom as geom
import lsst.skymap as skymap


def fail(msg):
    print("FAIL:", msg)
    sys.exit(1)


def sky(ra, dec):
    return geom.SpherePoint(ra*geom.degrees, dec*geom.degrees)

'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def mk(id, prop, edits, demo, needs, breaks):
    dest = os.path.join(HERE, "seeded", id)
    tmp = tempfile.mkdtemp(prefix="seed_")
    w = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", w, symlinks=True)
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, "%s: %d matches of %r" % (f, s.count(old), old)
            with open(p, "w") as g:
                g.write(s.replace(old, new))
        diff = sh("git diff", w).stdout
        assert diff
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        os.makedirs(dest)
        with open(os.path.join(dest, "patch.diff"), "w") as g:
            g.write(diff)
        with open(os.path.join(dest, "demo.py"), "w") as g:
            g.write(HEAD + demo.lstrip("\n"))
        with open(os.path.join(dest, "demo.sh"), "w") as g:
            g.write('#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(dest, "demo.sh"), 0o755)
        shutil.copytree(os.path.join(HERE, "standin"), os.path.join(dest, "standin"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(dest, "meta.json"), "w") as g:
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, g, indent=1)
        moved = os.path.join(tmp, "elsewhere")
        shutil.copytree(dest, moved)
        for n in ("patch.diff", "meta.json"):
            os.unlink(os.path.join(moved, n))
        bad = sh("sh %s/demo.sh" % moved, w, timeout=300)
        assert bad.returncode != 0, "demo passes with the change: " + bad.stdout
        assert "FAIL" in bad.stdout, bad.stdout + bad.stderr
        good = sh("sh %s/demo.sh" % moved, "/repo", timeout=300)
        assert good.returncode == 0, "demo fails on the unchanged tree: " + good.stdout + good.stderr
        # the stable tests, and all tests that run with the stand-ins, on the changed tree
        r = sh("PYTHONPATH=%s/python:%s/tests:/opt/vp/support PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest "
               "-q -p no:cacheprovider -p skymap_no_init tests/test_packers.py" % (w, w), w)
        assert " 7 passed" in r.stdout or "\n7 passed" in r.stdout, r.stdout[-1500:]
        r = sh("VERIF_REPO=" + w + " PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s/tools:%s:%s/python:%s/tests /opt/venv/bin/python -m pytest -q "
               "-p no:cacheprovider -p standin_plugin tests -n 8" % (HERE, HERE, w, w), w)
        note = [l for l in r.stdout.splitlines() if "passed" in l][-1:]
        print("%-14s ok: %s | %s" % (id, bad.stdout.strip().split("\n")[-1][:150], note))
    except BaseException:
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
