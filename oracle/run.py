"""Concrete search: the real, unmodified code against the property's executable statement.

python -m oracle.run PROP TIER SEED SECONDS OUT [CASES.json]

Each case is a JSON value; check(case) returns None or what is wrong.  Exceptions that
the property does not allow are failures too.
"""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")


class TooLong(BaseException):
    pass


def _alarm(*_):
    raise TooLong()


def setup():
    import warnings
    warnings.simplefilter("ignore")
    for p in (HERE, os.path.join(REPO, "python")):
        if p not in sys.path:
            sys.path.insert(0, p)
    import standin
    standin.install()
    import lsst
    d = os.path.join(REPO, "python", "lsst")
    if d not in list(lsst.__path__):
        lsst.__path__.insert(0, d) if hasattr(lsst.__path__, "insert") else None
    import lsst.skymap
    f = os.path.realpath(lsst.skymap.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit("lsst.skymap comes from %s" % f)
    signal.signal(signal.SIGALRM, _alarm)


def one(mod, case, limit=100):
    signal.alarm(limit)
    try:
        return mod.check(case)
    except TooLong:
        return "did not finish within %d s" % limit
    except Exception as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        where = "; ".join("%s:%s" % (f.filename.split("/")[-1], f.lineno) for f in tb[-3:])
        return "unexpected %s: %s (%s)" % (type(exc).__name__, exc, where)
    finally:
        signal.alarm(0)


def main():
    prop, tier, seed, secs, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    res = {"property": prop, "cases": 0, "distinct": 0, "failures": [], "samples": [], "error": ""}
    t0 = time.time()
    seen = set()
    try:
        setup()
        mod = importlib.import_module("oracle.%s" % prop.lower())
        if len(sys.argv) > 6:
            with open(sys.argv[6]) as f:
                it = iter(json.load(f))
            secs = 1e9
        else:
            it = mod.cases(random.Random(seed), tier)
        res["rule"] = getattr(mod, "RULE", "")
        for case in it:
            r = one(mod, case)
            res["cases"] += 1
            key = json.dumps(case, sort_keys=True)
            if key not in seen:
                seen.add(key)
            if len(res["samples"]) < 2:
                res["samples"].append(case)
            if r is not None:
                res["failures"].append({"case": case, "what": str(r)[:2000]})
                if len(res["failures"]) >= 5 and len(sys.argv) <= 6:
                    break
            if time.time() - t0 > secs:
                break
    except BaseException as exc:
        res["error"] = "%s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc()[-2500:])
    res["distinct"] = len(seen)
    res["wall"] = time.time() - t0
    text = json.dumps(res, indent=1, default=str)
    if out == "-":
        print(text)
    else:
        with open(out + ".tmp", "w") as f:
            f.write(text)
        os.rename(out + ".tmp", out)


if __name__ == "__main__":
    main()
