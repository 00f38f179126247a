"""Runs the failing input of a replay file against the real code."""
import importlib
import json
import sys


def main():
    with open(sys.argv[1]) as f:
        r = json.load(f)
    if "case" not in r:
        print(json.dumps(r, indent=1))
        return 0
    from oracle import run
    run.setup()
    m = importlib.import_module("oracle.%s" % r["property"].lower())
    w = run.one(m, r["case"])
    print("case: %s\n%s" % (json.dumps(r["case"]), "holds" if w is None else "FAILS: %s" % w))
    return 0 if w is None else 1


if __name__ == "__main__":
    sys.exit(main())
