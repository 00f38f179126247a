"""Discharges one contract of one property: python -m pyvc.worker PROP INDEX TIER OUT"""
import collections
import importlib
import json
import os
import sys
import time
import traceback

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)
if VT not in sys.path:
    sys.path.append(VT)

REPO = os.environ.get("VERIF_REPO", "/repo")


def setup():
    import warnings
    warnings.simplefilter("ignore")
    import standin
    standin.install()
    from pyvc import instrument
    finder = instrument.install(REPO)
    from props import deps
    deps.install()
    return finder


def load(prop):
    m = importlib.import_module("props.%s" % prop.lower())
    return m, list(m.CONTRACTS)


def run(prop, index, tier, verbose=False, scales=(1, 4)):
    t0 = time.time()
    out = {"property": prop, "index": index, "status": "ok", "reason": "", "name": "?"}
    finder = setup()
    from pyvc import core, solve
    eng = None
    try:
        m, cs = load(prop)
        c = cs[index]
        out["name"] = c.name
        budget = c.budget if tier == "quick" else c.budget*2
        for scale in scales:
            eng = core.Engine(timeout=c.timeout*(1 if tier == "quick" else 4)*scale, max_paths=c.max_paths,
                              deadline=t0 + budget*(1 if scale == 1 else 1.7), log=print if verbose else None)
            eng.scale = scale
            eng.templates = list(c.templates)
            try:
                eng.run(c.fn)
                for cv in c.covers:
                    if cv not in eng.covers:
                        eng.obligations.append(core.Obligation("reachable: " + cv, "refuted", "",
                                                               "no path of the contract reaches this outcome"))
            except core.TooManyFailures:
                pass
            # again, with more time, when a time limit may be what failed
            if not eng.failed or not (eng.unknown_drops or any(o.status == "unknown" for o in eng.obligations)):
                break
    except core.TooManyFailures:
        pass
    except (core.Unsupported, core.Budget) as exc:
        out["status"] = type(exc).__name__.lower()
        out["reason"] = str(exc)[-3000:]
    except core.Control as exc:
        out["status"], out["reason"] = "unsupported", "%s %s" % (type(exc).__name__, exc)
    except MemoryError:
        out["status"], out["reason"] = "budget", "memory"
    except Exception as exc:  # import failures and the like
        out["status"] = "unsupported"
        out["reason"] = "%s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc()[-3000:])
    if eng is not None:
        # only a definite failure survives an incomplete exploration
        obs = eng.obligations
        agg = collections.OrderedDict()
        for o in obs:
            a = agg.setdefault(o.name, {"count": 0, "proved": 0, "backends": collections.Counter(), "wall": 0.0})
            a["count"] += 1
            a["wall"] += o.wall
            if o.status == "proved":
                a["proved"] += 1
                a["backends"][o.backend] += 1
        out["obligations"] = agg
        out["failures"] = [{"name": o.name, "status": o.status, "detail": o.detail, "model": o.model}
                           for o in obs if o.status != "proved"]
        # whether a time limit may be what failed
        out["soft"] = bool(out["failures"]) and all(
            o.status == "unknown" or eng.unknown_drops for o in obs if o.status != "proved")
        out.update(paths=eng.paths, completed=eng.completed, restarts=eng.restarts,
                   functions=sorted(eng.functions), assumptions=sorted(eng.assumptions),
                   covers={k: bool(v) if v is not None else None for k, v in eng.covers.items()},
                   loops=sorted(str(k) for k in eng.houdini), solver=dict(solve.STATS))
    out["hashes"] = finder.hashes
    out["wall"] = time.time() - t0
    return out


def main():
    prop, index, tier, dest = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
    r = run(prop, index, tier, verbose=dest == "-", scales=tuple(int(x) for x in sys.argv[5:]) or (1, 4))
    text = json.dumps(r, indent=1, default=str)
    if dest == "-":
        print(text)
    else:
        with open(dest + ".tmp", "w") as f:
            f.write(text)
        os.rename(dest + ".tmp", dest)


if __name__ == "__main__":
    main()
