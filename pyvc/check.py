"""Decides one property: python -m pyvc.check PROP TIER

Contracts are discharged in parallel worker processes over /repo's current source; a
concrete search on the unmodified code looks for failing inputs meanwhile.
"""
import collections
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
KNOWN = os.path.join(HERE, "known_findings.json")

TRUSTED = [
    "pyvc: the symbolic executor, source instrumenter and loop cutter of /verif/pyvc (not itself verified)",
    "z3 and cvc5",
    "CPython's semantics of the constructs executed natively",
]


STOP = threading.Event()    # a failing input is known: the proofs need not finish


def run(cmd, limit, env=None, stoppable=False):
    """Run in its own session; kill the whole group when the limit passes."""
    p = subprocess.Popen(cmd, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         env=env, start_new_session=True)
    t0 = time.time()
    while True:
        try:
            out, _ = p.communicate(timeout=0.5)
            return p.returncode, out
        except subprocess.TimeoutExpired:
            if time.time() - t0 < limit and not (stoppable and STOP.is_set()):
                continue
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, "stopped: a failing input was found" if STOP.is_set() else "time limit"


def ncontracts(prop):
    code = ("import sys;sys.path[:0]=['.'];from pyvc import worker;worker.setup();"
            "m,c=worker.load(%r);import json;print('@@'+json.dumps([[x.name,x.budget] for x in c]))" % prop)
    rc, out = run([PY, "-B", "-c", code], 120)
    for l in (out or "").splitlines():
        if l.startswith("@@"):
            return json.loads(l[2:]), ""
    return None, out


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="pyvc_")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1")
    try:
        return decide(prop, tier, seed, t0, tmp, env)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def read(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def decide(prop, tier, seed, t0, tmp, env):
    cap = 420 if tier == "quick" else 5400
    search = 10 if tier == "quick" else 240
    shards = 2 if tier == "quick" else 6
    names, err = ncontracts(prop)
    contracts = names or []

    def oracle(i):
        out = os.path.join(tmp, "o%d.json" % i)
        rc, txt = run([PY, "-B", "-m", "oracle.run", prop, tier, str(seed*1000 + i), str(search), out], search + 150, env)
        return read(out) or {"cases": 0, "distinct": 0, "failures": [], "samples": [],
                             "error": "no result (%s): %s" % (rc, (txt or "")[-1500:])}

    def proof(i, limit=None):
        out = os.path.join(tmp, "c%d.json" % i)
        if STOP.is_set():
            return {"name": contracts[i][0], "status": "stopped", "reason": "a failing input was found"}
        rc, txt = run([PY, "-B", "-m", "pyvc.worker", prop, str(i), tier, out] + (["6"] if limit else []),
                      limit or min(cap, contracts[i][1]*(1 if tier == "quick" else 2) + 90), env, stoppable=True)
        return read(out) or {"name": contracts[i][0], "status": "budget",
                             "reason": "no result (%s): %s" % (rc, (txt or "")[-1500:])}

    known = [k for k in (read(KNOWN) or []) if k["property"] == prop and k["status"] == "known"]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        of = [ex.submit(oracle, i) for i in range(shards)]
        pf = [ex.submit(proof, i) for i in range(len(contracts))]
        searches = [f.result() for f in of]
        if any(match(known, f["case"]) is None for s in searches for f in s["failures"]):
            time.sleep(min(30, max(0, 30 - (time.time() - t0))))    # quick refutations are still reported
            STOP.set()
        proofs = [f.result() for f in pf]

    # ---- where only time limits failed: again, with longer ones and nothing else running
    if not STOP.is_set():
        last = t0 + (660 if tier == "quick" else 8000)
        soft = [i for i, p in enumerate(proofs) if p.get("failures") and p.get("soft")]
        if soft and len(soft) == len([p for p in proofs if p.get("failures")]):
            for i in soft:
                out = os.path.join(tmp, "c%d.json" % i)
                if time.time() > last - 30:
                    break
                if os.path.exists(out):
                    os.unlink(out)
                again = proof(i, last - time.time())
                if again["status"] == "ok" and not again.get("failures"):
                    proofs[i] = again
                else:
                    break

    # ---- replay of counterexamples and of the listed findings
    extra = [k["case"] for k in known if "case" in k]
    models = []
    for p in proofs:
        for f in p.get("failures", []):
            if f.get("model"):
                models.append({"contract": p["name"], "obligation": f["name"], "model": f["model"]})
    replayed = []
    if extra or models:
        cf = os.path.join(tmp, "cases.json")
        code = ("import sys,json;sys.path[:0]=['.'];from oracle import run;run.setup();import importlib;"
                "m=importlib.import_module('oracle.%s');"
                "src=json.load(open(sys.argv[1]));out=list(src['extra']);"
                "g=getattr(m,'from_model',None);\n"
                "for x in src['models']:\n"
                "  try: out+=list(g(x['contract'],x['model'])) if g else []\n"
                "  except Exception: pass\n"
                "json.dump(out,open(sys.argv[2],'w'))" % prop.lower())
        with open(os.path.join(tmp, "src.json"), "w") as f:
            json.dump({"extra": extra, "models": models}, f)
        run([PY, "-B", "-c", code, os.path.join(tmp, "src.json"), cf], 120, env)
        if read(cf):
            out = os.path.join(tmp, "r.json")
            run([PY, "-B", "-m", "oracle.run", prop, tier, str(seed), "60", out, cf], 200, env)
            r = read(out)
            if r:
                replayed = r["failures"]
                searches.append(r)

    failures, hit = [], collections.OrderedDict()
    for s in searches:
        for f in s["failures"]:
            k = match(known, f["case"])
            if k is not None:
                hit[k["what"]] = k
            elif f not in failures:
                failures.append(f)

    # ---- verdict
    bad = [(p, f) for p in proofs for f in p.get("failures", [])]
    open_ = [p for p in proofs if p["status"] != "ok"]
    # an exploration cut short proves nothing; a failed obligation in it still counts
    nob = sum(a["count"] for p in proofs for a in (p.get("obligations") or {}).values())
    nok = sum(a["proved"] for p in proofs for a in (p.get("obligations") or {}).values() if p["status"] == "ok")
    violations = []
    replay = os.path.join(HERE, "evidence", "%s.replay.json" % prop)
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if failures:
        f = failures[0]
        violations.append("VIOLATION property=%s replay=%s" % (prop, replay))
        content = {"property": prop, "kind": "failing input on the real code", "case": f["case"],
                   "what": f["what"], "replay": "cd /verif && /opt/venv/bin/python -B -m pyvc.replay %s" % replay,
                   "failed_obligations": [{"contract": p["name"], **g} for p, g in bad][:10],
                   "all_failures": failures[:10]}
    elif bad:
        violations.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        content = {"property": prop, "kind": "failed obligation, no failing input found",
                   "failed_obligations": [{"contract": p["name"], **g} for p, g in bad][:20]}
    else:
        content = None
    if content is not None:
        with open(replay, "w") as f:
            json.dump(content, f, indent=1, default=str)
    elif os.path.exists(replay):
        os.unlink(replay)

    evidence(prop, tier, seed, t0, proofs, searches, nob, nok, len(violations), contracts, err, hit)
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: %d contracts, %d obligations, %d discharged, %d concrete cases, %.0f s" % (
        prop, len(contracts), nob, nok, sum(s["cases"] for s in searches), time.time() - t0))
    for p in open_:
        print("not decided by proof (%s): %s: %s" % (p["status"], p["name"], p["reason"].splitlines()[0][:300]
                                                    if p.get("reason") else ""))
    if names is None:
        print("contracts could not be loaded: %s" % (err or "")[-1500:])
    for s in searches:
        if s.get("error"):
            print("concrete search: %s" % s["error"][-1500:])
    for p, f in bad[:6]:
        print("failed obligation [%s] %s: %s %s" % (p["name"], f["name"], f["status"], str(f["detail"])[:300]))
    for f in failures[:3]:
        print("failing input: %s\n  %s" % (json.dumps(f["case"])[:500], f["what"][:500]))
    for v in violations:
        print(v)
    return 1 if violations else 0


def match(known, case):
    for k in known:
        if isinstance(case, dict) and all(case.get(a) == b for a, b in k["match"].items()):
            return k
    return None


def evidence(prop, tier, seed, t0, proofs, searches, nob, nok, nviol, contracts, err, hit):
    fns, assumed, backends = set(), set(), collections.Counter()
    solver = 0.0
    detail = []
    hashes = {}
    for p in proofs:
        fns.update(p.get("functions", []))
        assumed.update(p.get("assumptions", []))
        hashes.update(p.get("hashes", {}))
        solver += p.get("solver", {}).get("solver_s", 0.0)
        for a in (p.get("obligations") or {}).values():
            backends.update(a["backends"])
        detail.append({
            "contract": p["name"], "status": p["status"], "reason": p.get("reason", "")[:400],
            "paths": p.get("paths"), "restarts_for_invariants": p.get("restarts"), "wall_s": round(p.get("wall", 0), 2),
            "loops_cut_by_invariants": p.get("loops", []), "covers": p.get("covers", {}),
            "obligations": {n: "%d/%d" % (a["proved"], a["count"])
                            for n, a in (p.get("obligations") or {}).items()}})
    undecided = [p["name"] for p in proofs if p["status"] != "ok"]
    meta = read(os.path.join(HERE, "props", "meta.json")) or {}
    m = meta.get(prop, {})
    level = m.get("level", "proof")
    cov = {
        "obligations": nob, "discharged": nok,
        "checker_cmd": "cd /verif && bin/check %s %s" % (prop, tier),
        "trusted_base": TRUSTED + m.get("trusted", []),
        "functions_under_contract": sorted(fns),
        "back_ends": dict(backends), "solver_s": round(solver, 2),
        "contracts": detail,
        "undecided_contracts": undecided,
        "source_sha256": hashes,
        "evaluations": sum(s["cases"] for s in searches),
        "distinct_nontrivial": sum(s["distinct"] for s in searches),
        "rule": "bounded, never counted as proved: " + next((s["rule"] for s in searches if s.get("rule")), ""),
        "samples": [c for s in searches for c in s["samples"]][:3],
        "known_findings": list(hit),
        "explanation": m.get("explanation", ""),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": sorted(assumed) + m.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
