#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [--replay FILE]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
from concurrent.futures import ThreadPoolExecutor
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
WALL = 640.0


def child(prop, tier, name, conn):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
    try:
        from engine import harness
        case = find(prop, tier, name)
        case.params["_root"] = REPO
        res = harness.explore(case)
    except BaseException as e:  # engine failure
        import traceback
        res = {"status": "error", "name": name, "detail": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"}
    conn.send(res)
    conn.close()


def load(prop, tier):
    m = importlib.import_module("checks." + prop)
    cs = m.cases(tier)
    names = [c.name for c in cs]
    assert len(set(names)) == len(names), names
    return m, cs


def find(prop, tier, name):
    for c in load(prop, tier)[1]:
        if c.name == name:
            return c
    raise SystemExit(f"no case {name}")


def do_replay(path):
    d = json.load(open(path))
    sys.path.insert(0, REPO)
    from engine import harness
    case = find(d["property"], d["tier"], d["case"])
    v, detail, near = harness.replay_near(case, d["inputs"], case.jitter)
    if near is not d["inputs"]:
        d["inputs"], d["note"] = {k: str(x) for k, x in near.items()}, "input near the solver's counterexample"
        json.dump(d, open(path, "w"), indent=1)
    print(json.dumps({"verdict": v, "detail": detail}))
    return 0


def run_replay(path, timeout=200):
    try:
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--replay", path], capture_output=True, text=True, timeout=timeout,
                           env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"})
    except subprocess.TimeoutExpired:
        return "timeout", ""
    for line in reversed(p.stdout.strip().splitlines()):
        try:
            d = json.loads(line)
            return d["verdict"], d["detail"]
        except (ValueError, KeyError):
            continue
    return "crash", (p.stderr or "")[-800:]


def known(prop):
    out = []
    f = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                d = json.loads(line)
                if d["property"] == prop:
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--strict", action="store_true", help="also fail (exit 2) when single cases could not be decided")
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    prop, tier = a.prop, a.tier
    t0 = time.monotonic()
    wall = WALL if tier == "quick" else float(os.environ.get("VERIF_WALL", "700"))
    m, cases = load(prop, tier)
    if a.only:
        cases = [c for c in cases if a.only in c.name]
    ctx = mp.get_context("fork")
    by = {c.name: c for c in cases}
    outdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(outdir, exist_ok=True)
    kn = known(prop)
    confirmed, first = [], []
    limit = wall + 140      # no replay goes on after this

    def confirm(name, res):
        """Replay this case's counterexamples; (ok, path, details), or None when enough are confirmed already."""
        details, path = [], None
        for i, inp in enumerate(res.get("inputs", [])):
            left = limit - (time.monotonic() - t0)
            if len(confirmed) >= 3 or left < 5:
                return None
            path = os.path.join(outdir, f"{prop}.{name}.{i}.json".replace("/", "_").replace(" ", "_"))
            inp = dict(inp)
            res["label"] = inp.pop("!label", res["label"])
            json.dump({"property": prop, "tier": tier, "case": name, "label": res["label"], "inputs": inp}, open(path, "w"), indent=1)
            v, det = run_replay(path, min(200, left))
            details.append(f"{v}: {det}")
            if v in ("violated", "raised"):
                if not any(k["case"] == name and k["label"] == res["label"] for k in kn):
                    confirmed.append(name)
                    first.append(time.monotonic())
                return True, path, details
        return False, path, details

    def enough():
        """A violation is confirmed and the other cases have had their time to add to it."""
        return bool(first) and time.monotonic() - first[0] > (40 if tier == "quick" else 240)

    pool = ThreadPoolExecutor(8)
    futs = {}
    pending = list(cases)
    running, results = [], {}
    stop = False
    while pending or running:
        while pending and len(running) < a.jobs and not stop:
            c = pending.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(prop, tier, c.name, w), daemon=True)
            p.start()
            w.close()
            running.append((c, p, r, time.monotonic()))
        for item in list(running):
            c, p, r, st = item
            got = None
            if r.poll(0.0):
                try:
                    got = r.recv()
                except EOFError:
                    got = {"status": "error", "detail": "worker died"}
            elif not p.is_alive():
                got = {"status": "error", "detail": f"worker exit code {p.exitcode}"}
            elif time.monotonic() - st > c.budget + 60 or time.monotonic() - t0 > wall or enough():
                p.kill()
                got = {"status": "inconclusive", "detail": "killed at its time limit"}
            if got is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                running.remove(item)
                got.setdefault("name", c.name)
                got.setdefault("bounds", c.bounds)
                results[c.name] = got
                if got["status"] == "violation":
                    futs[c.name] = pool.submit(confirm, c.name, got)
                if a.v:
                    print(f"  [{time.monotonic()-t0:6.1f}s] {c.name}: {got['status']} paths={got.get('paths')} disch={got.get('discharged')}+{got.get('trivial')} wall={got.get('wall', 0):.1f} {got.get('detail', '')[:600]}", flush=True)
        if stop and not running:
            break
        if time.monotonic() - t0 > wall - 5 or enough():
            for c in pending:
                results[c.name] = {"status": "inconclusive", "name": c.name, "detail": "not started: time limit", "bounds": c.bounds}
            pending = []
        time.sleep(0.02)

    # ---- candidates (replayed on the unmodified code as they came in)
    violations, kfound, errors, weak, undecided = [], [], [], [], []
    replays = 0
    pool.shutdown(wait=True)
    for name, res in results.items():
        c = by[name]
        if res["status"] == "violation":
            got = futs[name].result()
            if got is None:
                weak.append(f"{name}: counterexample not replayed (enough confirmed, or replay time used up)")
                undecided.append(name)
                continue
            ok, path, details = got
            replays += len(details)
            if ok:
                k = next((k for k in kn if k["case"] == name and k["label"] == res["label"]), None)
                if k:
                    kfound.append((k, details[-1]))
                else:
                    violations.append((name, res["label"], path, details[-1]))
            else:
                errors.append(f"{name}: counterexample for '{res['label']}' did not reproduce on the real code ({res.get('detail', '')} | {details})")
        elif res["status"] == "proved":
            pass
        elif res["status"] in ("inconclusive", "unsupported"):
            weak.append(f"{name}: {res['status']}: {res['detail']}")
            if not c.optional:
                undecided.append(name)
        else:
            errors.append(f"{name}: {res['status']}: {res.get('detail', '')}")
    if not a.strict:
        # a counterexample that the real code does not confirm, or a case the engine
        # could not run, decides nothing: it is reported as not decided
        weak += errors
        undecided += errors
        errors = []
    if undecided and not violations and not any(r["status"] == "proved" for r in results.values()):
        errors.append("nothing was decided: " + "; ".join(weak)[:1500])
    # ---- validation of the encoding: path models run on the real code
    validated = mism = 0
    if not violations and not errors and time.monotonic() - t0 < limit - 100:
        todo = []
        for name, res in results.items():
            for i, inp in enumerate(res.get("samples", [])[: (1 if tier == "quick" else 3)]):
                todo.append((name, inp))
        todo = todo[:16 if tier == "quick" else 60]
        if todo:
            validated, mism = validate(prop, tier, todo)
    wall_s = time.monotonic() - t0
    ev = evidence(m, prop, tier, results, by, violations, kfound, errors, weak, replays, validated, mism, wall_s)
    if not a.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k, det in kfound:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for w in weak:
        print(f"INCONCLUSIVE (not part of the claim of this run): {w}")
    if mism:
        print(f"note: {mism} concrete path samples disagreed with the encoding (see evidence)")
    for name, label, path, det in violations:
        print(f"  case {name}: {label}: {det}")
        print(f"VIOLATION property={prop} replay={path}")
    if violations:
        return 1
    if errors:
        for e in errors:
            print("ERROR " + e)
        return 2
    c = ev["coverage"]
    print(f"OK property={prop} tier={tier} cases={len(results)} paths={c['states']} queries={c['queries_discharged']} solver_s={c['solver_s']:.1f} wall={wall_s:.1f}s")
    return 0


def validate(prop, tier, todo):
    path = os.path.join(VERIF, "evidence", "replay", f"{prop}.validate.{os.getpid()}.json")
    json.dump({"property": prop, "tier": tier, "todo": todo}, open(path, "w"))
    code = ("import sys,json; sys.path.insert(0,%r); sys.path.insert(0,%r); sys.dont_write_bytecode=True\n"
            "import run\nfrom engine import harness\n"
            "d=json.load(open(%r)); out=[]\n"
            "for n,i in d['todo']:\n"
            "    v,det=harness.replay(run.find(d['property'],d['tier'],n),i); out.append([n,v,det])\n"
            "print('RES'+json.dumps(out))") % (REPO, VERIF, path)
    try:
        p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=120)
        line = [l for l in p.stdout.splitlines() if l.startswith("RES")]
        if not line:
            if os.environ.get("VERIF_DEBUG"):
                print(p.stderr[-2000:])
            return 0, 0
        out = json.loads(line[0][3:])
    except (subprocess.TimeoutExpired, ValueError):
        return 0, 0
    finally:
        os.unlink(path)
    ok = sum(1 for _, v, _ in out if v == "held")
    bad = [(n, v, d) for n, v, d in out if v in ("violated", "raised")]
    if os.environ.get("VERIF_DEBUG"):
        for b in bad:
            print("  mismatch", b)
    return ok, len(bad)


def evidence(m, prop, tier, results, by, violations, kfound, errors, weak, replays, validated, mism, wall):
    rs = list(results.values())
    tot = lambda k: sum(r.get(k, 0) or 0 for r in rs)
    stat = lambda k: sum((r.get("stats") or {}).get(k, 0) for r in rs)
    funcs = sorted({f for r in rs for f in r.get("functions", [])})
    samples = [{"case": r["name"], "bounds": r.get("bounds", ""), "status": r["status"], "paths": r.get("paths"),
                "assertions": r.get("labels"), "example_path_inputs": (r.get("samples") or [None])[0]} for r in rs]
    cov = {
        "states": tot("paths"), "transitions": tot("branches"),
        "traces_validated_against_impl": validated,
        "samples": samples[:60],
        "cases": len(rs), "cases_proved": sum(r["status"] == "proved" for r in rs),
        "functions_encoded": funcs,
        "queries_discharged": tot("discharged"), "assertions_closed_by_simplification": tot("trivial"),
        "branch_queries": stat("branch_queries"), "prove_queries": stat("prove_queries"),
        "solver_s": stat("solver_s"), "infeasible_paths": tot("infeasible"),
        "reachability_witnesses": sum(len(r.get("covered", [])) for r in rs),
        "counterexamples_replayed": replays, "validation_mismatches": mism,
        "cases_not_decided": weak, "errors": errors,
        "bounds": sorted({r.get("bounds", "") for r in rs if r["status"] == "proved"}),
        "meaning": "states = symbolic paths explored to their end, transitions = branch decisions on them; every path stands for all real inputs satisfying its condition",
    }
    return {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
            "assumptions": list(getattr(m, "ASSUMPTIONS", [])) + sorted({n for r in rs for n in r.get("notes", [])}),
            "wall_s": wall, "violations": len(violations), "known_findings": [k["what"] for k, _ in kfound]}


if __name__ == "__main__":
    sys.exit(main())
