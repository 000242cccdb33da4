"""Soundness of the replay oracles: python tools/replayfuzz.py SECONDS SEED PROP...

Runs the replay side of every jittered case on random inputs of its boxes, on the tree in VERIF_REPO (default /repo).
Any "violated" on the unchanged tree is a replay oracle that could turn an unproved path into a false alarm.
"""
import os, random, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import multiprocessing as mp
import run
sys.path.insert(0, run.REPO)


def one(a):
    prop, name, secs, seed = a
    from engine import harness
    case = run.find(prop, "quick", name)
    rnd = random.Random(f"{seed}{name}")
    names, n, held = {}, 0, 0
    t0 = time.monotonic()
    while time.monotonic() - t0 < secs:
        vals = {}
        wide = rnd.random() < 0.7
        for k, (lo, hi) in names.items():
            lo = -2.0 if lo is None else float(lo)
            hi = lo + 4.0 if hi is None else float(hi)
            vals[k] = rnd.uniform(lo, hi) if wide or rnd.random() < 0.5 else rnd.choice((0.0, lo, hi, round(rnd.uniform(lo, hi), 1)))
        v, d, h = harness._replay1(case, vals)
        names.update(h.used)
        n += 1
        held += v == "held"
        if v == "violated":
            return prop, name, n, held, d, vals
    return prop, name, n, held, None, None


if __name__ == "__main__":
    secs, seed = float(sys.argv[1]), sys.argv[2]
    jobs = [(p, c.name, secs, seed) for p in sys.argv[3:] for c in run.load(p, "quick")[1] if c.jitter]
    bad = 0
    with mp.get_context("spawn").Pool(int(os.environ.get("J", "6")), maxtasksperchild=20) as pool:
        for p, name, n, held, d, vals in pool.imap_unordered(one, jobs):
            if d:
                bad += 1
                print(f"{p} {name}: after {n} ({held} held): {d}\n   {({k: round(x, 4) for k, x in vals.items()})}", flush=True)
    print(f"{len(jobs)} cases, {bad} with a violated replay")
