"""Author a planted bug: python tools/seed.py SPEC.py  (SPEC defines ID, PROP, FILE, EDITS, NEEDS, BREAKS, DEMO).

Builds patch.diff in a scratch clone, checks that the stable tests pass with it, that the demo exits 0 without
and nonzero with it, and then runs this property's quick check on the patched clone.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile

PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", **env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)


def stable(tree, tmp):
    x = os.path.join(tmp, "j.xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "-o", "junit_family=xunit2", "--junitxml=" + x], tree,
       PYTHONPATH=tree + ":/opt/vp/plugins", PYTHONHASHSEED="0", MPLCONFIGDIR=tmp)
    import xml.etree.ElementTree as ET
    bad = []
    n = 0
    for tc in ET.parse(x).iter("testcase"):
        n += 1
        if tc.find("failure") is not None or tc.find("error") is not None:
            bad.append(tc.get("classname") + "." + tc.get("name"))
    return n, [b for b in bad if "test_helpers_with_processor" not in b]


def main(spec, check=True):
    s = runpy.run_path(spec)
    tmp = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        tree = os.path.join(tmp, "r")
        sh(["git", "clone", "-q", "/repo", tree], "/")
        for f, old, new in s["EDITS"]:
            p = os.path.join(tree, "pyvallocation", f)
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit(f"{spec}: text occurs {t.count(old)} times in {f}: {old[:60]!r}")
            open(p, "w").write(t.replace(old, new))
        patch = sh(["git", "diff"], tree).stdout
        out = os.path.join("/verif/seeded", s["ID"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        open(os.path.join(out, "demo.py"), "w").write(s["DEMO"].lstrip())
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1\nexport PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        demo = os.path.join(out, "demo.sh")
        a, b = sh(["bash", demo], "/repo"), sh(["bash", demo], tree)
        n, bad = stable(tree, tmp)
        print(f"{s['ID']}: demo clean={a.returncode} patched={b.returncode} tests={n} failing={bad}")
        if a.returncode or not b.returncode or bad:
            print((a.stderr or "")[-600:], (b.stderr or "")[-300:])
            shutil.rmtree(out)
            return 1
        if check:
            r = sh([PY, "run.py", s["PROP"]], "/verif", VERIF_REPO=tree)
            print("  check exit", r.returncode, *[l[:170] for l in r.stdout.splitlines() if "VIOL" in l or l.startswith("OK") or "  case" in l][:3], sep="\n    ")
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    for f in sys.argv[1:]:
        main(f)
