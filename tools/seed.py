"""Creates and confirms planted bugs: seed.py [ID ...]

tools/seeds/*.py hold SEEDS = [(id, property, needs, breaks, [(file, old, new), ...], demo source), ...].
For each: scratch copy of /repo, patch, demo on both trees, existing tests (JIT off) on the patched tree.
Only confirmed ones are written to seeded/<id>/.
"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run in the repository; exit 0 when the property holds on this input
HERE="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 NUMBA_DISABLE_JIT=1 PYVISTA_OFF_SCREEN=true MPLBACKEND=Agg PYTHONPATH="$PWD"
exec timeout 250 /opt/venv/bin/python "$HERE/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def one(seed, tests=True):
    sid, prop, needs, breaks, edits, demo = seed
    d = f"/tmp/seed_{sid}"
    out = os.path.join(HERE, "seeded", sid)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", os.environ.get("VERIF_REPO", "/repo"), d], check=True)
    tmp = f"/tmp/seeddemo_{sid}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        open(os.path.join(tmp, "demo.py"), "w").write(demo.lstrip("\n"))
        open(os.path.join(tmp, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
        r = sh(["bash", os.path.join(tmp, "demo.sh")], d)
        if r.returncode != 0:
            return f"{sid}: demo fails on the unchanged tree: {(r.stdout + r.stderr)[-700:]}"
        for f, old, new in edits:
            p = os.path.join(d, "building3d", f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{sid}: {s.count(old)} matches in {f}: {old[:50]!r}"
            s = s.replace(old, new)
            compile(s, p, "exec")
            open(p, "w").write(s)
        r = sh(["bash", os.path.join(tmp, "demo.sh")], d)
        if r.returncode == 0:
            return f"{sid}: demo passes with the change"
        why = (r.stdout + r.stderr).strip().splitlines()[-1:]
        if tests:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=f"{d}:/opt/vp/plugins",
                       PYVISTA_OFF_SCREEN="true", MPLBACKEND="Agg", OMP_NUM_THREADS="1", NUMBA_DISABLE_JIT="1", NUMBA_NUM_THREADS="1")
            r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=100",
                    "-n", "4", "-W", "ignore", "--ignore=tests/logger", "tests"], d, env=env)
            if r.returncode != 0:
                return f"{sid}: tests fail: " + " | ".join(l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR")))[:500]
        patch = sh(["git", "diff", "--", "building3d"], d).stdout
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        for n in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(tmp, n), os.path.join(out, n))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        env = dict(os.environ, VERIF_REPO=d)
        r = sh([sys.executable, "-m", "sa.run", prop], HERE, env=env)
        return f"{sid}: confirmed ({why}); check {prop} exit {r.returncode}"
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "seeds", "*.py"))):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        seeds += m.SEEDS
    want = [a for a in sys.argv[1:] if not a.startswith("-")]
    tests = "--fast" not in sys.argv
    if want:
        seeds = [s for s in seeds if s[0] in want]
    else:
        seeds = [s for s in seeds if not os.path.exists(os.path.join(HERE, "seeded", s[0]))]
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda s: one(s, tests), seeds):
            print(r, flush=True)


main()
