"""Runs checks against edited copies of the repository: mut.py C07 [C06 ...]

tools/mutants/<id>.py lists edits: (kind, description, [(file, old, new), ...]) with kind 'bug' (the check
must exit 1) or 'ok' (behaviour preserved: the check must exit 0).
"""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def run(pid, m, verbose):
    kind, desc, edits = m[:3]
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(os.path.join(REPO, "building3d"), os.path.join(d, "building3d"),
                        ignore=shutil.ignore_patterns("__pycache__", "_to_be_ported"))
        for path, old, new in edits:
            p = os.path.join(d, "building3d", path)
            s = open(p).read()
            if s.count(old) < 1:
                return f"STALE {pid} {desc}: text not found in {path}: {old[:60]!r}"
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
            compile(s, p, "exec")
        env = dict(os.environ, VERIF_REPO=d)
        r = subprocess.run([sys.executable, "-m", "sa.run", pid], cwd=HERE, env=env, capture_output=True, text=True)
        want = 1 if kind == "bug" else 0
        ok = r.returncode == want
        tag = "good" if ok else f"BAD(exit {r.returncode}, want {want})"
        out = f"{tag} {pid} {kind}: {desc}"
        if not ok or verbose:
            out += "\n" + "\n".join("      " + l[:260] for l in (r.stdout + r.stderr[-600:]).strip().splitlines()[:2])
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    verbose = "-v" in sys.argv
    pids = [a for a in sys.argv[1:] if not a.startswith("-")]
    if not pids:
        pids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "tools", "mutants")) if f.endswith(".py"))
    jobs = []
    for pid in pids:
        spec = importlib.util.spec_from_file_location(pid, os.path.join(HERE, "tools", "mutants", pid.lower() + ".py"))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        jobs += [(pid, m) for m in mod.MUT]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: run(j[0], j[1], verbose), jobs))
    bad = [r for r in res if not r.startswith("good")]
    for r in res if verbose else bad:
        print(r)
    print(f"{len(res) - len(bad)}/{len(res)} as expected")


main()
