"""Planting bugs: python plant.py SPEC.py [ID ...] [--check]
SPEC.py defines SEEDS, a list of dict(id, property, edits=[(file, old, new)], needs, breaks, demo, helper=bool).
Each is made in a scratch copy of /repo, must change lines of the original code only, keep the stable tests and have a demonstration that
passes without it and fails with it; it is then kept in /verif/seeded/<id>. With --check the property's own quick check is run on it."""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

REPO, VERIF, BASE = "/repo", "/verif", "8c6b61a"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=2 PYTHONPATH="$PWD:$here"
exec timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="2", **env)
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


def tests(repo, tmp):
    where = tmp
    open(f"{tmp}/owc_where.py", "w").write("import random, numpy\ndef pytest_runtest_setup(item):\n    random.seed(0); numpy.random.seed(0)\n")
    x = f"{tmp}/j.xml"
    sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "owc_where", f"--rootdir={repo}", "--timeout=100", "--disable-warnings",
        "--tb=no", "-o", "junit_family=xunit2", f"--junitxml={x}"], repo, PYTHONPATH=f"{repo}:{where}")
    ok = {f"{t.get('classname')}::{t.get('name')}" for t in ET.parse(x).iter("testcase")
          if not [c for c in t if c.tag in ("failure", "error", "skipped")]}
    return STABLE - ok


def one(s, check):
    tmp = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        repo = f"{tmp}/repo"
        shutil.copytree(REPO, repo, symlinks=True)
        for f, old, new in s["edits"]:
            p = f"{repo}/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                return f"{s['id']}: {t.count(old)} matches of {old[:60]!r} in {f}"
            a = t[:t.index(old)].count("\n") + 1
            open(p, "w").write(t.replace(old, new))
        d = sh("git diff -U3", repo).stdout
        # lines it changes must be original ones
        mine = 0
        for f in {f for f, _, _ in s["edits"]}:
            dd = sh(f"git diff -U0 -- {f}", repo).stdout
            new = sh(f"git blame -s {BASE}..HEAD -- {f}", REPO).stdout.splitlines()
            removed = 0
            for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", dd, re.M):
                n = int(h.group(2) or 1)
                for k in range(int(h.group(1)), int(h.group(1)) + n):
                    removed += 1
                    if not new[k - 1].startswith("^"):
                        mine += 1
        out = f"{VERIF}/seeded/{s['id']}"
        stage = f"{tmp}/seed"
        os.makedirs(stage)
        open(f"{stage}/patch.diff", "w").write(d)
        open(f"{stage}/demo.sh", "w").write(DEMO)
        os.chmod(f"{stage}/demo.sh", 0o755)
        open(f"{stage}/demo.py", "w").write(re.sub(r"^(\s*)sys\.exit\((.*)\)$", r"\1sys.exit(int(bool(\2)))", s["demo"].lstrip("\n"), flags=re.M))
        if s.get("helper"):
            w = open(f"{VERIF}/owcmon/world.py").read().replace("from .refs import NLAT, NLON", "NLAT, NLON = 2160, 4320")
            open(f"{stage}/owcworld.py", "w").write(w + open(f"{VERIF}/tools/demo_helper.py").read())
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{stage}/meta.json", "w"), indent=1)
        miss = tests(repo, tmp)
        if miss:
            return f"{s['id']}: TESTS {sorted(miss)[:3]}"
        a = sh([f"{stage}/demo.sh"], REPO, 300)
        b = sh([f"{stage}/demo.sh"], repo, 300)
        if a.returncode or not b.returncode:
            return f"{s['id']}: DEMO clean={a.returncode} patched={b.returncode}\n{(a.stdout + a.stderr)[-700:]}\n--- patched\n{(b.stdout + b.stderr)[-300:]}"
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(stage, out)
        res = f"{s['id']}: kept, lines not original: {mine}"
        if check:
            c = s.get("by", s["property"])
            os.makedirs(f"{tmp}/verif/evidence")
            for x in ("check", "owcmon", "KNOWN_FINDINGS.jsonl"):
                sh(["cp", "-a", f"{VERIF}/{x}", f"{tmp}/verif/"], tmp)
            r = sh([f"{tmp}/verif/check", c, "--tier", "quick", "--seed", "1", "--workers", "2"], tmp, 900, OWC_REPO=repo)
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            why = [l for l in r.stdout.splitlines() if l.startswith("    [")]
            res += f"; {c}: exit {r.returncode} {v[0] if v else '*** NOT CAUGHT'} {why[0][:200] if why else (r.stdout + r.stderr)[-200:]}"
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    spec = importlib.util.spec_from_file_location("spec", args[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    todo = [s for s in m.SEEDS if not args[1:] or s["id"] in args[1:]]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda s: one(s, "--check" in sys.argv), todo):
            print(r, flush=True)


main()
