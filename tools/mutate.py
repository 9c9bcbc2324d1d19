"""Mutation runs: python mutate.py OUT.jsonl N SEED SLOTS [file-substring]
Small changes to the sources, each in a scratch copy: those that survive the existing tests are given to the checks."""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import queue
import xml.etree.ElementTree as ET

VERIF = os.environ.get("MUT_VERIF", "/verif")
REPO = os.environ.get("MUT_REPO", "/repo")         # (a copy that nobody edits meanwhile)
FILES = ["pyowc/calibration.py", "pyowc/configuration.py", "pyowc/helper.py", "pyowc/utilities.py", "pyowc/core/finders.py", "pyowc/core/stats.py",
         "pyowc/data/fetchers.py", "pyowc/data/wrangling.py", "pyowc/plot/dashboard.py", "pyowc/plot/plots.py", "pyowc/plot/utils.py"]
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&"}
NAMES = {"nanmean": "nanmedian", "nanmax": "nanmin", "nanmin": "nanmax", "argmin": "argmax", "argmax": "argmin", "floor": "ceil", "ceil": "floor",
         "any": "all", "all": "any", "isfinite": "isnan", "nansum": "nanmax", "hstack": "vstack", "sort": "flip", "cos": "sin", "sin": "cos",
         "maximum": "minimum", "minimum": "maximum", "append": "extend", "nanstd": "nanvar", "ones": "zeros", "zeros": "ones", "copy": "view"}


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(a, z, new, what, line):
        if b[a:z].decode() != new:
            out.append(dict(file=path, a=a, z=z, new=new, what=what, line=line, old=b[a:z].decode()[:80]))

    def between(x, y, sym, new, what):
        a, z = pos(x)[1], pos(y)[0]
        seg = b[a:z].decode()
        i = seg.find(sym)
        if i >= 0:
            add(a + len(seg[:i].encode()), a + len(seg[:i].encode()) + len(sym), new, what, x.lineno)

    sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Add: "+", ast.Sub: "-", ast.Mult: "*",
           ast.Div: "/", ast.BitAnd: "&", ast.BitOr: "|"}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            between(n.left, n.comparators[0], sym[type(n.ops[0])], SWAP[type(n.ops[0])], "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            between(n.left, n.right, sym[type(n.op)], BIN[type(n.op)], "binop")
        elif isinstance(n, ast.BoolOp):
            s = "and" if isinstance(n.op, ast.And) else "or"
            between(n.values[0], n.values[1], s, "or" if s == "and" else "and", "boolop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, z = pos(n)
            add(a, pos(n.operand)[0], "", "not", n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            a, z = pos(n)
            for new in ([str(n.value + 1), str(n.value - 1)] if isinstance(n.value, int) else [repr(n.value * 1.5), repr(n.value * 0.5)]):
                if not new.startswith("-") or True:
                    add(a, z, f"({new})" if new.startswith("-") else new, "constant", n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            a, z = pos(n)
            add(a, z, str(not n.value), "bool", n.lineno)
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            a, z = pos(n)
            add(z - len(n.attr), z, NAMES[n.attr], "name", n.lineno)
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") != "print"):
            a, z = pos(n)
            add(a, z, "pass", "delete", n.lineno)
        elif isinstance(n, (ast.If, ast.While)) and isinstance(n, ast.If):
            a, z = pos(n.test)
            add(a, z, "True", "if-true", n.lineno)
            add(a, z, "False", "if-false", n.lineno)
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            pass
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords:
            a1, z1 = pos(n.args[0])
            a2, z2 = pos(n.args[1])
            add(a1, z2, (b[a2:z2] + b[z1:a2] + b[a1:z1]).decode(), "swap-args", n.lineno)
            if len(n.args) >= 4:
                a1, z1 = pos(n.args[2])
                a2, z2 = pos(n.args[3])
                add(a1, z2, (b[a2:z2] + b[z1:a2] + b[a1:z1]).decode(), "swap-args", n.lineno)
    return out


ORDER = {"fetchers": "C01 C03 C04 C11 C12", "finders": "C02 C07 C16 C25", "stats": "C08 C10 C14 C15 C19", "calibration": "C12 C13 C18 C17",
         "configuration": "C17 C23", "helper": "C12 C13", "utilities": "C05 C06 C25", "wrangling": "C09 C26 C12", "plots": "C20", "dashboard": "C20",
         "plot/utils": "C20"}
ALL = [f"C{i:02d}" for i in range(1, 32)]
SLOW = ["C20", "C21", "C22", "C24", "C28", "C29"]


def run(m, slot):
    repo, ver = f"{slot}/repo", f"{slot}/verif"
    path = f"{repo}/{m['file']}"
    src = open(f"{REPO}/{m['file']}", "rb").read()
    new = src[:m["a"]] + m["new"].encode() + src[m["z"]:]
    try:
        compile(new, path, "exec")
    except SyntaxError:
        return dict(m, outcome="syntax")
    open(path, "wb").write(new)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HOME="/root")
    try:
        e = dict(env, PYTHONPATH=f"{repo}:{slot}", MPLCONFIGDIR=f"{slot}/mpl")
        try:
            subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "owc_where", f"--rootdir={repo}", "--timeout=100",
                            "--disable-warnings", "--tb=no", "-o", "junit_family=xunit2", f"--junitxml={slot}/junit.xml"], cwd=repo, env=e,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        except subprocess.TimeoutExpired:
            return dict(m, outcome="tests", why="timeout")
        ok = set()
        for tc in ET.parse(f"{slot}/junit.xml").iter("testcase"):
            if not len([x for x in tc if x.tag in ("failure", "error", "skipped")]):
                ok.add(f"{tc.get('classname')}::{tc.get('name')}")
        miss = STABLE - ok
        os.unlink(f"{slot}/junit.xml")
        if miss:
            return dict(m, outcome="tests", why=sorted(miss)[:2])
        key = next(k for k in ORDER if k in m["file"])
        order = ORDER[key].split()
        order += [c for c in ALL if c not in order and c not in SLOW] + [c for c in SLOW if c not in order]
        odd = []
        e = dict(env, OWC_REPO=repo)
        for c in order:
            try:
                r = subprocess.run([f"{ver}/check", c, "--tier", "quick", "--seed", "1", "--workers", "1"], env=e, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                odd.append(c + ":timeout")
                continue
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return dict(m, outcome="caught", by=c, odd=odd, msg=[l for l in r.stdout.splitlines() if l.startswith("    [")][:1])
            if r.returncode:
                odd.append(f"{c}:{r.returncode}:{(r.stdout + r.stderr)[-200:]}")
        return dict(m, outcome="missed", odd=odd)
    finally:
        open(path, "wb").write(src)


def main():
    out, n, seed, slots = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    sub = sys.argv[5] if len(sys.argv) > 5 else ""
    rng = random.Random(seed)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["a"], d["z"], d["new"]))
    todo = []
    for f in FILES:
        if sub in f:
            ms = mutants(f, open(f"{REPO}/{f}").read())
            todo += ms
    rng.shuffle(todo)
    todo = [m for m in todo if (m["file"], m["a"], m["z"], m["new"]) not in done][:n]
    base = tempfile.mkdtemp(prefix="mut", dir="/tmp/w")
    free = queue.Queue()
    for i in range(slots):
        s = f"{base}/s{i}"
        os.makedirs(s)
        subprocess.run(["cp", "-a", REPO, f"{s}/repo"], check=True)
        shutil.rmtree(f"{s}/repo/.git")
        os.makedirs(f"{s}/verif")
        for x in ("check", "owcmon", "KNOWN_FINDINGS.jsonl"):
            subprocess.run(["cp", "-a", f"{VERIF}/{x}", f"{s}/verif/"], check=True)
        os.makedirs(f"{s}/verif/evidence")
        open(f"{s}/owc_where.py", "w").write("import random, numpy\ndef pytest_runtest_setup(item):\n    random.seed(0); numpy.random.seed(0)\n")
        free.put(s)
    fh = open(out, "a")

    def one(m):
        s = free.get()
        t = time.time()
        try:
            r = run(m, s)
        except Exception as exc:
            r = dict(m, outcome="broken", why=repr(exc))
        finally:
            free.put(s)
        r["t"] = round(time.time() - t, 1)
        fh.write(json.dumps(r) + "\n")
        fh.flush()

    with ThreadPoolExecutor(slots) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(base)


main()
