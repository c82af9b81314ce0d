"""Mutation survey: which small changes of the repository's code do the checks not notice?

python mutate.py OUT.jsonl [--sample N] [--seed S] [--files a.py,b.py]
Every mutant is one textual change in a scratch copy of the package (never in /repo); the quick checks
named for its file are run against it, in order, until one reports a violation.
"""
import ast, json, os, random, shutil, subprocess, sys, argparse
REPO = os.environ.get("MUT_REPO", "/repo"); VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("--sample", type=int, default=200); ap.add_argument("--seed", type=int, default=0)
ap.add_argument("--files", default=""); ap.add_argument("--list", action="store_true"); ap.add_argument("--jobs", default="8")
ap.add_argument("--tag", default="m")
A = ap.parse_args()
ORDER = {
    "detector.py": "C10 C15 C12 C13 C11 C26 C22 C25 C14 C24 C17 C19 C18 C09 C04",
    "polycrystal.py": "C01 C08 C06 C25 C17 C22 C26 C05 C03 C18 C09 C20 C02 C14 C04",
    "laue.py": "C02 C01 C09", "beam.py": "C16 C26 C25 C17 C03 C01 C22 C14 C18 C09",
    "motion.py": "C07 C26 C25 C17 C08 C18 C01 C14", "mesh.py": "C21 C26 C17 C25 C20 C08 C18 C01",
    "phase.py": "C05 C26 C02 C18", "structure_factors.py": "C05 C01", "scattering_factors.py": "C04 C01",
    "templates.py": "C19 C20 C26 C25", "cuda.py": "C23", "utils.py": "C06 C14 C16 C20 C17 C24 C21 C18 C08",
}
SKIP_FUNCS = {"print_memory_report", "_print_progress", "_set_xfab_logging"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
CMPSYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
OPS = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*")}
NAMES = {"any": "all", "all": "any", "min": "max", "max": "min", "minimum": "maximum", "maximum": "minimum", "floor": "ceil", "ceil": "floor",
         "sin": "cos", "cos": "sin", "argmin": "argmax", "argmax": "argmin", "logical_and": "logical_or"}

def seg(src, n): return ast.get_source_segment(src, n)

def mutants(f):
    src = open(f"{REPO}/xrd_simulator/{f}").read()
    tree = ast.parse(src)
    lines = src.split("\n"); off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()
    pos = lambda l, c: off[l - 1] + c
    out = []
    dead = []
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            doc = ast.get_docstring(n) or ""
            if n.name in SKIP_FUNCS or ".. deprecated" in doc: dead.append((n.lineno, n.end_lineno))
    spans = []  # annotations and texts of errors
    for n in ast.walk(tree):
        for x in [getattr(n, "annotation", None), getattr(n, "returns", None)] + ([n.msg] if isinstance(n, ast.Assert) else []) + ([n.exc] if isinstance(n, ast.Raise) else []):
            if x is not None: spans.append((pos(x.lineno, x.col_offset), pos(x.end_lineno, x.end_col_offset)))
    isdead = lambda l: any(a <= l <= b for a, b in dead)
    def add(n, new, kind):
        if isdead(n.lineno): return
        a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
        old = raw[a:b].decode()
        if old == new or any(c <= a and b <= d for c, d in spans): return
        out.append((f, n.lineno, kind, old, new, a, b))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, f"{seg(src, n.left)} {CMP[type(n.ops[0])]} {seg(src, n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            add(n, f"({seg(src, n.left)}) {OPS[type(n.op)][1]} ({seg(src, n.right)})", "op")
            if isinstance(n.op, (ast.Add, ast.Sub)): add(n, f"({seg(src, n.left)})", "drop")
            if isinstance(n.op, ast.Mult): add(n, f"({seg(src, n.left)})", "drop")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)):
            add(n, f"({seg(src, n.left)})", "drop"); add(n, f"({seg(src, n.right)})", "drop")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            add(n, str(n.value + 1), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            add(n, repr(n.value * 1.25 if n.value else 0.1), "const")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Invert, ast.Not)):
            add(n, f"({seg(src, n.operand)})", "unary")
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            add(n, f"{seg(src, n.value)}.{NAMES[n.attr]}", "name")
        elif isinstance(n, ast.Name) and n.id in ("min", "max"):
            add(n, NAMES[n.id], "name")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("clone", "abs", "deepcopy", "copy", "clamp", "squeeze", "norm", "unsqueeze", "transpose", "round"):
            base = seg(src, n.args[0]) if n.args and n.func.attr in ("abs", "deepcopy", "copy", "clamp") else seg(src, n.func.value) if n.func.attr in ("clone", "squeeze", "round") else None
            if base: add(n, base, "call")
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, f"not ({seg(src, n.test)})", "cond")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if "print" in (seg(src, n) or ""): continue
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name): continue
            add(n, "pass", "del")
        elif isinstance(n, (ast.Raise, ast.Assert)):
            add(n, "pass", "del")
    return out, raw

def main():
    files = A.files.split(",") if A.files else list(ORDER)
    allm = []; raws = {}
    for f in files:
        ms, raws[f] = mutants(f); allm += ms
    rnd = random.Random(A.seed); rnd.shuffle(allm)
    print(len(allm), "mutants")
    if A.list: return
    done = set()
    if os.path.exists(A.out):
        done = {tuple(json.loads(l)["key"]) for l in open(A.out)}
    d = f"/tmp/mutant-{A.tag}"
    count = 0
    for f, line, kind, old, new, a, b in allm:
        key = (f, line, kind, a, new[:80])
        if tuple(map(str, key)) in {tuple(map(str, k)) for k in done}: count += 1; continue
        if count >= A.sample: break
        count += 1
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        shutil.copytree(f"{REPO}/xrd_simulator", d + "/xrd_simulator")
        raw = raws[f]; text = raw[:a] + new.encode() + raw[b:]
        open(f"{d}/xrd_simulator/{f}", "wb").write(text)
        res = "survived"
        try: compile(text, f, "exec")
        except SyntaxError: res = "syntax"
        env = dict(os.environ, PYTHONPATH=d, XRDMON_REPO=d, XRDMON_EVID=d + "/ev", XRDMON_REPLAYS=d + "/rp", XRDMON_JOBS=A.jobs, VERIF_SEED="1", VERIF_TIER="quick", OMP_NUM_THREADS="1")
        if res != "syntax":
            for c in ORDER[f].split():
                try:
                    p = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", VERIF + "/run.py", c], env=env, cwd=VERIF, capture_output=True, text=True, timeout=900)
                    if p.returncode != 0:
                        res = f"killed by {c} rc={p.returncode}"
                        break
                except subprocess.TimeoutExpired:
                    res = f"timeout {c}"; break
        with open(A.out, "a") as h:
            h.write(json.dumps(dict(key=list(map(str, key)), file=f, line=line, kind=kind, old=old[:160], new=new[:160], result=res)) + "\n")
    shutil.rmtree(d, ignore_errors=True)
main()
