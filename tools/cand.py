"""cand.py FILE [ID...]: quick survey of candidate changes without demonstrations.  FILE defines
C(id, prop, [(file, old, new), ...], note); each is applied to a scratch copy and its property's
quick check is run.  Prints CAUGHT / MISSED / rc=2."""
import os, subprocess, sys, tempfile, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
REPO, VERIF = os.environ.get("CAND_REPO", "/repo"), os.environ.get("CAND_VERIF", "/verif")
CANDS = []
def C(i, p, edits, note=""): CANDS.append((i, p, edits, note))
def one(c):
    i, p, edits, note = c
    d = tempfile.mkdtemp(prefix="cand-", dir="/tmp")
    try:
        shutil.copytree(REPO + "/xrd_simulator", d + "/xrd_simulator", ignore=shutil.ignore_patterns("__pycache__"))
        for extra in ("tests", "pyproject.toml", "docs"):
            if os.path.exists(f"{REPO}/{extra}"): os.symlink(f"{REPO}/{extra}", d + "/" + extra)
        for f, old, new in edits:
            q = f"{d}/xrd_simulator/{f}"; s = open(q).read()
            if s.count(old) != 1: return f"{i} [{p}] BADEDIT count={s.count(old)} {old[:50]!r}"
            open(q, "w").write(s.replace(old, new))
            r = subprocess.run(["/opt/venv/bin/python", "-m", "py_compile", q], capture_output=True, text=True)
            if r.returncode: return f"{i} SYNTAX {r.stderr[-200:]}"
        out = []
        for pp in p.split(","):
            env = dict(os.environ, PYTHONPATH=d, XRDMON_REPO=d, XRDMON_EVID=d + "/evid", VERIF_SEED="1", VERIF_TIER="quick",
                       OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", XRDMON_JOBS=os.environ.get("XRDMON_JOBS", "3"))
            r = subprocess.run(["/opt/venv/bin/python", "run.py", pp], cwd=VERIF, env=env, capture_output=True, text=True, timeout=900)
            v = [l for l in r.stdout.split("\n") if "VIOLATION" in l]
            st = {0: "MISSED", 1: "caught"}.get(r.returncode, f"RC{r.returncode}")
            out.append(f"{pp} {st} {v[0][:110] if v else ''}" + ((r.stdout + r.stderr)[-300:] if st.startswith("RC") else ""))
        return f"{i} :: " + " ; ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    runpy.run_path(sys.argv[1], init_globals={"C": C})
    sel = [c for c in CANDS if len(sys.argv) < 3 or c[0] in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get("PAR", "2"))) as ex:
        for r in ex.map(one, sel): print(r, flush=True)
