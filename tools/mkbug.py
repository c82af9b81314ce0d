"""Author a planted bug: applies (file, old, new) replacements to a scratch copy and writes
seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}.  Refuses when the replaced lines are not
lines of the original repository (commit 16d2707)."""
import json, os, subprocess, sys, tempfile, shutil, textwrap
REPO, OUT, BASE = os.environ.get("MK_REPO", "/repo"), os.environ.get("MK_OUT", "/verif/seeded"), "16d2707"
DEMO_SH = '#!/bin/sh\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'

def mkbug(bug_id, prop, edits, needs, breaks, demo):
    d = tempfile.mkdtemp(prefix="mkbug-", dir="/tmp")
    wt = d + "/w"
    try:
        subprocess.run(["git", "-C", REPO, "worktree", "add", "-q", "--detach", wt], check=True)
        for f, old, new in edits:
            p = f"{wt}/xrd_simulator/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (bug_id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
            subprocess.run([sys.executable, "-m", "py_compile", p], check=True)
        diff = subprocess.run(["git", "-C", wt, "diff", "--no-color"], check=True, capture_output=True, text=True).stdout
        # every edit must touch at least one original line
        touched = set()
        for f in {e[0] for e in edits}:
            blame = subprocess.run(["git", "-C", REPO, "blame", "-l", "HEAD", "--", f"xrd_simulator/{f}"], capture_output=True, text=True, check=True).stdout.split("\n")
            base = subprocess.run(["git", "-C", REPO, "rev-parse", BASE], capture_output=True, text=True).stdout.strip()
            orig = {i + 1 for i, l in enumerate(blame) if l.lstrip("^").startswith(base[:30])}
            cur = 0
            part = subprocess.run(["git", "-C", wt, "diff", "-U0", "--", f"xrd_simulator/{f}"], capture_output=True, text=True).stdout
            for l in part.split("\n"):
                if l.startswith("@@"):
                    a = l.split()[1][1:]
                    st, n = (a.split(",") + ["1"])[:2]
                    touched |= {(f, k, k in orig) for k in range(int(st), int(st) + int(n))}
                    if n == "0": touched.add((f, int(st), int(st) in orig))
        mine = [t for t in touched if not t[2]]
        print(bug_id, "lines touched:", len(touched), "not original:", sorted(mine))
        o = f"{OUT}/{bug_id}"
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.py", "w").write(textwrap.dedent(demo).lstrip("\n"))
        open(o + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
    finally:
        subprocess.run(["git", "-C", REPO, "worktree", "remove", "--force", wt])
        shutil.rmtree(d, ignore_errors=True)
