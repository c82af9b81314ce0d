"""Runner: schedules monitored executions, judges them, writes evidence.

A *family* is a function f(ctx) that drives the real code once on a generated
workload and lets oracles judge what was observed. Every case has its own random
stream derived from (seed, family, index), so that a case replays on its own.
"""
from __future__ import annotations

import collections
import contextlib
import faulthandler
import hashlib
import importlib
import io
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

FAMILIES = {}   # name -> function
CHECKS = collections.OrderedDict()  # property -> dict(families=[(name, quick, thorough)], rule=...)
CASE_CPU_LIMIT = 120   # seconds of processor time: a hang of the code under test
CASE_WALL_LIMIT = 400  # seconds: watchdog, its firing is inconclusive
QUICK_SCALE = 2  # quick runs: the stated numbers of cases times this
QUICK_WALL_LIMIT = 480  # seconds after which a quick run starts no new case


class Violation(Exception):
    def __init__(self, label, msg, data=None):
        super().__init__(f"{label}: {msg}")
        self.label, self.msg, self.data = label, msg, data or {}


class Skip(Exception):
    """The case cannot be judged (e.g. an internal helper is gone after a refactoring)."""


class HarnessTimeout(BaseException):
    pass


class HarnessWatchdog(BaseException):
    pass


def family(fn):
    FAMILIES[fn.__name__] = fn
    return fn


def check(prop, rule, fams):
    CHECKS[prop] = dict(rule=rule, families=fams)


def _jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist()) if x.size <= 64 else f"array{x.shape}"
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if hasattr(x, "detach"):
        return _jsonable(x.detach().cpu().numpy())
    return repr(x)[:200]


class Ctx:
    def __init__(self, prop, fam, index, seed, tier, scratch):
        import numpy as np
        h = hashlib.sha256(f"{seed}/{fam}/{index}".encode()).digest()
        self.case_seed = int.from_bytes(h[:8], "little")
        self.rng = np.random.default_rng(self.case_seed)
        self.prop, self.fam, self.index, self.tier, self.seed = prop, fam, index, tier, seed
        self.counts = collections.Counter()
        self.signatures = set()
        self.sample_data = {}
        self.scratch = scratch
        self._tmp = None

    # -- observation -------------------------------------------------
    def saw(self, event, n=1):
        self.counts[event] += int(n)

    def nontrivial(self, *parts):
        self.signatures.add(hashlib.sha1(repr((self.fam,) + parts).encode()).hexdigest()[:16])

    def sample(self, **kw):
        self.sample_data.update(kw)

    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="case-", dir=self.scratch)
        return self._tmp

    def close(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)

    # -- judging -----------------------------------------------------
    def fail(self, label, msg, **data):
        raise Violation(label, msg, data)

    def true(self, cond, label, msg="", **data):
        self.counts["oracle checks"] += 1
        if not bool(cond):
            raise Violation(label, msg, data)

    def close_to(self, got, want, label, rtol=1e-9, atol=1e-9, **data):
        import numpy as np
        got, want = arr(got), arr(want)
        self.counts["oracle checks"] += 1
        if got.shape != want.shape:
            raise Violation(label, f"shape {got.shape}, expected {want.shape}", data)
        if got.size == 0:
            return
        same = (got == want) | (np.isnan(got) & np.isnan(want))
        with np.errstate(invalid="ignore"):
            ok = same | (np.abs(got - want) <= atol + rtol * np.abs(want))
        if not ok.all():
            with np.errstate(invalid="ignore"):
                err = np.where(ok, 0, np.where(np.isfinite(got - want), np.abs(got - want), np.inf))
            i = np.unravel_index(int(np.argmax(err)), got.shape) if got.ndim else ()
            raise Violation(label, f"at {tuple(int(v) for v in i)} got {got[i]!r}, expected {want[i]!r}", data)

    def quiet(self):
        return contextlib.redirect_stdout(io.StringIO())

    def raises(self, exc, fn, label, msg="", **data):
        self.counts["oracle checks"] += 1
        self.counts["refusals provoked"] += 1
        try:
            fn()
        except exc:
            return
        except Exception as e:  # noqa: BLE001
            raise Violation(label, f"{msg}: raised {type(e).__name__} instead of {exc}: {e}", data)
        raise Violation(label, f"{msg}: not refused", data)


def arr(x):
    """Plain float numpy copy of a tensor/array/list."""
    import numpy as np
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.array(x, dtype=float)


def priv(obj, name):
    """An internal helper, or Skip when it does not exist (any more)."""
    if not hasattr(obj, name):
        raise Skip(f"{getattr(obj, '__name__', type(obj).__name__)}.{name} is gone")
    return getattr(obj, name)


@contextlib.contextmanager
def internal_call():
    """Calls to internals: a signature that changed is not a violation."""
    try:
        yield
    except (TypeError, AttributeError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        if not any("/xrd_simulator/" in f.filename for f in tb):
            raise Skip(f"internal call not possible: {e}")
        raise


def reseed(seed):
    import random
    import numpy as np
    import torch
    random.seed(seed)
    np.random.seed(seed % (2**32))
    torch.manual_seed(seed % (2**63))
    try:
        from xrd_simulator import utils
        if isinstance(getattr(utils, "rng", None), np.random.Generator):
            utils.rng = np.random.default_rng(seed)
    except Exception:
        pass


def _in_subject(tb, repo):
    root = os.path.join(os.path.realpath(repo), "xrd_simulator") + os.sep
    return [f for f in traceback.extract_tb(tb) if os.path.realpath(f.filename).startswith(root)]


def run_case(prop, fam, index, seed, tier, scratch, repo):
    """Run one case. Returns a result dict."""
    ctx = Ctx(prop, fam, index, seed, tier, scratch)
    res = dict(family=fam, index=index, status="ok")
    t0 = time.time()
    cwd = os.getcwd()
    out = io.StringIO()

    def on_alarm(signum, frame):
        raise HarnessWatchdog() if signum == signal.SIGALRM else HarnessTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm), signal.signal(signal.SIGPROF, on_alarm)
    signal.alarm(CASE_WALL_LIMIT)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT, 5.0)  # again, should the code under test swallow it
    try:
        reseed(ctx.case_seed)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                FAMILIES[fam](ctx)
    except Violation as v:
        res.update(status="violation", label=v.label, msg=v.msg, data=_jsonable(v.data))
    except Skip as s:
        res.update(status="skip", msg=str(s))
    except HarnessTimeout:
        frames = _in_subject(sys.exc_info()[2], repo)
        res.update(status="violation", label="hang",
                   msg=f"no result within {CASE_CPU_LIMIT} s of processor time" + (f" in {frames[-1].name}" if frames else ""), data={})
    except HarnessWatchdog:
        res.update(status="error", msg=f"no answer within {CASE_WALL_LIMIT} s (inconclusive)")
    except MemoryError:
        res.update(status="error", msg="out of memory")
    except Exception as e:  # noqa: BLE001
        frames = _in_subject(e.__traceback__, repo)
        text = "".join(traceback.format_exception(e))[-3000:]
        if frames:
            res.update(status="violation", label="crash",
                       msg=f"{type(e).__name__}: {str(e)[:300]} in {frames[-1].name} (valid input)",
                       data={"traceback": text})
        elif isinstance(e, (IndexError, KeyError, ValueError, AssertionError, ZeroDivisionError)):
            # the observed result has a shape or content that no valid result has
            res.update(status="violation", label="malformed result", msg=f"{type(e).__name__}: {str(e)[:300]}",
                       data={"traceback": text})
        else:
            res.update(status="error", msg=text)
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])
        os.chdir(cwd)
        with contextlib.suppress(Exception):
            import torch
            torch.set_default_dtype(torch.float64)
        ctx.close()
    res.update(counts=dict(ctx.counts), signatures=list(ctx.signatures),
               sample=_jsonable(ctx.sample_data), wall=time.time() - t0)
    return res


def _worker(tasks, conn_path, args, found, limit, deadline, known):
    faulthandler.disable()
    with open(conn_path, "wb") as f:
        for fam, index in tasks:
            if found.value >= limit or time.time() > deadline:
                break
            pickle.dump(("start", fam, index), f)
            f.flush()
            r = run_case(args[0], fam, index, *args[1:])
            if r["status"] == "violation" and not matches_known(args[0], r, known):
                with found.get_lock():
                    found.value += 1
            pickle.dump(("done", r), f)
            f.flush()
        pickle.dump(("end",), f)


def _cpu(pid):
    """Processor seconds of one of our own workers."""
    try:
        with open(f"/proc/{pid}/stat") as f:
            v = f.read().rsplit(")", 1)[1].split()
        return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, ValueError, IndexError):
        return 0.0


def run_parallel(prop, tasks, seed, tier, scratch, repo, workers, known=()):
    """Fork workers over the tasks; a worker that dies is itself an observation.

    A quick run stops early once enough violations are known, or when its time is used up."""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    slots = [tasks[i::workers] for i in range(workers)]
    found = ctx.Value("i", 0)
    limit, deadline = (3, time.time() + QUICK_WALL_LIMIT) if tier == "quick" else (40, float("inf"))
    procs = []
    for i, slot in enumerate(slots):
        path = os.path.join(scratch, f"results-{i}.pkl")
        p = ctx.Process(target=_worker, args=(slot, path, (prop, seed, tier, scratch, repo), found, limit, deadline, known))
        p.start()
        procs.append((p, path, slot))
    # a case that never returns from native code cannot be interrupted from within
    hung = set()
    seen = {i: (0, time.time(), 0.0) for i in range(workers)}
    while any(p.is_alive() for p, _, _ in procs):
        for i, (p, path, _) in enumerate(procs):
            p.join(0.02)
            if not p.is_alive():
                continue
            size = os.path.getsize(path) if os.path.exists(path) else 0
            if size != seen[i][0]:
                seen[i] = (size, time.time(), _cpu(p.pid))
            elif _cpu(p.pid) - seen[i][2] > 1.5 * CASE_CPU_LIMIT or time.time() - seen[i][1] > CASE_WALL_LIMIT + 60:
                if _cpu(p.pid) - seen[i][2] > CASE_CPU_LIMIT:
                    hung.add(i)
                    with found.get_lock():
                        found.value += 1
                p.kill()
    results, complete = [], True
    for i, (p, path, slot) in enumerate(procs):
        p.join()
        started = None
        n = 0
        ended = False
        with open(path, "rb") as f:
            while True:
                try:
                    rec = pickle.load(f)
                except Exception:
                    break
                if rec[0] == "start":
                    started = rec[1:]
                elif rec[0] == "end":
                    ended = True
                else:
                    results.append(rec[1])
                    started = None
                    n += 1
        complete &= n == len(slot)
        if not ended:
            at = started or (slot[n] if n < len(slot) else slot[-1])
            r = dict(family=at[0], index=at[1], counts={}, signatures=[], sample={}, wall=0, data={})
            if i in hung:
                r.update(status="violation", label="hang", msg=f"no result within {CASE_CPU_LIMIT} s of processor time")
            elif p.exitcode is not None and p.exitcode < 0 and p.exitcode != -signal.SIGKILL and started:
                r.update(status="violation", label="crash", msg=f"the process died with signal {-p.exitcode}")
            else:
                r.update(status="error", msg=f"worker ended early (exit {p.exitcode})")
            results.append(r)
    return results, complete


def load_known(here):
    """known_findings.txt: 'known: property=<id> family=<f> label=<l> [match=<text>] :: what fails'."""
    known = []
    path = os.path.join(here, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known:"):
                head, _, what = line[len("known:"):].partition("::")
                d = dict(kv.split("=", 1) for kv in head.split())
                d["what"] = what.strip()
                known.append(d)
    return known


def matches_known(prop, r, known):
    for d in known:
        if d.get("property") == prop and d.get("family") == r["family"] and d.get("label") == r.get("label") \
                and d.get("match", "") in r.get("msg", ""):
            return d
    return None


def main(argv, here, repo):
    t0 = time.time()
    prop = argv[0]
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    only = argv[argv.index("--family") + 1] if "--family" in argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    verbose = "-v" in argv

    try:
        import numpy as np  # noqa: F401
        import torch
        torch.set_num_threads(1)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for m in ("beam", "detector", "laue", "mesh", "motion", "phase", "polycrystal", "templates",
                      "utils", "scattering_factors", "structure_factors", "cuda"):
                importlib.import_module("xrd_simulator." + m)
        import xrd_simulator
        real = os.path.realpath(os.path.dirname(xrd_simulator.__file__))
        if real != os.path.join(os.path.realpath(repo), "xrd_simulator"):
            print(f"harness error: xrd_simulator imported from {real}, not from {repo}")
            return 2
        for name in sorted(os.listdir(os.path.join(here, "xrdmon", "checks"))):
            if name.endswith(".py") and not name.startswith("_"):
                importlib.import_module("xrdmon.checks." + name[:-3])
    except Exception as e:  # noqa: BLE001
        traceback.print_exc()
        if _in_subject(e.__traceback__, repo):
            rp = write_replay(here, prop, dict(family="import", index=0, label="crash", msg=str(e), data={}), seed, tier)
            print(f"VIOLATION property={prop} replay={rp}")
            return 1
        return 2

    spec = CHECKS[prop]
    scratch = tempfile.mkdtemp(prefix="xrdmon-")
    os.environ["MPLCONFIGDIR"] = scratch
    try:
        if replay:
            d = json.load(open(replay))
            r = run_case(prop, d["family"], d["index"], d["seed"], d["tier"], scratch, repo)
            print(json.dumps({k: v for k, v in r.items() if k not in ("signatures",)}, indent=1)[:6000])
            if r["status"] == "violation":
                print(f"VIOLATION property={prop} replay={replay}")
                return 1
            return 0 if r["status"] in ("ok", "skip") else 2

        tasks = []
        for fam, q, th in spec["families"]:
            if only and fam != only:
                continue
            tasks += [(fam, i) for i in range(QUICK_SCALE * q if tier == "quick" else th)]
        # interleave families over the workers
        order = sorted(range(len(tasks)), key=lambda i: hashlib.md5(repr(tasks[i]).encode()).digest())
        tasks = [tasks[i] for i in order]
        workers = min(int(os.environ.get("XRDMON_JOBS", "0")) or (os.cpu_count() or 4), max(len(tasks), 1), 8)
        results, complete = run_parallel(prop, tasks, seed, tier, scratch, repo, workers, load_known(here))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    results.sort(key=lambda r: (r["family"], r["index"]))
    return report(prop, spec, results, seed, tier, here, t0, verbose, complete)


def write_replay(here, prop, r, seed, tier):
    os.makedirs(os.path.join(here, "replays"), exist_ok=True)
    path = os.path.join(here, "replays", f"{prop}-{r['family']}-{r['index']}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, family=r["family"], index=r["index"], seed=seed, tier=tier,
                       label=r.get("label"), message=r.get("msg"), data=r.get("data"),
                       how=f"python run.py {prop} --replay {path}"), f, indent=1)
    return path


def report(prop, spec, results, seed, tier, here, t0, verbose, complete=True):
    known = load_known(here)
    per = collections.OrderedDict()
    signatures = set()
    violations, errors, skipped, found = [], [], 0, collections.OrderedDict()
    samples = []
    for r in results:
        d = per.setdefault(r["family"], dict(cases=0, skipped=0, violations=0, observed=collections.Counter(), wall=0.0))
        d["cases"] += 1
        d["wall"] += r.get("wall", 0)
        d["observed"].update(r.get("counts", {}))
        signatures.update(r.get("signatures", []))
        if r["status"] == "violation":
            k = matches_known(prop, r, known)
            if k:
                found.setdefault(k["what"], 0)
                found[k["what"]] += 1
            else:
                d["violations"] += 1
                violations.append(r)
        elif r["status"] == "error":
            errors.append(r)
        elif r["status"] == "skip":
            d["skipped"] += 1
            skipped += 1
        if r.get("sample") and sum(1 for s in samples if s["family"] == r["family"]) < 2:
            samples.append(dict(family=r["family"], index=r["index"], **r["sample"]))
    while samples and len(json.dumps(samples)) > 30000:
        samples.pop()
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=len(results) - skipped,
            distinct_nontrivial=len(signatures),
            rule=spec["rule"],
            samples=samples or [dict(note="no sample recorded")],
            families={k: dict(cases=v["cases"], skipped=v["skipped"], violations=v["violations"],
                              wall_s=round(v["wall"], 2), observed=dict(v["observed"])) for k, v in per.items()},
            known_findings_seen=list(found),
            all_planned_cases_run=bool(complete),
            harness_errors=[dict(family=r["family"], index=r["index"], message=r["msg"][-400:]) for r in errors[:3]],
        ),
        assumptions=[
            "the installed numpy, scipy and xfab tables (symmetry operators, form factors) are correct",
            "CPU backend with double precision; no GPU is present",
            "the reference model in xrdmon/ref.py (written independently in numpy) is correct",
        ],
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if verbose or violations or errors:
        for k, v in per.items():
            print(f"  {k}: {v['cases']} cases, {v['skipped']} skipped, {v['violations']} violations, "
                  f"{v['wall']:.1f}s cpu; {dict(v['observed'])}")
    for what, n in found.items():
        print(f"KNOWN-FINDING: property={prop} {what}")
    shown = 0
    for r in violations:
        if shown < 5:
            print(f"violation in {r['family']}[{r['index']}]: {r.get('label')}: {r.get('msg')}")
            if verbose and r.get("data"):
                print("   ", json.dumps(r["data"])[:1500])
        shown += 1
    print(f"{prop}: {len(results)} executions ({skipped} skipped), {len(signatures)} distinct non-trivial, "
          f"{len(violations)} violations, {len(errors)} harness errors, {time.time() - t0:.1f}s [{tier}, seed {seed}]")
    if violations:
        rp = write_replay(here, prop, violations[0], seed, tier)
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        print("harness error:", errors[0]["msg"])
        return 2
    if not sum(v["observed"].get("oracle checks", 0) for v in per.values()):
        print("inconclusive: no monitor was reached")
        return 2
    return 0
