"""Seeded search over simulated runs, minimisation, replay files and evidence."""

import faulthandler
import gc
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback

from .core import HarnessError, Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Result:
    """What one run contributes to the evidence."""

    def __init__(self, steps=0, digest="", faults=None, ops=None, nontrivial=True, state="", probes=()):
        self.steps, self.digest = steps, digest
        self.faults, self.ops = faults or {}, ops or {}
        self.nontrivial = nontrivial
        self.state = state
        self.probes = list(probes)


class Check:
    """One property's workload, oracle and fault space. Sub-classes fill in the blanks."""

    id = None
    level = "exploration"
    technique = "deterministic simulation with seeded schedule and fault search"
    quick_runs, quick_wall = 4000, 45.0
    thorough_runs, thorough_wall = 200000, 1500.0
    rule = ""
    components = {}
    assumptions = []
    time_unit = "scheduler steps"

    def prepare(self):
        """Once, before forking."""

    def sample(self, rng):
        raise NotImplementedError

    def run(self, cfg, seed, schedule=None):
        """Returns (Result, trace). Raises Violation (with .trace set when available)."""
        raise NotImplementedError

    def shrink(self, cfg):
        return iter(())

    def known(self, cfg, violation):
        """Return the known-finding entry this violation corresponds to, if any."""
        return None

    def describe(self, cfg):
        return json.dumps(cfg, sort_keys=True)


def run_seed(prop, seed, i):
    return f"{prop}:{seed}:{i}"


def _classify(e):
    """An exception that passed through the code under test is an observation; one that did not is ours."""
    if isinstance(e, Violation):
        return e
    if isinstance(e, HarnessError):
        return None
    tb = e.__traceback__
    frames = traceback.extract_tb(tb)
    repo = os.environ.get("THSIM_REPO", "/repo")
    if any(f.filename.startswith(repo + "/") for f in frames):
        last = [f for f in frames if f.filename.startswith(repo + "/")][-1]
        return Violation("exception", f"{type(e).__name__}: {e} (at {os.path.relpath(last.filename, repo)}:{last.lineno})")
    return None


def execute(check, cfg, rs, schedule=None):
    """Run one configuration. Returns (violation or None, Result or None, trace)."""
    check.last_trace = []
    try:
        res = check.run(cfg, rs, schedule)
        return None, res, list(check.last_trace)
    except Exception as e:  # noqa: BLE001
        v = _classify(e)
        if v is None:
            raise
        if v is not e:
            v.__cause__ = e
        return v, None, list(check.last_trace)


# ---------------------------------------------------------------------------------------------------------------


def _worker(check, prop, seed, w, W, start, nruns, deadline, conn, cur, stop):
    try:
        faulthandler.enable(file=open(os.devnull, "w"))
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        gc.freeze()
        agg = dict(runs=0, nontrivial=0, steps=0, faults={}, ops={}, digests=set(), states=set(), probes={}, samples=[], known={})
        i = start + w
        while i < nruns and time.monotonic() < deadline and not stop.is_set():
            cur[w] = i + 1
            rs = run_seed(prop, seed, i)
            cfg = check.sample(random.Random("cfg:" + rs))
            v, res, trace = execute(check, cfg, rs)
            if v is not None:
                k = check.known(cfg, v)
                if k is not None:
                    agg["known"][k] = agg["known"].get(k, 0) + 1
                else:
                    conn.send(("violation", i, rs, cfg, v.kind, v.msg, trace))
                    stop.set()
                    break
            agg["runs"] += 1
            if res is not None:
                agg["steps"] += res.steps
                if res.nontrivial:
                    agg["nontrivial"] += 1
                agg["digests"].add(res.digest)
                if res.state:
                    agg["states"].add(res.state)
                for d, s in ((agg["faults"], res.faults), (agg["ops"], res.ops)):
                    for kk, vv in s.items():
                        d[kk] = d.get(kk, 0) + vv
                for p in res.probes:
                    agg["probes"][p] = agg["probes"].get(p, 0) + 1
                if len(agg["samples"]) < 2 and res.nontrivial:
                    agg["samples"].append(dict(seed=rs, cfg=cfg, steps=res.steps, schedule_hash=res.digest))
            i += W
        cur[w] = 0
        conn.send(("done", agg))
    except BaseException as e:  # noqa: BLE001
        try:
            conn.send(("error", f"run {run_seed(prop, seed, cur[w] - 1)}: {type(e).__name__}: {e}\n{traceback.format_exc()}"))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def search(check, seed, nruns, wall, W, start=0):
    ctx = mp.get_context("fork")
    cur = ctx.Array("q", W, lock=False)
    stop = ctx.Event()
    deadline = time.monotonic() + wall
    procs = []
    for w in range(W):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(check, check.id, seed, w, W, start, nruns, deadline, b, cur, stop), daemon=True)
        p.start()
        b.close()
        procs.append((p, a))
    agg = dict(runs=0, nontrivial=0, steps=0, faults={}, ops={}, digests=set(), states=set(), probes={}, samples=[], known={})
    viols, errors, deaths = [], [], []
    hard = deadline + 240
    for w, (p, a) in enumerate(procs):
        got_final = False
        while True:
            try:
                if not a.poll(max(0.1, hard - time.monotonic())):
                    p.kill()
                    errors.append(f"worker {w} did not finish in time (run index {cur[w] - 1})")
                    break
                m = a.recv()
            except (EOFError, OSError):
                break
            if m[0] == "violation":
                viols.append(m[1:])
            elif m[0] == "error":
                errors.append(m[1])
                got_final = True
                break
            else:
                got_final = True
                merge(agg, m[1])
                break
        p.join(timeout=30)
        if not got_final and not errors:
            deaths.append((cur[w] - 1, p.exitcode))
    return agg, sorted(viols, key=lambda v: v[0]), errors, deaths


def _rng(rs):
    return random.Random("run:" + rs)


def minimise(check, cfg, rs, v, trace, budget):
    """Shrink the configuration, then the schedule, while the same kind of violation persists."""
    end = time.monotonic() + budget
    best = (cfg, v, trace, None)
    tried = 0

    def attempt(c, schedule=None):
        nonlocal tried
        tried += 1
        try:
            v2, _, tr = execute(check, c, rs, schedule)
        except Exception:
            return None
        if v2 is not None and v2.kind == v.kind and check.known(c, v2) is None:
            return (c, v2, tr, schedule)
        return None

    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in check.shrink(best[0]):
            if time.monotonic() > end:
                break
            r = attempt(cand)
            if r is not None:
                best = r
                progress = True
                break
    # schedule: the default policy (always the first enabled event) after the shortest failing prefix
    r = attempt(best[0], [])
    if r is not None:
        best = (r[0], r[1], r[2], [])
    elif best[2]:
        lo, hi = 0, len(best[2])
        full = best[2]
        good = None
        while lo < hi and time.monotonic() < end:
            mid = (lo + hi) // 2
            r = attempt(best[0], full[:mid])
            if r is not None:
                good, hi = (mid, r), mid
            else:
                lo = mid + 1
        if good is not None:
            best = (best[0], good[1][1], good[1][2], full[: good[0]])
    return best, tried


def confirm(check, args, seed, tier, tries=2):
    """Does the execution fail in a fresh process as well?"""
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier)
    for _ in range(tries):
        try:
            r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), check.id, *args], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, timeout=200)
        except subprocess.TimeoutExpired:
            return True
        if r.returncode == 1 or r.returncode < 0:
            return True
    return False


def merge(agg, d):
    for k in ("runs", "nontrivial", "steps"):
        agg[k] += d[k]
    for k in ("faults", "ops", "probes", "known"):
        for kk, vv in d[k].items():
            agg[k][kk] = agg[k].get(kk, 0) + vv
    agg["digests"] |= d["digests"]
    agg["states"] |= d["states"]
    agg["samples"] += d["samples"]


def write_replay(check, cfg, rs, v, trace, schedule, extra):
    os.makedirs(REPLAYS, exist_ok=True)
    body = dict(property=check.id, run_seed=rs, cfg=cfg, violation=dict(kind=v.kind, msg=v.msg), forced_prefix=schedule, schedule=trace, **extra)
    h = hashlib.blake2b(json.dumps([cfg, trace, v.kind], sort_keys=True).encode(), digest_size=4).hexdigest()
    path = os.path.join(REPLAYS, f"{check.id}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def replay(check, path):
    with open(path) as f:
        body = json.load(f)
    v, _, trace = execute(check, body["cfg"], body["run_seed"], body["schedule"] if body["schedule"] else None)
    if v is None:
        print(f"replay: no violation of {check.id} on this tree")
        return 0
    same = v.kind == body["violation"]["kind"] and trace == body["schedule"]
    print(f"replay: {v.kind}: {v.msg}")
    print(f"replay: {'exact reproduction' if same else 'same property, different execution'} ({len(trace)} scheduler events)")
    print(f"VIOLATION property={check.id} replay={path}")
    return 1


def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop and e["status"] == "known"]


def main(check, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = os.environ.get("VERIF_SEED", "1")
    W = int(os.environ.get("THSIM_WORKERS", str(min(8, os.cpu_count() or 1))))
    t0 = time.time()
    if "--replay" in argv:
        check.prepare()
        return replay(check, argv[argv.index("--replay") + 1])
    if "--one" in argv:
        check.prepare()
        rs = argv[argv.index("--one") + 1]
        cfg = check.sample(random.Random("cfg:" + rs))
        print(check.describe(cfg))
        v, res, trace = execute(check, cfg, rs)
        print("trace", len(trace), hashlib.blake2b("\n".join(trace).encode(), digest_size=8).hexdigest())
        print("violation:", v if v else None)
        if v is not None and v.__cause__ is not None:
            traceback.print_exception(v.__cause__)
        return 1 if v else 0
    if "--digests" in argv:  # for tools/determinism.py
        check.prepare()
        for i in range(int(argv[argv.index("--digests") + 1])):
            rs = run_seed(check.id, seed, i)
            cfg = check.sample(random.Random("cfg:" + rs))
            v, res, trace = execute(check, cfg, rs)
            h = hashlib.blake2b("\n".join(map(str, trace)).encode(), digest_size=8).hexdigest()
            print("digest", i, res.steps if res else None, res.digest if res else None, h, v.kind if v else None)
        return 0
    nruns = check.quick_runs if tier == "quick" else check.thorough_runs
    wall = check.quick_wall if tier == "quick" else check.thorough_wall
    if os.environ.get("THSIM_WALL"):
        wall = float(os.environ["THSIM_WALL"])
    print(f"thsim {check.id} tier={tier} seed={seed} runs<={nruns} wall<={wall:.0f}s workers={W}", flush=True)
    check.prepare()
    for k in load_known(check.id):
        print(f"KNOWN-FINDING: property={check.id} {k['what']}")
    agg, viols, errors, deaths = search(check, seed, nruns, wall, W)
    # an execution is repeatable, so a violation that does not show in a fresh process is no violation of the property
    # (operators whose last bit depends on memory alignment, say); several of them mean that the code itself is not repeatable
    shaky = []
    while viols:
        good = next((v for v in viols if confirm(check, ["--one", v[1]], seed, tier)), None)
        if good is not None:
            viols = [good] + [v for v in viols if v is not good]
            break
        for v in viols:
            print(f"run {v[0]} (seed {v[1]}) failed once and not again: {v[3]}: {v[4]}", flush=True)
        shaky += viols
        left = wall - (time.time() - t0)
        if len(shaky) >= 4:
            viols = shaky
            break
        viols = []
        if left > 1 and not errors:
            more, viols, errors, d2 = search(check, seed, nruns, left, W, start=max(v[0] for v in shaky) + 1)
            merge(agg, more)
            deaths += d2
    el = time.time() - t0
    rc = 0
    n_viol = 0
    if viols:
        i, rs, cfg, kind, msg, trace = viols[0]
        n_viol = len(viols)
        print(f"violation in run {i} (seed {rs}): {kind}: {msg}", flush=True)
        v = Violation(kind, msg)
        (mcfg, mv, mtrace, sched), tried = minimise(check, cfg, rs, v, trace, 60 if tier == "quick" else 200)
        path = write_replay(check, mcfg, rs, mv, mtrace, sched, dict(found_at=i, tier=tier, seed=seed, minimisation_runs=tried, original_cfg=cfg, original_schedule_length=len(trace)))
        if len(shaky) < 4 and not confirm(check, ["--replay", path], seed, tier):  # minimised too far
            os.unlink(path)
            mcfg, mv = cfg, v
            path = write_replay(check, cfg, rs, v, trace, None, dict(found_at=i, tier=tier, seed=seed, minimisation_runs=0))
        print(f"minimised ({tried} runs): {mv.kind}: {mv.msg}")
        print(f"configuration: {check.describe(mcfg)}")
        print(f"VIOLATION property={check.id} replay={path}", flush=True)
        rc = 1
    elif deaths:
        # a worker died: a native crash in the code under test is a violation if it happens again in a fresh process
        for i, code in deaths:
            rs = run_seed(check.id, seed, i)
            r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), check.id, "--one", rs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode < 0 and r.returncode != -signal.SIGKILL:
                cfg = check.sample(random.Random("cfg:" + rs))
                v = Violation("native-crash", f"process died with signal {-r.returncode}")
                path = write_replay(check, cfg, rs, v, [], None, dict(found_at=i, tier=tier, seed=seed))
                print(f"run {i} (seed {rs}) kills the process: signal {-r.returncode}")
                print(f"VIOLATION property={check.id} replay={path}", flush=True)
                rc, n_viol = 1, 1
                break
        else:
            errors.append(f"worker(s) died without reproducing: {deaths}")
    if errors and rc == 0:
        for e in errors:
            print("HARNESS-ERROR", e, file=sys.stderr)
        rc = 2
    distinct = len(agg["digests"])
    ev = dict(
        property=check.id,
        tier=tier,
        seed=int(seed) if str(seed).isdigit() else 0,
        level=check.level,
        coverage=dict(
            evaluations=agg["runs"],
            distinct_nontrivial=min(distinct, agg["nontrivial"]),
            rule=check.rule,
            samples=agg["samples"][:6],
            simulated_runs_per_hour=round(agg["runs"] / max(el, 1e-9) * 3600),
            seeds_per_hour=round(agg["runs"] / max(el, 1e-9) * 3600),
            simulated_time=dict(unit=check.time_unit, total=agg["steps"]),
            faults_fired=agg["faults"],
            operations=agg["ops"],
            distinct_interleavings=distinct,
            distinct_states=len(agg["states"]),
            probes=agg["probes"],
            known_findings_seen=agg["known"],
            components=check.components,
            workers=W,
            budget_runs=nruns,
        ),
        wall_s=round(el, 2),
        violations=n_viol,
        assumptions=check.assumptions,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{check.id}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{check.id}: {agg['runs']} runs, {agg['steps']} {check.time_unit}, {distinct} distinct interleavings, {len(agg['states'])} distinct states, {el:.1f}s, faults {agg['faults']}, exit {rc}")
    if agg["probes"]:
        print("probes: " + ", ".join(f"{k}={v}" for k, v in sorted(agg["probes"].items())))
    return rc
