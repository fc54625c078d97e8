"""Command line: check a property over many seeds, replay one violation, test determinism.

    runner check C01 [--tier quick|thorough] [--seed N] [--runs N] [--budget S]
    runner replay FILE
    runner selftest [IDS]
"""

import argparse
import hashlib
import importlib
import json
import os
import pickle
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

for _k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_k, "1")

from . import core  # noqa: E402
from .core import Ctx, HarnessError, Rng, StepLimit, Violation, canonical, derive_seed  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = [f"C{i:02d}" for i in (*range(1, 16), 20)]
WALL_LIMIT = float(os.environ.get("DST_WALL", "90"))
MEM_LIMIT = 6 << 30
SLOW = float(os.environ.get("DST_SLOW", "0"))  # (for development: tell which runs take longer)
JOBS = int(os.environ.get("DST_JOBS", "8"))


def scratch_root():
    for base in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            try:
                if shutil.disk_usage(base).free > (1 << 30):
                    return base
            except OSError:
                pass
    return tempfile.gettempdir()


def load_prop(pid):
    return importlib.import_module(f"dst.props.{pid.lower()}")


# ------------------------------------------------------------------------------ one execution
class Result(dict):
    __getattr__ = dict.get


def _child(prop, sut, scn, scratch, wfd, keep_log, limit_steps, mem):
    core.quiet_process()
    resource.setrlimit(resource.RLIMIT_AS, (mem, resource.getrlimit(resource.RLIMIT_AS)[1]))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.chdir(scratch)
    ctx = Ctx(os.path.realpath(scratch), keep_log=keep_log)
    res = {"status": "ok"}
    core.process_settings(scn.get("process", ()), ctx)
    try:
        if limit_steps:
            from .tracer import LineTracer

            with LineTracer(limit=limit_steps):
                prop.run(sut, scn, ctx)
        else:
            prop.run(sut, scn, ctx)
    except Violation as v:
        res = {"status": "violation", "cls": v.cls, "msg": v.message}
        ctx.log("VIOLATION", v.cls)
    except StepLimit as e:
        res = {"status": "violation", "cls": "no-progress", "msg": str(e)}
        ctx.log("VIOLATION", "no-progress")
    except BaseException as e:
        told = core.blame(e)
        if told:
            res = {"status": "violation", "cls": "unusable", "msg": "a result cannot be used: " + told}
            ctx.log("VIOLATION", "unusable")
        else:
            res = {"status": "error", "msg": traceback.format_exc()[-4000:]}
    res.update(
        digest=ctx.hash.hexdigest(), events=ctx.nevents, steps=ctx.steps, stats=dict(ctx.stats),
        states=sorted(ctx.states), hint=getattr(ctx, "hint", None), log=ctx.log_lines if keep_log else None,
        nontrivial=bool(getattr(ctx, "nontrivial", None)) or any(
            k.startswith("fault:") for k in ctx.stats),
    )
    data = pickle.dumps(res)
    view = memoryview(data)
    while view:
        n = os.write(wfd, view)
        view = view[n:]
    os._exit(0)


class Child:
    def __init__(self, prop, sut, scn, tag, keep_log=False, limit_steps=None, wall=None):
        self.scratch = tempfile.mkdtemp(prefix="dst-", dir=scratch_root())
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.t0 = time.monotonic()
        self.wall = wall or scn.get("wall") or WALL_LIMIT
        self.tag, self.scn = tag, scn
        mem = scn.get("mem_gb", 0) << 30 or MEM_LIMIT
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                _child(prop, sut, scn, self.scratch, w, keep_log, limit_steps, mem)
            finally:
                os._exit(70)
        os.close(w)
        self.fd = r
        self.buf = []

    def overdue(self, now):
        """Whether it has had its time: of computing, if the machine is busy with other things."""
        past = now - self.t0
        if past <= self.wall:
            return False
        if past > 4 * self.wall:
            return True
        try:
            with open(f"/proc/{self.pid}/stat") as f:
                fields = f.read().rsplit(")", 1)[1].split()
            used = (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return True
        # (one that waits for something does not use any)
        return used > self.wall or used < 0.05 * past

    def feed(self):
        data = os.read(self.fd, 1 << 16)
        if data:
            self.buf.append(data)
            return False
        return True

    def finish(self, killed=False):
        if killed:
            try:
                os.killpg(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.close(self.fd)
        _, st = os.waitpid(self.pid, 0)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if killed:
            return Result(status="hang", msg=f"no result after {self.wall} s", stats={}, states=[], steps=0,
                          digest="", events=0)
        try:
            return Result(pickle.loads(b"".join(self.buf)))
        except Exception:
            return Result(status="died", msg=f"the simulated process ended with wait status {st}",
                          signal=os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0,
                          stats={}, states=[], steps=0, digest="", events=0)


def execute(prop, sut, scn, keep_log=False, limit_steps=None, wall=None):
    c = Child(prop, sut, scn, None, keep_log, limit_steps, wall)
    while True:
        if c.overdue(time.monotonic()):
            r = c.finish(killed=True)
            break
        ready, _, _ = select.select([c.fd], [], [], min(1.0, c.wall))
        if ready and c.feed():
            r = c.finish()
            break
    if r.status == "hang" and limit_steps is None:
        # decide deterministically: a bounded number of program steps instead of wall time
        r2 = execute(prop, sut, scn, keep_log, limit_steps=STEP_BOUND, wall=max(600, 4 * c.wall))
        return r2
    if r.status == "died" and r.signal in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE,
                                           signal.SIGILL, signal.SIGABRT):
        r["status"] = "violation"
        r["cls"] = "process-died"
    return r


STEP_BOUND = 40_000_000


def run_many(prop, sut, scns, deadline=None, ctl=None):
    """Yield (index, scenario, result), in order of completion.  `scns` yields (index, scenario).
    Once ctl["stop"] is set no further run is started, but those under way are completed, so that
    the lowest failing index is always among the results."""
    it = iter(scns)
    live = []
    done = False
    try:
        while True:
            if ctl is not None and ctl["stop"]:
                done = True
            while not done and len(live) < JOBS and (deadline is None or time.monotonic() < deadline):
                try:
                    i, s = next(it)
                except StopIteration:
                    done = True
                    break
                live.append(Child(prop, sut, s, i))
            if deadline is not None and time.monotonic() >= deadline:
                done = True
            if not live:
                return
            ready, _, _ = select.select([c.fd for c in live], [], [], 0.5)
            now = time.monotonic()
            for c in list(live):
                if c.fd in ready:
                    if c.feed():
                        live.remove(c)
                        r = c.finish()
                        if r.status == "died":
                            r = execute(prop, sut, c.scn)
                        if SLOW and now - c.t0 > SLOW:
                            print(f"run {c.tag}: {now - c.t0:.1f} s", file=sys.stderr)
                        yield c.tag, c.scn, r
                elif c.overdue(now):
                    live.remove(c)
                    c.finish(killed=True)
                    yield c.tag, c.scn, execute(prop, sut, c.scn, limit_steps=STEP_BOUND,
                                                wall=max(600, 4 * c.wall))
    finally:
        for c in live:
            c.finish(killed=True)


# ------------------------------------------------------------------------------ scenarios
def scenarios(pid, prop, seed, tier, n):
    for i in range(n):
        rng = Rng(derive_seed("dst1", seed, pid, i))
        scn = prop.gen(rng, tier, i)
        size = max((scn[k].get("nel", 0) for k in ("field", "mesh", "spec") if isinstance(scn.get(k), dict)), default=0)
        if size > 30000:  # watching every line would take minutes
            for a in scn.get("attempts", ()):
                a.pop("line", None)
        # settings of the process that must make no difference
        rng = Rng(derive_seed("env1", seed, pid, i))
        if rng.chance(0.15):
            scn["process"] = rng.pick(["debug"], ["print"], ["debug", "print"])
        yield i, scn


# ------------------------------------------------------------------------------ minimisation
def candidates(prop, scn):
    if "process" in scn:
        yield {k: v for k, v in scn.items() if k != "process"}
    yield from prop.shrink(scn)


def minimise(prop, sut, scn, cls, hint=None, tries=250, budget=60.0):
    t0 = time.monotonic()
    best, n = scn, 0
    if hint is not None and hasattr(prop, "concretise"):
        # turn the schedule that was drawn into the list of its decisions
        cand = prop.concretise(scn, hint)
        r = execute(prop, sut, cand, wall=60)
        n += 1
        if r.status == "violation" and r.cls == cls:
            best = cand
    improved = True
    seen = {canonical(scn)}
    while improved and n < tries and time.monotonic() - t0 < budget:
        improved = False
        for cand in candidates(prop, best):
            key = canonical(cand)
            if key in seen:
                continue
            seen.add(key)
            n += 1
            if n > tries or time.monotonic() - t0 > budget:
                break
            try:
                r = execute(prop, sut, cand, wall=30)
            except Exception:
                continue
            if r.status == "violation" and r.cls == cls:
                best = cand
                improved = True
                break
    return best, n


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                kv = {}
                head, _, text = line[6:].partition("::")
                for w in head.split():
                    k, _, v = w.partition("=")
                    kv[k] = v
                kv["text"] = text.strip()
                out.append(kv)
    return out


def match_known(pid, r, known):
    for k in known:
        if k.get("property") == pid and k.get("class") == r.cls and k["text"] and k["text"] in r.msg:
            return k
    return None


# ------------------------------------------------------------------------------ commands
def cmd_check(a):
    t0 = time.monotonic()
    pid = a.id
    prop = load_prop(pid)
    sut = core.import_sut()
    if hasattr(prop, "prepare"):
        prop.prepare(sut)
    tier = a.tier
    n = a.runs or prop.RUNS[tier]
    budget = a.budget or (600.0 if tier == "quick" else float(os.environ.get("DST_BUDGET", "780")))
    deadline = t0 + budget
    stats, states, digests = Counter(), set(), set()
    status = Counter()
    steps = events = nontrivial = 0
    samples, bad, errors, knowns = [], [], [], {}
    known = known_findings()
    done = 0
    ctl = {"stop": False}
    for i, scn, r in run_many(prop, sut, scenarios(pid, prop, a.seed, tier, n), deadline, ctl):
        done += 1
        status[r.status] += 1
        stats.update(r.stats)
        steps += r.steps
        events += r.events
        states.update(r.states)
        if r.nontrivial and r.status == "ok":
            if r.digest not in digests:
                digests.add(r.digest)
                nontrivial += 1
        if len(samples) < 3 and r.status == "ok" and r.nontrivial:
            samples.append({"index": i, "scenario": scn, "events": r.events, "digest": r.digest[:16]})
        if r.status == "violation":
            k = match_known(pid, r, known)
            if k:
                knowns[k["text"]] = k
            else:
                bad.append((i, scn, r))
                ctl["stop"] = True
        elif r.status != "ok":
            errors.append((i, r))
            if len(errors) > 5:
                ctl["stop"] = True
    wall = time.monotonic() - t0
    short = status["ok"] + status["violation"] < min(n, 1) or done == 0
    rc = 0
    replay_path = None
    if bad:
        i, scn, r = min(bad, key=lambda x: x[0])
        # a run of minutes is shown as it was found when there is no time left to run it again
        long = bool(scn.get("huge"))
        late = long and time.monotonic() - t0 > 400
        small, tried = (scn, 0) if long else minimise(prop, sut, scn, r.cls, r.hint)
        t1 = time.monotonic()
        final = r if late else execute(prop, sut, small, keep_log=True)
        took = time.monotonic() - t1
        if final.status != "violation":
            small, final = scn, execute(prop, sut, scn, keep_log=True)
        if final.status != "violation":
            errors.append((i, Result(status="unstable", msg="violation did not reproduce: " + r.msg)))
        else:
            replay_path = write_replay(pid, a, i, small, final)
            if late or time.monotonic() - t0 + 1.5 * took > 800:
                again = "was left out: no time"
            else:
                again = subprocess.run([sys.executable, "-B", "-m", "dst.runner", "replay", replay_path],
                                       cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                exact = again.returncode == 1 and "reproduced exactly" in again.stdout
                again = "reproduced it exactly" if exact else "gave: " + again.stdout.strip()[-300:]
            print(f"[{pid}] run {i} of seed {a.seed}: {final.cls}: {final.msg}")
            print(f"[{pid}] minimised with {tried} executions; replay in a fresh process {again}")
            print(f"VIOLATION property={pid} replay={replay_path}")
            rc = 1
    if rc == 0 and (errors or short):
        rc = 2
    for k in knowns.values():
        print(f"KNOWN-FINDING: property={pid} {k['text']}")
    ev = evidence(pid, prop, a, dict(stats), len(states), done, nontrivial, steps, events, samples,
                  wall, len(bad), rc)
    path = os.path.join(VERIF, "evidence", f"{pid}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for i, r in errors[:3]:
        print(f"[{pid}] HARNESS run {i}: {r.status}: {r.msg}", file=sys.stderr)
    print(f"[{pid}] {tier}: {done} simulated runs, {nontrivial} distinct non-trivial, {steps} steps, "
          f"{sum(v for k, v in stats.items() if k.startswith('fault:'))} faults, {wall:.1f} s, exit {rc}")
    return rc


def write_replay(pid, a, i, scn, r):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    key = hashlib.sha256(canonical(scn).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{pid}-{key}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": a.seed, "run": i, "class": r.cls, "message": r.msg,
                   "digest": r.digest, "scenario": scn, "trace": (r.log or [])[-400:]}, f, indent=1)
        f.write("\n")
    return path


def evidence(pid, prop, a, stats, nstates, done, nontrivial, steps, events, samples, wall, nbad, rc):
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(stats.items()) if ":" not in k}
    cov = {
        "evaluations": done,
        "distinct_nontrivial": nontrivial,
        "rule": "One evaluation is one simulated run: a scenario generated from (VERIF_SEED, property, "
                "run number) and executed in its own forked process. " + prop.RULE +
                " Two runs are distinct if their event logs (every file operation, fault, switch, "
                "operation and outcome) differ.",
        "samples": samples,
        "runs_per_hour": int(done / wall * 3600) if wall else 0,
        "seeds_per_hour": int(done / wall * 3600) if wall else 0,
        "simulated_steps": steps,
        "simulated_time": "no clock: pymech has no timers, so simulated time is counted in steps (raw "
                          "file operations, scheduler steps, operations)",
        "event_log_entries": events,
        "faults_injected": faults,
        "reached": probes,
        "counters": other,
        "distinct_states": nstates,
        "state_measure": getattr(prop, "STATE", "distinct (kind of call, fault or schedule, outcome) tuples"),
        "real_components": prop.REAL,
        "stubbed_components": prop.STUB,
    }
    return {"property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
            "assumptions": prop.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": nbad if rc == 1 else 0}


def cmd_replay(a):
    with open(a.file) as f:
        rep = json.load(f)
    pid = rep["property"]
    prop = load_prop(pid)
    sut = core.import_sut()
    if hasattr(prop, "prepare"):
        prop.prepare(sut)
    r = execute(prop, sut, rep["scenario"], keep_log=True)
    if a.verbose:
        for line in r.log or []:
            print("   ", line)
    if r.status == "violation":
        same = r.digest == rep["digest"] and r.cls == rep["class"]
        print(f"{r.cls}: {r.msg}")
        print("reproduced exactly" if same else "violation reproduced with a different event log")
        print(f"VIOLATION property={pid} replay={a.file}")
        return 1
    if r.status == "ok":
        print("the property held on this replay")
        return 0
    print(r.status, r.msg)
    return 2


def cmd_run(a):
    """Run one scenario number (for development)."""
    prop = load_prop(a.id)
    sut = core.import_sut()
    if hasattr(prop, "prepare"):
        prop.prepare(sut)
    for i, scn in scenarios(a.id, prop, a.seed, a.tier, a.index + 1):
        pass
    print(json.dumps(scn))
    r = execute(prop, sut, scn, keep_log=True)
    for line in (r.log or [])[-60:]:
        print("   ", line)
    print({k: v for k, v in r.items() if k not in ("log", "states")})
    return 0


def cmd_selftest(a):
    """Determinism: the same seeds give the same event logs, twice in this process tree, with other
    numbers of workers and under another hash seed."""
    ids = a.ids or ALL
    bad = 0
    for pid in ids:
        prop = load_prop(pid)
        sut = core.import_sut()
        if hasattr(prop, "prepare"):
            prop.prepare(sut)
        global JOBS
        runs = []
        for jobs in (8, 3):
            JOBS = jobs
            runs.append({i: (r.status, r.digest) for i, s, r in
                         run_many(prop, sut, scenarios(pid, prop, a.seed, "quick", a.runs))})
        if a.hash:
            print(json.dumps({pid: {str(k): v for k, v in sorted(runs[0].items())}}))
            continue
        env = dict(os.environ, PYTHONHASHSEED="12345", DST_NO_REEXEC="1")
        o = subprocess.run([sys.executable, "-B", "-m", "dst.runner", "selftest", "--runs", str(a.runs),
                            "--seed", str(a.seed), "--hash", pid], cwd=VERIF, env=env,
                           stdout=subprocess.PIPE, text=True)
        other = {int(k): tuple(v) for k, v in json.loads(o.stdout)[pid].items()}
        diff = [i for i in runs[0] if not (runs[0][i] == runs[1][i] == other[i])]
        print(f"{pid}: {len(runs[0])} seeds x 3 executions: "
              + ("identical" if not diff else f"DIFFERENT for {diff[:10]}"))
        bad += bool(diff)
    return 1 if bad else 0


def cmd_setup(a):
    """Nothing to build: pymech is pure Python.  Show that the pieces are in place."""
    sut = core.import_sut()
    for pid in ALL:
        if os.path.exists(os.path.join(VERIF, "dst", "props", pid.lower() + ".py")):
            load_prop(pid)
    print("ready:", sys.version.split()[0], "pymech from", os.path.dirname(sut.__file__))
    return 0


def main():
    p = argparse.ArgumentParser()
    sub = p.add_subparsers(dest="cmd", required=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    c = sub.add_parser("check")
    c.add_argument("id")
    c.add_argument("--tier", default=tier, choices=("quick", "thorough"))
    c.add_argument("--seed", type=int, default=seed)
    c.add_argument("--runs", type=int, default=0)
    c.add_argument("--budget", type=float, default=0)
    c = sub.add_parser("replay")
    c.add_argument("file")
    c.add_argument("-v", "--verbose", action="store_true")
    c = sub.add_parser("run")
    c.add_argument("id")
    c.add_argument("index", type=int)
    c.add_argument("--tier", default=tier)
    c.add_argument("--seed", type=int, default=seed)
    c = sub.add_parser("selftest")
    c.add_argument("ids", nargs="*")
    c.add_argument("--runs", type=int, default=60)
    c.add_argument("--seed", type=int, default=seed)
    c.add_argument("--hash", action="store_true")
    sub.add_parser("setup")
    a = p.parse_args()
    if os.environ.get("PYTHONHASHSEED") != "0" and not os.environ.get("DST_NO_REEXEC"):
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-B", "-m", "dst.runner"] + sys.argv[1:])
    try:
        return {"check": cmd_check, "replay": cmd_replay, "run": cmd_run, "selftest": cmd_selftest,
                "setup": cmd_setup}[a.cmd](a)
    except HarnessError as e:
        print("HARNESS:", e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
