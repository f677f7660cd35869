"""Bounded exhaustive exploration driver shared by all the checks.

A check enumerates *scenarios* (plain JSON-able values: operation histories,
configurations, schedules).  Every scenario is executed on the real code under
/repo and, step by step, on an independent reference model; the driver counts
the reference-model states and the transitions, collects the disagreements,
writes the evidence file and reports.
"""
import argparse
import hashlib
import json
import os
import pickle
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SCENARIO_LIMIT_S = 110
FAILFAST = os.environ.get("VERIF_FAILFAST")  # development aid: stop at the first violation
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
DEADLINE_S = {"quick": 700, "thorough": 6 * 3600}


def ensure_repo_on_path():
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)


ensure_repo_on_path()


def h64(obj):
    """64 bit digest of a reference-model state (any repr-able value)."""
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big"
    )


class Disagreement(Exception):
    """The implementation disagrees with the property."""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key
        self.msg = msg


def require(cond, key, msg=""):
    if not cond:
        raise Disagreement(key, msg if isinstance(msg, str) else msg())


class Trace:
    """Collects what one scenario covers."""

    __slots__ = ("states", "transitions", "traces", "viol", "notes")

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.viol = []  # (key, message)
        self.notes = {}

    def state(self, s):
        self.states.add(h64(s))

    def step(self, n=1):
        self.transitions += n

    def fail(self, key, msg=""):
        self.viol.append((key, str(msg)[:4000]))

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n


def _quiet():
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


class Suite:
    """One part of a check: a list of scenarios and the function that runs one."""

    def __init__(self, name, scenarios, run, replay_hint=""):
        self.name = name
        self.scenarios = list(scenarios)
        self.run = run
        self.replay_hint = replay_hint


def run_one(suite, scenario):
    tr = Trace()
    try:
        suite.run(scenario, tr)
    except Disagreement as e:
        tr.fail(e.key, e.msg)
    except MemoryError:
        raise
    except Exception as e:  # the code under test raised where it must not
        tb = traceback.format_exc()
        tr.fail("unexpected-%s" % type(e).__name__, tb[-3500:])
    tr.traces += 1
    return tr


def _worker(suites, rfd, out_path, prog_path):
    _quiet()
    agg = {
        "states": set(),
        "transitions": 0,
        "traces": 0,
        "viol": [],
        "notes": {},
        "done": 0,
        "per_suite": {},
    }
    # silence the chatter of the code under test
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    prog = os.open(prog_path, os.O_RDWR | os.O_CREAT, 0o600)
    while True:
        b = os.read(rfd, 8)
        if len(b) < 8:
            break
        si, ci = struct.unpack("<ii", b)
        os.pwrite(prog, struct.pack("<iid", si, ci, time.time()), 0)
        suite = suites[si]
        tr = run_one(suite, suite.scenarios[ci])
        agg["states"] |= {(si, s) for s in tr.states}
        agg["transitions"] += tr.transitions
        agg["traces"] += tr.traces
        agg["done"] += 1
        ps = agg["per_suite"].setdefault(si, [0, 0, 0])
        ps[0] += 1
        ps[1] += tr.transitions
        for k, n in tr.notes.items():
            agg["notes"][k] = agg["notes"].get(k, 0) + n
        if tr.viol and FAILFAST:
            with open(os.path.join(os.path.dirname(out_path), "failfast"), "w") as f:
                f.write("%s %s %r" % (suite.name, tr.viol[0][0], suite.scenarios[ci]))
            break
        if len(agg["viol"]) < 200:
            for key, msg in tr.viol:
                agg["viol"].append((si, ci, key, msg))
        else:
            agg["notes"]["violations_beyond_cap"] = (
                agg["notes"].get("violations_beyond_cap", 0) + len(tr.viol)
            )
    with open(out_path, "wb") as f:
        pickle.dump(agg, f)


def explore(suites, deadline, jobs=None):
    """Run every scenario of every suite on a pool of forked workers."""
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    work = [(si, ci) for si, s in enumerate(suites) for ci in range(len(s.scenarios))]
    jobs = max(1, min(jobs, len(work)))
    if FAILFAST:
        import random

        random.Random(1).shuffle(work)
    tmp = tempfile.mkdtemp(prefix="verif_mc_")
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pids = {}
    result = {
        "states": set(),
        "transitions": 0,
        "traces": 0,
        "viol": [],
        "notes": {},
        "done": 0,
        "total": len(work),
        "per_suite": {},
    }

    def spawn(j):
        pid = os.fork()
        if pid == 0:
            try:
                os.close(wfd)
                _worker(
                    suites,
                    rfd,
                    os.path.join(tmp, "out%d" % j),
                    os.path.join(tmp, "prog%d" % j),
                )
                os._exit(0)
            except BaseException:
                os._exit(70)
        pids[pid] = [j, time.time()]

    for j in range(jobs):
        spawn(j)
    import threading

    stop = threading.Event()

    def feed():
        try:
            for si, ci in work:
                if stop.is_set():
                    break
                os.write(wfd, struct.pack("<ii", si, ci))
        except BrokenPipeError:
            pass
        finally:
            os.close(wfd)

    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    th = threading.Thread(target=feed, daemon=True)
    th.start()

    def progress(j):
        try:
            with open(os.path.join(tmp, "prog%d" % j), "rb") as f:
                b = f.read(16)
            if len(b) == 16:
                return struct.unpack("<iid", b)
        except OSError:
            pass
        return None

    complete = True
    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if FAILFAST and os.path.exists(os.path.join(tmp, "failfast")):
            for p in pids:
                if p != pid:
                    os.kill(p, signal.SIGKILL)
            print("FAILFAST", open(os.path.join(tmp, "failfast")).read()[:300], flush=True)
            os._exit(1)
        if pid == 0:
            now = time.time()
            if now > deadline and not stop.is_set():
                stop.set()
                complete = False
                # drain what is still queued
                os.set_blocking(rfd, False)
                try:
                    while os.read(rfd, 65536):
                        pass
                except (BlockingIOError, OSError):
                    pass
                os.set_blocking(rfd, True)
            for p, (j, _) in list(pids.items()):
                pr = progress(j)
                if pr and now - pr[2] > SCENARIO_LIMIT_S:
                    os.kill(p, signal.SIGKILL)
                    pids[p].append("hang")
            time.sleep(0.02)
            continue
        if pid not in pids:
            continue
        info = pids.pop(pid)
        j = info[0]
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0:
            with open(os.path.join(tmp, "out%d" % j), "rb") as f:
                agg = pickle.load(f)
            result["states"] |= agg["states"]
            for k in ("transitions", "traces", "done"):
                result[k] += agg[k]
            result["viol"] += agg["viol"]
            for k, n in agg["notes"].items():
                result["notes"][k] = result["notes"].get(k, 0) + n
            for si, v in agg["per_suite"].items():
                ps = result["per_suite"].setdefault(si, [0, 0, 0])
                for q in range(3):
                    ps[q] += v[q]
        else:
            pr = progress(j)
            complete = False
            what = "hang" if "hang" in info else "crash"
            if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL and what == "crash":
                result["notes"]["worker_killed"] = result["notes"].get("worker_killed", 0) + 1
                result["killed"] = True
            elif pr:
                result["viol"].append(
                    (
                        pr[0],
                        pr[1],
                        "process-%s" % what,
                        "the process running this scenario %s (status %s)"
                        % ("did not finish in %d s" % SCENARIO_LIMIT_S if what == "hang" else "died", status),
                    )
                )
            else:
                result["killed"] = True
    th.join(timeout=5)
    os.close(rfd)
    for n in os.listdir(tmp):
        os.unlink(os.path.join(tmp, n))
    os.rmdir(tmp)
    result["complete"] = complete and result["done"] == result["total"]
    result["viol"].sort(key=lambda v: (v[0], v[1], v[2]))
    return result


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data.get("known", []) if e["property"] == pid]


def main(pid, build_suites, bounds, assumptions=(), argv=None):
    """build_suites(tier) -> list of Suite; bounds: text put in the evidence."""
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("--suite", default=None)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.chdir(tempfile.gettempdir())
    _quiet()

    def import_failure(tb):
        path = write_replay(pid, "import", None, "import-failure", tb)
        write_evidence(pid, tier, seed, {"states": 0, "transitions": 0,
                       "traces_validated_against_impl": 0, "samples": [tb[-2000:]]},
                       assumptions, time.time() - t0, 1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1

    try:
        suites = build_suites(tier)
    except Exception:
        sys.exit(import_failure(traceback.format_exc()))
    if a.suite:
        suites = [s for s in suites if s.name == a.suite]

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        for s in suites:
            if s.name == rep["suite"]:
                for sc in s.scenarios:
                    if to_json(sc) == rep["scenario"]:
                        tr = run_one(s, sc)
                        for k, m in tr.viol:
                            print("REPRODUCED key=%s\n%s" % (k, m))
                        sys.exit(1 if tr.viol else 0)
        print("scenario not found in this tier's space")
        sys.exit(2)

    res = explore(suites, t0 + DEADLINE_S[tier], a.jobs)

    known = load_known(pid)
    shown, fresh = [], []
    hit_known = {}
    for si, ci, key, msg in res["viol"]:
        sc = to_json(suites[si].scenarios[ci])
        entry = next(
            (
                e
                for e in known
                if e["suite"] == suites[si].name
                and key == e["key"]
                and matches(e.get("scenario", {}), sc)
            ),
            None,
        )
        if entry is not None:
            hit_known.setdefault(entry["id"], entry)
        else:
            fresh.append((si, ci, key, msg))
    for e in hit_known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))

    samples = []
    for s in suites:
        n = len(s.scenarios)
        for i in sorted({0, n // 2, n - 1}) if n else []:
            samples.append({"suite": s.name, "scenario": to_json(s.scenarios[i])})
    cov = {
        "states": len(res["states"]),
        "transitions": res["transitions"],
        "traces_validated_against_impl": res["traces"],
        "scenarios_total": res["total"],
        "scenarios_run": res["done"],
        "exhaustive": bool(res["complete"]),
        "bounds": bounds if isinstance(bounds, str) else bounds[tier],
        "suites": {
            s.name: {
                "scenarios": len(s.scenarios),
                "transitions": res["per_suite"].get(i, [0, 0, 0])[1],
            }
            for i, s in enumerate(suites)
        },
        "notes": res["notes"],
        "known_findings_hit": sorted(hit_known),
        "samples": samples[:12],
    }
    write_evidence(pid, tier, seed, cov, assumptions, time.time() - t0, len(fresh))
    print(
        "%s [%s]: %d scenarios, %d states, %d transitions, %.1fs%s"
        % (
            pid,
            tier,
            res["done"],
            cov["states"],
            cov["transitions"],
            time.time() - t0,
            "" if res["complete"] else " (NOT exhaustive)",
        )
    )
    if fresh:
        seen = set()
        for si, ci, key, msg in fresh:
            if (si, key) in seen:
                continue
            seen.add((si, key))
            path = write_replay(
                pid, suites[si].name, to_json(suites[si].scenarios[ci]), key, msg
            )
            print("  suite=%s key=%s scenario=%s" % (suites[si].name, key, json.dumps(to_json(suites[si].scenarios[ci]))[:400]))
            print("    " + msg.strip().replace("\n", "\n    ")[-1500:])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            if len(seen) >= 12:
                break
        sys.exit(1)
    if res.get("killed"):
        print("a worker was killed from outside: no verdict")
        sys.exit(3)
    sys.exit(0)


def to_json(x):
    if isinstance(x, (tuple, list)):
        return [to_json(v) for v in x]
    if isinstance(x, dict):
        return {str(k): to_json(v) for k, v in x.items()}
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def matches(pattern, scenario):
    """A known finding names the failing scenario (exact value, or a dict whose
    entries must all be equal in a dict scenario)."""
    if isinstance(pattern, dict) and isinstance(scenario, dict):
        return all(scenario.get(k) == v for k, v in pattern.items())
    return pattern == scenario


def write_replay(pid, suite, scenario, key, msg):
    d = os.path.join(EVIDENCE, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(
        d, "%s-%s-%08x.json" % (pid, suite, h64((suite, scenario, key)) & 0xFFFFFFFF)
    )
    with open(path, "w") as f:
        json.dump(
            {
                "property": pid,
                "suite": suite,
                "scenario": scenario,
                "key": key,
                "message": msg,
                "how": "./run %s --replay %s" % (pid, path),
            },
            f,
            indent=1,
        )
    return path


def write_evidence(pid, tier, seed, cov, assumptions, wall, nviol):
    d = EVIDENCE
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(
            {
                "property": pid,
                "tier": tier,
                "seed": seed,
                "level": "model_checking",
                "coverage": cov,
                "assumptions": list(assumptions),
                "wall_s": round(wall, 3),
                "violations": nviol,
            },
            f,
            indent=1,
        )
