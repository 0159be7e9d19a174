"""Runs the sub-checks of a property in forked workers and writes the evidence.

A check module (checks/<id>_*.py) declares sub-checks:

    @sub("name", strategy, quick=500, thorough=50000)
    def name(case, t): ...

`case` is plain data (None, bool, int, float, str, list, tuple, dict), so that a
shrunk failure can be written out and replayed without the library.  The body
raises on a violation and calls t.nontrivial() on cases that exercise the
property.  Everything random is drawn by Hypothesis from VERIF_SEED."""

import glob
import hashlib
import importlib.util
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("VERIF_SCRATCH") or "/tmp"
sys.modules.setdefault("harness", sys.modules[__name__])

import numpy as np  # noqa: E402


class Violation(AssertionError):
    pass


class HarnessError(BaseException):
    """A mistake of the check itself, e.g. an interface that is gone."""


class Skip(Exception):
    """The generated case is outside the domain of the property."""


def check(cond, *info):
    if not cond:
        raise Violation(" ".join(str(x) for x in info) or "check failed")


class Sub:
    def __init__(self, name, strategy, body, quick, thorough, rule, shards, profile):
        self.name, self.strategy, self.body = name, strategy, body
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.shards = shards


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.subs = []
        self.assumptions = []
        self.known = []

    def sub(self, name, strategy, quick, thorough=None, rule="", shards=None):
        def deco(f):
            self.subs.append(
                Sub(name, strategy, f, quick, thorough or quick * 20, rule, shards, None)
            )
            return f

        return deco

    def finding(self, key):
        """A deterministic probe of a known finding: returns a text if it fails."""

        def deco(f):
            self.known.append((key, f))
            return f

        return deco


class T:
    """What a body uses to describe the case it runs."""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False
        self._dir = None

    def nontrivial(self, cond=True):
        self.is_nontrivial = self.is_nontrivial or bool(cond)

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def tmpdir(self):
        if self._dir is None:
            self._dir = os.path.join(SCRATCH, f"case-{os.getpid()}")
            shutil.rmtree(self._dir, ignore_errors=True)
            os.makedirs(self._dir)
        return self._dir

    def close(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None


def to_json(x):
    if isinstance(x, dict):
        if all(isinstance(k, str) for k in x):
            return {k: to_json(v) for k, v in x.items()}
        return {"__dict__": [[to_json(k), to_json(v)] for k, v in x.items()]}
    if isinstance(x, tuple):
        return {"__tuple__": [to_json(v) for v in x]}
    if isinstance(x, list):
        return [to_json(v) for v in x]
    if isinstance(x, bytes):
        return {"__bytes__": x.hex()}
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return {"__float__": repr(x)}
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    raise HarnessError(f"case holds a {type(x)}")


def from_json(x):
    if isinstance(x, dict):
        if "__dict__" in x:
            return {from_json(k): from_json(v) for k, v in x["__dict__"]}
        if "__tuple__" in x:
            return tuple(from_json(v) for v in x["__tuple__"])
        if "__bytes__" in x:
            return bytes.fromhex(x["__bytes__"])
        if "__float__" in x:
            return float(x["__float__"])
        return {k: from_json(v) for k, v in x.items()}
    if isinstance(x, list):
        return [from_json(v) for v in x]
    return x


def short(x, n=700):
    s = json.dumps(to_json(x))
    return json.loads(s) if len(s) <= n else s[:n] + "..."


_HARNESS_ERRORS = (
    "unexpected keyword argument",
    "required positional argument",
    "positional arguments but",
    "required keyword-only argument",
    "incompatible function arguments",
    "takes no arguments",
)


def is_harness_error(e):
    """Interfaces the check relies on that are gone: no verdict is possible."""
    tb = traceback.extract_tb(e.__traceback__)
    here = bool(tb) and tb[-1].filename.startswith(VERIF)
    if not here:
        return False
    if isinstance(e, ImportError):
        return True
    if isinstance(e, AttributeError):
        return "module '" in str(e) or "type object '" in str(e)
    if isinstance(e, TypeError):
        return any(x in str(e) for x in _HARNESS_ERRORS)
    return False


def execute(body, case, t):
    random.seed(12345)
    np.random.seed(12345)
    try:
        body(case, t)
    except Skip:
        t.label("skipped")
    except (KeyboardInterrupt, HarnessError):
        raise
    except BaseException as e:
        if is_harness_error(e):
            raise HarnessError(
                "".join(traceback.format_exception(e))[-3000:]
            ) from None
        if isinstance(e, SystemExit):
            raise Violation(f"exit: {e}") from e
        raise
    finally:
        t.close()


def case_hash(name, case):
    return hashlib.sha1(
        (name + "|" + json.dumps(to_json(case))).encode("utf-8", "surrogatepass")
    ).hexdigest()[:16]


def run_task(pid, sub, shard, n, seed, out_path, case_path):
    """In a forked child: generates n cases; writes the outcome to out_path."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, settings

    res = {
        "evaluations": 0, "nontrivial": set(), "labels": {}, "samples": [],
        "failure": None, "error": None,
    }
    state = {"case": None, "failing": None, "exc": None, "shrinking": 0}

    def one(case):
        t = T()
        with open(case_path, "w") as f:
            json.dump({"sub": sub.name, "case": to_json(case)}, f)
        failed = False
        try:
            execute(sub.body, case, t)
        except HarnessError:
            raise
        except BaseException as e:
            state["failing"] = case
            state["exc"] = "".join(traceback.format_exception(e))[-6000:]
            failed = True
            raise
        finally:
            if state["failing"] is None or failed:
                res["evaluations"] += 1
            if state["failing"] is None:
                for x in t.labels:
                    res["labels"][x] = res["labels"].get(x, 0) + 1
                if t.is_nontrivial:
                    h = case_hash(sub.name, case)
                    if h not in res["nontrivial"]:
                        res["nontrivial"].add(h)
                        k = len(res["nontrivial"])
                        if k in (1, 3, 20) and len(res["samples"]) < 3:
                            res["samples"].append(short(case))

    t0 = time.time()
    try:
        test = hypothesis.given(sub.strategy)(one)
        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            phases=(Phase.generate, Phase.target, Phase.shrink),
            suppress_health_check=[
                HealthCheck.too_slow, HealthCheck.data_too_large,
                HealthCheck.large_base_example, HealthCheck.filter_too_much,
            ],
            verbosity=Verbosity.quiet,
            print_blob=False,
        )(test)
        test = hypothesis.seed(seed)(test)
        try:
            test()
        except HarnessError:
            raise
        except BaseException as e:
            if state["failing"] is None:
                raise HarnessError(
                    "".join(traceback.format_exception(e))[-3000:]
                ) from None
            # the last failing case is the shrunk one
            res["failure"] = {
                "case": to_json(state["failing"]), "why": state["exc"],
            }
    except BaseException as e:
        res["error"] = "".join(traceback.format_exception(e))[-4000:]
    res["wall_s"] = time.time() - t0
    with open(out_path + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.replace(out_path + ".tmp", out_path)


def load_check(pid):
    found = glob.glob(os.path.join(VERIF, "checks", pid.lower() + "_*.py"))
    if len(found) != 1:
        raise SystemExit(f"no check for {pid}")
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    spec = importlib.util.spec_from_file_location(
        os.path.basename(found[0])[:-3], found[0]
    )
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.CHECK


def write_replay(pid, sub, case_json, why):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(case_json).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{pid}-{sub}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "sub": sub, "case": case_json, "why": why}, f, indent=1)
    return path


# a case that runs for this long does not terminate
HANG = 120

FATAL = {
    signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGILL, signal.SIGBUS,
}


def quiet_logs():
    import logging

    logging.disable(logging.CRITICAL)
    try:
        import cv2

        cv2.setNumThreads(1)
        cv2.setLogLevel(0)
    except Exception:
        pass


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, replay, pid, verbose = None, None, None, False
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--only":
            only = args.pop(0).split(",")
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "-v":
            verbose = True
        else:
            pid = a
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if replay:
        with open(replay) as f:
            r = json.load(f)
        pid = r["property"]
        quiet_logs()
        c = load_check(pid)
        s = next(s for s in c.subs if s.name == r["sub"])
        try:
            execute(s.body, from_json(r["case"]), T())
        except HarnessError:
            traceback.print_exc()
            return 2
        except BaseException:
            traceback.print_exc()
            print(f"VIOLATION property={pid} replay={replay}")
            return 1
        print("the recorded case passes")
        return 0

    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    quiet_logs()
    try:
        c = load_check(pid)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        return 2
    t_load = time.time() - t0
    subs = [s for s in c.subs if not only or s.name in only]
    jobs = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    tasks = []
    for s in subs:
        total = max(1, int((s.quick if tier == "quick" else s.thorough) * scale))
        k = s.shards or (4 if tier == "quick" else jobs * 2)
        k = max(1, min(k, total // 20 or 1))
        for i in range(k):
            n = total // k + (1 if i < total % k else 0)
            key = f"{pid}|{s.name}|{i}|{seed}".encode()
            hseed = int.from_bytes(hashlib.sha256(key).digest()[:8], "big")
            tasks.append((s, i, n, hseed))

    # known findings are probed directly, once
    listed = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    listed = {f["key"]: f for f in listed if f["property"] == pid and f["status"] == "known"}
    known_lines = []
    for key, f in c.known:
        if key in listed:
            try:
                r = f()
            except Exception as e:
                r = repr(e)
            if r:
                known_lines.append(f"KNOWN-FINDING: property={pid} {key}: {r}")

    # longest first, in forked workers
    tasks.sort(key=lambda x: -x[2] / max(1, x[0].quick))
    pending, running, results, crashes = list(enumerate(tasks)), {}, {}, []
    limit = 840 if tier == "quick" else 4 * 3600
    timed_out = False
    sys.stdout.flush()
    sys.stderr.flush()
    while pending or running:
        while pending and len(running) < jobs:
            idx, (s, i, n, hseed) = pending.pop(0)
            out = os.path.join(SCRATCH, f"out-{idx}")
            cpath = os.path.join(SCRATCH, f"case-{idx}.json")
            child = os.fork()
            if child == 0:
                try:
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    if not verbose:
                        os.dup2(dn, 2)
                    run_task(pid, s, i, n, hseed, out, cpath)
                finally:
                    os._exit(0)
            running[child] = (idx, out, cpath, time.time())
        try:
            child, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            child = 0
        if child == 0:
            if time.time() - t0 > limit:
                timed_out = True
                for p in running:
                    os.kill(p, signal.SIGKILL)
                break
            now = time.time()
            for p, (idx, out, cpath, t_start) in list(running.items()):
                try:
                    t_case = os.stat(cpath).st_mtime
                except OSError:
                    continue
                if now - max(t_case, t_start) > HANG and not os.path.exists(out):
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    del running[p]
                    with open(cpath) as f:
                        case = json.load(f)["case"]
                    crashes.append((tasks[idx][0].name, case, f"did not return within {HANG} s"))
            time.sleep(0.01)
            continue
        idx, out, cpath, _ = running.pop(child)
        s = tasks[idx][0]
        if os.path.exists(out):
            with open(out, "rb") as f:
                results[idx] = pickle.load(f)
        elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in FATAL and os.path.exists(cpath):
            with open(cpath) as f:
                case = json.load(f)["case"]
            crashes.append((s.name, case, f"crashed with signal {os.WTERMSIG(status)}"))
        else:
            results[idx] = {"error": f"worker ended with status {status}"}

    evaluations, nontrivial, labels, samples, errors, failures = 0, set(), {}, [], [], []
    per_sub = {}
    for idx in sorted(results):
        r, s = results[idx], tasks[idx][0]
        if r.get("error"):
            errors.append(f"{s.name}: {r['error']}")
            continue
        evaluations += r["evaluations"]
        nontrivial |= r["nontrivial"]
        ps = per_sub.setdefault(
            s.name, {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "wall_s": 0.0,
                     "rule": s.rule})
        ps["evaluations"] += r["evaluations"]
        ps["distinct_nontrivial"] += len(r["nontrivial"])
        ps["wall_s"] = round(ps["wall_s"] + r["wall_s"], 2)
        for k, v in r["labels"].items():
            ps["labels"][k] = ps["labels"].get(k, 0) + v
        if r["samples"] and not any(x["sub"] == s.name for x in samples):
            samples.append({"sub": s.name, "case": r["samples"][-1]})
        if r["failure"]:
            failures.append((s.name, r["failure"]["case"], r["failure"]["why"]))
    failures += crashes
    for ps in per_sub.values():
        if len(ps["labels"]) > 40:
            top = sorted(ps["labels"].items(), key=lambda kv: -kv[1])[:40]
            ps["labels"] = dict(top)

    wall = time.time() - t0
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        doc = {
            "property": pid,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(nontrivial),
                "rule": "cases are drawn by Hypothesis from VERIF_SEED; non-trivial, per "
                "sub-check: " + "; ".join(f"{s.name}: {s.rule}" for s in c.subs if s.rule),
                "samples": samples[:25],
                "sub_checks": per_sub,
            },
            "assumptions": c.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(failures),
        }
        text = json.dumps(doc, indent=1)
        if len(text) > 60000:
            doc["coverage"]["samples"] = samples[:6]
            for ps in per_sub.values():
                ps["labels"] = dict(list(ps["labels"].items())[:10])
            text = json.dumps(doc, indent=1)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            f.write(text)

    for line in known_lines:
        print(line)
    if failures:
        failures.sort(key=lambda x: len(json.dumps(x[1])))
        seen = set()
        for name, case, why in failures:
            if name in seen:
                continue
            seen.add(name)
            path = write_replay(pid, name, case, why)
            print(f"--- {pid} {name}\n{why[-1800:]}\ncase: {json.dumps(case)[:1500]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for e in {e.split(":")[0]: e for e in errors}.values():
            print("ERROR", e[-2500:], file=sys.stderr)
        return 2
    if timed_out:
        print("ERROR: the time limit was reached", file=sys.stderr)
        return 2
    if verbose:
        for k, v in per_sub.items():
            print(k, v["evaluations"], v["distinct_nontrivial"], v["wall_s"], v["labels"])
    print(
        f"{pid} {tier} seed={seed}: {evaluations} cases, {len(nontrivial)} distinct "
        f"non-trivial, {len(subs)} sub-checks, {wall:.1f}s (load {t_load:.1f}s)"
    )
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
