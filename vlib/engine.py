"""Generated-input search: sharded workers, shrinking, replay files, evidence.

A property module (vlib/props/cNN.py) provides
  ID, RULE            property id, and the text of the generation / non-triviality rule
  EXAMPLES            {"quick": n, "thorough": n}: generated cases per worker
  strategy(tier)      Hypothesis strategy of JSON-able cases
  check(case, ctx)    raises Violation if the property is broken on this case
and optionally
  fixed(tier)         iterable of JSON-able cases run in addition (sharded over the workers)
"""
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
WORKERS = 8
CASE_SECONDS = 120          # a case takes well under 5 s; no answer in this time is a hang
SHRINK_SECONDS = 40
SOFT_SECONDS = {"quick": 420, "thorough": 3000}  # generation stops here (inconclusive beyond), never a violation


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


class Ctx:
    """Collects what a case exercised."""

    def __init__(self, tier="quick", seed=1):
        self.tier = tier
        self.seed = seed
        self.labels = {}
        self.is_nontrivial = False
        self.known_hits = []
        self.sample_note = None

    def label(self, name, when=True):
        if when:
            self.labels[name] = self.labels.get(name, 0) + (when if type(when) is int else 1)

    def nontrivial(self, when=True):
        if when:
            self.is_nontrivial = True

    def known(self, finding, detail):
        """The case shows a listed finding, exactly as characterised."""
        self.known_hits.append((finding, detail))

    def note(self, text):
        self.sample_note = text

    @staticmethod
    def fail(message):
        raise Violation(message)

    @staticmethod
    def require(condition, message, *args):
        if not condition:
            raise Violation(message % args if args else message)


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def derive(*parts):
    return int(hashlib.sha256(":".join(str(p) for p in parts).encode()).hexdigest()[:12], 16)


def load(prop):
    return importlib.import_module("vlib.props.%s" % prop.lower())


def known_file():
    with open(os.path.join(VERIF, "known_findings.json")) as handle:
        return json.load(handle)


# ---------------------------------------------------------------- one case

def _alarm(_signum, _frame):
    raise Hang()


def run_case(mod, case, ctx):
    """Raises Violation or Hang (or MemoryError, an error of the harness)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, "CASE_SECONDS", CASE_SECONDS))
    try:
        mod.check(case, ctx)
    except (Violation, MemoryError):
        raise
    except Exception:  # an answer of a shape the oracle cannot even compare (wrong type, missing attribute ...)
        raise Violation("the answer could not be judged:\n%s" % traceback.format_exc()[-1200:]) from None
    finally:
        signal.alarm(0)


# ---------------------------------------------------------------- uniform generation

def uniform(strategy, seed, n, run):
    """n cases from uniformly drawn choices; a violation is shrunk with Hypothesis' shrinker and raised."""
    import random

    from hypothesis import HealthCheck, Phase, Verbosity, settings
    from hypothesis.database import InMemoryExampleDatabase
    from hypothesis.errors import StopTest
    from hypothesis.internal.conjecture.data import ConjectureData
    from hypothesis.internal.conjecture.engine import BUFFER_SIZE, ConjectureRunner

    rng = random.Random(seed)
    for _ in range(n):
        data = ConjectureData(max_length=BUFFER_SIZE, prefix=b"", random=random.Random(rng.getrandbits(64)))
        try:
            case = data.draw(strategy)
        except StopTest:
            continue
        try:
            run(json.loads(canonical(case)))
        except Violation as exc:
            found, buffer = exc, bytes(data.buffer)
            break
    else:
        return

    def attempt(trial):
        drawn = trial.draw(strategy)
        try:
            run(json.loads(canonical(drawn)))
        except Violation:
            trial.mark_interesting()

    database = InMemoryExampleDatabase()
    database.save(b"found", buffer)
    try:
        ConjectureRunner(
            attempt, random=random.Random(0), database_key=b"found",
            settings=settings(max_examples=5, database=database, deadline=None, phases=(Phase.reuse, Phase.shrink),
                              suppress_health_check=HealthCheck.all(), verbosity=Verbosity.quiet),
        ).run()
    except Hang:
        raise
    except Exception:  # the shrinker gave up (e.g. the failure depends on earlier cases): keep what was found
        pass
    raise found


# ---------------------------------------------------------------- worker

def worker(prop, tier, seed, index, outfile):
    import random

    result = {
        "evaluations": 0, "nontrivial": [], "labels": {}, "samples": [], "known": {}, "failure": None,
        "error": None, "budget_hit": False, "generated": 0, "fixed": 0, "max_case_s": 0.0,
    }
    started = time.time()
    try:
        mod = load(prop)
        distinct = set()
        history = []
        failing = {}
        state = {"first_failure": None, "best": None}

        def beat(key):
            # what is being run now, for the watchdog of the driver (a hang in C code cannot be interrupted here)
            with open(outfile + ".beat", "w") as handle:
                handle.write(key)

        def one(case, kind):
            key = canonical(case)
            if key in failing:
                raise failing[key]
            if state["first_failure"] is not None:
                if time.time() - state["first_failure"] > SHRINK_SECONDS:
                    return
            elif time.time() - started > SOFT_SECONDS[tier]:
                result["budget_hit"] = True
                return
            ctx = Ctx(tier, seed)
            history.append(key)
            beat(key)
            if state["first_failure"] is None:
                result["evaluations"] += 1
                result[kind] += 1
            t0 = time.time()
            try:
                run_case(mod, case, ctx)
            except Violation as exc:
                failing[key] = exc
                if state["first_failure"] is None:
                    state["first_failure"] = time.time()
                    state["history"] = list(history)
                if state["best"] is None or len(key) < len(state["best"][0]):
                    state["best"] = (key, str(exc))
                raise
            except Hang:
                state["best"] = (key, "no answer within %d s" % getattr(mod, "CASE_SECONDS", CASE_SECONDS))
                state["history"] = list(history)
                raise
            took = time.time() - t0
            if took > result["max_case_s"]:
                result["max_case_s"] = round(took, 3)
                result["slowest"] = key[:300]
            if state["first_failure"] is None:
                for name, n in ctx.labels.items():
                    result["labels"][name] = result["labels"].get(name, 0) + n
                for name, detail in ctx.known_hits:
                    entry = result["known"].setdefault(name, {"count": 0, "example": detail})
                    entry["count"] += 1
                if ctx.is_nontrivial:
                    distinct.add(hashlib.sha256(key.encode()).hexdigest()[:16])
                    if kind == "fixed" and result["samples"]:
                        pass
                    elif len(result["samples"]) < 3 or (len(result["samples"]) < 6 and result["evaluations"] % 97 == 0):
                        sample = {"case": json.loads(key)}
                        if ctx.sample_note:
                            sample["note"] = ctx.sample_note
                        if len(key) < 3000:
                            result["samples"].append(sample)

        def failure(how):
            key, message = state["best"]
            result["failure"] = {
                "case": json.loads(key), "message": message, "how": how,
                "history": [json.loads(k) for k in state.get("history", [])[-20000:]],
            }

        try:
            fixed = getattr(mod, "fixed", None)
            if fixed is not None:
                for i, case in enumerate(fixed(tier)):
                    if i % WORKERS == index:
                        one(case, "fixed")
            import hypothesis
            from hypothesis import HealthCheck, Phase, Verbosity, settings

            n = mod.EXAMPLES[tier]
            if n:
                strategy = mod.strategy(tier)
                # two thirds: choices drawn uniformly (no bias to small or repeated cases)
                uniform(strategy, derive(prop, seed, index, "uniform"), n - n // 3, lambda case: one(case, "generated"))

                # one third: Hypothesis' own generation (mutated, repetitive, boundary-seeking cases)
                # it stops early if it believes the space is exhausted; that is fine for finite spaces
                @hypothesis.seed(derive(prop, seed, index))
                @settings(
                    max_examples=max(1, n // 3), database=None, deadline=None, phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=HealthCheck.all(), verbosity=Verbosity.quiet,
                    report_multiple_bugs=False, print_blob=False,
                )
                @hypothesis.given(strategy)
                def test(case):
                    one(json.loads(canonical(case)), "generated")

                random.seed(0)
                test()
        except Violation:
            failure("shrunk")
        except Hang:
            failure("hang")
        except Exception:  # Hypothesis' Flaky, or an error of the harness
            if state["best"] is not None:
                failure("flaky")
            else:
                raise
        result["nontrivial"] = sorted(distinct)
    except BaseException:  # pylint: disable=broad-except
        result["error"] = traceback.format_exc()
    result["wall_s"] = round(time.time() - started, 2)
    with open(outfile, "w") as handle:
        json.dump(result, handle)


# ---------------------------------------------------------------- replay

def replay_cases(prop, cases):
    """Runs the cases in order in this process; returns the message of the first violation, or None."""
    mod = load(prop)
    for case in cases:
        try:
            run_case(mod, case, Ctx())
        except Violation as exc:
            return str(exc)
        except Hang:
            return "no answer within %d s" % getattr(mod, "CASE_SECONDS", CASE_SECONDS)
    return None


def environment(tmp):
    env = {k: v for k, v in os.environ.items() if k in ("HOME", "PATH", "LANG", "VERIF_REPO", "TERM")}
    config = os.path.join(tmp, "mplconfig")
    if not os.path.isdir(config):
        try:
            shutil.copytree("/opt/vp/mplconfig", config)
        except OSError:
            os.makedirs(config, exist_ok=True)
    env.update(
        HOME=tmp, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=config,
        PYTHONPATH=VERIF, VERIF_TMP=tmp, HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(tmp, "hypothesis"),
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONUTF8="1",
    )
    return env


def spawn(args, tmp):
    log = tempfile.TemporaryFile(dir=tmp)
    proc = subprocess.Popen([PYTHON, "-m", "vlib.main"] + args, cwd=VERIF, env=environment(tmp),
                            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=log)
    proc.log = log
    return proc


def finished(proc, timeout=None):
    """stderr of the process once it has ended"""
    proc.wait(timeout=timeout)
    proc.log.seek(0)
    text = proc.log.read().decode(errors="replace")
    proc.log.close()
    return text


def replays_in_fresh_process(prop, cases, tmp, timeout=300):
    path = os.path.join(tmp, "try.json")
    with open(path, "w") as handle:
        json.dump({"property": prop, "cases": cases}, handle)
    proc = spawn(["--internal-replay", prop, path], tmp)
    try:
        err = finished(proc, timeout)
    except subprocess.TimeoutExpired:
        proc.kill()
        finished(proc)
        return None
    if proc.returncode == 1 and "REPLAYED: " in err:
        return err.strip().split("REPLAYED: ", 1)[-1]
    return None


def minimise_history(prop, history, tmp, seconds=120):
    """The failure needs earlier cases (state kept between queries): find a short sequence that still fails."""
    deadline = time.time() + seconds
    message = replays_in_fresh_process(prop, history, tmp)
    if message is None:
        return None
    current = history
    chunk = max(1, len(current) // 2)
    while time.time() < deadline:
        i, changed = 0, False
        while i < len(current) - 1 and time.time() < deadline:
            candidate = current[:i] + current[min(i + chunk, len(current) - 1):]
            if len(candidate) < len(current):
                got = replays_in_fresh_process(prop, candidate, tmp, timeout=60)
                if got is not None:
                    current, message, changed = candidate, got, True
                    continue
            i += chunk
        if chunk == 1 and not changed:
            break
        chunk = max(1, chunk // 2)
    return current, message


# ---------------------------------------------------------------- driver

def watch(procs, hangs):
    """Waits for the workers; one whose current case makes no progress for far too long is ended and reported."""
    running = list(procs)
    while running:
        time.sleep(0.2)
        still = []
        for proc, out in running:
            if proc.poll() is not None:
                continue
            try:
                stale = time.time() - os.stat(out + ".beat").st_mtime
            except OSError:
                stale = 0
            if stale > CASE_SECONDS + 60 and not os.path.exists(out):
                with open(out + ".beat") as handle:
                    key = handle.read()
                proc.kill()
                hangs.append((out, json.loads(key)))
                continue
            still.append((proc, out))
        running = still


def drive(prop, tier, seed):
    started = time.time()
    mod_rule, level = None, "exploration"
    known = known_file()
    tmp = tempfile.mkdtemp(prefix="vcheck-%s-" % prop)
    try:
        environment(tmp)
        procs = []
        for index in range(WORKERS):
            out = os.path.join(tmp, "w%d.json" % index)
            procs.append((spawn(["--internal-worker", prop, tier, str(seed), str(index), out], tmp), out))
        results, errors, hangs = [], [], []
        watch([(proc, out) for proc, out in procs], hangs)
        for proc, out in procs:
            err = finished(proc)
            if any(out == h[0] for h in hangs):
                continue
            if os.path.exists(out):
                with open(out) as handle:
                    res = json.load(handle)
                results.append(res)
                if res["error"]:
                    errors.append(res["error"])
            else:
                errors.append("worker ended with %s: %s" % (proc.returncode, err[-2000:]))
        failures = [r["failure"] for r in results if r["failure"]]
        for _, case in hangs:
            failures.append({"case": case, "message": "no answer within %d s" % CASE_SECONDS, "how": "hang", "history": []})
        replay = None
        if failures:
            failures.sort(key=lambda f: (f["how"] != "shrunk", len(canonical(f["case"]))))
            best = failures[0]
            cases, message, reproduced = [best["case"]], best["message"], False
            if best["how"] != "hang":
                for f in failures:
                    if f["how"] == "shrunk":
                        again = replays_in_fresh_process(prop, [f["case"]], tmp)
                        if again is not None:
                            cases, message, reproduced = [f["case"]], again, True
                            break
                if not reproduced:
                    hist = min((f for f in failures if f["how"] != "hang"), key=lambda f: len(f["history"]))
                    got = minimise_history(prop, hist["history"], tmp)
                    if got is not None:
                        cases, message = got
                        reproduced = True
                    else:
                        cases, message = hist["history"], hist["message"]
            replay = os.path.join(VERIF, "evidence", "%s.replay.json" % prop)
            os.makedirs(os.path.dirname(replay), exist_ok=True)
            with open(replay, "w") as handle:
                json.dump({"property": prop, "tier": tier, "seed": seed, "message": message,
                           "reproduced_in_fresh_process": reproduced, "cases": cases}, handle, indent=1)
        labels, findings, distinct = {}, {}, set()
        for r in results:
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in r["known"].items():
                e = findings.setdefault(k, {"count": 0, "example": v["example"]})
                e["count"] += v["count"]
            distinct.update(r["nontrivial"])
        samples = []
        for r in results:
            samples.extend(r["samples"][:2])
        coverage = {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(distinct),
            "rule": read_rule(prop),
            "samples": samples[:8],
            "generated": sum(r["generated"] for r in results),
            "enumerated": sum(r["fixed"] for r in results),
            "labels": dict(sorted(labels.items())),
            "known_findings_hit": findings,
            "workers": len(results),
            "time_budget_hit": any(r["budget_hit"] for r in results),
            "slowest_case_s": max([r["max_case_s"] for r in results] or [0]),
        }
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
            "assumptions": ["the reference semantics in vlib/ (oracle.py, grammar.py, syntax.py) states the documented meaning",
                            "inputs are limited to the sizes given in DESIGN.md"],
            "wall_s": round(time.time() - started, 2), "violations": len(failures),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", "%s.json" % prop), "w") as handle:
            json.dump(evidence, handle, indent=1)
        listed = {f["id"]: f for f in known["findings"] if prop in f["properties"]}
        for name in sorted(findings):
            if name not in listed:
                errors.append("finding %s is not listed for %s" % (name, prop))
        if failures:
            print("seed=%d tier=%s: %s" % (seed, tier, message[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        if errors:
            sys.stderr.write("ERROR of the check itself (no verdict):\n%s\n" % "\n".join(errors)[:6000])
            return 2
        for name in sorted(listed):
            if name in findings:
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, name, listed[name]["what"]))
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall_s=%.1f" % (
            prop, tier, seed, coverage["evaluations"], coverage["distinct_nontrivial"], evidence["wall_s"]))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def read_rule(prop):
    """RULE of the property module, read without importing the code under test."""
    import ast

    with open(os.path.join(VERIF, "vlib", "props", "%s.py" % prop.lower())) as handle:
        tree = ast.parse(handle.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "RULE":
            return ast.literal_eval(node.value)
    return ""
