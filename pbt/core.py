"""Runner: generate cases with Hypothesis, decide them, shrink failures, write evidence and replay files."""
import hashlib
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SHRINK_SECONDS = 60 if TIER == "quick" else 300
WORKERS = max(1, min(6, (os.cpu_count() or 2) - 1))
WORKER = int(os.environ.get("PBT_WORKER", "-1"))        # index of this worker process; -1: not a worker


class Violation(Exception):
    """The property does not hold on this case. `signature` identifies listed known findings."""

    def __init__(self, message, signature=None):
        super().__init__(message)
        self.signature = signature


class Skip(Exception):
    """The case is outside of the property's domain (counted)."""


class sut(object):
    """`with sut("stepping"):` - code under test runs here; an exception it raises is a violation."""

    def __init__(self, what, allow=()):
        self.what, self.allow = what, allow

    def __enter__(self):
        return self

    def __exit__(self, kind, value, tb):
        if kind is None or not issubclass(kind, Exception):
            return False
        if issubclass(kind, (Violation, Skip, HarnessError)) or (self.allow and issubclass(kind, self.allow)):
            return False
        if issubclass(kind, hypothesis.errors.HypothesisException):
            return False
        where = traceback.extract_tb(tb)[-1]
        raise Violation("%s raised %s: %s (%s:%s)" % (
            self.what, kind.__name__, str(value)[:600], where.filename, where.lineno)) from value


class HarnessError(Exception):
    pass


def require(condition, message, *args, signature=None):
    if not condition:
        raise Violation(message % args if args else message, signature=signature)


class Part(object):
    """One family of cases of a property."""

    def __init__(self, name, strategy, run, quick, thorough=None, explicit=(), portion=8):
        self.portion = portion      # number of cases below which a worker process does not pay
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough if thorough is not None else 10 * quick
        self.explicit = list(explicit)


class Context(object):
    """What a running case can tell the runner."""

    def __init__(self):
        self.labels = Counter()
        self.is_nontrivial = False

    def label(self, *names):
        for name in names:
            self.labels[name] += 1

    def nontrivial(self, condition=True):
        if condition:
            self.is_nontrivial = True


def jsonable(value):
    return json.loads(json.dumps(value))


def _shorten(case, limit=1500):
    text = json.dumps(case, sort_keys=True)
    return case if len(text) <= limit else {"truncated_case": text[:limit]}


class Runner(object):
    def __init__(self, prop, parts, rule, assumptions=()):
        self.prop, self.parts, self.rule, self.assumptions = prop, parts, rule, list(assumptions)
        self.evaluations, self.skipped = 0, 0
        self.labels = Counter()
        self.seen = set()
        self.samples = []
        self.known_seen = {}
        self.known = {}
        path = os.path.join(ROOT, "known_findings.json")
        if os.path.exists(path):
            for entry in json.load(open(path))["findings"]:
                if entry["property"] == prop and entry["status"] == "finding":
                    self.known[entry["signature"]] = entry
        self.failure = None     # (part name, case, message)
        self.first_failure_at = None
        self.started = time.time()
        self.stopped_early = []

    def one(self, part, case):
        """Decide one case; raises Violation unless it is a listed finding."""
        ctx = Context()
        try:
            part.run(case, ctx)
        except Skip:
            self.skipped += 1
            return
        except Violation as e:
            if e.signature in self.known:
                self.known_seen[e.signature] = self.known_seen.get(e.signature, 0) + 1
            else:
                raise
        except (HarnessError, hypothesis.errors.HypothesisException, ImportError, OSError, subprocess.SubprocessError):
            raise
        except Exception as e:
            # what the code under test returned made the oracle fail, or it raised where nothing may be raised
            traceback.print_exc()
            where = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("unexpected %s: %s (%s:%s)" % (type(e).__name__, str(e)[:600], where.filename, where.lineno)) from e
        finally:
            self.evaluations += 1
            for k, v in ctx.labels.items():
                self.labels[part.name + ": " + k] += v
        if ctx.is_nontrivial:
            key = hashlib.sha1((part.name + json.dumps(case, sort_keys=True)).encode()).digest()
            if key not in self.seen:
                self.seen.add(key)
                if sum(s["part"] == part.name for s in self.samples) < 2:
                    self.samples.append({"part": part.name, "case": _shorten(case)})

    def note_failure(self, part, case, message):
        case = jsonable(case)
        if self.first_failure_at is None:
            self.first_failure_at = time.time()
        size = len(json.dumps(case))
        if self.failure is None or size <= len(json.dumps(self.failure[1])):
            self.failure = (part.name, case, message)

    def share(self, part):
        """Number of generated cases and the explicit cases of this worker."""
        n = part.quick if TIER == "quick" else part.thorough
        if WORKER < 0:
            return n, part.explicit
        index = self.parts.index(part)
        sharing = min(WORKERS, max(1, n // part.portion))
        me = (WORKER + index) % WORKERS
        count = n // sharing + (me < n % sharing) if me < sharing else 0
        return count, [c for i, c in enumerate(part.explicit) if i % WORKERS == me]

    def run_part(self, part, budget_end):
        n, explicit = self.share(part)
        for case in explicit:
            try:
                self.one(part, case)
            except Violation as e:
                self.note_failure(part, case, str(e))
                return
        if part.strategy is None or n == 0:
            return

        # Every run starts with the simplest case: one of the workers is enough for that.
        skip = 1 if WORKER >= 0 and (WORKER + self.parts.index(part)) % WORKERS > 0 else 0
        calls = itertools.count()

        @hypothesis.seed(SEED * 64 + max(WORKER, 0))
        @settings(max_examples=n + skip, database=None, deadline=None, derandomize=False,
                  phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                  suppress_health_check=list(HealthCheck), print_blob=False)
        @given(part.strategy)
        def test(case):
            if next(calls) < skip:
                return
            if self.first_failure_at is not None and time.time() - self.first_failure_at > SHRINK_SECONDS:
                return
            if self.first_failure_at is None and time.time() > budget_end:
                if part.name not in self.stopped_early:
                    self.stopped_early.append(part.name)
                return
            try:
                self.one(part, case)
            except Violation as e:
                self.note_failure(part, case, str(e))
                raise

        try:
            test()
        except HarnessError:
            raise
        except BaseException:
            if self.failure is None:
                raise
            # the failing case is recorded; Flaky etc. do not matter any more

    def explore(self):
        """Run all parts in this process; True if the machinery worked."""
        end = self.started + (420.0 if TIER == "quick" else 4 * 3600.0)
        try:
            for part in self.parts:
                self.run_part(part, end)
                if self.failure is not None:
                    break
        except BaseException:
            traceback.print_exc()
            return False
        return True

    STATE = ("evaluations", "skipped", "labels", "samples", "known_seen", "failure", "stopped_early")

    def save(self, path):
        state = {name: getattr(self, name) for name in self.STATE}
        state["seen"] = sorted(k.hex() for k in self.seen)
        with open(path + ".tmp", "w") as f:
            json.dump(state, f)
        os.rename(path + ".tmp", path)

    def merge(self, path):
        state = json.load(open(path))
        self.evaluations += state["evaluations"]
        self.skipped += state["skipped"]
        self.labels.update(state["labels"])
        self.seen.update(bytes.fromhex(k) for k in state["seen"])
        for sample in state["samples"]:
            if sum(s["part"] == sample["part"] for s in self.samples) < 2:
                self.samples.append(sample)
        for signature, count in state["known_seen"].items():
            self.known_seen[signature] = self.known_seen.get(signature, 0) + count
        self.stopped_early += [p for p in state["stopped_early"] if p not in self.stopped_early]
        if state["failure"] is not None and self.failure is None:
            self.failure = tuple(state["failure"])

    def run_workers(self):
        """Spread the cases over worker processes; stop all as soon as one of them reports a violation."""
        folder = tempfile.mkdtemp(prefix="pbt-")
        paths = [os.path.join(folder, "%d.json" % i) for i in range(WORKERS)]
        processes = []
        try:
            for i, path in enumerate(paths):
                env = dict(os.environ, PBT_WORKER=str(i), PBT_OUT=path)
                processes.append(subprocess.Popen([sys.executable, "-W", "ignore", "-m", "pbt.main", self.prop], env=env))
            waiting, worked = dict(enumerate(processes)), True
            while waiting:
                time.sleep(0.05)
                for i, process in list(waiting.items()):
                    if process.poll() is None:
                        continue
                    del waiting[i]
                    if os.path.exists(paths[i]):
                        self.merge(paths[i])
                    worked = worked and process.returncode == 0 and os.path.exists(paths[i])
                if self.failure is not None:
                    break
            return worked
        finally:
            for process in processes:
                if process.poll() is None:
                    process.kill()
                    process.wait()
            shutil.rmtree(folder, ignore_errors=True)

    def run(self):
        if WORKER >= 0:
            worked = self.explore()
            self.save(os.environ["PBT_OUT"])
            return 0 if worked else 2
        status = 0 if (self.run_workers() if WORKERS > 1 else self.explore()) else 2
        for signature, count in sorted(self.known_seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[signature]["what"]))
        if self.failure is not None:
            status = 1
            name, case, message = self.failure
            digest = hashlib.sha1(json.dumps([name, case], sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join("replays", "%s-%s.json" % (self.prop, digest))
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            with open(os.path.join(ROOT, path), "w") as f:
                json.dump({"property": self.prop, "part": name, "case": case, "message": message}, f, indent=1)
            print("part %s, case %s" % (name, json.dumps(case)[:3000]))
            print(message[:3000])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        self.write_evidence(status)
        sys.stdout.flush()
        return status

    def write_evidence(self, status):
        coverage = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.seen),
            "rule": self.rule,
            "samples": self.samples,
            "classes": dict(sorted(self.labels.items())),
            "outside_domain": self.skipped,
            "known_findings_seen": dict(self.known_seen),
            "stopped_early_by_time": self.stopped_early,
        }
        evidence = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": coverage,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.started, 2),
            "violations": int(status == 1),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s%s" % (
            self.prop, TIER, SEED, self.evaluations, len(self.seen), evidence["wall_s"],
            ", STOPPED EARLY: %s" % self.stopped_early if self.stopped_early else ""))

    def replay(self, path):
        data = json.load(open(path))
        part = next(p for p in self.parts if p.name == data["part"])
        try:
            part.run(data["case"], Context())
        except Violation as e:
            if e.signature in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[e.signature]["what"]))
                return 0
            print(str(e)[:3000])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("replay passes")
        return 0
