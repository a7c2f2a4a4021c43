"""
Execution of one property check: sharded workload, monitors, verdict, evidence, replay files.
"""

import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = 8


class Violation(Exception):
    """The observed events contradict the property."""

    def __init__(self, mechanism, message):
        super().__init__(message)
        self.mechanism = mechanism


class Ctx:
    """
    Everything a monitor needs while judging: the library, the counters, the scratch directory.
    """

    def __init__(self, lib, scratch):
        self.lib = lib
        self.scratch = scratch
        self.count = collections.Counter()
        self.keys = set()
        self.case_key = None
        self.note = None
        self._file_number = 0

    # -- observation -------------------------------------------------------------------------
    def call(self, function, *args, **kwargs):
        """Observes one call of the library: (result, None) or (None, exception)."""
        self.count["observed_calls"] += 1
        try:
            return function(*args, **kwargs), None
        except Exception as error:  # pylint: disable=broad-except
            self.count["observed_refusals"] += 1
            return None, error

    def ok(self, what, function, *args, **kwargs):
        """A call which must succeed."""
        result, error = self.call(function, *args, **kwargs)
        if error is not None:
            raise Violation(
                "unexpected-exception:" + what,
                "%s: valid request raised %s: %s"
                % (what, type(error).__name__, str(error)[:600]),
            )
        return result

    def refused(self, what, function, *args, **kwargs):
        """A call which must be refused with the library's argument error."""
        result, error = self.call(function, *args, **kwargs)
        self.count["oracle_evaluations"] += 1
        if error is None:
            raise Violation(
                "accepted:" + what,
                "%s: invalid request was accepted and returned %s" % (what, repr(result)[:600]),
            )
        if not isinstance(error, self.lib.ArgumentsValueError):
            raise Violation(
                "wrong-exception:" + what,
                "%s: invalid request raised %s instead of the argument error: %s"
                % (what, type(error).__name__, str(error)[:400]),
            )
        self.count["refusals_confirmed"] += 1
        return error

    # -- judgement ---------------------------------------------------------------------------
    def require(self, condition, mechanism, message, *args):
        """One evaluation of an oracle."""
        self.count["oracle_evaluations"] += 1
        if not condition:
            raise Violation(mechanism, message % args if args else message)

    def nontrivial(self, *key):
        """Declares the current case as non-trivial, identified by key."""
        self.case_key = key

    def path(self, suffix=""):
        """A fresh path in the scratch directory of this worker."""
        self._file_number += 1
        return os.path.join(self.scratch, "f%d%s" % (self._file_number, suffix))

    @staticmethod
    def remove(path):
        """Removes a file of the scratch directory if it is there."""
        if os.path.exists(path):
            os.remove(path)


class LineCoverage:
    """Lines of the library executed, sampled on some of the cases."""

    def __init__(self, files):
        self.files = set(files)
        self.lines = set()

    def _local(self, frame, event, _):
        if event == "line":
            self.lines.add((frame.f_code.co_filename, frame.f_lineno))
        return self._local

    def _global(self, frame, event, _):
        if frame.f_code.co_filename in self.files:
            self.lines.add((frame.f_code.co_filename, frame.f_lineno))
            return self._local
        return None

    def start(self):
        sys.settrace(self._global)

    def stop(self):
        sys.settrace(None)


def executable_lines(files):
    """All lines inside function bodies of the given files."""
    result = set()

    def walk(code, filename, inside):
        if inside:
            last = None
            line = code.co_firstlineno
            table = code.co_lnotab
            for i in range(0, len(table), 2):
                delta = table[i + 1]
                line += delta - 256 if delta >= 128 else delta
                if table[i] or True:
                    last = line
                    result.add((filename, last))
        for const in code.co_consts:
            if hasattr(const, "co_code"):
                is_function = const.co_name not in ("<module>",) and not (
                    const.co_flags & 0x0002 == 0
                )
                walk(const, filename, is_function)

    for filename in files:
        with open(filename, encoding="utf-8") as handle:
            code = compile(handle.read(), filename, "exec")
        walk(code, filename, False)
    return result


def shard_rng(seed, prop, shard, purpose):
    return random.Random("%s/%s/%s/%s" % (seed, prop, shard, purpose))


def case_stream(module, gen, tier, shard):
    """The cases of one shard: systematic ones first, then random and neighbouring ones."""
    systematic = getattr(module, "systematic", None)
    if systematic is not None:
        for index, case in enumerate(systematic(tier)):
            if index % SHARDS == shard:
                yield "systematic", case
    total = module.COUNT[tier]
    count = total // SHARDS + (1 if shard < total % SHARDS else 0)
    recent = []
    mix = getattr(module, "mix", None)
    for _ in range(count):
        case = None
        if recent and gen.rng.random() < 0.3:
            base = gen.rng.choice(recent)
            roll = gen.rng.random()
            if roll < 0.15:
                case = json.loads(json.dumps(base))  # exact repetition
            elif mix is not None:
                case = mix(gen, base)
        if case is None:
            case = module.random_case(gen, tier)
        recent.append(case)
        if len(recent) > 12:
            recent.pop(gen.rng.randrange(len(recent)))
        yield "random", case


def mix_fields(make, fixed=("kind",)):
    """A generic neighbour: one field of a case replaced by the one of a fresh case."""

    def mix(gen, base):
        other = make(gen)
        if any(base.get(k) != other.get(k) for k in fixed) or set(base) != set(other):
            return other
        result = json.loads(json.dumps(base))
        names = sorted(k for k in base if k not in fixed)
        for name in gen.rng.sample(names, 1 if gen.rng.random() < 0.8 else min(2, len(names))):
            result[name] = other[name]
        return result

    return mix


PATIENCE = 200.0  # seconds for a case; they take far less than a second each


def out_of_patience(_signal, _frame):
    raise Violation("no-answer", "the library gave no answer within %d s" % PATIENCE)


def judge(module, ctx, case):
    """Runs one case. Returns None or (mechanism, message)."""
    ctx.case_key = None
    ctx.note = None
    signal.setitimer(signal.ITIMER_REAL, PATIENCE, PATIENCE)
    try:
        module.check(ctx, case)
    except Violation as violation:
        return violation.mechanism, str(violation)
    except (TypeError, ValueError, AttributeError, LookupError, ArithmeticError) as error:
        # the monitors could not even read what the library returned
        return (
            "malformed-result:" + type(error).__name__,
            "result not of the documented form: %s" % traceback.format_exc()[-900:],
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def run_shard(prop, tier, seed, shard, budget, stop_after, queue, only_index=None):
    """Body of one worker process."""
    out = {"shard": shard, "error": None}
    scratch = tempfile.mkdtemp(prefix="vm-%s-" % prop)
    signal.signal(signal.SIGALRM, out_of_patience)
    try:
        from vm import gen as gen_module
        from vm import target

        lib = target.Lib()
        module = importlib.import_module("vm.props.%s" % prop.lower())
        files = target.source_files()
        gen = gen_module.Gen(
            shard_rng(seed, prop, shard, "cases"), gen_module.harvest(files)
        )
        ctx = Ctx(lib, scratch)
        coverage = LineCoverage(files)
        traced_budget = 4.0 if tier == "quick" else 20.0
        traced = 0
        start = time.time()
        violations = []
        samples = []
        kinds = collections.Counter()
        truncated = False
        index = -1
        for index, (origin, case) in enumerate(case_stream(module, gen, tier, shard)):
            if only_index is not None and index > only_index:
                break
            if time.time() - start > budget:
                truncated = True
                break
            trace = index < 25 or (index % 40 == 0)
            trace = trace and traced_budget > 0 and not getattr(module, "NO_TRACE", False)
            if trace:
                begin = time.time()
                coverage.start()
            try:
                bad = judge(module, ctx, case)
            finally:
                if trace:
                    coverage.stop()
                    traced += 1
                    traced_budget -= time.time() - begin
            ctx.count["cases"] += 1
            kinds["%s:%s" % (origin, case.get("kind", "-"))] += 1
            if ctx.case_key is not None:
                digest = hashlib.blake2b(
                    repr(ctx.case_key).encode(), digest_size=8
                ).hexdigest()
                ctx.keys.add(digest)
            if bad is None and ctx.case_key is not None and len(samples) < 2 and index % 7 == 3:
                samples.append({"case": shorten(case), "observed": shorten(ctx.note)})
            if bad is not None:
                violations.append(
                    {"mechanism": bad[0], "message": bad[1], "case": case, "index": index}
                )
                if len(violations) >= stop_after:
                    break
        out.update(
            count=dict(ctx.count),
            keys=sorted(ctx.keys),
            violations=violations,
            samples=samples,
            kinds=dict(kinds),
            truncated=truncated,
            lines=sorted(coverage.lines),
            traced=traced,
        )
    except BaseException:  # pylint: disable=broad-except
        out["error"] = traceback.format_exc()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    queue.put(json.dumps(out))
    queue.close()
    queue.join_thread()


def shorten(value, depth=0):
    """A compact JSON form of a value for evidence samples."""
    if isinstance(value, dict):
        return {str(k): shorten(v, depth + 1) for k, v in list(value.items())[:24]}
    if isinstance(value, (list, tuple)):
        items = [shorten(v, depth + 1) for v in value[:8]]
        if len(value) > 8:
            items.append("... %d items" % len(value))
        return items
    if isinstance(value, str):
        return value[:200]
    if value is None or isinstance(value, (bool, int, float)):
        return value
    return repr(value)[:200]


def known_findings():
    """Mechanisms of unrepaired findings: lines `known: property=<id> mechanism=<m> <what>`."""
    result = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as handle:
            for line in handle:
                if line.startswith("known: "):
                    words = line.split()
                    prop = words[1].split("=", 1)[1]
                    mechanism = words[2].split("=", 1)[1]
                    result[(prop, mechanism)] = " ".join(words[3:])
    return result


def run_check(prop, tier, seed):
    """Runs a check and returns the exit code."""
    start = time.time()
    module = importlib.import_module("vm.props.%s" % prop.lower())
    budget = {"quick": 330.0, "thorough": 700.0}[tier]
    queue = multiprocessing.Queue()
    workers = []
    for shard in range(SHARDS):
        worker = multiprocessing.Process(
            target=run_shard, args=(prop, tier, seed, shard, budget, 5, queue)
        )
        worker.start()
        workers.append(worker)
    results = []
    deadline = start + budget + 90
    while len(results) < SHARDS and time.time() < deadline:
        try:
            results.append(json.loads(queue.get(timeout=1.0)))
        except Exception:  # pylint: disable=broad-except
            if not any(w.is_alive() for w in workers) and queue.empty():
                break
    for worker in workers:
        worker.join(timeout=2)
        if worker.is_alive():
            worker.terminate()
    return conclude(module, prop, tier, seed, results, time.time() - start)


def conclude(module, prop, tier, seed, results, wall):
    """Merges shard results: evidence, violation lines, verdict."""
    count = collections.Counter()
    kinds = collections.Counter()
    keys = set()
    lines = set()
    violations = []
    samples = []
    errors = []
    truncated = False
    traced = 0
    for result in sorted(results, key=lambda r: r["shard"]):
        if result["error"]:
            errors.append("shard %d: %s" % (result["shard"], result["error"]))
            continue
        count.update(result["count"])
        kinds.update(result["kinds"])
        keys.update(result["keys"])
        lines.update(tuple(x) for x in result["lines"])
        truncated = truncated or result["truncated"]
        traced += result["traced"]
        samples.extend(result["samples"])
        for violation in result["violations"]:
            violation["shard"] = result["shard"]
            violations.append(violation)
    if len(results) < SHARDS:
        errors.append("only %d of %d shards reported" % (len(results), SHARDS))

    known = known_findings()
    real, reported = [], set()
    for violation in violations:
        key = (prop, violation["mechanism"])
        if key in known:
            if key not in reported:
                print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
                reported.add(key)
        else:
            real.append(violation)

    from vm import target

    anchors = anchor_files(prop)
    files = [f for f in target.source_files() if any(f.endswith(a) for a in anchors)]
    all_lines = executable_lines(files)
    hit = {
        os.path.relpath(f, target.REPO): "%d/%d"
        % (
            len({x for x in lines if x[0] == f} & all_lines),
            len([x for x in all_lines if x[0] == f]),
        )
        for f in files
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": count["cases"],
            "distinct_nontrivial": len(keys),
            "rule": module.RULE,
            "samples": samples[:6],
            "events": {k: v for k, v in sorted(count.items()) if k != "cases"},
            "cases_by_kind": dict(sorted(kinds.items())),
            "sampled_line_coverage_of_anchor_files": hit,
            "cases_traced_for_line_coverage": traced,
            "truncated_by_time_budget": truncated,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(real),
    }
    folder = os.path.join(HERE, "evidence")
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, prop + ".json"), "w", encoding="utf-8") as handle:
        json.dump(evidence, handle, indent=1, sort_keys=True)

    if real:
        replays = os.path.join(folder, "replays")
        os.makedirs(replays, exist_ok=True)
        seen = set()
        for violation in real:
            if violation["mechanism"] in seen:
                continue
            seen.add(violation["mechanism"])
            record = dict(violation, property=prop, seed=seed, tier=tier)
            text = json.dumps(record, indent=1, sort_keys=True)
            name = "%s-%s.json" % (prop, hashlib.blake2b(text.encode(), digest_size=5).hexdigest())
            path = os.path.join(replays, name)
            with open(path, "w", encoding="utf-8") as handle:
                handle.write(text)
            print("%s [%s] %s" % (prop, violation["mechanism"], violation["message"][:1200]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("%s: harness error, no verdict" % prop)
        for error in errors:
            print(error)
        return 2
    minimum = getattr(module, "MINIMUM", {})
    short = {k: (count[k], v) for k, v in minimum.items() if count[k] < v}
    if short or count["oracle_evaluations"] == 0 or not keys:
        print("%s: INCONCLUSIVE, monitors not exercised enough: %s" % (prop, short))
        return 2
    print(
        "%s held: %d cases (%d distinct non-trivial), %d oracle evaluations, %.1f s"
        % (prop, count["cases"], len(keys), count["oracle_evaluations"], wall)
    )
    return 0


def anchor_files(prop):
    with open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8") as handle:
        for line in handle:
            record = json.loads(line)
            if record["id"] == prop:
                return record["anchors"]["files"]
    return []


def replay(path):
    """Re-runs a recorded violation: alone first, then with its whole history."""
    with open(path, encoding="utf-8") as handle:
        record = json.load(handle)
    from vm import target

    prop = record["property"]
    module = importlib.import_module("vm.props.%s" % prop.lower())
    scratch = tempfile.mkdtemp(prefix="vm-replay-")
    signal.signal(signal.SIGALRM, out_of_patience)
    try:
        bad = judge(module, Ctx(target.Lib(), scratch), record["case"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if bad is not None:
        print("%s [%s] %s" % (prop, bad[0], bad[1]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    queue = multiprocessing.Queue()
    worker = multiprocessing.Process(
        target=run_shard,
        args=(prop, record["tier"], record["seed"], record["shard"], 3000.0, 10 ** 9, queue,
              record["index"]),
    )
    worker.start()
    result = json.loads(queue.get())
    worker.join()
    for violation in result.get("violations", []):
        if violation["index"] == record["index"]:
            print("%s (with history) %s" % (prop, violation["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
    print("not reproduced")
    return 0
