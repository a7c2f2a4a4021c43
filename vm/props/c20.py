"""C20: no side effects, no memory, no shared state."""

import array
import os
import random
import sys
import threading

import numpy as np

from vm import control as vc
from vm import conversion as vv
from vm import driven, gaussian
from vm import sequence as vs
from vm.core import Violation
from vm.gen import materialize, scalar

RULE = (
    "Cases: histories of mixed operations (constructors, inspections, exports, conversions, refused calls) "
    "executed in order, again in another order after modifying the first results, from threads, or many "
    "times in a row; results are compared bit for bit, arguments and objects before and after. "
    "Non-trivial: every operation of a history was repeated and compared; distinct by operations."
)
ASSUMPTIONS = [
    "public fields are compared (internal caching is allowed as long as results do not change)",
    "arrays handed to the DrivenControl and DynamicDecouplingSequence constructors by the caller may be kept by "
    "reference; arrays computed by properties are not modified by the monitor",
]
COUNT = {"quick": 1400, "thorough": 4000}
MINIMUM = {
    "operations": 10000, "repetitions_compared": 20000, "memory_pairs": 20000, "threaded_operations": 3000,
    "arguments_checked": 5000,
}


def operation(g):
    roll = g.rng.random()
    if roll < 0.22:
        return {"op": "driven", "case": driven.make_case(g)}
    if roll < 0.3:
        return {"op": "gaussian", "case": gaussian.make_case(g)}
    if roll < 0.52:
        return {"op": "predefined", "case": vs.make_predefined(g, dict(vv.LONG if g.flip(0.06) else vv.LIMITS))}
    if roll < 0.67:
        return {"op": "control", "case": vc.make_control(g, 12), "file": g.pick(["CSV", "JSON"]),
                "coordinates": g.pick(["cartesian", "cylindrical"])}
    if roll < 0.8:
        return {"op": "sequence", "case": vs.make_sequence(g, 12)}
    if roll < 0.93:
        return {"op": "convert", "case": vv.make_case(g, invalid=0.2)}
    return {"op": "refused", "which": g.int(0, 7), "value": g.pick([0.0, -1.0, -2.5])}


def random_case(g, _tier):
    kind = g.pick(["history", "history", "history", "threads", "repeat"])
    count = {"history": g.int(3, 8), "threads": g.int(4, 8), "repeat": 1}[kind]
    operations = [operation(g) for _ in range(count)]
    if kind == "history" and g.flip(0.5):
        # related operations: the same factory with some arguments equal
        base = operations[0]
        if base["op"] in ("driven", "predefined"):
            for _ in range(3):
                make = driven.make_case if base["op"] == "driven" else vs.make_predefined
                other = make(g) if base["op"] == "driven" else vs.make_predefined(g, dict(vv.LIMITS), [base["case"]["kind"]])
                if base["op"] == "driven":
                    case = dict(base["case"])
                    case[g.pick(["phi", "rate", "name", "style"])] = None
                    for name, value in case.items():
                        if value is None and name != "name":
                            case[name] = other[name]
                        elif value is None:
                            case[name] = other["name"]
                else:
                    case = dict(other)
                    if g.flip():
                        case["counts"] = base["case"]["counts"]
                    else:
                        case["duration"] = base["case"]["duration"]
                operations.append({"op": base["op"], "case": case})
    return {"kind": kind, "operations": operations, "shuffle": g.int(0, 10 ** 6), "together": g.flip()}


# -- observation -----------------------------------------------------------------------------------
def plain(value):
    """Structure of a result as plain, comparable Python values."""
    if isinstance(value, np.ndarray):
        return ("array", value.shape, tuple(plain(v) for v in value.tolist()))
    if isinstance(value, dict):
        return ("dict", tuple((k, plain(v)) for k, v in value.items()))
    if isinstance(value, (list, tuple, array.array)):
        return ("list", tuple(plain(v) for v in value))
    if isinstance(value, (np.floating, np.complexfloating, np.integer)):
        return plain(value.item())
    if isinstance(value, float) and value != value:
        return "nan"
    return value


def fields_of(subject):
    if hasattr(subject, "durations"):
        return tuple(plain(np.asarray(getattr(subject, f))) for f in vc.FIELDS) + (subject.name,)
    return (
        tuple(plain(np.asarray(getattr(subject, f))) for f in vs.FIELDS)
        + (float(subject.duration), subject.name)
    )


def arrays_of(subject):
    names = vc.FIELDS if hasattr(subject, "durations") else vs.FIELDS
    return [getattr(subject, n) for n in names]


class Guard:
    """Arguments handed to the library have to stay what they were."""

    def __init__(self, ctx, arguments):
        self.ctx = ctx
        self.arguments = arguments
        self.before = {k: self.look(v) for k, v in arguments.items()}

    @staticmethod
    def look(value):
        return plain(value), type(value), isinstance(value, np.ndarray) and value.flags.writeable

    def check(self, what):
        for name, value in self.arguments.items():
            self.ctx.count["arguments_checked"] += 1
            self.ctx.require(
                self.look(value) == self.before[name], "argument-modified:" + what,
                "%s modified its argument %s: %s, was %s", what, name, self.look(value), self.before[name],
            )


PROPERTIES = (
    "number_of_segments", "maximum_rabi_rate", "maximum_detuning", "amplitude_x", "amplitude_y", "angles",
    "directions", "times", "maximum_duration", "minimum_duration", "duration",
)


def inspections(subject, path, file_type, coordinates):
    """Named operations on an object."""
    result = [("str", lambda: str(subject)), ("repr", lambda: repr(subject))]
    if hasattr(subject, "durations"):
        result += [(n, lambda n=n: getattr(subject, n)) for n in PROPERTIES]
        for c in ("cartesian", "cylindrical"):
            for d in (True, False):
                result.append((
                    "export %s %s" % (c, d),
                    lambda c=c, d=d: subject.export(coordinates=c, dimensionless_rabi_rate=d),
                ))

        def write():
            subject.export_to_file(path, file_type=file_type, coordinates=coordinates)
            with open(path, "rb") as handle:
                return handle.read()

        result.append(("export_to_file", write))
    else:
        result.append(("export", subject.export))

        def write():
            subject.export_to_file(path, file_type=file_type, coordinates=coordinates)
            with open(path, "rb") as handle:
                return handle.read()

        result.append(("export_to_file", write))
    return result


def outcome(function):
    """Result of a call or its refusal, in plain form."""
    try:
        return function(), None
    except Exception as error:  # pylint: disable=broad-except
        return None, error


def spoil(data):
    """Modifies exported data in all places."""
    for value in data.values():
        for entry in value:
            for name in list(entry):
                entry[name] = 12345.0
        value.append("spoiled")
    data["spoiled"] = 1


def inspect(ctx, subject, file_type, coordinates, path):
    """Inspects an object twice; nothing may change. Returns all results in plain form."""
    before = fields_of(subject)
    first = {}
    results = []
    for turn in range(2):
        operations = inspections(subject, path, file_type, coordinates)
        if turn:
            operations.reverse()
        for name, function in operations:
            value, error = outcome(function)
            shown = (plain(value), repr(error) if error is not None else None)
            ctx.require(
                fields_of(subject) == before, "object-modified:" + name.split()[0], "%s modified its object: %s, was %s",
                name, fields_of(subject), before,
            )
            if turn == 0:
                first[name] = shown
                results.append((name, shown))
            else:
                ctx.count["repetitions_compared"] += 1
                ctx.require(
                    first[name] == shown, "inspection-differs:" + name.split()[0], "%s gave %s, later %s",
                    name, str(first[name])[:500], str(shown)[:500],
                )
            if isinstance(value, dict):
                spoil(value)
    if os.path.exists(path):
        os.remove(path)
    return tuple(results)


def execute(ctx, item, tag, light=False):
    """
    Executes an operation from scratch: (plain result, objects created by the library).
    """
    kind = item["op"]
    case = item.get("case")
    path = os.path.join(ctx.scratch, "h%s" % tag)
    if kind == "refused":
        return refused_call(ctx, item), []
    if kind == "driven":
        subject = driven.build(ctx, case)
    elif kind == "gaussian":
        subject = gaussian.build(ctx, case)
    elif kind == "predefined":
        subject = vs.build_predefined(ctx, case)
    elif kind == "control":
        arguments = {f: materialize(case[f], case["forms"][f]) for f in vc.FIELDS}
        guard = Guard(ctx, arguments)
        subject = vc.construct(ctx, case, arguments)
        if not light:
            result = (fields_of(subject), inspect(ctx, subject, item["file"], item["coordinates"], path))
            guard.check("DrivenControl")
            return result, [subject]
        guard.check("DrivenControl")
    elif kind == "sequence":
        arguments = {f: materialize(case[f], case["forms"][f]) for f in vs.FIELDS}
        guard = Guard(ctx, arguments)
        subject = vs.construct(ctx, case, arguments, duration=scalar(case["duration"], case["dform"]))
        if not light:
            result = (fields_of(subject), inspect(ctx, subject, "JSON", "cartesian", path))
            guard.check("DynamicDecouplingSequence")
            return result, [subject]
        guard.check("DynamicDecouplingSequence")
    else:
        sequence = vv.sequence_of(ctx, case)
        before = fields_of(sequence)
        control, error = vv.convert(ctx, case, sequence)
        ctx.require(
            fields_of(sequence) == before, "object-modified:convert", "conversion modified the sequence: %s, was %s",
            fields_of(sequence), before,
        )
        if error is not None:
            return ("refused", type(error).__name__, str(error)), [sequence]
        result = fields_of(control)
        if not light:
            again, _ = vv.convert(ctx, case, sequence)
            disjoint(ctx, [control, again, sequence], "convert")
            for field in arrays_of(control):
                if field.flags.writeable:
                    field[...] = 4321.0
            ctx.require(
                fields_of(again) == result and fields_of(sequence) == before, "shared:convert",
                "modifying a converted control changed another one or the sequence",
            )
            third, _ = vv.convert(ctx, case, sequence)
            ctx.require(
                third is not None and fields_of(third) == result, "memory:convert",
                "conversion gives %s after modifying an earlier result, before %s",
                third if third is None else fields_of(third), result,
            )
            return result, [again, third]
        return result, [control]
    result = fields_of(subject)
    if not light and kind != "gaussian":
        return (result, inspect(ctx, subject, "CSV", "cylindrical", path)), [subject]
    return result if light else (result, ()), [subject]


def observations(subject, item, path):
    """All that can be seen of an object."""
    results = [fields_of(subject)]
    for name, function in inspections(subject, path, item.get("file", "JSON"), item.get("coordinates", "cartesian")):
        value, error = outcome(function)
        results.append((name, plain(value), repr(error) if error is not None else None))
    return tuple(results)


def concurrent(ctx, item, tag, subjects=None):
    """
    Executes an operation and looks at everything that came of it, or looks at the objects that came of it
    before.
    """
    if subjects is None:
        result, subjects = execute(ctx, item, tag, light=True)
    else:
        result = None
    path = os.path.join(ctx.scratch, "c%s" % tag)
    return result, tuple(observations(s, item, path) for s in subjects), subjects


def refused_call(ctx, item):
    error = refused_error(ctx, item)
    return ("refused", type(error).__name__, str(error))


def refused_error(ctx, item):
    lib = ctx.lib
    value = item["value"]
    calls = [
        lambda: lib.controls["primitive"](rabi_rotation=1.0, maximum_rabi_rate=value),
        lambda: lib.sequences["cpmg"](duration=value, offset_count=3),
        lambda: lib.sequences["walsh"](duration=1.0, paley_order=value),
        lambda: lib.DrivenControl(durations=[1.0, value]),
        lambda: lib.Sequence(duration=value, offsets=[], rabi_rotations=[], azimuthal_angles=[], detuning_rotations=[]),
        lambda: lib.controls["bb1"](rabi_rotation=50.0, maximum_rabi_rate=1.0),
        lambda: lib.DrivenControl(durations=[1.0]).export(coordinates="polar"),
        lambda: lib.convert(lib.sequences["spin_echo"](duration=1.0), 1.0, 1.0),
    ]
    return ctx.refused("refused call %d" % item["which"], calls[item["which"]])


def disjoint(ctx, subjects, what):
    """No two objects share memory."""
    arrays = [(i, a) for i, s in enumerate(subjects) for a in arrays_of(s) if isinstance(a, np.ndarray) and a.size]
    for x, (i, a) in enumerate(arrays):
        for j, b in arrays[x + 1:]:
            if i != j:
                ctx.count["memory_pairs"] += 1
                ctx.require(
                    not np.shares_memory(a, b), "shared-memory:" + what, "separate results share memory (%s)", what
                )


def global_state():
    return (
        sorted((k, str(v)) for k, v in np.get_printoptions().items()), np.geterr(), os.getcwd(),
        hash(random.getstate()), plain(np.random.get_state()[1])[2][:8], np.random.get_state()[2],
    )


def check(ctx, case):
    before = global_state()
    ctx.nontrivial(case["kind"], repr(case["operations"]))
    if case["kind"] == "history":
        history(ctx, case)
    elif case["kind"] == "threads":
        threads(ctx, case)
    else:
        repeat(ctx, case)
    after = global_state()
    ctx.require(after == before, "global-state", "process-wide settings changed: %s, before %s", after, before)


def history(ctx, case):
    items = case["operations"]
    first = []
    live = []
    for i, item in enumerate(items):
        ctx.count["operations"] += 1
        result, subjects = execute(ctx, item, i)
        first.append(result)
        live.append(subjects)
    snapshots = [[fields_of(s) for s in subjects] for subjects in live]
    made = [s for item, subjects in zip(items, live) for s in subjects if item["op"] in ("driven", "gaussian", "predefined")]
    disjoint(ctx, made, "predefined")
    # nothing that happened later changed an earlier result
    for item, subjects, shots in zip(items, live, snapshots):
        for subject, shot in zip(subjects, shots):
            ctx.require(
                fields_of(subject) == shot, "result-changed:" + item["op"], "an earlier result changed: %s, was %s",
                fields_of(subject), shot,
            )
    # modify all results, then do everything again in another order
    for subjects in live:
        for subject in subjects:
            for field in arrays_of(subject):
                if isinstance(field, np.ndarray) and field.flags.writeable:
                    field[...] = 99
            subject.name = "modified"
    order = list(range(len(items)))
    random.Random(case["shuffle"]).shuffle(order)
    for i in order:
        ctx.count["operations"] += 1
        ctx.count["repetitions_compared"] += 1
        result, subjects = execute(ctx, items[i], i)
        ctx.require(
            result == first[i], "memory:" + items[i]["op"], "%s gave first %s, after other calls %s",
            items[i]["op"], difference(first[i], result)[0], difference(first[i], result)[1],
        )
        if items[i]["op"] in ("driven", "gaussian", "predefined"):
            disjoint(ctx, subjects + live[i], "predefined")
    ctx.note = {"operations": [x["op"] for x in items]}


def difference(a, b):
    """The differing parts of two structures."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return difference(x, y)
    return str(a)[:400], str(b)[:400]


def threads(ctx, case):
    items = [x for x in case["operations"]]
    expected = [concurrent(ctx, item, "s%d" % i) for i, item in enumerate(items)]
    # the threads look at the same objects, or make their own
    together = case.get("together", False)
    problems = []
    barrier = threading.Barrier(4)
    done = []

    def work(number):
        # the counters of the context are not shared between threads
        local = type(ctx)(ctx.lib, ctx.scratch)
        try:
            barrier.wait(timeout=30)
            for turn in range(3):
                for i in range(len(items)):
                    j = (i * (number + 1) + turn) % len(items) if number % 2 else i
                    shared = expected[j][2] if together and turn else None
                    result, seen, _ = concurrent(local, items[j], "t%d" % number, shared)
                    done.append(1)
                    if shared is None and result != expected[j][0]:
                        problems.append((items[j]["op"],) + difference(expected[j][0], result))
                    if seen != expected[j][1]:
                        problems.append((items[j]["op"],) + difference(expected[j][1], seen))
        except Violation as violation:
            problems.append((violation.mechanism, str(violation), ""))
        except threading.BrokenBarrierError:
            pass
        except Exception as error:  # pylint: disable=broad-except
            problems.append(("exception", repr(error), ""))

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        workers = [threading.Thread(target=work, args=(n,)) for n in range(4)]
        for worker in workers:
            worker.start()
        for worker in workers:
            worker.join()
    finally:
        sys.setswitchinterval(interval)
    ctx.count["threaded_operations"] += len(done)
    ctx.require(
        not problems, "threads:" + (problems[0][0] if problems else ""), "concurrent calls gave other results: %s",
        problems[:2],
    )
    ctx.note = {"threaded": len(done)}


def repeat(ctx, case):
    item = case["operations"][0]
    expected, _ = execute(ctx, item, "r", light=True)
    for n in range(60):
        ctx.count["operations"] += 1
        ctx.count["repetitions_compared"] += 1
        result, subjects = execute(ctx, item, "r", light=True)
        ctx.require(
            result == expected, "repetition:" + item["op"], "call %d of %s gave %s, first %s", n + 2, item["op"],
            difference(result, expected)[0], difference(result, expected)[1],
        )
        if n % 20 == 0:
            for subject in subjects:
                for field in arrays_of(subject):
                    if isinstance(field, np.ndarray) and field.flags.writeable:
                        field[...] = 77
    ctx.note = {"repeated": item["op"]}
