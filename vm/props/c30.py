"""C30: what is no longer used is released, repetitions do not accumulate memory."""

import collections
import gc
import math
import os
import weakref

import numpy as np

from vm import control as vc
from vm import conversion as vv
from vm import driven, gaussian, ref
from vm import sequence as vs
from vm.gen import materialize
from vm.props import c20
from vm.props.c20 import arrays_of, inspections, outcome

RULE = (
    "Cases: operations over the whole interface (constructors, inspections, exports, files, conversions, "
    "refused calls) whose arguments, results and errors are then dropped and looked for after a collection; "
    "histories repeated in rounds, and over 1100 different requests of one kind, while all live objects of the "
    "process are counted. Non-trivial: at least "
    "one object of the library was dropped and looked for, or all rounds were counted; distinct by operations."
)
ASSUMPTIONS = [
    "objects of the library, errors, and arrays handed over or returned are looked for; private caches of other "
    "kinds are allowed as long as they do not grow by repeating a request or beyond 1100 different ones",
    "growth is an accumulation of at least one object of one type per repetition in every round",
]
COUNT = {"quick": 640, "thorough": 4000}
MINIMUM = {"objects_dropped": 1200, "arrays_dropped": 9000, "errors_dropped": 300, "histories_counted": 40, "drifts_counted": 60}
NO_TRACE = True  # the tracer would keep frames and line numbers alive
ROUNDS = 4
REPEAT = 8
# bounded caches of what was requested last are allowed
DIFFERENT = 1100


def quick(item):
    """A request which can be made a thousand times."""
    case = item.get("case")
    if item["op"] == "control":
        return len(case["durations"]) <= 40
    if item["op"] == "gaussian":
        return case["duration"] / case["minimum"] <= 100
    if item["op"] == "convert":
        if case["request"] is None:
            return len(case["sequence"]["offsets"]) <= 12
        return case["request"]["kind"] != "walsh" and math.prod(case["request"]["counts"]) <= 6
    if item["op"] == "predefined":
        return math.prod(case["counts"]) <= 30
    return item["op"] != "refused"


def random_case(g, _tier):
    kind = g.pick(["release"] * 25 + ["growth"] * 3 + ["drift"] * 2)
    if kind == "drift":
        item = c20.operation(g)
        while not quick(item):
            item = c20.operation(g)
        return {
            "kind": kind, "operations": [item], "look": g.int(0, 30), "type": g.pick(["CSV", "JSON"]),
            "coordinates": g.pick(["cartesian", "cylindrical"]),
        }
    return {
        "kind": kind, "operations": [c20.operation(g) for _ in range(g.int(2, 5))],
        "type": g.pick(["CSV", "JSON"]), "coordinates": g.pick(["cartesian", "cylindrical"]),
    }


SIZES = {
    "ramsey": [[]], "spin_echo": [[]], "walsh": [[5], [500], [1337]], "quadratic": [[2, 3], [12, 11]],
    "x_concatenated": [[2], [8]], "xy_concatenated": [[2], [4]],
}


def systematic(tier):
    """Many different requests of every kind, small and large."""
    number = 0
    for kind in sorted(vs.PREDEFINED):
        for size, counts in enumerate(SIZES.get(kind, [[4], [150], [300]])):
            for pre_post in (True, False) if tier == "thorough" else (number % 2 == 0,):
                request = {
                    "kind": kind, "counts": counts, "duration": 10.0, "name": None, "pre_post": pre_post, "style": "kw",
                    "dform": "py", "cform": "py",
                }
                convert = {
                    "kind": "predefined", "request": request, "sequence": None, "name": None, "call": "kw",
                    "rform": "py", "rabi_limit": 1e6, "detuning_limit": 1e6, "minimum": 0.0,
                }
                items = [{"op": "predefined", "case": request}]
                if not size:
                    items.append({"op": "convert", "case": convert})
                number += 1
                for item in items:
                    yield {
                        "kind": "drift", "operations": [item], "look": number % 3 if not size else 1, "type": "CSV",
                        "coordinates": "cartesian",
                    }
    for kind in ref.SCHEMES:
        case = {
            "kind": kind, "theta": math.pi, "rate": 2.0, "phi": 0.5, "name": "name", "style": "kw", "forms": ["py"] * 3
        }
        yield {
            "kind": "drift", "operations": [{"op": "driven", "case": case}], "look": 6, "type": "CSV",
            "coordinates": "cartesian",
        }


def collect(done=None):
    """Arrays are freed one link of a chain per collection; stops early when nothing is left."""
    for turn in range(30 if done else 6):
        gc.collect()
        if done and turn % 3 == 2 and done():
            return


def perform(ctx, item, case, look=None):
    """
    Executes an operation with everything one can do to the result, or one of these. Returns what was
    involved.
    """
    kind = item["op"]
    inner = item.get("case")
    involved = []
    if kind == "refused":
        return [c20.refused_error(ctx, item)]
    if kind == "driven":
        subject = driven.build(ctx, inner)
    elif kind == "gaussian":
        subject = gaussian.build(ctx, inner)
    elif kind == "predefined":
        subject = vs.build_predefined(ctx, inner)
    elif kind == "control":
        arguments = {f: materialize(inner[f], inner["forms"][f]) for f in vc.FIELDS}
        involved += list(arguments.values())
        subject = vc.construct(ctx, inner, arguments)
    elif kind == "sequence":
        arguments = {f: materialize(inner[f], inner["forms"][f]) for f in vs.FIELDS}
        involved += list(arguments.values())
        subject = vs.construct(ctx, inner, arguments)
    else:
        sequence = vv.sequence_of(ctx, inner)
        involved.append(sequence)
        involved += arrays_of(sequence)
        subject, error = vv.convert(ctx, inner, sequence)
        if error is not None:
            return involved + [error]
    involved.append(subject)
    involved += arrays_of(subject)
    path = os.path.join(ctx.scratch, "c30")
    things = inspections(subject, path, case["type"], case["coordinates"])
    if look is not None:
        things = [things[look % len(things)]]
    for _, function in things:
        value, error = outcome(function)
        if error is not None:
            involved.append(error)
        elif isinstance(value, np.ndarray):
            involved.append(value)
    ctx.remove(path)
    return involved


def category(ctx, thing):
    if isinstance(thing, (ctx.lib.DrivenControl, ctx.lib.Sequence)):
        return "objects"
    if isinstance(thing, np.ndarray):
        return "arrays"
    return "errors" if isinstance(thing, Exception) else None


def observe(ctx, case):
    """Weak references to everything involved in the operations: [(operation, category, reference)]."""
    references = []
    for item in case["operations"]:
        for thing in perform(ctx, item, case):
            name = category(ctx, thing)
            if name is None:
                continue
            try:
                references.append((item["op"], name, weakref.ref(thing)))
            except TypeError:
                ctx.count["not_referable"] += 1
    return references


def instances(ctx):
    """Number of living objects of the library."""
    kinds = (ctx.lib.DrivenControl, ctx.lib.Sequence, ctx.lib.ArgumentsValueError)
    return sum(1 for x in gc.get_objects() if type(x) in kinds)  # pylint: disable=unidiomatic-typecheck


def release(ctx, case):
    collect()
    before = instances(ctx)
    references = observe(ctx, case)
    collect(lambda: all(x[2]() is None for x in references))
    for op, name, reference in references:
        ctx.count[name + "_dropped"] += 1
        ctx.require(
            reference() is None, "kept:%s:%s" % (name, op), "one of the %s of a finished %s operation is kept alive",
            name, op,
        )
    after = instances(ctx)
    ctx.require(
        after <= before, "kept:instances", "%d objects of the library are alive after the operations, %d before", after,
        before,
    )
    if references:
        ctx.nontrivial("release", repr(case["operations"]))
    ctx.note = {"looked_for": len(references)}


def census():
    collect()
    return collections.Counter(
        "%s.%s" % (type(x).__module__, type(x).__name__) for x in gc.get_objects()
    )


def rounds(ctx, case, repeat):
    """Types which gained at least one object per repetition in every round."""
    growing = None
    last = census()
    for _ in range(ROUNDS):
        for _ in range(repeat):
            for item in case["operations"]:
                perform(ctx, item, case)
        now = census()
        ctx.count["rounds_counted"] += 1
        grown = {name for name in now if now[name] - last[name] >= repeat}
        growing = grown if growing is None else growing & grown
        last = now
        if not growing:
            return growing
    return growing


def growth(ctx, case):
    ctx.count["histories_counted"] += 1
    ctx.nontrivial("growth", repr(case["operations"]))
    for item in case["operations"]:
        perform(ctx, item, case)
    growing = rounds(ctx, case, REPEAT)
    if growing:
        growing = rounds(ctx, case, 5 * REPEAT)
    ctx.require(
        not growing, "growth", "repeating the same operations %s accumulates objects of type %s",
        [x["op"] for x in case["operations"]], sorted(growing),
    )
    ctx.note = {"operations": [x["op"] for x in case["operations"]]}


def vary(item, number):
    """The same operation with other values."""
    factor = 1.0 + (number + 1) / 65536.0
    case = dict(item["case"])
    if item["op"] in ("driven", "gaussian"):
        case["rate"] *= factor
    elif item["op"] == "control":
        case["durations"] = [v * factor for v in case["durations"]]
        case["forms"] = dict(case["forms"], durations="f8")
    elif item["op"] in ("predefined", "sequence"):
        case["duration"] *= factor
    else:
        case["rabi_limit"] *= factor
        for name in ("request", "sequence"):
            if case[name] is not None:
                case[name] = dict(case[name], duration=case[name]["duration"] * factor)
    return dict(item, case=case)


def drift(ctx, case):
    """Many different requests of one kind."""
    ctx.count["drifts_counted"] += 1
    ctx.nontrivial("drift", repr(case["operations"]), case["look"])
    item = case["operations"][0]
    number = 0
    last = None
    growing = None
    for repeat in (DIFFERENT, 32, 32, 32, 32):
        for _ in range(repeat):
            perform(ctx, vary(item, number), case, case["look"])
            number += 1
        now = census()
        if last is not None:
            grown = {name for name in now if now[name] - last[name] >= repeat}
            growing = grown if growing is None else growing & grown
            if not growing:
                break
        last = now
    ctx.count["different_requests"] += number
    ctx.require(
        not growing, "growth:" + item["op"], "%d different %s requests accumulate objects of type %s", number,
        item["op"], sorted(growing),
    )
    ctx.note = {"operation": item["op"], "requests": number}


def check(ctx, case):
    if case["kind"] == "drift":
        drift(ctx, case)
        return
    if case["kind"] == "release":
        release(ctx, case)
    else:
        growth(ctx, case)
