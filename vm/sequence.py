"""
Shared workload for dynamical decoupling sequences.
"""

import math

import numpy as np

from vm.gen import FLAG_FORMS, PI, SCALAR_FORMS, flag, materialize, scalar

FIELDS = ("offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations")

# which counts each predefined sequence takes
PREDEFINED = {
    "ramsey": [], "spin_echo": [], "carr_purcell": ["offset_count"], "cpmg": ["offset_count"],
    "uhrig": ["offset_count"], "periodic": ["offset_count"], "walsh": ["paley_order"],
    "quadratic": ["inner_offset_count", "outer_offset_count"],
    "x_concatenated": ["concatenation_order"], "xy_concatenated": ["concatenation_order"],
}


def make_sequence(g, maximum=30):
    """A description of an arbitrary valid sequence (not necessarily convertible)."""
    duration = g.duration()
    roll = g.rng.random()
    if roll < 0.08:
        n = 0
    elif roll < 0.2:
        n = 1
    elif roll < 0.98:
        n = g.int(2, maximum) if g.flip(0.4) else g.int(2, 6)
    else:
        n = g.int(200, 2000)
    style = g.int(0, 4)
    if style == 0:
        offsets = [duration * g.rng.random() for _ in range(n)]
    elif style == 1:
        offsets = [duration * g.pick([0.0, 1.0, 0.5, 0.25, g.rng.random()]) for _ in range(n)]
    elif style == 2:
        offsets = [duration * (i + 0.5) / n for i in range(n)]
    elif style == 3:
        offsets = [
            g.pick([duration * g.logu(1e-14, 1.0), duration * (1.0 - g.logu(1e-14, 1.0))]) for _ in range(n)
        ]
    else:
        duration = float(max(1, g.int(1, 50)))
        offsets = [float(g.int(0, int(duration))) for _ in range(n)]
    if g.flip(0.6):
        offsets.sort()

    def rotations(signed):
        mode = g.int(0, 5)
        if mode == 0:
            return [0.0] * n
        if mode == 1:
            return [PI] * n
        if mode == 2:
            return [float(g.int(0, 4)) * (g.pick([-1, 1]) if signed else 1) for _ in range(n)]
        if mode == 3:
            return [g.logu(1e-14, 10.0) * (g.pick([-1, 1]) if signed else 1) for _ in range(n)]
        return [
            g.pick([0.0, PI, PI / 2, g.u(0, 4 * PI), g.literal()]) * (g.pick([-1.0, 1.0]) if signed else 1.0)
            + 0.0
            for _ in range(n)
        ]

    case = {
        "duration": duration, "offsets": offsets, "rabi_rotations": rotations(g.flip(0.2)),
        "azimuthal_angles": [g.angle() for _ in range(n)], "detuning_rotations": rotations(True),
        "name": g.name(), "style": g.pick(["kw", "pos"]), "dform": g.pick(SCALAR_FORMS),
    }
    case["forms"] = {
        f: g.pick(["list", "f8", "tuple"]) if n == 0 else g.form(case[f]) for f in FIELDS
    }
    if case["forms"]["offsets"] == "f4":
        case["forms"]["offsets"] = "f8"
    case["former"] = former(g)
    return case


def former(g):
    """How a sequence had other fields before it got its present ones, if at all."""
    if g.flip(0.93):
        return None
    return {"how": g.pick(["set", "inplace"]), "duration": g.pick([1.0, 1.0, 2.0]), "name": g.name()}


def arguments(case):
    return {f: materialize(case[f], case["forms"][f]) for f in FIELDS}


def expected_fields(case):
    fields = {f: [float(v) for v in case[f]] for f in FIELDS}
    fields["duration"] = float(case["duration"])
    return fields


def touch(ctx, sequence):
    """Inspects a sequence in all ways (results are judged elsewhere)."""
    ctx.ok("export", sequence.export)
    ctx.ok("str", str, sequence)
    ctx.ok("repr", repr, sequence)


def changed(ctx, case, inspect):
    """The sequence of a case, constructed with other fields and changed after it was inspected."""
    before = case["former"]
    n = len(case["offsets"])
    duration = case["duration"] * before["duration"]
    sequence = ctx.ok(
        "DynamicDecouplingSequence", ctx.lib.Sequence, duration, np.array([duration * (i + 0.5) / n for i in range(n)]),
        np.array([PI * (1 + i % 3) / 2 for i in range(n)]), np.array([0.5 * i for i in range(n)]), np.zeros(n),
        before["name"],
    )
    inspect(sequence)
    for field in FIELDS:
        values = np.array(case[field], dtype=float)
        array = getattr(sequence, field)
        if before["how"] == "inplace" and array.flags.writeable and array.dtype == values.dtype:
            array[:] = values
        else:
            setattr(sequence, field, values)
    sequence.duration = scalar(case["duration"], case["dform"])
    sequence.name = case["name"]
    ctx.count["modified_sequences"] += 1
    return sequence


def construct(ctx, case, values=None, function=None, duration=None, inspect=None):
    if case.get("former") and values is None and function is None and duration is None:
        return changed(ctx, case, inspect or (lambda sequence: touch(ctx, sequence)))
    values = arguments(case) if values is None else values
    function = ctx.ok if function is None else function
    if duration is None:
        duration = scalar(case["duration"], case["dform"])
    what = "DynamicDecouplingSequence"
    if case["style"] == "pos":
        return function(what, ctx.lib.Sequence, duration, *[values[f] for f in FIELDS], case["name"])
    kwargs = dict(values)
    if case["name"] is not None:
        kwargs["name"] = case["name"]
    return function(what, ctx.lib.Sequence, duration=duration, **kwargs)


def build(ctx, case):
    return construct(ctx, case), expected_fields(case)


def key(case):
    return tuple(tuple(case[f]) for f in FIELDS) + (case["duration"], case["name"])


def observe(ctx, sequence):
    """Observed pulses: [(offset, rabi, azimuth, detuning)] as Python floats."""
    fields = [[float(v) for v in getattr(sequence, f)] for f in FIELDS]
    ctx.require(
        len({len(f) for f in fields}) == 1, "ragged", "fields of different lengths %s", [len(f) for f in fields]
    )
    for field in fields:
        ctx.require(all(math.isfinite(v) for v in field), "not-finite", "non-finite field %s", field[:20])
    return list(zip(*fields))


def truncated(counts):
    return [int(math.floor(c)) for c in counts]


def make_predefined(g, limits=None, kinds=None):
    """A request of a predefined sequence."""
    limits = limits or {}
    kind = g.pick(kinds or sorted(PREDEFINED))
    counts = []
    for name in PREDEFINED[kind]:
        if name == "paley_order":
            counts.append(g.count(2000))
        elif kind == "x_concatenated":
            counts.append(g.int(1, limits.get(kind, 9)))
        elif kind == "xy_concatenated":
            counts.append(g.int(1, limits.get(kind, 4)))
        elif kind == "quadratic":
            counts.append(g.count(limits.get(kind, 20)))
        else:
            counts.append(g.count(limits.get(kind, 200)))
    counts = [g.count_value(c) for c in counts]
    if kind == "walsh":
        counts = [min(c, 2000) for c in counts]
    return {
        "kind": kind, "counts": counts, "duration": g.duration(), "name": g.name(),
        "pre_post": g.pick([True, False, None]), "style": g.pick(["kw", "kw", "pos"]),
        "dform": g.pick(SCALAR_FORMS), "cform": g.pick(["py", "py", "py", "np"]),
        "pform": g.pick(FLAG_FORMS),
    }


def build_predefined(ctx, case, duration=None, pre_post="case", function=None):
    """Requests the predefined sequence of a case."""
    function = ctx.ok if function is None else function
    if pre_post == "case":
        pre_post = case["pre_post"]
    duration = scalar(case["duration"] if duration is None else duration, case["dform"])
    counts = list(case["counts"])
    if case["cform"] == "np":
        counts = [np.int64(c) if isinstance(c, int) else np.float64(c) for c in counts]
    factory = ctx.lib.sequences[case["kind"]]
    what = "new_%s_sequence" % case["kind"]
    if case["style"] == "pos":
        return function(what, factory, duration, *counts, flag(pre_post, case.get("pform")), case["name"])
    kwargs = dict(zip(PREDEFINED[case["kind"]], counts), duration=duration)
    if pre_post is not None:
        kwargs["pre_post_rotation"] = flag(pre_post, case.get("pform"))
    if case["name"] is not None:
        kwargs["name"] = case["name"]
    return function(what, factory, **kwargs)
