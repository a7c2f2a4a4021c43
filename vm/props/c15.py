"""C15: construction of sequences and their plot data."""

import cmath

import numpy as np

from vm import sequence as vs
from vm.gen import scalar

RULE = (
    "Cases: arbitrary pulse lists in different containers, valid or with one injected defect, and the "
    "plot data of the valid ones. Non-trivial: all fields and plot entries compared, or a refusal "
    "confirmed; distinct by content and defect."
)
ASSUMPTIONS = ["finite values (NaN only as duration or offset)"]
COUNT = {"quick": 60000, "thorough": 400000}
MINIMUM = {"stored": 15000, "refusals_confirmed": 8000, "empty": 300, "modified_sequences": 1000}


def systematic(_tier):
    for n in range(0, 6):
        base = {
            "duration": 5.0, "offsets": [float(i) for i in range(n)], "rabi_rotations": [0.5 * i for i in range(n)],
            "azimuthal_angles": [0.25 * i for i in range(n)], "detuning_rotations": [float(i - 1) for i in range(n)],
            "forms": {f: "list" for f in vs.FIELDS}, "name": None, "style": "kw", "dform": "float",
            "kind": "valid", "defect": None,
        }
        yield base
        for bad in (0.0, -1.0, -1e-300, float("nan"), -0.0, -5.0):
            yield dict(base, kind="duration", defect=bad)
        for i in range(n):
            for bad in (-1e-300, -1.0, 5.000001, 6.0, float("nan"), float(np.nextafter(5.0, 6.0)), -1e-12):
                yield dict(base, kind="offset", defect=[i, bad])
        for field in vs.FIELDS:
            for length in sorted({0, 1, n - 1, n + 1, 2 * n} - {n, -1}):
                yield dict(base, kind="length", defect=[field, length])


def random_case(g, _tier):
    case = vs.make_sequence(g)
    case["kind"] = "valid"
    case["defect"] = None
    n = len(case["offsets"])
    if g.flip(0.4):
        kind = g.pick(["duration", "offset", "length"])
        T = case["duration"]
        if kind == "duration":
            case["defect"] = g.pick([0.0, -0.0, -1.0, -T, -1e-300, float("nan")])
            case["kind"] = kind
        elif kind == "offset" and n:
            case["defect"] = [
                g.pick([0, n - 1, g.int(0, n - 1)]),
                g.pick([
                    -1e-300, -T, -1e-12 * T, float(np.nextafter(T, 2 * T)), T * (1 + 1e-9), 2 * T, float("nan"),
                    float("inf"),
                ]),
            ]
            case["kind"] = kind
        elif kind == "length":
            length = g.pick([n + 1, n - 1, 2 * n, 0, 1])
            if length != n and length >= 0:
                case["defect"] = [g.pick(vs.FIELDS), length]
                case["kind"] = kind
        if case["kind"] != "valid":
            case["forms"] = {f: g.pick(["list", "f8", "tuple"]) for f in vs.FIELDS}
    return case


def check(ctx, case):
    kind = case["kind"]
    if kind == "valid":
        sequence = vs.construct(ctx, case)
        expected = vs.expected_fields(case)
        n = len(case["offsets"])
        for field in vs.FIELDS:
            observed = [float(v) for v in getattr(sequence, field)]
            ctx.require(
                observed == expected[field], "stored:" + field, "%s given %s, stored %s (handed over as %s)",
                field, expected[field][:20], observed[:20], case["forms"][field],
            )
        ctx.require(
            float(sequence.duration) == case["duration"], "stored:duration", "duration given %r, stored %r",
            case["duration"], sequence.duration,
        )
        ctx.require(sequence.name == case["name"], "name", "name given %r, stored %r", case["name"], sequence.name)
        ctx.count["stored"] += 1
        ctx.count["empty"] += n == 0
        data = ctx.ok("export", sequence.export)
        ctx.require(set(data) == {"Rabi", "Detuning"}, "keys", "plot data %s", sorted(data))
        for name in ("Rabi", "Detuning"):
            ctx.require(
                len(data[name]) == n, "entries:" + name, "%d %s entries for %d pulses", len(data[name]), name, n
            )
            for i, entry in enumerate(data[name]):
                ctx.require(set(entry) == {"rotation", "offset"}, "entry", "%s entry %s", name, entry)
                ctx.require(
                    float(entry["offset"]) == expected["offsets"][i], "entry-offset:" + name,
                    "%s entry %d of %d at %r, is %r", name, i, n, entry["offset"], expected["offsets"][i],
                )
                if name == "Rabi":
                    value = cmath.rect(expected["rabi_rotations"][i], expected["azimuthal_angles"][i])
                else:
                    value = expected["detuning_rotations"][i]
                ctx.require(
                    abs(complex(entry["rotation"]) - value) <= 1e-11 * abs(value), "entry-rotation:" + name,
                    "%s entry %d of %d: %r, is %r", name, i, n, entry["rotation"], value,
                )
        ctx.nontrivial(vs.key(case))
        ctx.note = {"pulses": n, "first": {f: expected[f][:2] for f in vs.FIELDS}}
        return
    bad = dict(case)
    duration = scalar(case["duration"], case["dform"])
    if kind == "duration":
        duration = case["defect"]
    elif kind == "offset":
        bad["offsets"] = list(case["offsets"])
        bad["offsets"][case["defect"][0]] = case["defect"][1]
    else:
        field, length = case["defect"]
        values = list(case[field]) or [0.0]
        bad[field] = (values * (length // len(values) + 1))[:length]
    ctx.nontrivial(kind, str(case["defect"]), vs.key(case))
    vs.construct(ctx, bad, function=ctx.refused, duration=duration)
