"""C06: construction of driven controls."""

import numpy as np

from vm import control as vc

RULE = (
    "Cases: arbitrary segment lists handed over in different containers and number types, valid or with "
    "one defect injected at a chosen position (non-positive duration, negative Rabi rate, wrong length). "
    "Non-trivial: every field of an accepted control was compared or a refusal was confirmed; distinct by "
    "content and defect."
)
ASSUMPTIONS = ["at least one segment; finite values (NaN only among durations)"]
COUNT = {"quick": 70000, "thorough": 700000}
MINIMUM = {"stored": 15000, "refusals_confirmed": 8000}


def systematic(_tier):
    # every position of every defect in short controls, all subsets of omitted fields
    for n in range(1, 7):
        base = {
            "durations": [1.0 + i for i in range(n)], "rabi_rates": [0.5 * i for i in range(n)],
            "azimuthal_angles": [0.25 * i for i in range(n)], "detunings": [float(i - 1) for i in range(n)],
            "forms": {f: "list" for f in vc.FIELDS}, "name": None, "style": "kw", "later": None,
        }
        for mask in range(8):
            case = dict(base)
            for bit, field in enumerate(vc.FIELDS[1:]):
                if mask >> bit & 1:
                    case[field] = None
            for style in ("kw", "pos"):
                yield dict(case, style=style, kind="valid", defect=None)
            for position in range(n):
                for value in (0.0, -1.0, -1e-300, float("nan"), -0.0):
                    yield dict(case, kind="duration", defect=[position, value])
                if case["rabi_rates"] is not None:
                    for value in (-1.0, -1e-300, -1e-9):
                        yield dict(case, kind="rabi", defect=[position, value])
            for field in vc.FIELDS[1:]:
                if case[field] is not None:
                    for length in sorted({0, 1, n - 1, n + 1, 2 * n} - {n}):
                        yield dict(case, kind="length", defect=[field, length])


def random_case(g, _tier):
    case = vc.make_control(g)
    case["later"] = None
    case["kind"] = "valid"
    case["defect"] = None
    n = len(case["durations"])
    if g.flip(0.4):
        kind = g.pick(["duration", "rabi", "length"])
        position = g.pick([0, n - 1, g.int(0, n - 1)])
        if kind == "duration":
            case["defect"] = [position, g.pick([0.0, -0.0, -1.0, -1e-300, -1e-12, float("nan"), -g.duration()])]
            case["kind"] = kind
        elif kind == "rabi" and case["rabi_rates"] is not None:
            case["defect"] = [position, g.pick([-1.0, -1e-300, -1e-9, -1e-12, -g.rate()])]
            case["kind"] = kind
        elif kind == "length":
            fields = [f for f in vc.FIELDS[1:] if case[f] is not None]
            if fields:
                length = g.pick([n + 1, n - 1, 2 * n, 0, 1, n + g.int(1, 5)])
                if length != n:
                    case["defect"] = [g.pick(fields), length]
                    case["kind"] = kind
        for field in vc.FIELDS:
            if case["kind"] != "valid" and case["forms"][field] in ("i8", "i4", "f4", "ints", "mixed"):
                case["forms"] = dict(case["forms"], **{field: g.pick(["list", "f8", "tuple"])})
    return case


def check(ctx, case):
    kind = case["kind"]
    if kind == "valid":
        control = vc.construct(ctx, case)
        expected = vc.expected_fields(case)
        n = len(case["durations"])
        for field in vc.FIELDS:
            observed = getattr(control, field)
            ctx.require(
                isinstance(observed, np.ndarray) and observed.shape == (n,) and observed.dtype.kind == "f",
                "shape:" + field, "%s stored as %r", field, observed,
            )
            values = [float(v) for v in observed]
            ctx.require(
                values == expected[field], "stored:" + field, "%s given %s, stored %s (handed over as %s)",
                field, expected[field][:20], values[:20], case["forms"][field],
            )
        ctx.require(control.name == case["name"], "name", "name given %r, stored %r", case["name"], control.name)
        ctx.count["stored"] += 1
        ctx.nontrivial(vc.key(case))
        ctx.note = {"stored": {f: expected[f][:5] for f in vc.FIELDS}}
        return
    bad = dict(case)
    if kind == "duration":
        bad["durations"] = list(case["durations"])
        bad["durations"][case["defect"][0]] = case["defect"][1]
    elif kind == "rabi":
        bad["rabi_rates"] = list(case["rabi_rates"])
        bad["rabi_rates"][case["defect"][0]] = case["defect"][1]
    else:
        field, length = case["defect"]
        values = list(case[field])
        bad[field] = (values * (length // max(1, len(values)) + 1))[:length]
    values = vc.arguments(bad)
    what = "DrivenControl with defect %s %s among %d segments" % (kind, case["defect"], len(case["durations"]))
    if case["style"] == "pos":
        ctx.refused(what, ctx.lib.DrivenControl, *[values[f] for f in vc.FIELDS])
    else:
        ctx.refused(what, ctx.lib.DrivenControl, **{k: v for k, v in values.items() if v is not None})
    ctx.nontrivial(kind, str(case["defect"]), vc.key(case))
