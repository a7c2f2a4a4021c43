"""
Shared workload for arbitrary driven controls.
"""

import math

import numpy as np

from vm.gen import materialize

FIELDS = ("durations", "rabi_rates", "azimuthal_angles", "detunings")


def make_control(g, maximum=40):
    """A description of an arbitrary valid driven control and of how it comes about."""
    segments = g.segments(maximum)
    case = dict(segments)
    case["forms"] = {f: g.form(segments[f]) for f in FIELDS}
    case["name"] = g.name()
    case["style"] = g.pick(["kw", "kw", "pos"])
    # a control may have been inspected and its fields modified before
    case["later"] = None
    if g.flip(0.15):
        other = g.segments(maximum)
        n = len(segments["durations"])
        if len(other["durations"]) == n or g.flip(0.5):
            for f in FIELDS:
                if other[f] is None:
                    other[f] = [0.0] * len(other["durations"])
            same = len(other["durations"]) == n
            case["later"] = dict(other, how="inplace" if same and g.flip() else "assign", name=g.name())
    return case


def arguments(case):
    return {f: materialize(case[f], case["forms"][f]) for f in FIELDS}


def expected_fields(case, source=None):
    source = case if source is None else source
    n = len(source["durations"])
    return {
        f: [0.0] * n if source[f] is None else [float(v) for v in source[f]] for f in FIELDS
    }


def touch(ctx, control):
    """Inspects a control in all ways (results are judged elsewhere)."""
    for name in (
        "number_of_segments", "maximum_rabi_rate", "maximum_detuning", "amplitude_x", "amplitude_y",
        "angles", "directions", "times", "maximum_duration", "minimum_duration", "duration",
    ):
        ctx.ok(name, getattr, control, name)
    ctx.ok("export", control.export)
    ctx.ok("export", control.export, coordinates="cartesian", dimensionless_rabi_rate=False)
    ctx.ok("str", str, control)
    ctx.ok("repr", repr, control)


def construct(ctx, case, values=None):
    values = arguments(case) if values is None else values
    given = {k: v for k, v in values.items() if v is not None}
    if case["style"] == "pos":
        return ctx.ok(
            "DrivenControl", ctx.lib.DrivenControl, values["durations"], values["rabi_rates"],
            values["azimuthal_angles"], values["detunings"], case["name"],
        )
    if case["name"] is not None:
        given["name"] = case["name"]
    return ctx.ok("DrivenControl", ctx.lib.DrivenControl, **given)


def build(ctx, case):
    """The control of a case and the fields it has to have: (control, fields)."""
    later = case["later"]
    if later is None:
        return construct(ctx, case), expected_fields(case)
    control = construct(ctx, dict(case, name=later.get("name")))
    touch(ctx, control)
    control.name = case["name"]
    for f in FIELDS:
        values = np.array(later[f], dtype=float)
        if later["how"] == "inplace":
            array = getattr(control, f)
            if not array.flags.writeable:
                setattr(control, f, values)
            else:
                array[:] = values
        else:
            setattr(control, f, values)
    ctx.count["modified_controls"] += 1
    return control, expected_fields(case, later)


def key(case):
    """Identity of a control up to how it is handed over."""
    later = case["later"] or {}
    return tuple(
        tuple(v) if isinstance(v, list) else v
        for v in [case[f] for f in FIELDS] + [case["name"]] + [later.get(f) for f in FIELDS]
    )


def close(a, b, tolerance, floor=0.0):
    """a equals b relative to b, or absolutely to the floor."""
    return math.isfinite(a) and abs(a - b) <= tolerance * abs(b) + floor
