"""
Shared workload and observation for the predefined driven controls.
"""

import math

from vm import ref
from vm.core import mix_fields
from vm.gen import PI, SCALAR_FORMS, scalar

TABLE = [PI, PI / 2, PI / 4]
TABLE_ROUNDED = [
    math.radians(180.0), math.radians(90.0), math.radians(45.0), 2 * math.atan(1.0),
    math.acos(0.0), math.asin(1.0), 3 * (PI / 3), 0.5 * PI, 0.25 * PI,
    math.nextafter(PI, 4.0) if hasattr(math, "nextafter") else PI,
]


def theta_for(scheme, g):
    """A supported rotation angle of the scheme."""
    if scheme in ref.TABULATED:
        return g.pick(TABLE) if g.flip(0.8) else g.pick(TABLE_ROUNDED)
    limit = 4 * PI
    roll = g.rng.random()
    if roll < 0.3:
        theta = g.int(1, 48) * PI / g.pick([1.0, 2.0, 3.0, 4.0, 6.0, 12.0])
    elif roll < 0.6:
        theta = g.u(0.0, limit)
    elif roll < 0.7:
        theta = abs(g.literal())
    elif roll < 0.8:
        theta = g.logu(1e-4, 1.0)
    elif roll < 0.87:
        theta = limit * (1.0 - g.logu(1e-15, 1e-2))
    elif roll < 0.92:
        theta = float(g.int(1, 12))
    elif roll < 0.96:
        theta = g.pick([limit, 2 * PI, 3 * PI, PI]) * (1 + g.pick([-1, 1]) * g.logu(1e-15, 1e-3))
    else:
        theta = g.u(limit, 20 * PI)
    if scheme in ref.WIMPERIS:
        if not 0.0 < theta <= limit:
            theta = limit if g.flip(0.2) else g.u(1e-3, limit)
    elif not 1e-4 <= theta <= 100.0:
        theta = g.u(1e-3, limit)
    return max(theta, 1e-4)


def make_case(g):
    scheme = g.pick(ref.SCHEMES)
    return {
        "kind": scheme,
        "theta": theta_for(scheme, g),
        "rate": g.rate(),
        "phi": g.angle(),
        "name": g.name(),
        "style": g.pick(["kw", "kw", "pos", "mix", "default"]),
        "forms": [g.pick(SCALAR_FORMS) for _ in range(3)],
    }


mix = mix_fields(make_case)


def systematic_angles():
    """Every scheme at a grid of angles, phases and rates."""
    for scheme in ref.SCHEMES:
        if scheme in ref.TABULATED:
            thetas = TABLE
        else:
            thetas = [k * PI / 12 for k in range(1, 49)] + [0.01, 0.1, 1.0, 4 * PI]
        for theta in thetas:
            for phi in (0.0, PI / 2, -PI / 3, PI, 2.5, -7.0, 3 * PI, 100.0):
                for rate in (1.0, 2 * PI, 1e-3, 1e7):
                    yield {
                        "kind": scheme, "theta": min(theta, 4 * PI), "rate": rate, "phi": phi,
                        "name": None, "style": "kw", "forms": ["py", "py", "py"],
                    }


def effective_phi(case):
    return 0.0 if case["style"] == "default" else float(case["phi"])


def effective_name(case):
    return None if case["style"] == "default" else case["name"]


def build(ctx, case, rate=None):
    """Requests the control of a case from the library."""
    theta = scalar(case["theta"], case["forms"][0])
    rate = scalar(case["rate"] if rate is None else rate, case["forms"][1])
    phi = scalar(case["phi"], case["forms"][2])
    factory = ctx.lib.controls[case["kind"]]
    what = "new_%s_control" % case["kind"]
    style = case["style"]
    if style == "pos":
        return ctx.ok(what, factory, theta, rate, phi, case["name"])
    if style == "mix":
        return ctx.ok(what, factory, theta, maximum_rabi_rate=rate, name=case["name"], azimuthal_angle=phi)
    if style == "default":
        return ctx.ok(what, factory, rabi_rotation=theta, maximum_rabi_rate=rate)
    return ctx.ok(
        what, factory, rabi_rotation=theta, maximum_rabi_rate=rate, azimuthal_angle=phi,
        name=case["name"],
    )


def segments_of(ctx, control):
    """Observed segments as Python floats: [(duration, rabi, azimuth, detuning)]."""
    fields = [
        [float(x) for x in getattr(control, name)]
        for name in ("durations", "rabi_rates", "azimuthal_angles", "detunings")
    ]
    lengths = {len(f) for f in fields}
    ctx.require(len(lengths) == 1, "ragged", "fields of different lengths %s", lengths)
    for field in fields:
        ctx.require(all(math.isfinite(x) for x in field), "not-finite", "non-finite field %s", field)
    return list(zip(*fields))
