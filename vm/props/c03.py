"""C03: documented segment tables."""

import math

from vm import driven, ref
from vm.gen import PI

RULE = (
    "Cases: a grid and random requests; the returned segments are compared one by one with the table in "
    "the documentation of the scheme. Non-trivial: all segments of a control were compared; distinct by "
    "(scheme, angle, phase, rate, name)."
)
ASSUMPTIONS = [
    "CORPSE: third angle is theta/2 - arcsin(sin(theta/2)/2) (the documentation omits the arcsin)",
    "SCROFULOUS: the first angle may be rounded to 0.1 degree as published",
]
COUNT = {"quick": 60000, "thorough": 900000}
MINIMUM = {"segments_compared": 50000}


def systematic(_tier):
    return driven.systematic_angles()


def random_case(g, _tier):
    return driven.make_case(g)


mix = driven.mix


def expected(ctx, kind, theta, phi, segments):
    if not kind.endswith("scrofulous"):
        return ref.documented_segments(kind, theta, phi)
    exact = min(driven.TABLE, key=lambda t: abs(t - theta))
    # the first angle is observed, has to agree with the published rounding, and fixes the phases
    first = ref.scrofulous_first_angle(exact)
    if kind == "scrofulous":
        observed = segments[0][0] * segments[0][1]
    else:
        # the CORPSE angles of theta_1 sum (with signs) to theta_1
        observed = (
            segments[0][0] * segments[0][1]
            - segments[1][0] * segments[1][1]
            + segments[2][0] * segments[2][1]
        )
    ctx.require(
        abs(observed - first) <= math.radians(0.0501),
        "scrofulous-angle",
        "%s(%r): first angle %.6f deg, documented %.6f deg",
        kind, theta, math.degrees(observed), math.degrees(first),
    )
    phi_1, phi_2 = ref.scrofulous_phases(exact, observed)
    table = [(observed, phi_1), (PI, phi_2), (observed, phi_1)]
    if kind == "scrofulous":
        return [(angle, 1.0, phi + p) for angle, p in table]
    result = []
    for angle, p in table:
        parts = ref.corpse_angles(angle)
        result += [
            (parts[0], 1.0, phi + p), (parts[1], 1.0, phi + p + PI), (parts[2], 1.0, phi + p),
        ]
    return result


LENGTH = {
    "primitive": 1, "bb1": 4, "sk1": 3, "scrofulous": 3, "corpse": 3, "corpse_in_bb1": 6,
    "corpse_in_sk1": 5, "corpse_in_scrofulous": 9, "wamf1": 4,
}


def check(ctx, case):
    control = driven.build(ctx, case)
    segments = driven.segments_of(ctx, control)
    kind, theta, rate = case["kind"], case["theta"], case["rate"]
    phi = driven.effective_phi(case)
    label = "%s(theta=%r, rate=%r, phi=%r)" % (kind, theta, rate, phi)
    ctx.require(
        len(segments) == LENGTH[kind], "segment-count:" + kind, "%s: %d segments", label, len(segments)
    )
    table = expected(ctx, kind, theta, phi, segments)
    ctx.nontrivial(kind, theta, phi, rate, case["name"])
    ctx.note = {"segments": segments}
    for n, ((duration, rabi, azimuth, detuning), (angle, relative, phase)) in enumerate(
        zip(segments, table)
    ):
        ctx.count["segments_compared"] += 1
        ctx.require(
            abs(rabi / rate - relative) <= 1e-7,
            "rabi-rate:" + kind, "%s segment %d: Rabi rate %r, expected %r", label, n, rabi, relative * rate,
        )
        ctx.require(
            abs(duration * rate - angle / relative) <= 1e-7 * max(1.0, angle * 1e-2),
            "duration:" + kind, "%s segment %d: duration %r, expected %r",
            label, n, duration, angle / relative / rate,
        )
        ctx.require(
            ref.angle_difference(azimuth, phase) <= 1e-7,
            "azimuth:" + kind, "%s segment %d: azimuthal angle %r, expected %r", label, n, azimuth, phase,
        )
        ctx.require(detuning == 0.0, "detuning:" + kind, "%s segment %d: detuning %r", label, n, detuning)
    ctx.require(
        control.name == driven.effective_name(case), "name:" + kind,
        "%s: name %r, expected %r", label, control.name, driven.effective_name(case),
    )
