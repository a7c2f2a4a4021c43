"""C01: net operation of the predefined driven controls."""

import math

from vm import driven, ref

RULE = (
    "Cases: a grid of (scheme, angle, phase, rate) plus random requests; each control returned by the "
    "library is multiplied out segment by segment and compared with the requested rotation. A case "
    "counts as non-trivial when a control was returned and its net unitary compared; distinct by "
    "(scheme, angle, phase, rate)."
)
ASSUMPTIONS = [
    "floating-point tolerance 1e-9 (5e-3 for the SCROFULOUS family) on the SU(2) distance",
    "tabulated schemes may take an angle within 1e-5 of a supported one for it",
]
COUNT = {"quick": 60000, "thorough": 900000}
MINIMUM = {"compared": 20000, "near": 500}
TOLERANCE = {"scrofulous": 5e-3, "corpse_in_scrofulous": 5e-3, "wamf1": 1e-9}


def systematic(_tier):
    return driven.systematic_angles()


def random_case(g, _tier):
    case = driven.make_case(g)
    if case["kind"] in ref.TABULATED and g.flip(0.15):
        # an angle near a supported one: refused, or close enough
        case["theta"] = g.pick(driven.TABLE) * (1.0 + g.pick([-1, 1]) * g.logu(1e-9, 0.5))
        case["near"] = True
    return case


mix = driven.mix


def near(ctx, case):
    """Requests an angle which may be refused."""
    control, error = ctx.call(
        ctx.lib.controls[case["kind"]], rabi_rotation=case["theta"], maximum_rabi_rate=case["rate"],
        azimuthal_angle=driven.effective_phi(case),
    )
    ctx.require(
        error is None or isinstance(error, ctx.lib.ArgumentsValueError), "exception", "theta=%r raised %r",
        case["theta"], error,
    )
    return control, error


def check(ctx, case):
    if case.get("near"):
        ctx.count["near"] += 1
        control, error = near(ctx, case)
        if error is not None:
            ctx.nontrivial(case["kind"], case["theta"])
            return
    else:
        control = driven.build(ctx, case)
    segments = driven.segments_of(ctx, control)
    phi = driven.effective_phi(case)
    target = ref.rotation(case["theta"], (math.cos(phi), math.sin(phi), 0.0))
    distance = ref.qdistance(ref.net_unitary(segments), target)
    ctx.count["compared"] += 1
    ctx.nontrivial(case["kind"], case["theta"], phi, case["rate"])
    ctx.note = {"segments": len(segments), "distance": distance}
    ctx.require(
        distance <= TOLERANCE.get(case["kind"], 1e-9) + (2e-5 if case.get("near") else 0.0),
        "net-operation:" + case["kind"],
        "%s(theta=%r, rate=%r, phi=%r): net unitary deviates by %.3g",
        case["kind"], case["theta"], case["rate"], phi, distance,
    )
