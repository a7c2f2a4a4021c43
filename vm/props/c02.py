"""C02: first-order insensitivity of the composite controls."""

from vm import driven, ref

RULE = (
    "Cases: a grid and random requests of the robust schemes; the first-order response of each returned "
    "control to a constant relative amplitude error and/or a constant detuning is computed in the "
    "toggling frame. Non-trivial: a response was computed; distinct by (scheme, angle, phase, rate)."
)
ASSUMPTIONS = [
    "residual bounds: 1e-8 (floating point), 1e-6 for WAMF1, 2e-2 for SCROFULOUS tables",
]
COUNT = {"quick": 50000, "thorough": 700000}
MINIMUM = {"amplitude_responses": 5000, "dephasing_responses": 5000}
AMPLITUDE = {
    "bb1": 1e-8, "sk1": 1e-8, "corpse_in_bb1": 1e-8, "corpse_in_sk1": 1e-8, "scrofulous": 2e-2,
    "corpse_in_scrofulous": 2e-2,
}
DEPHASING = {
    "corpse": 1e-8, "wamf1": 1e-6, "corpse_in_bb1": 1e-8, "corpse_in_sk1": 1e-8,
    "corpse_in_scrofulous": 1e-8,
}


def systematic(_tier):
    return (c for c in driven.systematic_angles() if c["kind"] != "primitive")


def random_case(g, _tier):
    while True:
        case = driven.make_case(g)
        if case["kind"] != "primitive":
            return case


mix = driven.mix_fields(lambda g: random_case(g, None))


def check(ctx, case):
    control = driven.build(ctx, case)
    segments = driven.segments_of(ctx, control)
    kind = case["kind"]
    ctx.nontrivial(kind, case["theta"], driven.effective_phi(case), case["rate"])
    ctx.require(
        all(s[3] == 0.0 for s in segments), "detuned", "%s has detuned segments %s", kind, segments
    )
    note = {}
    if kind in AMPLITUDE:
        response, size = ref.amplitude_response(segments)
        ctx.count["amplitude_responses"] += 1
        note["amplitude"] = response
        ctx.require(
            response <= AMPLITUDE[kind] * max(1.0, size / 10.0),
            "amplitude:" + kind,
            "%s(theta=%r, rate=%r, phi=%r): first-order amplitude response %.3g rad",
            kind, case["theta"], case["rate"], case["phi"], response,
        )
    if kind in DEPHASING:
        response = ref.dephasing_response(segments)
        ctx.count["dephasing_responses"] += 1
        note["dephasing"] = response
        ctx.require(
            response <= DEPHASING[kind],
            "dephasing:" + kind,
            "%s(theta=%r, rate=%r, phi=%r): first-order dephasing response %.3g of the duration",
            kind, case["theta"], case["rate"], case["phi"], response,
        )
    ctx.note = note
