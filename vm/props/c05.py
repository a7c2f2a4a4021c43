"""C05: modulated Gaussian controls."""

import math

from vm import driven, gaussian, ref
from vm.gen import PI

RULE = (
    "Cases: a grid and random requests of modulated Gaussian controls; the returned segments are "
    "compared with the documented envelope, and the net rotation is computed. Non-trivial: shape and "
    "net rotation were judged; distinct by request."
)
ASSUMPTIONS = [
    "relative tolerance 1e-9 per segment plus the rounding of the argument of the sine",
    "when all samples of the modulation vanish up to rounding only the net rotation is judged",
]
COUNT = {"quick": 16000, "thorough": 200000}
MINIMUM = {"shapes": 8000, "net": 8000, "unmodulated": 2000}


def systematic(_tier):
    return gaussian.systematic_cases()


def random_case(g, _tier):
    return gaussian.make_case(g)


mix = gaussian.mix


def check(ctx, case):
    label = "gaussian(rate=%r, minimum=%r, duration=%r, frequency=%r)" % (
        case["rate"], case["minimum"], case["duration"], case["frequency"],
    )
    control = gaussian.build(ctx, case)
    segments = driven.segments_of(ctx, control)
    count = len(segments)
    duration, minimum, rate = case["duration"], case["minimum"], case["rate"]
    ratio = duration / minimum
    ctx.require(
        count >= 1 and count <= ratio * (1 + 1e-8) + 1e-8, "too-short",
        "%s: %d segments are shorter than the minimum", label, count,
    )
    ctx.require(
        count + 1 > ratio * (1 - 1e-8) - 1e-8, "too-few",
        "%s: only %d segments", label, count,
    )
    for s in segments:
        ctx.require(
            abs(s[0] - duration / count) <= 1e-9 * duration / count, "unequal",
            "%s: segment duration %r, expected %r", label, s[0], duration / count,
        )
        ctx.require(s[3] == 0.0, "detuned", "%s: detuning %r", label, s[3])
        ctx.require(
            abs(math.sin(s[2])) <= 1e-9 or s[1] <= 1e-9 * rate, "axis", "%s: azimuthal angle %r", label, s[2]
        )
        ctx.require(s[1] >= 0, "negative", "%s: rate %r", label, s[1])
    total = math.fsum(s[0] for s in segments)
    ctx.require(abs(total - duration) <= 1e-9 * duration, "total", "%s: total duration %r", label, total)

    signed = [s[1] * (1.0 if math.cos(s[2]) > 0 else -1.0) for s in segments]
    angle = math.fsum(v * s[0] for v, s in zip(signed, segments))
    size = math.fsum(abs(v) * s[0] for v, s in zip(signed, segments))
    ctx.count["net"] += 1
    ctx.nontrivial(rate, minimum, duration, case["frequency"])
    ctx.note = {"segments": count, "net_rotation": angle, "total_rotation": size}
    values = gaussian.shape(count, duration, case["frequency"])
    if case["frequency"] != 0:
        ctx.require(
            abs(angle) <= 1e-9 * max(size, 1e-3), "net-rotation",
            "%s: net rotation %r of total %r", label, angle, size,
        )
        top = max(values)
        error = gaussian.noise(duration, case["frequency"])
        if top > 0 and top > 100 * error:
            ctx.count["shapes"] += 1
            for n, (v, w) in enumerate(zip(signed, values)):
                ctx.require(
                    abs(v / rate - w / top) <= 1e-9 + 20 * error / top, "shape",
                    "%s: segment %d of %d is %r, expected %r", label, n, count, v, rate * w / top,
                )
    else:
        ctx.count["unmodulated"] += 1
        top = max(values)
        full = duration / count * math.fsum(w / top for w in values) * rate
        turns = full / (2 * PI)
        allowed = {max(1, math.floor(turns * (1 + 1e-9) + 1e-12)), max(1, math.floor(turns * (1 - 1e-9)))}
        observed = round(angle / (2 * PI))
        ctx.require(
            abs(angle - 2 * PI * observed) <= 1e-8 * max(1.0, angle), "net-rotation",
            "%s: rotation by %r is not a multiple of 2 pi", label, angle,
        )
        ctx.require(
            observed in allowed, "turns", "%s: %d full turns, possible %r", label, observed, turns
        )
        peak = max(abs(v) for v in signed)
        ctx.count["shapes"] += 1
        for n, (v, w) in enumerate(zip(signed, values)):
            ctx.require(
                abs(v / peak - w / top) <= 1e-9, "shape",
                "%s: segment %d of %d is %r, expected %r", label, n, count, v, peak * w / top,
            )
    unitary = ref.net_unitary(segments)
    ctx.require(
        ref.qdistance(unitary, ref.IDENTITY) <= 1e-7 * max(1.0, size * 0.01), "not-identity",
        "%s: net unitary %s", label, unitary,
    )
