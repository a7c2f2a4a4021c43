"""C25: what a converted control does."""

import math

from vm import conversion as vv
from vm import ref
from vm import sequence as vs

RULE = (
    "Cases: conversions of predefined sequences (also with pre/post rotations), constructed timelines and "
    "arbitrary sequences at many time scales; the unitary and the dephasing response of an accepted control "
    "are integrated segment by segment and compared with those of the ideal pulses. Non-trivial: both were "
    "compared; distinct by sequence and limits."
)
ASSUMPTIONS = [
    "rotations are zero or at least 1e-6",
    "net operation within 1e-8 plus 1e-10 per pulse; response within twice the time covered by pulses",
]
COUNT = {"quick": 24000, "thorough": 150000}
MINIMUM = {"operations_compared": 10000, "responses_compared": 10000, "decoupling": 300}
DECOUPLING = ("spin_echo", "carr_purcell", "cpmg", "uhrig", "walsh", "x_concatenated", "quadratic", "xy_concatenated")


def random_case(g, _tier):
    case = vv.make_case(g, invalid=0.0)
    if case["kind"] == "predefined" and g.flip(0.6):
        # fast pulses: the conversion is accepted and hardly changes the response
        case["rabi_limit"] *= 1e4
        case["detuning_limit"] = case["rabi_limit"]
        case["minimum"] = 0.0
    return case


mix = vv.mix


def response(parts):
    """
    Toggled dephasing integral and net unitary of a list of (duration, vx, vy, vz), a rotation by v spread
    evenly over the duration (instantaneous if that is zero).
    """
    total = ref.IDENTITY
    integral = [0.0, 0.0, 0.0]
    for duration, vx, vy, vz in parts:
        angle = math.sqrt(vx * vx + vy * vy + vz * vz)
        if duration > 0.0:
            if angle == 0.0:
                local = (0.0, 0.0, duration)
            else:
                n = (vx / angle, vy / angle, vz / angle)
                # average of the inverse rotation of z about n over the angle
                s = math.sin(angle) / angle
                c = 2.0 * math.sin(angle / 2) ** 2 / angle
                cross = (n[1], -n[0], 0.0)  # n x z
                local = tuple(
                    duration * (s * (1.0 if i == 2 else 0.0) - c * cross[i] + (1.0 - s) * n[2] * n[i]) for i in range(3)
                )
            v = ref.to_frame(total, local)
            for i in range(3):
                integral[i] += v[i]
        if angle != 0.0:
            total = ref.qmul(ref.from_vector(vx, vy, vz), total)
    return integral, ref.qnormalize(total)


def check(ctx, case):
    sequence = vv.sequence_of(ctx, case)
    control, error = vv.convert(ctx, case, sequence)
    if error is not None:
        ctx.require(
            isinstance(error, ctx.lib.ArgumentsValueError), "exception", "conversion raised %r", error
        )
        return
    duration = float(sequence.duration)
    parts = []
    pulses = vs.observe(ctx, sequence)
    now = 0.0
    for offset, rabi, azimuth, detuning in pulses:
        parts.append((offset - now, 0.0, 0.0, 0.0))
        parts.append((0.0, rabi * math.cos(azimuth), rabi * math.sin(azimuth), detuning))
        now = offset
    parts.append((duration - now, 0.0, 0.0, 0.0))
    ideal, wanted = response(parts)
    segments = vv.observed_segments(control)
    driven = [
        (dt, rabi * math.cos(phi) * dt, rabi * math.sin(phi) * dt, det * dt) for dt, rabi, phi, det in segments
    ]
    actual, found = response(driven)
    ctx.nontrivial(*vv.key(case))
    size = sum(abs(p[1]) + abs(p[3]) for p in pulses)
    tolerance = 1e-8 + 1e-10 * len(pulses) + 1e-12 * size
    distance = ref.qdistance(found, wanted)
    ctx.count["operations_compared"] += 1
    ctx.require(
        distance <= tolerance, "operation", "net operation of the control differs from the pulses by %r (%d pulses)",
        distance, len(pulses),
    )
    covered = sum(s[0] for s, d in zip(segments, driven) if d[1] or d[2] or d[3])
    change = math.sqrt(sum((a - b) ** 2 for a, b in zip(actual, ideal)))
    ctx.count["responses_compared"] += 1
    allowed = 2 * covered + (1e-9 + 2e-8 * (len(pulses) + 2)) * duration
    ctx.require(
        change <= allowed, "response", "response to dephasing changes by %r of %r, pulses cover %r", change, duration,
        covered,
    )
    kind = case["request"]["kind"] if case["request"] is not None else None
    if kind in DECOUPLING and not case["request"]["pre_post"] and covered < 1e-2 * duration:
        ctx.count["decoupling"] += 1
        left = math.sqrt(sum(a * a for a in actual))
        ctx.require(
            left <= allowed, "decoupling", "%s converted with pulses covering %r of %r leaves %r", kind, covered,
            duration, left,
        )
    ctx.note = {"distance": distance, "change": change, "covered": covered}
