"""C28: symmetries of requests carry over to results."""

import math

from vm import control as vc
from vm import conversion as vv
from vm import driven, ref
from vm import sequence as vs

RULE = (
    "Cases: a request and its image under a symmetry: another azimuthal angle of a predefined control; a "
    "sequence with all azimuthal angles shifted, all detunings reversed, mirrored in time, or with an "
    "additional pulse without rotation in an idle interval, then converted. Non-trivial: both results were "
    "obtained and compared segment by segment, or both refused; distinct by request and symmetry."
)
ASSUMPTIONS = [
    "times compared within 1e-10 of the duration (plus the gap tolerance at a limit), angles within 1e-9",
    "outcomes are compared when the request is not within the tolerance of a limit",
]
COUNT = {"quick": 30000, "thorough": 250000}
MINIMUM = {"control_pairs": 4000, "conversion_pairs": 5000, "refused_pairs": 500, "mirrored": 1000, "inserted": 500}
SYMMETRIES = ["phase", "detuning", "mirror", "insert"]


def random_case(g, _tier):
    if g.flip(0.35):
        case = {"kind": "control", "control": driven.make_case(g), "shift": g.angle()}
        case["control"]["style"] = "kw"
        return case
    inner = vv.make_case(g, invalid=0.2)
    inner["rform"] = "py"
    return {
        "kind": "conversion", "conversion": inner, "symmetry": g.pick(SYMMETRIES), "shift": g.angle(),
        "where": g.rng.random(), "place": g.int(0, 1000),
    }


def check(ctx, case):
    if case["kind"] == "control":
        control_pair(ctx, case)
    else:
        conversion_pair(ctx, case)


def control_pair(ctx, case):
    base = case["control"]
    other = dict(base, phi=float(base["phi"]) + case["shift"])
    first, second = driven.build(ctx, base), driven.build(ctx, other)
    one, two = driven.segments_of(ctx, first), driven.segments_of(ctx, second)
    ctx.count["control_pairs"] += 1
    ctx.nontrivial("control", base["kind"], base["theta"], base["rate"], base["phi"], case["shift"])
    ctx.require(
        len(one) == len(two), "control-number:" + base["kind"], "%d segments, %d with another azimuthal angle", len(one),
        len(two),
    )
    shift = float(other["phi"]) - float(base["phi"])
    for i, (a, b) in enumerate(zip(one, two)):
        ctx.require(
            vc.close(a[0], b[0], 1e-12) and vc.close(a[1], b[1], 1e-12) and a[3] == b[3]
            and ref.angle_difference(b[2], a[2] + shift) <= 1e-9,
            "control:" + base["kind"], "segment %d of %s is %s, with azimuthal angle shifted by %r it is %s", i,
            base["kind"], a, shift, b,
        )


def image(ctx, case, pulses, duration):
    """The pulses of the transformed sequence; None if there is no such image."""
    symmetry = case["symmetry"]
    if symmetry == "phase":
        return [(t, r, a + case["shift"], d) for t, r, a, d in pulses]
    if symmetry == "detuning":
        return [(t, r, a, -d) for t, r, a, d in pulses]
    if symmetry == "mirror":
        return [(0.0 if t == duration else duration - t, r, a, d) for t, r, a, d in reversed(pulses)]
    # an idle interval of the expected timeline, divided by a pulse without rotation
    edges = [0.0] + [p[0] for p in pulses] + [duration]
    gaps = [i for i in range(len(edges) - 1) if edges[i + 1] - edges[i] > 1e-6 * duration]
    if not gaps:
        return None
    i = gaps[case["place"] % len(gaps)]
    where = edges[i] + (0.1 + 0.8 * case["where"]) * (edges[i + 1] - edges[i])
    return sorted(pulses + [(where, 0.0, case["shift"], 0.0)])


def join_idle(segments, smallest):
    """Adjacent idle segments are one."""
    result = []
    for dt, rabi, phi, det in segments:
        if rabi or det:
            result.append([dt, rabi, phi, det])
        elif dt > smallest:
            if result and not result[-1][1] and not result[-1][3]:
                result[-1][0] += dt
            else:
                result.append([dt, 0.0, 0.0, 0.0])
    return result


def conversion_pair(ctx, case):
    inner = case["conversion"]
    first = vv.sequence_of(ctx, inner)
    duration = float(first.duration)
    pulses = vs.observe(ctx, first)
    pulses = [tuple(float(v) for v in p) for p in pulses]
    mirrored = image(ctx, case, pulses, duration)
    ctx.nontrivial(vv.key(inner), case["symmetry"], case["shift"])
    if mirrored is None:
        return
    columns = [list(c) for c in zip(*mirrored)] if mirrored else [[], [], [], []]
    second = ctx.ok("DynamicDecouplingSequence", ctx.lib.Sequence, duration, *columns)
    verdicts = [vv.expectation(ctx, inner, s)[0] for s in (first, second)]
    (a, error_a), (b, error_b) = vv.convert(ctx, inner, first), vv.convert(ctx, inner, second)
    if "either" in verdicts or verdicts[0] != verdicts[1]:
        ctx.count["at_limit"] += 1
        return
    label = case["symmetry"]
    ctx.require(
        (error_a is None) == (error_b is None), "outcome:" + label, "sequence: %r, after %s: %r", error_a, label, error_b
    )
    if error_a is not None:
        ctx.count["refused_pairs"] += 1
        return
    one, two = [join_idle(vv.observed_segments(c), 1e-11 * duration) for c in (a, b)]
    if label == "mirror":
        one = one[::-1]
    ctx.count["conversion_pairs"] += 1
    ctx.count[{"mirror": "mirrored", "insert": "inserted"}.get(label, label)] += 1
    ctx.require(
        len(one) == len(two), "segments:" + label, "%d segments, after %s %d", len(one), label, len(two)
    )
    for i, (p, q) in enumerate(zip(one, two)):
        sign = -1.0 if label == "detuning" else 1.0
        shift = case["shift"] if label == "phase" and p[1] else 0.0
        relative = 1e-9 + 1e-12 * duration / p[0]
        ctx.require(
            abs(p[0] - q[0]) <= 1e-10 * duration and vc.close(p[1], q[1], relative)
            and vc.close(sign * p[3], q[3], relative)
            and (not p[1] or ref.angle_difference(q[2], p[2] + shift) <= 1e-9 * (1.0 + math.fabs(p[2]))),
            "segment:" + label, "segment %d of %d is %s, after %s %s", i, len(one), p, label, q,
        )
    ctx.note = {"symmetry": label, "segments": len(one)}
