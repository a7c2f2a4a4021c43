"""C19: independence of the unit of time."""

from vm import control as vc
from vm import conversion as vv
from vm import ref
from vm import sequence as vs

RULE = (
    "Cases: a request at one time scale and the same request with all times multiplied and rates divided "
    "by a factor: predefined sequences and conversions. Non-trivial: both results were obtained and "
    "compared element by element, or both were refused; distinct by request and factor."
)
ASSUMPTIONS = [
    "powers of two, decimal and arbitrary factors between 1e-12 and 1e12; times compared within 1e-10 of the duration",
    "outcomes are compared when the request is not within the tolerance of a limit",
]
COUNT = {"quick": 18000, "thorough": 100000}
MINIMUM = {"sequence_pairs": 3000, "conversion_pairs": 4000, "refused_pairs": 800}


def random_case(g, _tier):
    factor = g.pick([2.0 ** g.int(-40, 40), 10.0 ** g.int(-12, 12), g.logu(1e-12, 1e12), 1e-6, 1e-9, 1e6])
    if g.flip(0.4):
        case = {"kind": "sequence", "request": vs.make_predefined(g), "factor": factor}
        case["request"]["dform"] = "py"
        return case
    case = vv.make_case(g, invalid=0.25)
    case["rform"] = "py"
    return {"kind": "conversion", "conversion": case, "factor": factor}


def compare_sequences(ctx, first, second, factor, label):
    a, b = vs.observe(ctx, first), vs.observe(ctx, second)
    duration = float(first.duration)
    ctx.require(
        len(a) == len(b), "number:" + label, "%s: %d pulses at duration %r, %d at %r",
        label, len(a), duration, len(b), float(second.duration),
    )
    for i, (p, q) in enumerate(zip(a, b)):
        ctx.require(
            abs(q[0] / factor - p[0]) <= 1e-10 * duration and q[1:] == p[1:], "pulse:" + label,
            "%s pulse %d of %d is %s at duration %r, %s at factor %r", label, i, len(a), p, duration, q, factor,
        )


def check(ctx, case):
    factor = case["factor"]
    if case["kind"] == "sequence":
        request = case["request"]
        first = vs.build_predefined(ctx, request)
        second = vs.build_predefined(ctx, request, duration=request["duration"] * factor)
        compare_sequences(ctx, first, second, factor, request["kind"])
        ctx.count["sequence_pairs"] += 1
        ctx.nontrivial(request["kind"], tuple(request["counts"]), request["duration"], factor)
        ctx.note = {"factor": factor}
        return
    inner = case["conversion"]
    if inner["request"] is not None:
        first = vs.build_predefined(ctx, inner["request"])
        second = vs.build_predefined(ctx, inner["request"], duration=inner["request"]["duration"] * factor)
    else:
        base = dict(inner["sequence"], forms={f: "list" for f in vs.FIELDS})
        scaled = dict(base, duration=base["duration"] * factor)
        scaled["offsets"] = [min(t * factor, scaled["duration"]) for t in base["offsets"]]
        scaled["offsets"] = [
            scaled["duration"] if t == base["duration"] else s for t, s in zip(base["offsets"], scaled["offsets"])
        ]
        first, second = vs.construct(ctx, base), vs.construct(ctx, scaled)
    scaled_case = dict(
        inner, rabi_limit=inner["rabi_limit"] / factor, detuning_limit=inner["detuning_limit"] / factor,
        minimum=inner["minimum"] * factor,
    )
    verdicts = [vv.expectation(ctx, inner, first)[0], vv.expectation(ctx, scaled_case, second)[0]]
    results = [vv.convert(ctx, inner, first), vv.convert(ctx, scaled_case, second)]
    ctx.nontrivial(vv.key(inner), factor)
    if "either" in verdicts or verdicts[0] != verdicts[1]:
        ctx.count["at_limit"] += 1
        return
    (a, error_a), (b, error_b) = results
    ctx.require(
        (error_a is None) == (error_b is None), "outcome",
        "outcome depends on the time scale: %r, at factor %r: %r", error_a, factor, error_b,
    )
    if error_a is not None:
        ctx.count["refused_pairs"] += 1
        return
    one, two = vv.observed_segments(a), vv.observed_segments(b)
    duration = float(first.duration)
    # between adjacent pulses idle segments of rounding size may or may not be there
    one, two = [
        [s for s in x if s[1] or s[3] or s[0] > 1e-11 * d]
        for x, d in ((one, duration), (two, duration * factor))
    ]
    ctx.require(len(one) == len(two), "segments", "%d segments, at factor %r %d", len(one), factor, len(two))
    for i, (p, q) in enumerate(zip(one, two)):
        ctx.require(
            abs(q[0] / factor - p[0]) <= 1e-10 * duration, "segment-duration",
            "segment %d of %d lasts %r, at factor %r %r", i, len(one), p[0], factor, q[0],
        )
        ctx.require(
            vc.close(q[1] * q[0], p[1] * p[0], 1e-9) and vc.close(q[3] * q[0], p[3] * p[0], 1e-9)
            and abs(ref.angle_difference(q[2], p[2])) <= 1e-9,
            "segment-rotation", "segment %d of %d is %s, at factor %r %s", i, len(one), p, factor, q,
        )
        relative = 1e-9 + 1e-12 * duration / p[0]
        ctx.require(
            vc.close(q[1] * factor, p[1], relative) and vc.close(q[3] * factor, p[3], relative), "segment-rate",
            "segment %d of %d is %s, at factor %r %s", i, len(one), p, factor, q,
        )
    ctx.count["conversion_pairs"] += 1
    ctx.note = {"factor": factor, "segments": len(one)}
