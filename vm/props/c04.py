"""C04: Rabi-rate limit and unit covariance of the predefined driven controls."""

import math

from vm import driven, gaussian, ref
from vm.gen import PI

RULE = (
    "Cases: requests of the ten driven-control constructors and the same requests in other units; "
    "checked are the limit, the positivity of durations and the scaling of all segments. Non-trivial: "
    "both members of a pair were compared; distinct by request and factor."
)
ASSUMPTIONS = ["relative tolerance 1e-9 on rates and durations"]
COUNT = {"quick": 50000, "thorough": 700000}
MINIMUM = {"pairs": 20000, "gaussian_pairs": 2000}


def factor(g):
    if g.flip(0.6):
        return 2.0 ** g.int(-40, 40)
    if g.flip(0.5):
        return 10.0 ** g.int(-9, 9)
    return g.logu(1e-9, 1e9)


def random_case(g, _tier):
    case = gaussian.make_case(g) if g.flip(0.25) else driven.make_case(g)
    case["factor"] = factor(g)
    return case


def systematic(_tier):
    for case in gaussian.systematic_cases():
        yield dict(case, factor=2.0 ** 20)
        yield dict(case, factor=2.0 ** -11)
    for n, case in enumerate(driven.systematic_angles()):
        if n % 3 == 0:
            yield dict(case, factor=(1e9, 1e-9, 1e6, 2.0 ** 30)[n % 4])


def mix(g, base):
    if base["kind"] == "modulated_gaussian":
        inner = {k: v for k, v in base.items() if k != "factor"}
        return dict(gaussian.mix(g, inner), factor=base["factor"])
    return dict(base, factor=factor(g), rate=g.rate(), phi=g.angle())


def check_limits(ctx, label, segments, rate, exempt, reaches):
    highest = max(s[1] for s in segments)
    ctx.require(
        all(s[0] > 0 for s in segments), "duration", "%s: non-positive duration in %s", label, segments
    )
    ctx.require(
        all(s[1] >= 0 for s in segments), "negative-rate", "%s: negative rate in %s", label, segments
    )
    ctx.require(all(s[3] == 0 for s in segments), "detuned", "%s: detuned", label)
    if not exempt:
        ctx.require(
            highest <= rate * (1 + 1e-9), "limit",
            "%s: Rabi rate %r exceeds the maximum %r", label, highest, rate,
        )
    if reaches:
        ctx.require(
            highest >= rate * (1 - 1e-9), "not-reached",
            "%s: largest Rabi rate %r, maximum %r", label, highest, rate,
        )


def compare(ctx, label, first, second, k, phases, tolerance=1e-9):
    ctx.require(
        len(first) == len(second), "scaled-count", "%s: %d segments, %d when scaled by %r",
        label, len(first), len(second), k,
    )
    top = max(s[1] for s in first)
    for n, (a, b) in enumerate(zip(first, second)):
        ctx.require(
            abs(b[0] * k - a[0]) <= 1e-9 * a[0], "scaled-duration",
            "%s segment %d: duration %r, scaled by %r: %r", label, n, a[0], k, b[0],
        )
        ctx.require(
            abs(b[1] / k - a[1]) <= tolerance * top, "scaled-rate",
            "%s segment %d: rate %r, scaled by %r: %r", label, n, a[1], k, b[1],
        )
        if phases or a[1] > 100 * tolerance * top:
            ctx.require(
                ref.angle_difference(a[2], b[2]) <= 1e-7, "scaled-phase",
                "%s segment %d: phase %r, scaled by %r: %r", label, n, a[2], k, b[2],
            )


def check(ctx, case):
    k = case["factor"]
    if case["kind"] != "modulated_gaussian":
        label = "%s(theta=%r, rate=%r, phi=%r)" % (case["kind"], case["theta"], case["rate"], case["phi"])
        first = driven.segments_of(ctx, driven.build(ctx, case))
        check_limits(ctx, label, first, case["rate"], False, True)
        second = driven.segments_of(ctx, driven.build(ctx, case, rate=case["rate"] * k))
        check_limits(ctx, label + " scaled", second, case["rate"] * k, False, True)
        ctx.count["pairs"] += 1
        ctx.nontrivial(case["kind"], case["theta"], case["rate"], case["phi"], k)
        compare(ctx, label, first, second, k, True)
        return
    label = "gaussian(rate=%r, minimum=%r, duration=%r, frequency=%r)" % (
        case["rate"], case["minimum"], case["duration"], case["frequency"],
    )
    first = driven.segments_of(ctx, gaussian.build(ctx, case))
    values = gaussian.shape(len(first), case["duration"], case["frequency"])
    top = max(values)
    exempt = False
    reaches = False
    clear = True
    if case["frequency"] == 0:
        full = case["duration"] / len(first) * math.fsum(v / top for v in values) * case["rate"]
        exempt = full < 2 * PI * (1 + 1e-9)
        clear = abs(math.remainder(full, 2 * PI)) > 1e-6 * full
    elif top > 1e6 * gaussian.noise(case["duration"], case["frequency"]):
        reaches = True
    else:
        clear = False
    check_limits(ctx, label, first, case["rate"], exempt, reaches)
    ctx.nontrivial("gaussian", case["rate"], case["minimum"], case["duration"], case["frequency"], k)
    ratio = case["duration"] / case["minimum"]
    exact = math.log2(k) == round(math.log2(k))
    if exact or (clear and abs(ratio - round(ratio)) > 1e-6):
        second = driven.segments_of(ctx, gaussian.build(ctx, case, k))
        check_limits(ctx, label + " scaled", second, case["rate"] * k, exempt, reaches)
        if clear:
            ctx.count["gaussian_pairs"] += 1
            error = gaussian.noise(case["duration"], case["frequency"])
            compare(ctx, label, first, second, k, False, 1e-9 + 20 * error / top)
    ctx.note = {"segments": len(first), "largest_rate": max(s[1] for s in first)}
