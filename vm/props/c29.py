"""C29: families coincide where their definitions do."""

import math

from vm import control as vc
from vm import driven, ref
from vm import sequence as vs
from vm.gen import PI

RULE = (
    "Cases: pairs (or sets) of requests to different constructors whose definitions coincide: shared special "
    "cases of sequences, Walsh functions as products of Rademacher functions, nested quadratic sequences, "
    "mirror symmetry, and composite controls made of other composite controls. Non-trivial: all results of "
    "the set were obtained and compared; distinct by relation and parameters."
)
ASSUMPTIONS = ["offsets compared within 1e-11 of the duration, segments within 1e-11 relative"]
COUNT = {"quick": 16000, "thorough": 160000}
MINIMUM = {"relations": 12000, "rademacher": 1500, "nested": 800, "symmetric": 2000, "composites": 2000}
SYMMETRIC = ["spin_echo", "carr_purcell", "cpmg", "uhrig", "periodic", "walsh", "quadratic", "x_concatenated"]


def request(kind, *counts):
    return [kind, list(counts)]


def same_requests(n):
    """Sets of requests with the same pulses, for a number n >= 1."""
    yield [request("spin_echo"), request("carr_purcell", 1), request("periodic", 1), request("walsh", 1),
           request("x_concatenated", 1)]
    yield [request("cpmg", 1), request("uhrig", 1)]
    yield [request("cpmg", 2), request("uhrig", 2)]
    m = 1 + (n - 1) % 10
    yield [request("carr_purcell", 2 ** m), request("walsh", 3 * 2 ** (m - 1))]
    yield [request("periodic", 2 ** m - 1), request("walsh", 2 ** (m - 1))]
    yield [request("x_concatenated", m), request("walsh", 2 ** m - 1)]


def systematic(_tier):
    for duration in (1.0, 3.0, 1e-6, 0.7):
        for n in range(1, 11):
            for i, group in enumerate(same_requests(n)):
                if n == 1 or i >= 3:
                    yield {"kind": "same", "group": group, "duration": duration}
    for order in range(1, 2001):
        yield {"kind": "rademacher", "order": order, "duration": 1.0}


def random_case(g, _tier):
    kind = g.pick(["same", "offsets", "rademacher", "nested", "symmetric", "symmetric", "composite", "composite"])
    case = {"kind": kind, "duration": g.duration()}
    if kind == "same":
        case["group"] = g.pick(list(same_requests(g.int(1, 10))))
    elif kind == "offsets":
        case["count"] = g.count(300)
    elif kind == "rademacher":
        case["order"] = g.int(1, 2000)
    elif kind == "nested":
        case["inner"], case["outer"] = g.count(20), g.count(20)
    elif kind == "symmetric":
        case["request"] = vs.make_predefined(g, {"x_concatenated": 8}, SYMMETRIC)
        case["request"]["pre_post"] = False
    else:
        case["composite"] = g.pick(["primitive", "corpse_in_bb1", "corpse_in_sk1", "corpse_in_scrofulous"])
        scheme = "bb1" if case["composite"] == "primitive" else case["composite"]
        case["theta"], case["rate"], case["phi"] = driven.theta_for(scheme, g), g.rate(), g.angle()
    return case


def sequence(ctx, kind, counts, duration):
    names = vs.PREDEFINED[kind]
    result = ctx.ok("new_%s_sequence" % kind, ctx.lib.sequences[kind], duration=duration, **dict(zip(names, counts)))
    return vs.observe(ctx, result)


def compare(ctx, mechanism, label, a, b, duration, parts=(1, 2, 3)):
    ctx.require(len(a) == len(b), mechanism, "%s: %d and %d pulses", label, len(a), len(b))
    for i, (p, q) in enumerate(zip(a, b)):
        ctx.require(
            abs(p[0] - q[0]) <= 1e-11 * duration and all(vc.close(p[k], q[k], 1e-12) for k in parts), mechanism,
            "%s: pulse %d of %d is %s and %s (duration %r)", label, i, len(a), p, q, duration,
        )


def check(ctx, case):
    kind, duration = case["kind"], case["duration"]
    ctx.count["relations"] += 1
    if kind == "same":
        results = [sequence(ctx, k, c, duration) for k, c in case["group"]]
        ctx.nontrivial("same", repr(case["group"]), duration)
        for (other, counts), result in zip(case["group"][1:], results[1:]):
            first = case["group"][0]
            compare(ctx, "same:%s:%s" % (first[0], other), "%s and %s" % (first, [other, counts]), results[0], result, duration)
    elif kind == "offsets":
        n = case["count"]
        ctx.nontrivial("offsets", n, duration)
        x, y = sequence(ctx, "carr_purcell", [n], duration), sequence(ctx, "cpmg", [n], duration)
        compare(ctx, "axes", "Carr-Purcell and CPMG of %r pulses" % n, x, y, duration, (1, 3))
        for p, q in zip(x, y):
            ctx.require(p[2] == 0.0 and vc.close(q[2], PI / 2, 1e-12), "axes", "axes %r and %r", p[2], q[2])
    elif kind == "rademacher":
        rademacher(ctx, case["order"], duration)
    elif kind == "nested":
        nested(ctx, case["inner"], case["outer"], duration)
    elif kind == "symmetric":
        counts = case["request"]["counts"]
        ctx.nontrivial("symmetric", case["request"]["kind"], tuple(counts), duration)
        ctx.count["symmetric"] += 1
        pulses = sequence(ctx, case["request"]["kind"], counts, duration)
        compare(
            ctx, "mirror:" + case["request"]["kind"], "%s%s mirrored" % (case["request"]["kind"], counts),
            [(duration - p[0],) + tuple(p[1:]) for p in reversed(pulses)], pulses, duration,
        )
    else:
        composite(ctx, case)


def rademacher(ctx, order, duration):
    """Pulses of a Walsh sequence are those of an odd number of the Rademacher functions in its order."""
    ctx.count["rademacher"] += 1
    ctx.nontrivial("rademacher", order, duration)
    grid = 4096
    marks = {}
    for bit in range(11):
        if order >> bit & 1:
            for pulse in sequence(ctx, "walsh", [2 ** bit], duration):
                place = round(pulse[0] / duration * grid)
                marks[place] = marks.get(place, 0) + 1
    expected = sorted(place for place, number in marks.items() if number % 2)
    found = sequence(ctx, "walsh", [order], duration)
    ctx.require(
        [round(p[0] / duration * grid) for p in found] == expected, "rademacher",
        "Walsh sequence of Paley order %d has %d pulses, the product of its Rademacher functions %d", order, len(found),
        len(expected),
    )


def nested(ctx, inner, outer, duration):
    """The outer pulses of a quadratic sequence are an Uhrig sequence, the inner ones an Uhrig sequence each."""
    ctx.count["nested"] += 1
    ctx.nontrivial("nested", inner, outer, duration)
    found = sequence(ctx, "quadratic", [inner, outer], duration)
    bounds = [0.0] + [p[0] for p in sequence(ctx, "uhrig", [outer], duration)] + [duration]
    expected = []
    for i in range(len(bounds) - 1):
        length = bounds[i + 1] - bounds[i]
        expected += [(bounds[i] + p[0], 0.0, 0.0, PI) for p in sequence(ctx, "uhrig", [inner], length)]
        if i < len(bounds) - 2:
            expected.append((bounds[i + 1], PI, 0.0, 0.0))
    compare(ctx, "nested", "quadratic(%r, %r)" % (inner, outer), found, expected, duration)


def composite(ctx, case):
    """A composite control is made of other controls."""
    ctx.count["composites"] += 1
    ctx.nontrivial(case["composite"], case["theta"], case["rate"], case["phi"])
    rate = case["rate"]

    def parts(kind, theta, phi):
        control = ctx.ok(
            "new_%s_control" % kind, ctx.lib.controls[kind], rabi_rotation=theta, maximum_rabi_rate=rate,
            azimuthal_angle=phi,
        )
        return driven.segments_of(ctx, control)

    theta, phi, kind = case["theta"], case["phi"], case["composite"]
    found = parts(kind, theta, phi)
    if kind == "primitive":
        expected = parts("bb1", theta, phi)[:1]
    elif kind == "corpse_in_scrofulous":
        expected = []
        for dt, rabi, azimuth, _ in parts("scrofulous", theta, phi):
            expected += parts("corpse", rabi * dt, azimuth)
    else:
        expected = parts("corpse", theta, phi) + parts(kind[10:], theta, phi)[1:]
    ctx.require(
        len(found) == len(expected), "composite:" + kind, "%s has %d segments, its parts %d", kind, len(found), len(expected)
    )
    for i, (p, q) in enumerate(zip(found, expected)):
        ctx.require(
            abs(p[0] - q[0]) <= 1e-11 * 4 * PI / rate and vc.close(p[1], q[1], 1e-11) and p[3] == q[3]
            and ref.angle_difference(p[2], q[2]) <= 1e-9 * (1 + math.fabs(phi)),
            "composite:" + kind, "segment %d of %s is %s, of its parts %s", i, kind, p, q,
        )
