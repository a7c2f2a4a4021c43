"""C14: noise cancellation of the sequences."""

import math

from vm import ref
from vm import sequence as vs
from vm.core import mix_fields

KINDS = [k for k in sorted(vs.PREDEFINED) if k != "ramsey"]
RULE = (
    "Cases: all predefined sequences except Ramsey (periodic only with an odd number of pulses), "
    "systematically by count/order and at random. Non-trivial: all promised moments of the toggled noise "
    "were integrated and judged; distinct by type, counts and duration."
)
ASSUMPTIONS = [
    "moments against shifted Legendre polynomials, tolerance 1e-10 of the duration (1e-9 for more than 2000 pulses)",
    "degrees are judged up to 40",
]
COUNT = {"quick": 9000, "thorough": 90000}
MINIMUM = {"moments": 30000}
TOP = 40


def systematic(tier):
    plain = {"duration": 10.0, "name": None, "pre_post": False, "style": "kw", "dform": "float", "cform": "py"}
    for kind in KINDS:
        if not vs.PREDEFINED[kind]:
            yield dict(plain, kind=kind, counts=[])
        elif kind == "walsh":
            for n in range(1, 2001, 1 if tier == "thorough" else 3):
                yield dict(plain, kind=kind, counts=[n])
        elif kind == "quadratic":
            for n in range(1, 16):
                for m in range(1, 16):
                    yield dict(plain, kind=kind, counts=[n, m])
        else:
            top = {"x_concatenated": 12, "xy_concatenated": 5 if tier == "quick" else 6}.get(kind, 120)
            for n in range(1, top + 1):
                if kind != "periodic" or n % 2:
                    yield dict(plain, kind=kind, counts=[n])


def make(g):
    case = vs.make_predefined(g, {"uhrig": 100}, KINDS)
    if case["kind"] == "periodic":
        n = int(math.floor(case["counts"][0]))
        if n % 2 == 0:
            case["counts"] = [n + 1]
    case["pre_post"] = False
    return case


def random_case(g, _tier):
    return make(g)


def mix(g, base):
    case = mix_fields(make)(g, base)
    if case["kind"] == "periodic" and int(case["counts"][0]) % 2 == 0:
        return make(g)
    return case


def promise(kind, counts):
    """[(axis vector, number of cancelled degrees)]"""
    x, y, z = (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)
    if kind == "uhrig":
        return [(z, counts[0])]
    if kind == "quadratic":
        return [(z, counts[1]), (x, 1), (y, 1)]
    if kind == "xy_concatenated":
        return [(z, 1), (x, 1), (y, 1)]
    if kind == "x_concatenated":
        return [(z, counts[0])]
    if kind == "walsh":
        return [(z, bin(counts[0]).count("1"))]
    return [(z, 1)]


def check(ctx, case):
    kind = case["kind"]
    counts = vs.truncated(case["counts"])
    sequence = vs.build_predefined(ctx, case, pre_post=False)
    pulses = vs.observe(ctx, sequence)
    duration = float(sequence.duration)
    tolerance = 1e-10 if len(pulses) <= 2000 else 1e-9
    for axis, degrees in promise(kind, counts):
        moments = ref.toggling_moments(duration, pulses, axis, min(degrees, TOP))
        for degree, moment in enumerate(moments):
            ctx.count["moments"] += 1
            ctx.require(
                moment <= tolerance, "moment:%s" % kind,
                "%s%s: noise along %s of degree %d leaves %.3g of the duration", kind, counts, axis, degree, moment,
            )
    ctx.nontrivial(kind, tuple(counts), duration)
    ctx.note = {"moments": moments[:5], "pulses": len(pulses)}
