"""C12: concatenated sequences against their recursion."""

from vm import ref
from vm import sequence as vs
from vm.core import mix_fields
from vm.props.c11 import compare

KINDS = ["x_concatenated", "xy_concatenated"]
RULE = (
    "Cases: X-concatenated orders up to 13 and XY-concatenated orders up to 6 (7 in the thorough tier), "
    "exhaustively at some fifty durations and at random. Non-trivial: all pulses compared with the expanded "
    "and merged recursion; distinct by type, order, duration and pre/post."
)
ASSUMPTIONS = ["offsets within 1e-10 of the duration", "orders up to 13 (X) and 7 (XY)"]
COUNT = {"quick": 16000, "thorough": 100000}
DURATIONS = [float(n) for n in range(1, 13)] + [15.0, 16.0, 20.0, 24.0, 25.0, 30.0, 32.0, 50.0, 60.0, 64.0]
DURATIONS += [0.1, 0.25, 0.3, 0.5, 0.7, 1.5, 2.5, 3.14, 3.141592653589793, 6.283185307179586]
DURATIONS += [10.0 ** n for n in range(-9, 7) if n not in (-1, 0, 1)] + [2e-6, 5e-6, 5e-4, 7e-9, 3e3]
MINIMUM = {"pulses_compared": 200000, "x_concatenated": 1500, "xy_concatenated": 1500, "high_orders": 40}


def systematic(tier):
    plain = {"name": None, "style": "kw", "dform": "float", "cform": "py"}
    for kind, top in (("x_concatenated", 13), ("xy_concatenated", 6 if tier == "quick" else 7)):
        for order in range(1, top + 1):
            for duration in DURATIONS:
                for pre_post in (False, True):
                    yield dict(plain, kind=kind, counts=[order], duration=duration, pre_post=pre_post)


def make(g):
    limits = {"x_concatenated": 9, "xy_concatenated": 4}
    if g.flip(0.04):
        limits = {"x_concatenated": 11, "xy_concatenated": 5}
    if g.flip(0.01):
        limits = {"x_concatenated": 12, "xy_concatenated": 6}
    case = vs.make_predefined(g, limits, KINDS)
    top = limits[case["kind"]]
    case["counts"] = [g.count_value(g.int(1, top))]
    return case


def random_case(g, _tier):
    return make(g)


mix = mix_fields(make)


def check(ctx, case):
    sequence = vs.build_predefined(ctx, case)
    order = vs.truncated(case["counts"])[0]
    pulses = compare(ctx, case, sequence, ref.sequence_pulses(case["kind"], order), float(case["duration"]))
    ctx.count[case["kind"]] += 1
    if order > (9 if case["kind"] == "x_concatenated" else 4):
        ctx.count["high_orders"] += 1
    ctx.nontrivial(case["kind"], order, case["duration"], bool(case["pre_post"]))
    ctx.note = {"pulses": len(pulses), "last": pulses[-2:]}
