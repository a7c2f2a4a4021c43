"""C11: predefined sequences against their documented pulses."""

from vm import ref
from vm import sequence as vs
from vm.core import mix_fields

KINDS = ["ramsey", "spin_echo", "carr_purcell", "cpmg", "uhrig", "periodic", "walsh", "quadratic"]
RULE = (
    "Cases: the eight sequence types; exhaustively Paley orders 1..2000, counts 1..300 and a grid of "
    "quadratic counts, and at random durations, counts (integral or not, as different number types), "
    "names and pre/post. Non-trivial: all pulses of a sequence compared with the documented formulas; "
    "distinct by type, counts, duration and pre/post."
)
ASSUMPTIONS = [
    "offsets compared within 1e-10 of the duration, angles within 1e-12",
    "counts up to 5000 (quadratic 60 x 60)",
]
COUNT = {"quick": 14000, "thorough": 150000}
MINIMUM = {"pulses_compared": 500000, "walsh": 2000}


def systematic(tier):
    plain = {"duration": 10.0, "name": None, "pre_post": None, "style": "kw", "dform": "float", "cform": "py"}
    for kind in KINDS:
        if kind in ("ramsey", "spin_echo"):
            for pre_post in (None, True):
                yield dict(plain, kind=kind, counts=[], pre_post=pre_post)
        elif kind == "walsh":
            for order in range(1, 2001):
                yield dict(plain, kind=kind, counts=[order], pre_post=order % 3 == 0)
        elif kind == "quadratic":
            side = 30 if tier == "quick" else 60
            for inner in range(1, side + 1):
                for outer in range(1, side + 1):
                    yield dict(plain, kind=kind, counts=[inner, outer], pre_post=(inner + outer) % 3 == 0)
        else:
            for n in list(range(1, 301)) + ([500, 1000, 5000] if tier == "quick" else list(range(301, 1500, 7))):
                yield dict(plain, kind=kind, counts=[n], pre_post=n % 3 == 0)


def random_case(g, _tier):
    return vs.make_predefined(g, kinds=KINDS)


mix = mix_fields(lambda g: vs.make_predefined(g, kinds=KINDS))


def compare(ctx, case, sequence, expected, duration):
    """Compares the pulses of a sequence with [(relative offset, axis)], allowing pre/post."""
    kind = case["kind"]
    pulses = vs.observe(ctx, sequence)
    if case["pre_post"]:
        ctx.require(
            len(pulses) == len(expected) + 2, "number:" + kind, "%s%s with pre/post: %d pulses, expected %d",
            kind, case["counts"], len(pulses), len(expected) + 2,
        )
        pulses = pulses[1:-1]
    ctx.require(
        len(pulses) == len(expected), "number:" + kind, "%s%s: %d pulses, expected %d",
        kind, case["counts"], len(pulses), len(expected),
    )
    previous = -1.0
    for i, ((offset, rabi, azimuth, detuning), (t, axis)) in enumerate(zip(pulses, expected)):
        ctx.require(
            abs(offset - t * duration) <= 1e-10 * duration, "offset:" + kind,
            "%s%s pulse %d of %d at %r, expected %r (duration %r)",
            kind, case["counts"], i + 1, len(expected), offset, t * duration, duration,
        )
        ctx.require(
            previous < offset <= duration and offset >= 0.0, "order:" + kind,
            "%s%s pulse %d at %r after %r", kind, case["counts"], i + 1, offset, previous,
        )
        previous = offset
        fields = ref.AXIS_FIELDS[axis]
        ctx.require(
            abs(rabi - fields[0]) <= 1e-12 and abs(detuning - fields[2]) <= 1e-12
            and (rabi == 0.0 or abs(ref.angle_difference(azimuth, fields[1])) <= 1e-12),
            "axis:" + kind, "%s%s pulse %d of %d is (rabi %r, azimuth %r, detuning %r), expected %s",
            kind, case["counts"], i + 1, len(expected), rabi, azimuth, detuning, fields,
        )
        ctx.count["pulses_compared"] += 1
    ctx.require(
        float(sequence.duration) == duration, "duration:" + kind, "duration %r, requested %r",
        sequence.duration, duration,
    )
    ctx.require(
        sequence.name == case["name"], "name:" + kind, "name %r, requested %r", sequence.name, case["name"]
    )
    return pulses


def check(ctx, case):
    sequence = vs.build_predefined(ctx, case)
    counts = vs.truncated(case["counts"])
    pulses = compare(ctx, case, sequence, ref.sequence_pulses(case["kind"], *counts), float(case["duration"]))
    ctx.count[case["kind"]] += 1
    ctx.nontrivial(case["kind"], tuple(case["counts"]), case["duration"], bool(case["pre_post"]))
    ctx.note = {"pulses": len(pulses), "first": pulses[:2]}
