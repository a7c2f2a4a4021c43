"""C17: conversion limits and refusals."""

from vm import conversion as vv
from vm.core import Violation

RULE = (
    "Cases: feasible, infeasible and invalid conversion requests (one defect injected into a feasible "
    "timeline, or arbitrary sequences and limits), and trains of 84 lengths with a defect at each edge place. "
    "Non-trivial: accepted with all segments judged against the limits, or refused as it has to be; distinct "
    "by sequence and limits."
)
ASSUMPTIONS = [
    "rotations are zero or at least 1e-6",
    "either outcome is right when the tightest gap misses the minimum by between 1e-13 and 1.5e-8 of the "
    "duration plus 1.5e-5 of the minimum",
]
COUNT = {"quick": 40000, "thorough": 130000}
MINIMUM = {"accepted": 8000, "refusals_confirmed": 6000, "segments_judged": 60000}
REASONS = ("rate", "minimum", "negative Rabi rotation", "mixed rotation", "order", "gap")
for _reason in REASONS:
    MINIMUM["refused:" + _reason] = 200


def random_case(g, _tier):
    return vv.make_case(g, invalid=0.6)


def systematic(_tier):
    return vv.trains(["gap", "negative", "mixed", "order"])


mix = vv.mix


def check(ctx, case):
    sequence = vv.sequence_of(ctx, case)
    verdict, detail = vv.expectation(ctx, case, sequence)
    control, error = vv.convert(ctx, case, sequence)
    ctx.nontrivial(vv.key(case))
    if verdict == "reject":
        ctx.require(
            error is not None, "accepted:" + detail, "sequence which has to be refused (%s) gave %r", detail, control
        )
        ctx.require(
            isinstance(error, ctx.lib.ArgumentsValueError), "wrong-exception:" + detail,
            "refusal (%s) by %r", detail, error,
        )
        ctx.count["refused:" + detail] += 1
        ctx.count["refusals_confirmed"] += 1
        ctx.note = {"refused": detail}
        return
    if error is not None:
        if verdict == "accept":
            raise Violation("refused-feasible", "feasible sequence refused: %s: %s" % (type(error), str(error)[:700]))
        ctx.require(
            isinstance(error, ctx.lib.ArgumentsValueError), "wrong-exception", "refusal by %r", error
        )
        return
    segments = vv.observed_segments(control)
    vv.judge_limits(ctx, case, float(sequence.duration), verdict, detail, segments)
    ctx.count["accepted" if verdict == "accept" else "accepted_at_limit"] += 1
    ctx.note = {"segments": segments[:4], "minimum": case["minimum"]}
