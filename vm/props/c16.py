"""C16: conversion realises every pulse at its place."""

from vm import conversion as vv

RULE = (
    "Cases: conversions of predefined sequences, of constructed timelines (packed, spaced, pulses at the "
    "ends, identity pulses, both signs of detuning) and of arbitrary sequences at many time scales, and "
    "trains of 84 lengths. Non-trivial: an accepted conversion whose segments were all matched with the "
    "pulses; distinct by sequence and limits."
)
ASSUMPTIONS = [
    "rotations are zero or at least 1e-6",
    "places within 1e-11 of the duration (1e-8 per pulse when a gap is at the limit within the tolerance)",
]
COUNT = {"quick": 40000, "thorough": 130000}
MINIMUM = {"conversions": 10000, "pulses_placed": 60000}


def random_case(g, _tier):
    return vv.make_case(g, invalid=0.05)


def systematic(_tier):
    return vv.trains([])


mix = vv.mix


def check(ctx, case):
    sequence = vv.sequence_of(ctx, case)
    verdict, pulses = vv.expectation(ctx, case, sequence)
    control, error = vv.convert(ctx, case, sequence)
    if verdict == "reject":
        ctx.count["infeasible"] += 1
        return
    if error is not None:
        ctx.require(verdict == "either", "unexpected-exception", "feasible conversion raised %r", error)
        return
    duration = float(sequence.duration)
    segments = vv.observed_segments(control)
    vv.judge_timeline(ctx, duration, verdict, pulses, segments)
    ctx.require(control.name == case["name"], "name", "name %r, requested %r", control.name, case["name"])
    ctx.count["conversions"] += 1
    ctx.nontrivial(vv.key(case))
    ctx.note = {"segments": segments[:4], "verdict": verdict}
