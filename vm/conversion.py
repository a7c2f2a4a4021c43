"""
Shared workload and timeline oracle for the conversion of sequences to driven controls.
"""

import math

from vm import control as vc
from vm import ref
from vm import sequence as vs
from vm.gen import PI, SCALAR_FORMS, scalar

LIMITS = {
    "carr_purcell": 60, "cpmg": 60, "uhrig": 60, "periodic": 60, "quadratic": 8, "x_concatenated": 7,
    "xy_concatenated": 3,
}


LONG = {
    "carr_purcell": 600, "cpmg": 600, "uhrig": 400, "periodic": 600, "quadratic": 20, "x_concatenated": 9,
    "xy_concatenated": 4,
}


def clean(rotation):
    """Rotations below the resolution of the conversion are not generated."""
    return 0.0 if abs(rotation) < 1e-6 else rotation


def from_fields(g, duration, pulses):
    """Description of a sequence built by the caller."""
    case = {
        "duration": duration, "offsets": [p[0] for p in pulses], "rabi_rotations": [clean(p[1]) for p in pulses],
        "azimuthal_angles": [p[2] for p in pulses], "detuning_rotations": [clean(p[3]) for p in pulses],
        "name": g.name(), "style": g.pick(["kw", "pos"]), "dform": "py",
    }
    case["forms"] = {f: g.pick(["list", "f8"]) if not pulses else g.form(case[f]) for f in vs.FIELDS}
    if case["forms"]["offsets"] == "f4":
        case["forms"]["offsets"] = "f8"
    case["former"] = vs.former(g)
    return case


def timeline(g):
    """
    A feasible timeline with prescribed gaps: returns (duration, pulses, rabi limit, detuning limit,
    minimum, gaps).
    """
    scale = g.pick([1.0, 1.0, 1e-6, 1e-9, 1e3, g.logu(1e-9, 1e6)])
    n = g.pick([0, 1, 2, 3, g.int(1, 8), g.int(1, 8), g.int(1, 40)])
    if g.flip(0.015):
        n = g.int(41, 400)
    minimum = g.pick([0.0, 0.0, scale * g.logu(1e-3, 1.0), scale * 0.1, scale])
    rabi_limit = g.pick([1.0, PI, 2 * PI, 10.0, g.logu(0.1, 100.0), g.logu(0.1, 100.0)]) / scale
    if minimum and g.flip(0.15):
        # pulses limited by the minimum duration only
        rabi_limit = g.logu(1e2, 1e12) / scale
    detuning_limit = g.pick([rabi_limit, rabi_limit, rabi_limit * g.logu(0.05, 20.0)])
    tight = g.pick([0.0, 0.3, 1.0])
    at_start, at_end = g.flip(0.4), g.flip(0.4)
    style = g.int(0, 3)
    pulses = []
    widths = []
    for _ in range(n):
        roll = g.rng.random()
        rabi = azimuth = detuning = 0.0
        if style == 0 or roll < 0.55:
            rabi = g.pick([PI, PI, PI / 2, g.u(0.01, 4 * PI), g.logu(1e-5, 1.0), g.pick([1e-4, 30.0])])
            azimuth = g.angle()
        elif roll < 0.9:
            detuning = g.pick([PI, -PI, -PI / 2, g.u(-4 * PI, 4 * PI), g.pick([-1, 1]) * g.logu(1e-5, 1.0)])
        elif roll < 0.95:
            azimuth = g.angle()  # an identity pulse, with an axis
        rabi, detuning = clean(rabi), clean(detuning)
        width = 0.0
        if rabi:
            width = max(rabi / rabi_limit, minimum)
        elif detuning:
            width = max(abs(detuning) / detuning_limit, minimum)
        pulses.append([rabi, azimuth, detuning])
        widths.append(width)

    def gap():
        if g.flip(tight):
            return minimum
        return minimum * g.pick([1.0, 1.0001, 1.5, 3.0]) + scale * g.pick([g.logu(1e-3, 10.0), 1.0, 0.5])

    gaps = [gap() for _ in range(n + 1)]
    if n == 0 or (n == 1 and at_start and at_end):
        at_end = False
    now = 0.0
    result = []
    for i in range(n):
        if i == 0 and at_start:
            gaps[0] = None
        else:
            if gaps[i] == 0.0 and widths[i] == 0.0:
                gaps[i] = scale
            if i and gaps[i] == 0.0 and widths[i - 1] == 0.0:
                gaps[i] = scale
            now += gaps[i]
        start, now = now, now + widths[i]
        middle = start + widths[i] / 2
        if i == 0 and at_start:
            middle = 0.0
        result.append([middle] + pulses[i])
    if n and at_end:
        gaps[n] = None
        duration = now
        if duration == 0.0:
            duration = scale
        if n == 1 and not at_start or n > 1:
            result[-1][0] = duration
    else:
        if gaps[n] == 0.0:
            gaps[n] = scale
        duration = now + gaps[n]
    return duration, result, rabi_limit, detuning_limit, minimum, gaps, widths


def make_case(g, invalid=0.35):
    """A conversion request: feasible, infeasible or invalid."""
    roll = g.rng.random()
    case = {
        "kind": "timeline", "request": None, "sequence": None, "name": g.name(), "call": g.pick(["kw", "kw", "pos"]),
        "rform": g.pick(SCALAR_FORMS),
    }
    if roll < 0.3:
        case["kind"] = "predefined"
        request = vs.make_predefined(g, LONG if g.flip(0.02) else LIMITS)
        counts = vs.truncated(request["counts"])
        n = len(ref.sequence_pulses(request["kind"], *counts)) + 1
        case["request"] = request
        unit = n / request["duration"]
        case["rabi_limit"] = unit * PI * (g.logu(0.3, 1e4) if g.flip(0.9) else 1.0)
        case["detuning_limit"] = g.pick([case["rabi_limit"], unit * PI * g.logu(0.3, 1e4)])
        case["minimum"] = g.pick([0.0, 0.0, g.logu(1e-6, 1.0) / unit])
        return case
    if roll < 0.36:
        case["kind"] = "arbitrary"
        sequence = vs.make_sequence(g, 8)
        for field in ("rabi_rotations", "detuning_rotations"):
            sequence[field] = [clean(v) for v in sequence[field]]
        if g.flip(0.7):
            sequence["detuning_rotations"] = [
                0.0 if r else d for r, d in zip(sequence["rabi_rotations"], sequence["detuning_rotations"])
            ]
        sequence["forms"] = {f: "list" for f in vs.FIELDS}
        case["sequence"] = sequence
        case["rabi_limit"] = g.logu(1.0, 1e5) / sequence["duration"]
        case["detuning_limit"] = g.logu(1.0, 1e5) / sequence["duration"]
        case["minimum"] = g.pick([0.0, 0.0, sequence["duration"] * g.logu(1e-6, 1e-1)])
        return case
    duration, pulses, rabi_limit, detuning_limit, minimum, gaps, widths = timeline(g)
    if g.flip(invalid):
        change = g.pick(
            ["gap", "gap", "gap", "end gap", "swap", "duplicate", "twins", "negative", "mixed", "mixed", "rabi_limit",
             "detuning_limit", "minimum"]
        )
        n = len(pulses)
        which = g.int(0, n - 1) if n else 0
        if change == "gap" and n > 1:
            # move one pulse towards its neighbour
            which = g.pick([g.int(1, n - 1), g.int(1, n - 1), 1, n - 1])
            if gaps[which] is not None:
                least = minimum if g.flip(0.8) else 0.0
                shift = gaps[which] - least + g.pick([1e-4, 1e-2, 0.5]) * (least or widths[which] or gaps[which])
                pulses[which][0] -= shift
        elif change == "gap" and n == 1 and gaps[0] is not None:
            pulses[0][0] = max(1e-3 * pulses[0][0], pulses[0][0] - gaps[0] + 0.5 * minimum)
        elif change == "end gap" and n and gaps[n] is not None:
            # the last pulse too close to the end, or beyond it
            pulses[-1][0] += gaps[n] - minimum + g.pick([1e-4, 1e-2, 0.5]) * (minimum or widths[-1] or gaps[n])
        elif change == "swap" and n > 1:
            a = g.int(0, n - 2)
            pulses[a][0], pulses[a + 1][0] = pulses[a + 1][0], pulses[a][0]
        elif change == "duplicate" and n:
            pulses.insert(which, list(pulses[which]))
        elif change == "twins" and n:
            # two pulses without rotation at the same instant, or in the wrong order by very little
            where = g.pick([0.0, duration, duration * g.rng.random()])
            pulses = [p for p in pulses if abs(p[0] - where) > minimum + max(widths)]
            pulses += [[where, 0.0, 0.0, 0.0], [where * g.pick([1.0, 1.0, 1 - 1e-12]), 0.0, g.angle(), 0.0]]
            pulses.sort(key=lambda p: round(p[0] / duration, 9))
        elif change == "negative" and n:
            pulses[which][1] = -(pulses[which][1] or g.pick([PI, 1e-3]))
            pulses[which][3] = 0.0
        elif change == "mixed" and n:
            pulses[which][1] = pulses[which][1] or PI
            pulses[which][3] = g.pick([-PI, PI, -1e-3, 1e-3, PI / 2])
        elif change == "rabi_limit":
            if g.flip():
                pulses = [[t, 0.0, a, d] for t, r, a, d in pulses]  # the rate is not even needed
            rabi_limit = g.pick([0.0, -1.0, -rabi_limit, float("nan")])
        elif change == "detuning_limit":
            if g.flip():
                pulses = [[t, r, a, 0.0] for t, r, a, d in pulses]
            detuning_limit = g.pick([0.0, -1.0, -detuning_limit, float("nan")])
        elif change == "minimum":
            minimum = g.pick([-1.0, -1e-9, -minimum or -1e-3, float("nan"), -1e-300])
    for pulse in pulses:
        pulse[0] = min(max(pulse[0], 0.0), duration)
    case["sequence"] = from_fields(g, duration, pulses)
    case.update(rabi_limit=rabi_limit, detuning_limit=detuning_limit, minimum=minimum)
    return case


LENGTHS = list(range(1, 70)) + [99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 500, 511, 513, 1000]


def trains(defects):
    """
    Systematic requests: trains of many lengths with equal pulses, without defect or with one of the defects
    at the first, second, middle, last but one and last place.
    """
    for n in LENGTHS:
        for defect in [None] + list(defects):
            places = sorted({0, 1, n // 2, n - 2, n - 1, n} & set(range(n + 1))) if defect else [0]
            for place in places:
                # pulses of width 1 separated by gaps of 1, with ends in turn at the ends of the sequence
                style = (n + place) % 4
                at_start, at_end = style in (1, 3) and n > 1, style in (2, 3) and n > 1
                detuned = (n // 2 + place) % 2
                gaps = [0.0 if at_start else 1.0] + [1.0] * (n - 1) + [0.0 if at_end else 1.0]
                pulses = []
                now = 0.0
                for i in range(n):
                    now += gaps[i]
                    pulses.append([now + 0.5, 0.0, 0.1 * i, PI if i % 3 else -PI] if detuned and i % 2 else
                                  [now + 0.5, PI, 0.1 * i, 0.0])
                    now += 1.0
                duration = now + gaps[n]
                if at_start:
                    pulses[0][0] = 0.0
                if at_end:
                    pulses[-1][0] = duration
                if defect == "gap":
                    if gaps[place] == 0.0:
                        continue
                    if place < n and not (at_end and place == n - 1):
                        pulses[place][0] -= 0.75
                    elif not (at_start and place == 1):
                        pulses[place - 1][0] += 0.75
                    else:
                        continue
                elif defect is not None and place >= n:
                    continue
                elif defect == "negative":
                    pulses[place][1:] = [-PI, 0.3, 0.0]
                elif defect == "mixed":
                    pulses[place][1:] = [PI, 0.3, -PI]
                elif defect == "order":
                    if place == 0:
                        continue
                    pulses[place - 1][0], pulses[place][0] = pulses[place][0], pulses[place - 1][0]
                yield {
                    "kind": "train", "request": None, "name": None, "call": "kw", "rform": "py", "rabi_limit": PI,
                    "detuning_limit": PI, "minimum": 0.5,
                    "sequence": {
                        "duration": duration, "offsets": [p[0] for p in pulses],
                        "rabi_rotations": [p[1] for p in pulses], "azimuthal_angles": [p[2] for p in pulses],
                        "detuning_rotations": [p[3] for p in pulses], "name": None, "style": "kw", "dform": "py",
                        "forms": {f: "f8" for f in vs.FIELDS},
                    },
                }


def bounded(case):
    """
    Pulses as short as the resolution of times are not generated: without a minimum duration the rates are
    bounded.
    """
    if not case["minimum"]:
        sequence = case["request"] or case["sequence"]
        most = 1e6 * (len(sequence.get("offsets", [])) + 1) / sequence["duration"]
        for name in ("rabi_limit", "detuning_limit"):
            case[name] = min(case[name], most)
    return case


def mix(g, base):
    """A neighbour: same sequence, other limits, or the other way round."""
    other = make_case(g)
    result = dict(base)
    roll = g.rng.random()
    if roll < 0.5:
        result["rabi_limit"] = base["rabi_limit"] * g.pick([0.5, 2.0, 1.01, 0.99])
    elif roll < 0.7:
        result["minimum"] = base["minimum"] * g.pick([0.5, 2.0, 1.01, 0.0])
    elif roll < 0.85:
        result["detuning_limit"] = base["detuning_limit"] * g.pick([0.5, 2.0, 1.01])
    elif result["sequence"] is not None:
        sequence = dict(result["sequence"])
        sequence["azimuthal_angles"] = [a + 0.5 for a in sequence["azimuthal_angles"]]
        sequence["forms"] = {f: "list" for f in vs.FIELDS}
        result["sequence"] = sequence
    else:
        return other
    return bounded(result) if base["kind"] == "timeline" else result


def sequence_of(ctx, case):
    if case["request"] is not None:
        return vs.build_predefined(ctx, case["request"])

    def inspect(sequence):
        vs.touch(ctx, sequence)
        convert(ctx, case, sequence)

    return vs.construct(ctx, case["sequence"], inspect=inspect)


def convert(ctx, case, sequence, factor=1.0):
    """Observes the conversion: (control, error)."""
    limits = [scalar(case["rabi_limit"] / factor, case["rform"] if factor == 1.0 else "py")]
    limits += [case["detuning_limit"] / factor, case["minimum"] * factor]
    if case["call"] == "pos":
        return ctx.call(ctx.lib.convert, sequence, *limits, case["name"])
    kwargs = dict(
        dynamic_decoupling_sequence=sequence, maximum_rabi_rate=limits[0], maximum_detuning_rate=limits[1],
        name=case["name"],
    )
    if limits[2] != 0.0:
        kwargs["minimum_segment_duration"] = limits[2]
    return ctx.call(ctx.lib.convert, **kwargs)


def expectation(ctx, case, sequence):
    """What has to happen, from the fields of the observed sequence."""
    pulses = vs.observe(ctx, sequence)
    columns = [list(c) for c in zip(*pulses)] if pulses else [[], [], [], []]
    return ref.conversion(
        float(sequence.duration), *columns, float(case["rabi_limit"]), float(case["detuning_limit"]),
        float(case["minimum"]),
    )


def observed_segments(control):
    return list(zip(*[[float(v) for v in getattr(control, f)] for f in vc.FIELDS]))


class Timeline:
    """Driven and idle segments of a control with their places."""

    def __init__(self, segments):
        self.driven = []
        self.idle = []
        now = 0.0
        for dt, rabi, phi, det in segments:
            end = now + dt
            (self.driven if rabi != 0.0 or det != 0.0 else self.idle).append((now, end, dt, rabi, phi, det))
            now = end
        self.end = now


def judge_timeline(ctx, duration, verdict, pulses, segments, rate_tolerance=1e-9):
    """The segments realise the pulses in their places (C16)."""
    line = Timeline(segments)
    slack = 1e-11 * duration
    if verdict == "either":
        slack += (len(pulses) + 2) * 2e-8 * duration
    ctx.require(
        abs(line.end - duration) <= slack, "duration", "control lasts %r, sequence %r", line.end, duration
    )
    rotating = [p for p in pulses if p.rabi != 0 or p.detuning != 0]
    ctx.require(
        len(rotating) == len(line.driven), "number", "%d driven segments for %d rotating pulses",
        len(line.driven), len(rotating),
    )
    for i, (pulse, (start, end, dt, rabi, phi, det)) in enumerate(zip(rotating, line.driven)):
        label = "pulse %d of %d (offset %r of %r, rabi %r, azimuth %r, detuning %r)" % (
            i + 1, len(rotating), pulse.offset, duration, pulse.rabi, pulse.azimuth, pulse.detuning,
        )
        ctx.require(
            abs(start - pulse.start) <= slack and abs(end - pulse.end) <= slack, "place",
            "%s realised from %r to %r, expected %r to %r", label, start, end, pulse.start, pulse.end,
        )
        ctx.require(
            vc.close(rabi * dt, pulse.rabi, rate_tolerance) and vc.close(det * dt, pulse.detuning, rate_tolerance),
            "rotation", "%s realised by Rabi rotation %r and detuning rotation %r", label, rabi * dt, det * dt,
        )
        if pulse.rabi != 0:
            ctx.require(
                abs(ref.angle_difference(phi, pulse.azimuth)) <= 1e-9, "axis", "%s realised with azimuth %r",
                label, phi,
            )
        ctx.count["pulses_placed"] += 1
    return line


def judge_limits(ctx, case, duration, verdict, pulses, segments):
    """The segments obey the limits (C17)."""
    minimum = float(case["minimum"])
    slack = 1e-12 * duration if verdict == "accept" else 2e-8 * duration + 2e-5 * minimum
    rotating = [p for p in pulses if p.rabi != 0 or p.detuning != 0]
    line = Timeline(segments)
    for dt, rabi, _, det in segments:
        excess = 1e-9 + 1e-13 * duration / dt
        ctx.require(
            rabi <= case["rabi_limit"] * (1 + excess) and abs(det) <= case["detuning_limit"] * (1 + excess),
            "rate", "segment with Rabi rate %r and detuning %r, limits %r and %r",
            rabi, det, case["rabi_limit"], case["detuning_limit"],
        )
        ctx.require(
            dt >= minimum - slack, "short", "segment of %r, minimum %r (duration %r)", dt, minimum, duration
        )
        ctx.count["segments_judged"] += 1
    if len(rotating) == len(line.driven):
        for pulse, segment in zip(rotating, line.driven):
            width = pulse.end - pulse.start
            ctx.require(
                abs(segment[2] - width) <= 1e-9 * width + 1e-13 * duration, "width",
                "pulse (rabi %r, detuning %r) lasts %r, expected %r", pulse.rabi, pulse.detuning, segment[2], width,
            )


def key(case):
    if case["request"] is not None:
        request = case["request"]
        base = (request["kind"], tuple(request["counts"]), request["duration"], bool(request["pre_post"]))
    else:
        base = vs.key(case["sequence"])
    return base + (str(case["rabi_limit"]), str(case["detuning_limit"]), str(case["minimum"]))


def finite(case):
    return all(math.isfinite(case[k]) for k in ("rabi_limit", "detuning_limit", "minimum"))
