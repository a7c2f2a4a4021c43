"""
Shared workload and reference for the modulated Gaussian controls.
"""

import math

from vm.core import mix_fields
from vm.gen import PI, SCALAR_FORMS, scalar

BOUND = math.sqrt(2 * PI) / 0.1


def make_case(g):
    duration = g.duration(1e-9, 1e4)
    roll = g.rng.random()
    if roll < 0.4:
        count = g.count(300)
        ratio = float(count)
        minimum = duration / count
    elif roll < 0.9:
        ratio = g.u(1.01, 4.0) if g.flip(0.3) else g.logu(1.1, 400.0)
        minimum = duration / ratio
    else:
        ratio = g.int(1, 60) + g.pick([1e-12, -1e-12, 1e-4, -1e-4, 0.5])
        minimum = duration / max(ratio, 1.0001)
    if g.flip(0.02):
        ratio = g.logu(400.0, 4000.0)
        minimum = duration / ratio
    if not minimum < duration:
        minimum = duration / 2
    rate = BOUND / duration * (1 + 1e-9) * (1.0 if g.flip(0.1) else g.logu(1.0, 1e3))
    if g.flip(0.1):
        rate = max(rate, float(math.ceil(rate)))
    segment = duration / max(1, int(duration / minimum + 1e-9))
    roll = g.rng.random()
    if roll < 0.25:
        frequency = 0.0
    elif roll < 0.6:
        frequency = g.logu(1e-3, 20.0) / duration
    elif roll < 0.75:
        frequency = g.u(0.0, 2.0) / segment
    elif roll < 0.85:
        frequency = g.int(1, 4) / (2 * segment)
    elif roll < 0.92:
        frequency = g.int(1, 40) / duration
    else:
        frequency = min(abs(g.literal()), 1e4) / duration
    if g.flip(0.2):
        frequency = -frequency
    return {
        "kind": "modulated_gaussian", "rate": rate, "minimum": minimum, "duration": duration,
        "frequency": frequency, "style": g.pick(["kw", "pos"]),
        "forms": [g.pick(SCALAR_FORMS) for _ in range(4)],
    }


def valid(case):
    return (
        0 < case["minimum"] < case["duration"]
        and case["rate"] >= BOUND / case["duration"] * (1 + 1e-12)
        and case["rate"] <= 1e5 * BOUND / case["duration"]
        and abs(case["frequency"]) * case["duration"] <= 1e5
        and case["duration"] / case["minimum"] < 3000
    )


_MIX = mix_fields(make_case)


def mix(g, base):
    case = _MIX(g, base)
    return case if valid(case) else make_case(g)


def systematic_cases():
    for duration in (1.0, 1e-6, 30.0):
        for ratio in (1.5, 2.0, 2.5, 3.0, 5.0, 7.3, 10.0, 20.0, 21.0, 50.0, 99.99, 100.0, 250.0):
            for strength in (1.0001, 1.2, 2.0, 2.6, 10.0, 333.0):
                for turns in (0.0, 0.5, 1.0, 5.0, 20.0, -3.0, 100.0, 50.0, 1e-3):
                    yield {
                        "kind": "modulated_gaussian", "rate": BOUND / duration * strength,
                        "minimum": duration / ratio, "duration": duration,
                        "frequency": turns / duration, "style": "kw", "forms": ["py"] * 4,
                    }


def build(ctx, case, factor=1.0):
    """Requests the control, with all times divided and all rates multiplied by the factor."""
    values = [
        case["rate"] * factor, case["minimum"] / factor, case["duration"] / factor,
        case["frequency"] * factor,
    ]
    values = [scalar(v, f) for v, f in zip(values, case["forms"])]
    factory = ctx.lib.controls["modulated_gaussian"]
    what = "new_modulated_gaussian_control"
    if case["style"] == "pos":
        return ctx.ok(what, factory, *values)
    return ctx.ok(
        what, factory, maximum_rabi_rate=values[0], minimum_segment_duration=values[1],
        duration=values[2], modulation_frequency=values[3],
    )


def shape(count, duration, frequency):
    """Relative values of the documented envelope at the segment midpoints."""
    segment = duration / count
    width = 0.1 * duration
    values = []
    for n in range(count):
        t = (n - (count - 1) / 2) * segment
        value = math.exp(-0.5 * (t / width) ** 2)
        if frequency != 0:
            value *= math.sin(2 * PI * frequency * t)
        values.append(value)
    return values


def noise(duration, frequency):
    """Rounding error of the modulation signal."""
    return 1e-15 * (1 + 2 * PI * abs(frequency) * duration)
