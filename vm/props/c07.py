"""C07: derived quantities of driven controls."""

import math

from vm import control as vc

RULE = (
    "Cases: arbitrary driven controls (some inspected and modified before); every derived quantity is "
    "recomputed from the segments. Non-trivial: all eleven quantities of a control were compared; "
    "distinct by content."
)
ASSUMPTIONS = [
    "relative tolerance 1e-9",
    "directions are judged on segments with zero amplitude or amplitude above 1e-18 of the largest one",
]
COUNT = {"quick": 36000, "thorough": 260000}
MINIMUM = {"controls": 15000, "unit_directions": 50000, "zero_directions": 2000}


def systematic(_tier):
    # idle segments at all positions, at very different units
    for unit in (1.0, 1e-9, 1e9, 1e-30, 1e30, 1e-12):
        for n in range(1, 5):
            for mask in range(3 ** n):
                code = [mask // 3 ** i % 3 for i in range(n)]
                yield {
                    "kind": "grid", "durations": [(i + 1.0) / unit for i in range(n)],
                    "rabi_rates": [unit * (2.0 + i) if c == 1 else 0.0 for i, c in enumerate(code)],
                    "azimuthal_angles": [0.3 * i - 1.0 for i in range(n)],
                    "detunings": [-unit * (1.0 + i) if c == 2 else 0.0 for i, c in enumerate(code)],
                    "forms": {f: "list" for f in vc.FIELDS}, "name": None, "style": "kw", "later": None,
                }


def random_case(g, _tier):
    case = vc.make_control(g)
    case["kind"] = "modified" if case["later"] else "fresh"
    return case


def numbers(ctx, name, value, count):
    values = [float(v) for v in value]
    ctx.require(len(values) == count, "length:" + name, "%s has %d elements, expected %d", name, len(values), count)
    return values


def check(ctx, case):
    control, fields = vc.build(ctx, case)
    dt, rabi, phi, det = (fields[f] for f in vc.FIELDS)
    n = len(dt)
    ctx.count["controls"] += 1
    ctx.nontrivial(vc.key(case))

    def get(name):
        return ctx.ok(name, getattr, control, name)

    def scalar(name, expected, tolerance=1e-12):
        value = float(get(name))
        ctx.require(
            vc.close(value, expected, tolerance), name, "%s is %r, expected %r (fields %s)",
            name, value, expected, {k: v[:6] for k, v in fields.items()},
        )

    ctx.require(
        int(get("number_of_segments")) == n, "number_of_segments", "%r segments, expected %d",
        control.number_of_segments, n,
    )
    scalar("maximum_rabi_rate", max(rabi))
    scalar("maximum_detuning", max(det))
    scalar("maximum_duration", max(dt))
    scalar("minimum_duration", min(dt))
    total = math.fsum(dt)
    scalar("duration", total, 1e-10)
    ax = numbers(ctx, "amplitude_x", get("amplitude_x"), n)
    ay = numbers(ctx, "amplitude_y", get("amplitude_y"), n)
    angles = numbers(ctx, "angles", get("angles"), n)
    times = numbers(ctx, "times", get("times"), n + 1)
    directions = get("directions")
    ctx.require(
        tuple(directions.shape) == (n, 3), "directions-shape", "directions of shape %s", directions.shape
    )
    largest = max(math.hypot(r, d) for r, d in zip(rabi, det))
    elapsed = 0.0
    ctx.require(times[0] == 0.0, "times", "times start at %r", times[0])
    for i in range(n):
        ex, ey = rabi[i] * math.cos(phi[i]), rabi[i] * math.sin(phi[i])
        ctx.require(
            abs(ax[i] - ex) <= 1e-11 * rabi[i] and abs(ay[i] - ey) <= 1e-11 * rabi[i], "amplitudes",
            "segment %d of %d: amplitudes (%r, %r), expected (%r, %r)", i, n, ax[i], ay[i], ex, ey,
        )
        size = math.hypot(rabi[i], det[i])
        ctx.require(
            vc.close(angles[i], size * dt[i], 1e-9), "angles",
            "segment %d of %d: angle %r, expected %r", i, n, angles[i], size * dt[i],
        )
        elapsed += dt[i]
        ctx.require(
            vc.close(times[i + 1], elapsed, 1e-10) and times[i + 1] >= times[i], "times",
            "boundary %d: %r after %r, expected %r", i + 1, times[i + 1], times[i], elapsed,
        )
        u = [float(directions[i, j]) for j in range(3)]
        if size == 0.0:
            ctx.count["zero_directions"] += 1
            ctx.require(u == [0.0, 0.0, 0.0], "idle-direction", "idle segment %d has direction %s", i, u)
        elif size > 1e-18 * largest:
            ctx.count["unit_directions"] += 1
            expected = (ex / size, ey / size, det[i] / size)
            ctx.require(
                max(abs(a - b) for a, b in zip(u, expected)) <= 1e-9, "direction",
                "segment %d of %d: direction %s, expected %s (largest amplitude %r)", i, n, u, expected, largest,
            )
    ctx.require(vc.close(times[-1], total, 1e-10), "times-end", "times end at %r, duration %r", times[-1], total)
    ctx.note = {"angles": angles[:4], "times": times[:4]}
