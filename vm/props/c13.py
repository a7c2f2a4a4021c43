"""C13: pre/post rotations of predefined sequences."""

import math

from vm import ref
from vm import sequence as vs
from vm.core import mix_fields

RULE = (
    "Cases: all predefined sequences requested with and without pre/post rotations. Non-trivial: the "
    "added pulses, the unchanged pulses and the net unitary of a pair were judged; distinct by type, "
    "counts and duration."
)
ASSUMPTIONS = ["angles within 1e-9; orders/counts bounded as in C11 and C12"]
COUNT = {"quick": 16000, "thorough": 160000}
MINIMUM = {"pairs": 12000, "net_identity": 1000, "net_z": 1000}


def systematic(tier):
    plain = {"duration": 10.0, "name": None, "pre_post": True, "style": "kw", "dform": "float", "cform": "py"}
    for kind, names in sorted(vs.PREDEFINED.items()):
        if not names:
            yield dict(plain, kind=kind, counts=[])
        elif kind == "walsh":
            for n in range(1, 2001, 1 if tier == "thorough" else 3):
                yield dict(plain, kind=kind, counts=[n])
        elif kind == "quadratic":
            for n in range(1, 21):
                for m in range(1, 21):
                    yield dict(plain, kind=kind, counts=[n, m])
        else:
            top = {"x_concatenated": 13, "xy_concatenated": 6 if tier == "quick" else 7}.get(kind, 200)
            more = [] if "concatenated" in kind else [255, 256, 257, 500, 511, 512, 999, 1000, 1001, 2000]
            for n in list(range(1, top + 1)) + more:
                yield dict(plain, kind=kind, counts=[n])


def random_case(g, _tier):
    return vs.make_predefined(g)


mix = mix_fields(vs.make_predefined)


def check(ctx, case):
    kind = case["kind"]
    first = bool(case["pre_post"])
    both = {}
    for pre_post in (first, not first):
        both[pre_post] = vs.observe(ctx, vs.build_predefined(ctx, case, pre_post=pre_post))
    plain, bracketed = both[False], both[True]
    duration = float(case["duration"])
    label = "%s%s" % (kind, case["counts"])
    ctx.require(
        len(bracketed) == len(plain) + 2, "number:" + kind, "%s: %d pulses, %d with pre/post",
        label, len(plain), len(bracketed),
    )
    ctx.require(
        bracketed[1:-1] == plain, "inner:" + kind, "%s: inner pulses differ with pre/post: %s, %s",
        label, [p for p, q in zip(bracketed[1:-1], plain) if p != q][:3],
        [q for p, q in zip(bracketed[1:-1], plain) if p != q][:3],
    )
    for which, place, pulse, axes in (
        ("pre", 0.0, bracketed[0], (0.0,)), ("post", duration, bracketed[-1], (0.0, math.pi))
    ):
        offset, rabi, azimuth, detuning = pulse
        ctx.require(
            offset == place and abs(rabi - math.pi / 2) <= 1e-12 and detuning == 0.0
            and min(abs(ref.angle_difference(azimuth, a)) for a in axes) <= 1e-12,
            "%s:%s" % (which, kind), "%s: %s-rotation is %s", label, which, pulse,
        )
    total = ref.IDENTITY
    for _, rabi, azimuth, detuning in bracketed:
        total = ref.qnormalize(ref.qmul(ref.pulse_unitary(rabi, azimuth, detuning), total))
    w, x, y, z = total
    is_identity, is_z = abs(abs(w) - 1) <= 1e-9, abs(abs(z) - 1) <= 1e-9
    ctx.require(
        is_identity or is_z, "net:" + kind, "%s: net unitary %s is neither identity nor Z (last pulse %s)",
        label, (w, x, y, z), bracketed[-1],
    )
    ctx.count["net_identity" if is_identity else "net_z"] += 1
    ctx.count["pairs"] += 1
    ctx.nontrivial(kind, tuple(case["counts"]), duration)
    ctx.note = {"net": total, "pulses": len(bracketed)}
