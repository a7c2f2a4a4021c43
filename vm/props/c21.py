"""C21: domains of the predefined constructors."""

import math
import re

import numpy as np

from vm import driven, gaussian, ref
from vm import sequence as vs
from vm.gen import PI, SCALAR_FORMS, scalar

RULE = (
    "Cases: requests of all twenty predefined constructors at or inside the boundaries of their domain "
    "(have to be accepted) and with one argument outside it (have to be refused, with the message naming "
    "what is objected to). Non-trivial: the outcome was judged; distinct by request."
)
ASSUMPTIONS = [
    "tabulated rotations deviating by more than 1e-4 relative have to be refused, by less than 1e-12 accepted",
    "the message has to name the argument when the constructor validates it directly (negative rotations are "
    "detected through the durations they lead to)",
]
COUNT = {"quick": 40000, "thorough": 400000}
MINIMUM = {"accepted": 10000, "refusals_confirmed": 12000, "messages_judged": 6000}
TINY = [0.0, -0.0, -1.0, -1e-300, -1e-9, -5e-324, float("nan"), float("-inf")]
BELOW_ONE = [0, 0.0, -1, -3, 0.5, 0.999, -0.5, float(np.nextafter(1.0, 0.0)), -1000000]


def request(kind, args, bad=None, named=None):
    return {"kind": kind, "args": args, "bad": bad, "named": named}


def bad_rotations(scheme):
    """[(rotation, named in the message)]"""
    result = [(0.0, True), (-0.0, True), (0, True)]
    negative = [-PI, -PI / 2, -PI / 4, -1.0, -1e-3, -4 * PI, -2 * PI]
    if scheme in ref.TABULATED:
        result += [(x, True) for x in negative]
        for t in (PI, PI / 2, PI / 4):
            result += [(t * (1 + d), True) for d in (1e-4 * 1.01, -1e-4 * 1.01, 1e-3, 0.01, -0.01, 0.5)]
        result += [(x, True) for x in (1.0, 2 * PI, 3 * PI / 4, PI / 3, 3 * PI / 2, PI / 8, 3.0, 180.0, 5 * PI / 4)]
    elif scheme in ref.WIMPERIS:
        result += [(x, False) for x in negative]
        top = 4 * PI
        result += [(float(np.nextafter(top, 20.0)), True), (top * (1 + 1e-9), True), (5 * PI, True), (100.0, True)]
        result += [(-5 * PI, True), (-100.0, True), (13.0, True), (720.0, True), (float(np.nextafter(-top, -20.0)), True)]
    else:
        result += [(x, False) for x in negative]
    return result


def good_rotations(scheme):
    if scheme in ref.TABULATED:
        return [PI, PI / 2, PI / 4, PI * (1 + 1e-13), PI / 2 * (1 - 1e-13)]
    top = 4 * PI
    result = [top, float(np.nextafter(top, 0.0)), 2 * PI, PI, 1e-3, 1e-6, 1, 3 * PI]
    if scheme not in ref.WIMPERIS:
        result += [float(np.nextafter(top, 20.0)), 5 * PI, 100.0, 20 * PI]
    return result


def systematic(_tier):
    for scheme in ref.SCHEMES:
        for theta in good_rotations(scheme):
            for rate in (1.0, 1e-9, 1e9, 1, 1e-150, 1e150):
                yield request(scheme, {"rabi_rotation": theta, "maximum_rabi_rate": rate})
        for theta, named in bad_rotations(scheme):
            for rate in (1.0, 2e6):
                yield request(
                    scheme, {"rabi_rotation": theta, "maximum_rabi_rate": rate}, "rabi_rotation",
                    "rabi_rotation" if named else None,
                )
        for rate in TINY:
            yield request(
                scheme, {"rabi_rotation": PI, "maximum_rabi_rate": rate}, "maximum_rabi_rate", "maximum_rabi_rate"
            )
    for kind, names in sorted(vs.PREDEFINED.items()):
        counts = {n: 2 for n in names}
        for pre_post in (False, True):
            for duration in (1.0, 1, 1e-9, 1e9, 1e-200, 1e200):
                yield request(kind, dict(counts, duration=duration, pre_post_rotation=pre_post))
            for duration in TINY:
                yield request(
                    kind, dict(counts, duration=duration, pre_post_rotation=pre_post), "duration", "duration"
                )
            for name in names:
                good = [1, 1.0, 1.5, 1.999, 3]
                bad = list(BELOW_ONE)
                if name == "paley_order":
                    good += [2000, 2000.0, 1999.5, 1999]
                    bad += [2001, 2000.5, 2001.0, 5000, 10 ** 9, float(np.nextafter(2000.0, 3000.0))]
                for value in good:
                    yield request(kind, dict(counts, duration=3.0, pre_post_rotation=pre_post, **{name: value}))
                for value in bad:
                    yield request(
                        kind, dict(counts, duration=3.0, pre_post_rotation=pre_post, **{name: value}), name, name
                    )
    for duration in (1.0, 10.0):
        # exactly the smallest admissible rate
        rate = math.sqrt(2 * PI) / (0.1 * duration)
        for frequency in (0.0, 0.5):
            yield request(
                "modulated_gaussian",
                {"maximum_rabi_rate": rate, "minimum_segment_duration": duration / 40, "duration": duration,
                 "modulation_frequency": frequency},
            )
    for duration in (1.0, 1e-6, 50.0):
        bound = gaussian.BOUND / duration
        good = {
            "maximum_rabi_rate": bound * 2, "minimum_segment_duration": duration / 20, "duration": duration,
            "modulation_frequency": 0.0,
        }
        kind = "modulated_gaussian"
        for frequency in (0.0, 3 / duration, -1 / duration):
            base = dict(good, modulation_frequency=frequency)
            for rate in (bound * (1 + 1e-9), bound * 100):
                yield request(kind, dict(base, maximum_rabi_rate=rate))
            for ratio in (1 - 1e-9, 0.99, 0.5, 1 / 3, 1e-3):
                yield request(kind, dict(base, minimum_segment_duration=duration * ratio, maximum_rabi_rate=bound * 50))
            for rate in TINY:
                yield request(kind, dict(base, maximum_rabi_rate=rate), "maximum_rabi_rate", "maximum_rabi_rate")
            for rate in (bound * (1 - 1e-9), bound / 2, bound * 1e-6, bound * 0.999):
                yield request(kind, dict(base, maximum_rabi_rate=rate), "maximum_rabi_rate", "maximum_rabi_rate")
            for value in TINY:
                yield request(
                    kind, dict(base, minimum_segment_duration=value), "minimum_segment_duration",
                    "minimum_segment_duration",
                )
                yield request(kind, dict(base, duration=value), "duration", "duration")
            for ratio in (1.0, 1 + 1e-12, 2.0, 1e3):
                yield request(
                    kind, dict(base, minimum_segment_duration=duration * ratio), "minimum_segment_duration",
                    "minimum_segment_duration",
                )


SYSTEMATIC = []


def random_case(g, tier):
    if not SYSTEMATIC:
        SYSTEMATIC.extend(systematic(tier))
    roll = g.rng.random()
    if roll < 0.35:
        # a boundary case with everything else varied
        case = dict(g.pick(SYSTEMATIC))
        case["args"] = dict(case["args"])
        if case["kind"] in ref.SCHEMES:
            if case["bad"] != "maximum_rabi_rate":
                case["args"]["maximum_rabi_rate"] = g.rate(1e-9, 1e12)
            elif g.flip():
                case["args"]["rabi_rotation"] = g.pick(good_rotations(case["kind"]))
            case["args"]["azimuthal_angle"] = g.angle()
        elif case["kind"] in vs.PREDEFINED and case["bad"] != "duration":
            case["args"]["duration"] = g.duration()
        case["args"]["name"] = g.name()
        if case["kind"] == "modulated_gaussian":
            del case["args"]["name"]
    elif roll < 0.5:
        inner = driven.make_case(g)
        case = request(
            inner["kind"],
            {"rabi_rotation": inner["theta"], "maximum_rabi_rate": inner["rate"], "azimuthal_angle": inner["phi"]},
        )
    elif roll < 0.62:
        scheme = g.pick(ref.SCHEMES)
        if g.flip():
            args = {"rabi_rotation": g.pick(good_rotations(scheme)), "maximum_rabi_rate": -g.rate(1e-9, 1e12)}
            case = request(scheme, args, "maximum_rabi_rate", "maximum_rabi_rate")
        elif scheme in ref.TABULATED:
            theta = g.u(1e-3, 7.0)
            if any(abs(theta / t - 1) < 2e-4 for t in driven.TABLE):
                theta = 2.0
            case = request(scheme, {"rabi_rotation": theta, "maximum_rabi_rate": g.rate()}, "rabi_rotation", "rabi_rotation")
        elif scheme in ref.WIMPERIS and g.flip():
            theta = 4 * PI + g.logu(1e-9, 100.0)
            case = request(scheme, {"rabi_rotation": theta, "maximum_rabi_rate": g.rate()}, "rabi_rotation", "rabi_rotation")
        else:
            theta = -g.logu(1e-6, 4 * PI)
            case = request(scheme, {"rabi_rotation": theta, "maximum_rabi_rate": g.rate()}, "rabi_rotation", None)
    elif roll < 0.8:
        inner = vs.make_predefined(g)
        args = dict(zip(vs.PREDEFINED[inner["kind"]], inner["counts"]), duration=inner["duration"], name=inner["name"])
        if inner["pre_post"] is not None:
            args["pre_post_rotation"] = inner["pre_post"]
        case = request(inner["kind"], args)
        if g.flip():
            names = ["duration"] + vs.PREDEFINED[inner["kind"]]
            name = g.pick(names)
            if name == "duration":
                value = -g.duration()
            elif name == "paley_order" and g.flip():
                value = g.pick([g.int(2001, 10000), 2000 + g.logu(1e-6, 1e3)])
            else:
                value = g.pick([-g.int(0, 50), g.u(-10.0, 0.9999)])
            args[name] = value
            case.update(bad=name, named=name)
    else:
        inner = gaussian.make_case(g)
        args = {
            "maximum_rabi_rate": inner["rate"], "minimum_segment_duration": inner["minimum"],
            "duration": inner["duration"], "modulation_frequency": inner["frequency"],
        }
        case = request("modulated_gaussian", args)
        roll = g.rng.random()
        if roll < 0.2:
            args["maximum_rabi_rate"] = gaussian.BOUND / inner["duration"] * g.pick([g.u(0.0, 1.0), 1 - g.logu(1e-9, 1.0)]) * (1 - 1e-9)
            case.update(bad="maximum_rabi_rate", named="maximum_rabi_rate")
        elif roll < 0.4:
            args["minimum_segment_duration"] = inner["duration"] * (1 + g.pick([0.0, g.logu(1e-12, 10.0)]))
            case.update(bad="minimum_segment_duration", named="minimum_segment_duration")
    case["form"] = g.pick(SCALAR_FORMS)
    return case


def check(ctx, case):
    kind = case["kind"]
    if kind in ctx.lib.sequences:
        factory, what = ctx.lib.sequences[kind], "new_%s_sequence" % kind
    else:
        factory, what = ctx.lib.controls[kind], "new_%s_control" % kind
    form = case.get("form", "py")
    args = {}
    for name, value in case["args"].items():
        numeric = isinstance(value, (int, float)) and not isinstance(value, bool)
        args[name] = scalar(value, form) if numeric and math.isfinite(value) else value
    ctx.nontrivial(kind, sorted((k, str(v)) for k, v in case["args"].items()))
    if case["bad"] is None:
        result = ctx.ok(what, factory, **args)
        expected = ctx.lib.Sequence if kind in ctx.lib.sequences else ctx.lib.DrivenControl
        ctx.require(isinstance(result, expected), "type:" + kind, "%s returned %r", what, result)
        ctx.count["accepted"] += 1
        ctx.note = {"accepted": what}
        return
    error = ctx.refused("%s with %s=%r" % (what, case["bad"], case["args"][case["bad"]]), factory, **args)
    ctx.require(
        isinstance(error, ctx.lib.QctrlError) and len(str(error)) > 0, "hierarchy", "%r is no library error", error
    )
    if case["named"] is not None:
        message = str(error)
        lines = message.split("\n")
        value = args[case["named"]]
        ctx.count["messages_judged"] += 1
        ctx.require(
            re.search(r"\b%s\W{1,5}%s" % (case["named"], re.escape(repr(value))), message)
            and len(lines[0].split()) >= 3 and getattr(error, "message", None) == message,
            "message:" + kind,
            "%s with %s=%r: message %r", what, case["named"], value, message,
        )
        ctx.note = {"message": message[:200]}
