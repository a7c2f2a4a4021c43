"""C10: text forms of controls and sequences."""

import math
import re
import sys

import numpy as np

from vm import control as vc
from vm import sequence as vs
from vm.gen import PI

RULE = (
    "Cases: arbitrary driven controls and sequences; the friendly text is parsed line by line and its "
    "values multiplied by the stated scale are compared with the object, the representation is evaluated "
    "at full print precision and compared exactly. Non-trivial: both texts judged; distinct by content."
)
ASSUMPTIONS = [
    "relative tolerance 1e-9 for the friendly text",
    "an empty string may or may not be treated as a name",
]
COUNT = {"quick": 20000, "thorough": 130000}
MINIMUM = {"lines_parsed": 30000, "representations": 10000, "modified_sequences": 200}
LINE = re.compile(r"^([A-Z][A-Za-z ]*) = \[([^\]]*)\] x (.+)$")


def random_case(g, _tier):
    if g.flip(0.55):
        case = vc.make_control(g, 20)
        case["kind"] = "control"
    else:
        case = vs.make_sequence(g, 20)
        case["kind"] = "sequence"
    return case


def strip_name(ctx, text, name):
    """Removes the leading name line(s)."""
    if name is None:
        return text
    prefix = name + ":\n"
    if name == "" and not text.startswith(prefix):
        return text
    ctx.require(text.startswith(prefix), "name-line", "name %r, text %r", name, text[:200])
    return text[len(prefix):]


def parse_lines(ctx, lines, names):
    ctx.require(
        len(lines) == len(names), "lines", "%d lines, expected %s: %r", len(lines), names, lines[:6]
    )
    result = {}
    for line, name in zip(lines, names):
        match = LINE.match(line)
        ctx.require(match is not None and match.group(1).lower() == name.lower(), "line:" + name, "line %r", line[:300])
        ctx.count["lines_parsed"] += 1
        values = [float(v) for v in match.group(2).split(",")] if match.group(2).strip() else []
        scale = PI if match.group(3) == "pi" else float(match.group(3))
        result[name] = [v * scale for v in values]
    return result


def compare(ctx, name, observed, expected):
    ctx.require(
        len(observed) == len(expected), "text-length:" + name, "%s: %d values, expected %d",
        name, len(observed), len(expected),
    )
    for i, (a, b) in enumerate(zip(observed, expected)):
        ctx.require(
            math.isfinite(a) and abs(a - b) <= 1e-9 * abs(b), "text-value:" + name,
            "%s number %d of %d: text says %r, is %r", name, i, len(expected), a, b,
        )


def evaluate(ctx, text):
    namespace = {
        "DrivenControl": ctx.lib.DrivenControl, "DynamicDecouplingSequence": ctx.lib.Sequence,
        "array": np.array, "float64": np.float64, "float32": np.float32, "int64": np.int64,
        "int32": np.int32, "uint64": np.uint64, "np": np, "numpy": np, "nan": math.nan, "inf": math.inf,
    }
    try:
        return eval(text, namespace), None  # pylint: disable=eval-used
    except Exception as error:  # pylint: disable=broad-except
        return None, error


def check(ctx, case):
    if case["kind"] == "control":
        subject, fields = vc.build(ctx, case)
        names = ["Rabi Rates", "Azimuthal Angles", "Detunings", "Durations"]
        attributes = ["rabi_rates", "azimuthal_angles", "detunings", "durations"]
        ctx.nontrivial("control", vc.key(case))
    else:
        subject, fields = vs.build(ctx, case)
        names = ["Offsets", "Rabi Rotations", "Azimuthal Angles", "Detuning Rotations"]
        attributes = ["offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations"]
        ctx.nontrivial("sequence", vs.key(case))
    text = ctx.ok("str", str, subject)
    body = strip_name(ctx, text, case["name"])
    lines = body.split("\n")
    if case["kind"] == "sequence":
        match = re.match(r"^Duration = (\S+)$", lines[0])
        ctx.require(
            match is not None and vc.close(float(match.group(1)), fields["duration"], 1e-9), "text-duration",
            "%r for duration %r", lines[0], fields["duration"],
        )
        lines = lines[1:]
    parsed = parse_lines(ctx, lines, names)
    for name, attribute in zip(names, attributes):
        compare(ctx, name, parsed[name], fields[attribute])

    with np.printoptions(threshold=sys.maxsize, floatmode="unique", precision=17, suppress=False):
        text = ctx.ok("repr", repr, subject)
    twin, error = evaluate(ctx, text)
    ctx.require(error is None, "repr-eval", "%r: evaluation of %s", error, text[:500])
    ctx.require(type(twin) is type(subject), "repr-type", "representation gives %r", type(twin))
    ctx.count["representations"] += 1
    for attribute in attributes:
        observed = [float(v) for v in getattr(twin, attribute)]
        ctx.require(
            observed == fields[attribute], "repr:" + attribute, "%s from the representation %s, is %s",
            attribute, observed[:10], fields[attribute][:10],
        )
    ctx.require(twin.name == case["name"], "repr-name", "name %r, is %r", twin.name, case["name"])
    if case["kind"] == "sequence":
        ctx.require(
            float(twin.duration) == fields["duration"], "repr-duration", "duration %r, is %r",
            twin.duration, fields["duration"],
        )
    ctx.note = {"text": body[:200]}
