"""C31: how a request is written makes no difference."""

import math
import os
import pathlib
import re

import numpy as np

from vm import conversion as vv
from vm import control as vc
from vm import driven, gaussian, ref
from vm import sequence as vs
from vm.core import Violation
from vm.gen import FLAG_FORMS, PI, SCALAR_FORMS, flag, materialize, scalar

RULE = (
    "Cases: a request of the public interface, valid or not, written in two ways: arguments by position or by "
    "name in any order, optional arguments equal to their default given or omitted, numbers of different types, "
    "fields in different containers, files by text or path, objects of the class or of a subclass. Non-trivial: "
    "both outcomes were observed and compared; distinct by request and writings."
)
ASSUMPTIONS = [
    "numbers within 1e-12 of the largest of their field, texts, names and structure equal",
    "the order and names of parameters and their defaults are the documented ones",
]
COUNT = {"quick": 24000, "thorough": 240000}
MINIMUM = {"pairs": 15000, "refused_pairs": 800, "omitted_defaults": 8000, "files_compared": 1500, "subclasses": 1000}
REQUIRED = "required"
NONE = "none"
FORMAT = "Q-CTRL expanded"


def number(name, value, default=REQUIRED):
    return {"name": name, "value": value, "default": default, "type": "number"}


def other(name, value, default, kind):
    return {"name": name, "value": value, "default": default, "type": kind}


def label(g):
    return other("name", None if g.flip() else g.pick(["name", "x", "a b", "é"]), NONE, "text")


def whole(g, value):
    """Favours numbers which can be written as integers."""
    return float(g.int(1, 9)) if g.flip(0.3) else value


def sequence_parameters(g, case):
    result = [number("duration", case["duration"])]
    result += [other(f, case[f], REQUIRED, "field") for f in vs.FIELDS]
    return result + [label(g)]


def control_parameters(g, case):
    result = [other("durations", case["durations"], REQUIRED, "field")]
    n = len(case["durations"])
    for f in vc.FIELDS[1:]:
        values = case[f]
        if values is None or g.flip(0.15):
            values = [0.0] * n
        result.append(other(f, values, "zeros", "field"))
    return result + [label(g)]


def request(g):
    """(what is asked for, parameters in the documented order, objects needed)."""
    roll = g.rng.random()
    if roll < 0.15:
        case = driven.make_case(g)
        theta = case["theta"]
        if case["kind"] not in ref.TABULATED:
            theta = whole(g, theta)
        phi = g.pick([case["phi"], 0.0, float(g.int(-3, 3))])
        parameters = [
            number("rabi_rotation", theta), number("maximum_rabi_rate", whole(g, case["rate"])),
            number("azimuthal_angle", phi, 0.0), label(g),
        ]
        return "control:" + case["kind"], parameters, None
    if roll < 0.22:
        case = gaussian.make_case(g)
        if g.flip(0.3):
            case.update(duration=float(g.int(2, 50)), minimum=1.0, frequency=float(g.int(-2, 2)), rate=float(g.int(30, 99)))
        parameters = [
            number("maximum_rabi_rate", case["rate"]), number("minimum_segment_duration", case["minimum"]),
            number("duration", case["duration"]), number("modulation_frequency", case["frequency"]),
        ]
        return "control:modulated_gaussian", parameters, None
    if roll < 0.45:
        case = vs.make_predefined(g, dict(vv.LIMITS))
        parameters = [number("duration", whole(g, case["duration"]))]
        parameters += [number(n, c) for n, c in zip(vs.PREDEFINED[case["kind"]], case["counts"])]
        parameters += [other("pre_post_rotation", g.flip(), False, "flag"), label(g)]
        return "sequence:" + case["kind"], parameters, None
    if roll < 0.6:
        return "DrivenControl", control_parameters(g, g.segments(12)), None
    if roll < 0.7:
        return "Sequence", sequence_parameters(g, vs.make_sequence(g, 10)), None
    if roll < 0.84:
        case = vv.make_case(g, invalid=0.2)
        base = case["request"] or case["sequence"]
        integral = case["request"] is None and g.flip(0.3)
        if integral:
            n = g.int(0, 5)
            base = {
                "duration": float(10 * (n + 1)), "offsets": [10.0 * (i + 1) - g.int(0, 3) for i in range(n)],
                "rabi_rotations": [float(g.int(0, 3)) for _ in range(n)],
                "azimuthal_angles": [float(g.int(-3, 3)) for _ in range(n)], "detuning_rotations": [0.0] * n,
            }
            case.update(rabi_limit=float(g.int(1, 9)), detuning_limit=float(g.int(1, 9)), minimum=float(g.int(0, 2)))
        if g.flip(0.3):
            case["minimum"] = 0.0
            if case["kind"] == "timeline":
                case = vv.bounded(case)
        minimum = case["minimum"]
        parameters = [
            other("dynamic_decoupling_sequence", None, REQUIRED, "object"), number("maximum_rabi_rate", case["rabi_limit"]),
            number("maximum_detuning_rate", case["detuning_limit"]), number("minimum_segment_duration", minimum, 0.0),
            label(g),
        ]
        if case["request"] is not None:
            return "convert", parameters, {"request": base}
        return "convert", parameters, {"sequence": sequence_parameters(g, base)}
    coordinates = other("coordinates", g.pick(["cylindrical", "cartesian"]), "cylindrical", "text")
    if roll < 0.9:
        parameters = [coordinates, other("dimensionless_rabi_rate", g.flip(), True, "flag")]
        return "export", parameters, {"control": control_parameters(g, g.segments(10))}
    parameters = [
        other("filename", None, REQUIRED, "file"), other("file_format", FORMAT, FORMAT, "text"),
        other("file_type", g.pick(["CSV", "JSON"]), "CSV", "text"), coordinates,
    ]
    if roll < 0.95:
        return "control_file", parameters, {"control": control_parameters(g, g.segments(10))}
    case = vs.make_predefined(g, dict(vv.LIMITS, carr_purcell=8, cpmg=8, uhrig=8, periodic=8, quadratic=3, x_concatenated=4))
    if case["kind"] in ("walsh", "xy_concatenated"):
        case.update(counts=[g.int(1, 3)])
    case["duration"] = g.pick([100.0, 1e3, g.u(50.0, 500.0)])
    parameters += [
        number("maximum_rabi_rate", g.pick([2 * PI, 2 * PI, 7.0, g.u(1.0, 30.0)]), 2 * PI),
        number("maximum_detuning_rate", g.pick([2 * PI, 2 * PI, 7.0, g.u(1.0, 30.0)]), 2 * PI),
    ]
    return "sequence_file", parameters, {"request": case}


def writing(g, parameters):
    """A way to write the arguments."""
    ways = []
    for p in parameters:
        omit = p["default"] != REQUIRED and p["value"] == (None if p["default"] == NONE else p["default"])
        if p["default"] == "zeros":
            omit = not any(p["value"])
        form = None
        if p["type"] == "number":
            form = g.pick(SCALAR_FORMS)
        elif p["type"] == "flag":
            form = g.pick(FLAG_FORMS)
        elif p["type"] == "field":
            form = g.form(p["value"]) if p["value"] else g.pick(["list", "f8"])
        elif p["type"] == "file":
            form = g.pick(["text", "path"])
        elif p["type"] == "object":
            form = g.pick(["class", "class", "subclass"])
        ways.append({"form": form, "omit": omit and g.flip(0.6)})
    order = list(range(len(parameters)))
    g.rng.shuffle(order)
    return {"ways": ways, "positional": g.int(0, len(parameters)) if g.flip(0.7) else 0, "order": order,
            "subclass": g.flip(0.2)}


def random_case(g, _tier):
    what, parameters, needs = request(g)
    if g.flip(0.1):
        # an invalid or unusual value
        numbers = [p for p in parameters if p["type"] == "number"]
        if numbers:
            p = g.pick(numbers)
            p["value"] = g.pick([0.0, -1.0, -p["value"]] + ([] if "gaussian" in what else [5.0, 1e4]))
            if "order" in p["name"] or "count" in p["name"]:
                p["value"] = g.pick([0, -1, 0.5, 2, 2001 if p["name"] == "paley_order" else 3])
        texts = [p for p in parameters if p["type"] == "text" and p["name"] != "name"]
        if texts and g.flip(0.3):
            g.pick(texts)["value"] = g.pick(["polar", "csv", "", "CARTESIAN"])
    case = {"what": what, "parameters": parameters, "needs": needs, "writings": [writing(g, parameters) for _ in range(2)]}
    for kind in ("control", "sequence"):
        if needs and kind in needs:
            for w in case["writings"]:
                w[kind] = writing(g, needs[kind])
    return case


def argument(parameter, way, path):
    value, kind = parameter["value"], parameter["type"]
    if kind == "number":
        return scalar(value, way["form"])
    if kind == "flag":
        return flag(value, way["form"])
    if kind == "field":
        return materialize(value, way["form"])
    if kind == "file":
        return pathlib.Path(path) if way["form"] == "path" else path
    return value


def perform(ctx, function, parameters, how, path=None, subject=None):
    """Calls the function with the arguments written in the given way."""
    args, kwargs = [], {}
    values = []
    for parameter, way in zip(parameters, how["ways"]):
        values.append(subject if parameter["type"] == "object" else argument(parameter, way, path))
    # the arguments given by position end before the first one omitted
    for value, way in zip(values[:how["positional"]], how["ways"]):
        if way["omit"]:
            break
        args.append(value)
    for i in how["order"]:
        if i >= len(args):
            if how["ways"][i]["omit"]:
                ctx.count["omitted_defaults"] += 1
            else:
                kwargs[parameters[i]["name"]] = values[i]
    return ctx.call(function, *args, **kwargs)


def observe(subject):
    """Everything to be compared."""
    if hasattr(subject, "durations"):
        names = vc.FIELDS + ("duration", "times", "angles", "maximum_rabi_rate", "maximum_detuning", "amplitude_x")
    else:
        names = vs.FIELDS + ("duration",)
    result = [(n, np.asarray(getattr(subject, n), dtype=float).ravel().tolist()) for n in names]
    result.append(("name", subject.name))
    if len(result[0][1]) <= 60:
        result.append(("text", str(subject)))
    return result


def flatten(data):
    """Plot data as labelled numbers."""
    result = []
    for key in sorted(data):
        for what in sorted({k for entry in data[key] for k in entry}):
            values = [complex(entry[what]) for entry in data[key]]
            result.append((key + " " + what + " real", [v.real for v in values]))
            result.append((key + " " + what + " imaginary", [v.imag for v in values]))
    return result


def tokens(text):
    """A text as words and numbers."""
    result = []
    for token in re.split(r"([\s,\[\]{}:=]+)", text):
        try:
            result.append(float(token))
        except ValueError:
            result.append(token)
    return result


def same(one, two):
    if isinstance(one, str) and isinstance(two, str):
        a, b = tokens(one), tokens(two)
        return len(a) == len(b) and all(
            x == y or (
                isinstance(x, float) and isinstance(y, float)
                and (abs(x - y) <= 1e-10 * max(abs(x), abs(y)) + 1e-13 or x != x and y != y)
            )
            for x, y in zip(a, b)
        )
    if isinstance(one, list) and isinstance(two, list):
        if len(one) != len(two):
            return False
        size = max([abs(v) for v in one + two if math.isfinite(v)], default=0.0)
        return all(x == y or abs(x - y) <= 1e-12 * size for x, y in zip(one, two))
    return one == two


def outcome(ctx, case, how, tag):
    """Observes the request in one writing: (observations, error)."""
    lib = ctx.lib
    what, parameters, needs = case["what"], case["parameters"], case["needs"] or {}
    path = os.path.join(ctx.scratch, "w%s" % tag)
    subject = None
    subclass = any(w["form"] == "subclass" for w in how["ways"]) or how["subclass"]
    classes = {"DrivenControl": lib.DrivenControl, "Sequence": lib.Sequence}
    if subclass:
        ctx.count["subclasses"] += 1
        classes = {
            "DrivenControl": type("Special", (lib.DrivenControl,), {"extra": 1}),
            "Sequence": type("Special", (lib.Sequence,), {"extra": 1}),
        }
    if "request" in needs:
        subject = vs.build_predefined(ctx, needs["request"])
    elif needs:
        kind = "control" if "control" in needs else "sequence"
        subject, error = perform(
            ctx, classes["DrivenControl" if kind == "control" else "Sequence"], needs[kind], how[kind]
        )
        if error is not None:
            raise Violation("unexpected-exception", "construction raised %s: %s" % (type(error), str(error)[:500]))
    if what in classes:
        function = classes[what]
    elif what == "convert":
        function = lib.convert
    elif what == "export":
        function = subject.export
    elif what.endswith("_file"):
        ctx.remove(path)
        function = subject.export_to_file
    else:
        kind, name = what.split(":")
        function = (lib.controls if kind == "control" else lib.sequences)[name]
    result, error = perform(ctx, function, parameters, how, path, subject)
    if error is not None:
        return None, error
    if what == "export":
        return flatten(result), None
    if what.endswith("_file"):
        with open(path, encoding="utf-8", newline="") as handle:
            text = handle.read()
        ctx.remove(path)
        ctx.count["files_compared"] += 1
        return [("file", text)], None
    return observe(result), None


def check(ctx, case):
    (one, first), (two, second) = (outcome(ctx, case, how, i) for i, how in enumerate(case["writings"]))
    what = case["what"]
    ctx.count["pairs"] += 1
    ctx.nontrivial(what, repr(case["parameters"]), repr(case["needs"]), repr(case["writings"]))
    ctx.require(
        (first is None) == (second is None) and type(first) is type(second), "outcome:" + what,
        "the same request written in two ways: %s and %s", first or "accepted", second or "accepted",
    )
    if first is not None:
        ctx.count["refused_pairs"] += 1
        ctx.require(
            isinstance(first, ctx.lib.ArgumentsValueError), "wrong-exception:" + what, "refused by %r", first,
        )
        return
    ctx.require(len(one) == len(two), "structure:" + what, "%s or %s", one, two)
    for (name, a), (also, b) in zip(one, two):
        if name == "text" and what == "Sequence":
            continue  # durations are shown as they were given
        ctx.require(
            name == also and same(a, b), "differs:%s:%s" % (what, name.split()[0]), "%s is %s or %s depending on how %s is "
            "written", name, str(a)[:600], str(b)[:600], what,
        )
