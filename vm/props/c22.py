"""C22: argument errors and descriptions."""

import importlib

import numpy as np

from vm.gen import NAMES

RULE = (
    "Cases: conditions of different types with descriptions, arguments and extras, direct constructions of "
    "the error, and representations of objects by chosen attributes. Non-trivial: the outcome and all parts "
    "of an error or representation were judged; distinct by content."
)
ASSUMPTIONS = ["descriptions are text, arguments and extras are dictionaries in the order of the call"]
COUNT = {"quick": 30000, "thorough": 300000}
# "absent" counts the cases of a helper which is not where it was: refactorings may move these functions,
# and then only the errors themselves are judged
MINIMUM = {"check_or_absent": 8000, "errors_judged": 4000, "repr_or_absent": 5000}
TRUE = ["true", "one", "text", "list", "nptrue", "float", "object"]
FALSE = ["false", "zero", "empty", "nolist", "npfalse", "fzero", "none"]
CONDITIONS = {
    "true": True, "one": 1, "text": "x", "list": [0], "nptrue": np.bool_(True), "float": 0.1, "object": object(),
    "false": False, "zero": 0, "empty": "", "nolist": [], "npfalse": np.bool_(False), "fzero": 0.0, "none": None,
}
HELPERS = {"check": "check_arguments", "repr": "create_repr_from_attributes"}
WORDS = [
    "duration", "offsets", "rabi_rotation", "x", "maximum_rabi_rate", "type(attribute)", "a b", "", "é", "name", "%s",
]


def value(g):
    roll = g.int(0, 9)
    if g.flip(0.03):
        n = g.int(50, 1500)
        return g.pick(["é" * n, [0.1] * n, {"array": [1.5] * n}, {"array": [g.u(-1, 1) for _ in range(n)]}, "x\n" * n])
    if roll == 0:
        return None
    if roll == 1:
        return g.int(-5, 5)
    if roll == 2:
        return g.pick([n for n in NAMES if n is not None])
    if roll == 3:
        return [g.u(-1, 1) for _ in range(g.int(0, 4))]
    if roll == 4:
        return {"array": [g.u(-1, 1) for _ in range(g.int(0, 5))]}
    if roll == 5:
        return g.pick([True, False])
    if roll == 6:
        return {"k": g.int(0, 3)}
    return g.pick([1.0, -1.0, 1e-300, g.u(-10, 10), g.literal()])


def real(item):
    """The value handed to the library."""
    if isinstance(item, dict) and "array" in item:
        return np.array(item["array"])
    return item


def entries(g, most=4):
    names = list(WORDS)
    g.rng.shuffle(names)
    return [[n, value(g)] for n in names[: g.int(0, most)]]


def random_case(g, _tier):
    kind = g.pick(["check", "check", "error", "repr", "repr"])
    if kind == "repr":
        attributes = entries(g, 6)
        shown = [n for n, _ in attributes]
        if shown and g.flip(0.2):
            shown.append(g.pick(shown))
        g.rng.shuffle(shown)
        return {
            "kind": kind, "attributes": attributes, "shown": shown[: g.int(0, len(shown))],
            "defect": g.pick([None] * 7 + ["instance", "attributes", "number", "none"]),
            "position": g.int(0, 5), "style": g.pick(["kw", "pos"]), "container": g.pick(["list", "tuple"]),
        }
    return {
        "kind": kind, "condition": g.pick(TRUE + FALSE + FALSE), "arguments": entries(g),
        "extras": None if g.flip(0.4) else entries(g),
        "description": g.pick([n for n in NAMES if n is not None] + ["must be positive.", "Wrong. "]),
        "style": g.pick(["kw", "pos", "omit"]),
    }


def text(value_):
    return repr(value_)


def judge_error(ctx, error, description, arguments, extras):
    """All parts of the error."""
    ctx.count["errors_judged"] += 1
    ctx.require(isinstance(error, ctx.lib.QctrlError), "hierarchy", "%r is no library error", error)
    ctx.require(isinstance(error, ctx.lib.ArgumentsValueError), "hierarchy", "%r is no argument error", error)
    lines = description
    for name, item in list(arguments.items()) + list((extras or {}).items()):
        lines += "\n" + name + "=" + text(item)
    ctx.require(str(error) == lines, "message", "error reads %r, expected %r", str(error), lines)
    ctx.require(error.message == lines, "message", "message is %r, expected %r", error.message, lines)
    ctx.require(error.description == description, "parts", "description is %r", error.description)
    for name, given, kept in (("arguments", arguments, error.arguments), ("extras", extras, error.extras)):
        ctx.require(
            text(kept) == text(given), "parts", "error keeps %s %r, given %r", name, kept, given,
        )


def check(ctx, case):
    name = HELPERS.get(case["kind"])
    helper = None
    if name is not None:
        try:
            helper = getattr(importlib.import_module("qctrlopencontrols.utils"), name, None)
        except ImportError:
            helper = None
        ctx.count[case["kind"] + "_or_absent"] += 1
        if helper is None:
            ctx.count["absent"] += 1
            if case["kind"] == "repr":
                return
            case = dict(case, kind="error")
    if case["kind"] == "repr":
        representation(ctx, case, helper)
        return
    arguments = {n: real(v) for n, v in case["arguments"]}
    extras = None if case["extras"] is None else {n: real(v) for n, v in case["extras"]}
    before = text(arguments), text(extras)
    description = case["description"]
    if case["style"] == "omit":
        extras = None
        before = before[0], text(None)
    ctx.nontrivial(case["kind"], case["condition"], repr(case["arguments"]), repr(case["extras"]), description)
    if case["kind"] == "error":
        factory = ctx.lib.ArgumentsValueError
        if case["style"] == "kw":
            error = ctx.ok("error", factory, description=description, arguments=arguments, extras=extras)
        elif case["style"] == "omit":
            error = ctx.ok("error", factory, description, arguments)
        else:
            error = ctx.ok("error", factory, description, arguments, extras)
        judge_error(ctx, error, description, arguments, extras)
    else:
        condition = CONDITIONS[case["condition"]]
        if case["style"] == "kw":
            result, error = ctx.call(
                helper, condition=condition, description=description, arguments=arguments, extras=extras
            )
        elif case["style"] == "omit":
            result, error = ctx.call(helper, condition, description, arguments)
        else:
            result, error = ctx.call(helper, condition, description, arguments, extras)
        if case["condition"] in TRUE:
            ctx.count["passed"] += 1
            ctx.require(
                error is None and result is None, "raised-on-true", "condition %r: got %r, raised %r", condition, result,
                error,
            )
        else:
            ctx.count["raised"] += 1
            ctx.require(error is not None, "silent-on-false", "condition %r did not raise", condition)
            judge_error(ctx, error, description, arguments, extras)
    ctx.require(
        (text(arguments), text(extras)) == before, "arguments-modified", "arguments changed to %r %r", arguments, extras
    )


class Subject:
    """Something with attributes."""


class Other(Subject):
    """Another class."""


def representation(ctx, case, function):
    subject = (Other if len(case["attributes"]) % 2 else Subject)()
    for name, item in case["attributes"]:
        setattr(subject, name, real(item))
    shown = list(case["shown"])
    defect = case["defect"]
    if defect in ("number", "none"):
        shown.insert(case["position"] % (len(shown) + 1), 3 if defect == "number" else None)
    names = tuple(shown) if case["container"] == "tuple" else shown
    ctx.nontrivial("repr", repr(case["attributes"]), repr(shown), defect)
    given = (None if defect == "instance" else subject, None if defect == "attributes" else names)
    if defect is not None:
        ctx.count["helper_refusals"] += 1
        if case["style"] == "kw":
            ctx.refused("representation", function, class_instance=given[0], attributes=given[1])
        else:
            ctx.refused("representation", function, *given)
        return
    if case["style"] == "kw":
        result = ctx.ok("representation", function, class_instance=subject, attributes=names)
    else:
        result = ctx.ok("representation", function, subject, names)
    ctx.count["representations"] += 1
    kind = type(subject).__name__
    if names:
        expected = "%s(%s)" % (kind, ",".join("%s=%s" % (n, repr(getattr(subject, n))) for n in names))
        ctx.require(result == expected, "representation", "representation is %r, expected %r", result, expected)
    else:
        ctx.require(
            kind in result and "o attributes" in result, "representation", "representation without attributes is %r",
            result,
        )
    ctx.note = {"representation": result}
