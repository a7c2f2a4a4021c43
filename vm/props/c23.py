"""C23: floating-point sanitizer over all operations."""

import re
import warnings

import numpy as np

from vm import control as vc
from vm import conversion as vv
from vm import driven, gaussian
from vm import sequence as vs
from vm.props.c20 import PROPERTIES, inspections

RULE = (
    "Cases: valid requests of all constructors, conversions, inspections, texts and exports, executed while "
    "numpy reports divisions by zero, invalid operations and overflows as errors and Python warnings are "
    "recorded. Non-trivial: an object was made and all operations on it were executed and searched for "
    "non-finite numbers; distinct by request."
)
ASSUMPTIONS = [
    "finite arguments within 1e-30..1e30 (underflow to zero is allowed)",
    "an argument error of an operation (a sequence which cannot be realised) is a valid outcome",
]
COUNT = {"quick": 24000, "thorough": 160000}
MINIMUM = {"objects": 10000, "operations_watched": 150000, "numbers_inspected": 500000, "files_written": 5000}
WORD = re.compile(r"(?<![A-Za-z_])(nan|inf|NaN|Infinity)(?![A-Za-z_])")


def systematic(_tier):
    zero = {"style": "kw", "later": None, "name": None}
    for n in range(1, 5):
        for mask in range(3 ** n):
            digits = [(mask // 3 ** i) % 3 for i in range(n)]
            for unit in (1.0, 1e-12, 1e12):
                yield {
                    "op": "control", "case": dict(
                        zero, durations=[unit] * n, rabi_rates=[unit if d == 1 else 0.0 for d in digits],
                        azimuthal_angles=None, detunings=[-unit if d == 2 else 0.0 for d in digits],
                        forms={f: "list" for f in vc.FIELDS},
                    ),
                }
    for kind, names in sorted(vs.PREDEFINED.items()):
        for count in (1, 2, 3, 4):
            for duration in (1e-12, 1.0, 1e12):
                for pre_post in (True, False):
                    yield {
                        "op": "predefined", "case": {
                            "kind": kind, "counts": [count] * len(names), "duration": duration, "name": None,
                            "pre_post": pre_post, "style": "kw", "dform": "py", "cform": "py",
                        },
                    }


def random_case(g, _tier):
    roll = g.rng.random()
    if roll < 0.2:
        return {"op": "driven", "case": driven.make_case(g)}
    if roll < 0.28:
        return {"op": "gaussian", "case": gaussian.make_case(g)}
    if roll < 0.45:
        return {"op": "predefined", "case": vs.make_predefined(g, dict(vv.LIMITS))}
    if roll < 0.68:
        return {"op": "control", "case": vc.make_control(g, 12)}
    if roll < 0.83:
        return {"op": "sequence", "case": vs.make_sequence(g, 12)}
    return {"op": "convert", "case": vv.make_case(g, invalid=0.1)}


def numbers(value, found):
    """All numbers in a result."""
    if isinstance(value, np.ndarray):
        found.extend(value.ravel().tolist())
    elif isinstance(value, dict):
        for item in value.values():
            numbers(item, found)
    elif isinstance(value, (list, tuple)):
        for item in value:
            numbers(item, found)
    elif isinstance(value, (int, float, complex, np.number)):
        found.append(value)


def finite(x):
    return abs(x) < float("inf")


def search(ctx, what, value, name):
    """No result contains a non-finite number."""
    found = []
    if isinstance(value, bytes):
        value = value.decode()
    if isinstance(value, str):
        if not (name and WORD.search(name)):
            ctx.require(not WORD.search(value), "not-finite:" + what, "%s contains %r", what, value[:400])
        return
    numbers(value, found)
    ctx.count["numbers_inspected"] += len(found)
    ctx.require(
        all(finite(x) for x in found), "not-finite:" + what, "%s contains a non-finite number: %s", what, found[:40]
    )


def watched(ctx, what, function):
    """Executes an operation under the sanitizer: (result, argument error)."""
    ctx.count["operations_watched"] += 1
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        with np.errstate(divide="raise", over="raise", invalid="raise", under="ignore"):
            result, error = ctx.call(function)
    ctx.require(
        not isinstance(error, (FloatingPointError, ZeroDivisionError, OverflowError)), "undefined:" + what,
        "%s performed an undefined operation: %r", what, error,
    )
    ctx.require(not caught, "warning:" + what, "%s warned: %s", what, [str(w.message)[:200] for w in caught[:3]])
    if error is not None and not isinstance(error, ctx.lib.ArgumentsValueError):
        ctx.require(False, "exception:" + what, "%s raised %r", what, error)
    return result, error


class Quiet:
    """Makes requests of the shared workloads under the sanitizer."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.lib = ctx.lib
        self.count = ctx.count

    def require(self, *args):
        self.ctx.require(*args)

    def call(self, function, *args, **kwargs):
        name = getattr(function, "__name__", "call")
        return watched(self.ctx, name, lambda: function(*args, **kwargs))

    def ok(self, what, function, *args, **kwargs):
        result, error = watched(self.ctx, what, lambda: function(*args, **kwargs))
        self.ctx.require(error is None, "refused:" + what, "valid request %s was refused: %s", what, error)
        return result


def check(ctx, case):
    quiet = Quiet(ctx)
    kind, request = case["op"], case["case"]
    subjects = []
    if kind == "driven":
        subjects.append(driven.build(quiet, request))
    elif kind == "gaussian":
        subjects.append(gaussian.build(quiet, request))
    elif kind == "predefined":
        subjects.append(vs.build_predefined(quiet, request))
    elif kind == "control":
        subjects.append(vc.build(quiet, request)[0])
    elif kind == "sequence":
        subjects.append(vs.construct(quiet, request))
    else:
        sequence = vv.sequence_of(quiet, request)
        control, _error = vv.convert(quiet, request, sequence)
        subjects += [s for s in (control,) if s is not None]
    ctx.nontrivial(kind, repr(request))
    path = ctx.path()
    for subject in subjects:
        ctx.count["objects"] += 1
        driven_control = hasattr(subject, "durations")
        fields = vc.FIELDS if driven_control else vs.FIELDS
        for field in fields:
            search(ctx, field, getattr(subject, field), None)
        number = ctx.count["objects"]
        for what, function in inspections(
            subject, path, ("CSV", "JSON")[number % 2], ("cartesian", "cylindrical")[number // 2 % 2]
        ):
            value, error = watched(ctx, what.split()[0], function)
            if error is None:
                search(ctx, what.split()[0], value, subject.name)
                if what == "export_to_file":
                    ctx.count["files_written"] += 1
            else:
                ctx.require(
                    what == "export_to_file" and not driven_control, "refused:" + what, "%s was refused: %s", what, error
                )
    ctx.remove(path)
    ctx.note = {"operations": len(PROPERTIES)}
