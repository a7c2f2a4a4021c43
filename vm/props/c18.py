"""C18: files written from sequences."""

import math
import os
import pathlib

from vm import conversion as vv
from vm import files
from vm import ref
from vm import sequence as vs

RULE = (
    "Cases: sequences x file type x coordinates x rates (explicit or default) x target, feasible or not, "
    "and unsupported options; the file is parsed, turned back into segments and matched with the pulses. "
    "Non-trivial: a file was matched or a refusal confirmed; distinct by sequence, rates and options."
)
ASSUMPTIONS = [
    "rotations are zero or at least 1e-6; places within 1e-11 of the duration",
    "an empty string may or may not be treated as a name",
]
COUNT = {"quick": 20000, "thorough": 110000}
MINIMUM = {"files_matched": 6000, "refusals_confirmed": 1500, "default_rates": 500}
OLD = "old content, longer than anything\n" * 3000


def random_case(g, _tier):
    case = vv.make_case(g, invalid=0.3)
    case["minimum"] = 0.0
    if case["kind"] == "timeline":
        case = vv.bounded(case)
    case["file_type"] = g.pick(["CSV", "JSON", "default"])
    case["coordinates"] = g.pick(["cartesian", "cylindrical", "default"])
    case["target"] = g.pick(["new", "existing", "path"])
    case["unsupported"] = None
    case["default_rates"] = g.flip(0.25)
    if case["default_rates"]:
        # with the default rates, bring the time scale to something sensible
        if case["request"] is not None:
            counts = vs.truncated(case["request"]["counts"])
            n = len(ref.sequence_pulses(case["request"]["kind"], *counts)) + 1
            case["request"]["duration"] = n * g.pick([1.0, 0.6, g.logu(0.3, 100.0)])
        else:
            sequence = case["sequence"]
            factor = abs(case["rabi_limit"]) / (2 * math.pi)
            if 0 < factor < math.inf:
                sequence["duration"] *= factor
                sequence["offsets"] = [min(t * factor, sequence["duration"]) for t in sequence["offsets"]]
                sequence["forms"] = {f: "list" for f in vs.FIELDS}
        case["rabi_limit"] = case["detuning_limit"] = 2 * math.pi
    elif g.flip(0.1):
        case["detuning_limit"] = 2 * math.pi
    if g.flip(0.06):
        field = g.pick(["file_type", "coordinates", "file_format"])
        case["unsupported"] = [field, g.pick(["XML", "csv", "", "polar", "Cartesian", None])]
        case["target"] = g.pick(["new", "existing"])
    return case


def check(ctx, case):
    sequence = vv.sequence_of(ctx, case)
    verdict, pulses = vv.expectation(ctx, case, sequence)
    options = {}
    for field in ("file_type", "coordinates"):
        if case[field] != "default":
            options[field] = case[field]
    if case["unsupported"] is not None:
        options[case["unsupported"][0]] = case["unsupported"][1]
        verdict, pulses = "reject", "option"
    if not case["default_rates"]:
        options["maximum_rabi_rate"] = case["rabi_limit"]
        options["maximum_detuning_rate"] = case["detuning_limit"]
    path = ctx.path(".out")
    if case["target"] == "existing":
        with open(path, "w", encoding="utf-8") as handle:
            handle.write(OLD)
    ctx.nontrivial(
        vv.key(case), case["file_type"], case["coordinates"], case["target"], str(case["unsupported"]), case["default_rates"]
    )
    try:
        argument = pathlib.Path(path) if case["target"] == "path" else path
        if case["call"] == "pos":
            _, error = ctx.call(sequence.export_to_file, argument, **options)
        else:
            _, error = ctx.call(sequence.export_to_file, filename=argument, **options)
        if verdict == "reject" or error is not None:
            refusal(ctx, case, verdict, pulses, error, path)
            return
        match(ctx, case, sequence, verdict, pulses, path)
    finally:
        if os.path.exists(path):
            os.remove(path)


def refusal(ctx, case, verdict, detail, error, path):
    ctx.require(error is not None, "accepted:%s" % detail, "export which has to be refused (%s) was made", detail)
    ctx.require(verdict != "accept", "refused-feasible", "feasible export refused: %r", error)
    ctx.require(isinstance(error, ctx.lib.ArgumentsValueError), "wrong-exception", "refusal by %r", error)
    ctx.count["refusals_confirmed"] += 1
    if case["target"] == "existing":
        with open(path, encoding="utf-8") as handle:
            ctx.require(handle.read() == OLD, "refused-but-written", "a refused export changed the file")
    else:
        ctx.require(not os.path.exists(path), "refused-but-created", "a refused export created the file")


def match(ctx, case, sequence, verdict, pulses, path):
    file_type = "CSV" if case["file_type"] == "default" else case["file_type"]
    coordinates = "cylindrical" if case["coordinates"] == "default" else case["coordinates"]
    try:
        data, maximum, name = files.read(path, file_type, coordinates)
    except (ValueError, OSError, UnicodeDecodeError) as error:
        ctx.require(False, "unreadable:" + file_type, "%s %s file: %s", coordinates, file_type, error)
    segments = []
    rows = len(data["duration"])
    ctx.require(
        all(len(v) == rows for v in data.values()), "rows", "columns of lengths %s",
        {k: len(v) for k, v in data.items()},
    )
    for i in range(rows):
        if coordinates == "cartesian":
            x, y = data["amplitude_x"][i], data["amplitude_y"][i]
            rabi, phi = math.hypot(x, y), math.atan2(y, x)
        else:
            rabi, phi = data["rabi_rates"][i], data["azimuthal_angles"][i]
        segments.append((data["duration"][i], rabi * maximum, phi, data["detuning"][i]))
    duration = float(sequence.duration)
    vv.judge_timeline(ctx, duration, verdict, pulses, segments)
    vv.judge_limits(ctx, case, duration, verdict, pulses, segments)
    expected = case["request"]["name"] if case["request"] is not None else case["sequence"]["name"]
    if file_type == "JSON" and expected != "":
        ctx.require(name == expected, "name", "name %r in the file, sequence is named %r", name, expected)
    ctx.count["files_matched"] += 1
    ctx.count["default_rates"] += bool(case["default_rates"])
    ctx.note = {"rows": rows, "file_type": file_type, "coordinates": coordinates}
