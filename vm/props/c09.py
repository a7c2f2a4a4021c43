"""C09: files written from driven controls."""

import cmath
import os
import pathlib
import resource
import signal

from vm import control as vc
from vm import files

RULE = (
    "Cases: arbitrary driven controls x file type x coordinates (explicit or default) x state of the "
    "target (new, existing longer file, unwritable), and unsupported options; files are parsed back "
    "independently. Non-trivial: a file was read back and every value compared, or a refusal/write "
    "failure was confirmed; distinct by control content, options and target."
)
ASSUMPTIONS = [
    "the CSV columns are identified by their titles (titles as written by the library today)",
    "an empty string may or may not be treated as a name",
]
COUNT = {"quick": 24000, "thorough": 250000}
MINIMUM = {"files_read_back": 10000, "refusals_confirmed": 800, "write_failures": 200}
NO_TRACE = False
OLD = "old content, longer than anything\n" * 4000


def random_case(g, _tier):
    case = vc.make_control(g)
    case["kind"] = "export"
    case["file_type"] = g.pick(["CSV", "JSON", "default"])
    case["coordinates"] = g.pick(["cartesian", "cylindrical", "default"])
    case["file_format"] = g.pick(["Q-CTRL expanded", "default", "default"])
    case["target"] = g.pick(["new", "new", "existing", "path", "odd name"])
    case["call"] = g.pick(["kw", "pos"])
    roll = g.rng.random()
    if roll < 0.07:
        case["kind"] = "unsupported"
        field = g.pick(["file_type", "coordinates", "file_format"])
        case[field] = g.pick(
            {
                "file_type": ["XML", "csv", "json", "", None, "CSV ", "TXT"],
                "coordinates": ["polar", "Cartesian", "", None, "CYLINDRICAL", "spherical"],
                "file_format": ["Q-CTRL compressed", "", None, "q-ctrl expanded", "CSV"],
            }[field]
        )
        case["target"] = g.pick(["new", "existing"])
    elif roll < 0.1:
        case["kind"] = "fault"
        case["target"] = g.pick(["missing folder", "folder", "full", "full"])
    return case


def mix(g, base):
    other = random_case(g, None)
    if base["kind"] != "export" or other["kind"] != "export":
        return other
    names = ("file_type", "coordinates", "target", "file_format", "call")
    return dict(base, **{n: other[n] for n in names})


def export(ctx, case, control, path, function):
    names = ("file_format", "file_type", "coordinates")
    if case["call"] == "pos" and "default" not in [case[n] for n in names]:
        return function("export_to_file", control.export_to_file, path, *[case[n] for n in names])
    kwargs = {n: case[n] for n in names if case[n] != "default"}
    if case["call"] == "pos":
        return function("export_to_file", control.export_to_file, path, **kwargs)
    return function("export_to_file", control.export_to_file, filename=path, **kwargs)


def compare(ctx, case, fields, path, name):
    """The file at path holds the given fields."""
    file_type = "CSV" if case["file_type"] == "default" else case["file_type"]
    coordinates = "cylindrical" if case["coordinates"] == "default" else case["coordinates"]
    try:
        data, maximum, written = files.read(path, file_type, coordinates)
    except (ValueError, OSError, UnicodeDecodeError) as error:
        with open(path, "rb") as handle:
            content = handle.read(400)
        ctx.require(False, "unreadable:" + file_type, "%s %s file: %s: %r", coordinates, file_type, error, content)
    ctx.count["files_read_back"] += 1
    dt, rabi, phi, det = (fields[f] for f in vc.FIELDS)
    top = max(rabi)
    ctx.require(
        vc.close(maximum, top, 1e-12), "maximum", "maximum Rabi rate written as %r, is %r", maximum, top
    )
    scale = top if top > 0 else 1.0
    expected = {"duration": dt, "detuning": det}
    floors = {"duration": dt, "detuning": [abs(d) for d in det]}
    waves = [cmath.rect(r, p) / scale for r, p in zip(rabi, phi)]
    if coordinates == "cartesian":
        expected["amplitude_x"] = [w.real for w in waves]
        expected["amplitude_y"] = [w.imag for w in waves]
        floors["amplitude_x"] = floors["amplitude_y"] = [abs(w) for w in waves]
    else:
        expected["rabi_rates"] = [r / scale for r in rabi]
        expected["azimuthal_angles"] = phi
        floors["rabi_rates"] = expected["rabi_rates"]
        floors["azimuthal_angles"] = [abs(p) for p in phi]
    for field, values in expected.items():
        ctx.require(
            len(data[field]) == len(values), "rows:" + field, "%d values of %s for %d segments",
            len(data[field]), field, len(values),
        )
        for i, (a, b) in enumerate(zip(data[field], values)):
            ctx.require(
                abs(a - b) <= 1e-11 * floors[field][i], "value:" + field,
                "%s of segment %d of %d written as %r, is %r (%s, %s)",
                field, i, len(values), a, b, file_type, coordinates,
            )
    if file_type == "JSON" and name != "":
        ctx.require(written == name, "name", "name written as %r, is %r", written, name)
    return data


def check(ctx, case):
    control, fields = vc.build(ctx, case)
    target = case["target"]
    path = ctx.path(".txt")
    ctx.nontrivial(
        vc.key(case), case["file_type"], case["coordinates"], case["file_format"], target, case["kind"]
    )
    if target == "odd name":
        path = os.path.join(ctx.scratch, "odd näme, with 'quotes' %s {}" + str(ctx.count["cases"]))
    if target == "existing":
        with open(path, "w", encoding="utf-8") as handle:
            handle.write(OLD)
    try:
        if case["kind"] == "export":
            argument = pathlib.Path(path) if target == "path" else path
            export(ctx, case, control, argument, ctx.ok)
            compare(ctx, case, fields, path, case["name"])
            ctx.note = {"size": os.path.getsize(path)}
        elif case["kind"] == "unsupported":
            export(ctx, case, control, path, ctx.refused)
            if target == "existing":
                with open(path, encoding="utf-8") as handle:
                    ctx.require(handle.read() == OLD, "refused-but-written", "a refused export changed the file")
            else:
                ctx.require(not os.path.exists(path), "refused-but-created", "a refused export created the file")
        else:
            fault(ctx, case, control, path)
    finally:
        if os.path.isfile(path):
            os.remove(path)


def fault(ctx, case, control, path):
    """Write failures have to reach the caller."""
    target = case["target"]
    limits = None
    if target == "missing folder":
        path = os.path.join(ctx.scratch, "missing", "file")
    elif target == "folder":
        path = os.path.join(ctx.scratch, "folder")
        os.makedirs(path, exist_ok=True)
    else:
        # a full disk: no file may grow beyond a few bytes
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        limits = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (16, limits[1]))
    result = []

    def observe(_what, function, *args, **kwargs):
        result.append(ctx.call(function, *args, **kwargs))

    try:
        export(ctx, case, control, path, observe)
    finally:
        if limits is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, limits)
    ctx.count["write_failures"] += 1
    ctx.require(
        isinstance(result[0][1], (OSError, ctx.lib.QctrlError)), "silent-failure:" + target,
        "export to %s: %r", target, result[0][1],
    )
