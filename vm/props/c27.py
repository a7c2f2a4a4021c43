"""C27: imports, public surface, constants and published examples."""

import json
import math
import os
import re
import subprocess
import sys

from vm import core, target

RULE = (
    "Cases: fresh interpreters (hash seeds, optimization and warning options) which import the modules of the "
    "package in some order and report their surface, or execute a published notebook. Non-trivial: the "
    "interpreter reported and its report was judged; distinct by order and options."
)
ASSUMPTIONS = [
    "numpy is imported before the snapshots",
    "numbers printed by the notebooks are compared within 1e-9 relative, other text exactly up to white space; "
    "files printed in other coordinates or with other order of columns are converted",
    "plotting packages, which are not installed, are replaced by recorders",
]
COUNT = {"quick": 120, "thorough": 900}
MINIMUM = {"interpreters": 100, "surfaces": 60, "notebooks": 16, "notebook_numbers": 1000}
NO_TRACE = True
OPTIONS = [[], ["-O"], ["-OO"], ["-B"], ["-X", "dev"], ["-bb"], ["-s", "-E"]]
SIGMA = {
    "SIGMA_X": [[0, 1], [1, 0]], "SIGMA_Y": [[0, -1j], [1j, 0]], "SIGMA_Z": [[1, 0], [0, -1]],
    "SIGMA_M": [[0, 1], [0, 0]], "SIGMA_P": [[0, 0], [1, 0]],
}
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)")


def modules():
    """Dotted names of all modules of the package."""
    result = []
    for path in target.source_files():
        name = os.path.relpath(path, target.REPO)[:-3].replace(os.sep, ".")
        result.append(name[: -len(".__init__")] if name.endswith(".__init__") else name)
    return result


def notebooks():
    folder = os.path.join(target.REPO, "examples")
    return sorted(n for n in os.listdir(folder) if n.endswith(".ipynb")) if os.path.isdir(folder) else []


def systematic(_tier):
    names = modules()
    for i, name in enumerate(names):  # each module first
        yield {"kind": "import", "modules": [name] + [n for n in names if n != name], "options": i % 7, "hash": i}
    for i in range(8):
        for name in notebooks():
            yield {"kind": "notebook", "name": name, "options": i % 7, "hash": i}


def random_case(g, _tier):
    names = modules()
    if g.flip(0.15) and notebooks():
        return {"kind": "notebook", "name": g.pick(notebooks()), "options": g.int(0, 6), "hash": g.int(0, 10 ** 6)}
    order = g.rng.sample(names, g.int(1, len(names)))
    return {"kind": "import", "modules": order, "options": g.int(0, 6), "hash": g.int(0, 10 ** 6)}


def cells_of(name):
    """[source, recorded text] of the code cells."""
    with open(os.path.join(target.REPO, "examples", name), encoding="utf-8") as handle:
        book = json.load(handle)
    result = []
    for cell in book["cells"]:
        if cell["cell_type"] == "code":
            text = "".join("".join(o["text"]) for o in cell["outputs"] if o["output_type"] == "stream")
            result.append(["".join(cell["source"]), text])
    return result


def check(ctx, case):
    request = {"modules": case.get("modules"), "cells": None, "report": ctx.path(".json")}
    if case["kind"] == "notebook":
        request["cells"] = cells_of(case["name"])
    environment = dict(os.environ, PYTHONHASHSEED=str(case["hash"]), VM_REPO=target.REPO)
    command = [sys.executable] + OPTIONS[case["options"]] + [
        "-c", "import sys; sys.dont_write_bytecode = True; sys.path[0] = %r; from vm import fresh; fresh.main()" % core.HERE
    ]
    process = subprocess.run(
        command, input=json.dumps(request).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=environment,
        cwd=core.HERE, check=False, timeout=150,
    )
    if not os.path.exists(request["report"]):
        raise RuntimeError("no report: %s" % process.stderr.decode("utf-8", "replace")[-1500:])
    with open(request["report"], encoding="utf-8") as handle:
        report = json.load(handle)
    ctx.remove(request["report"])
    ctx.count["interpreters"] += 1
    ctx.count["observed_calls"] += len(case.get("modules") or request["cells"])
    ctx.nontrivial(case["kind"], case.get("name"), tuple(case.get("modules", ())), case["options"], case["hash"])
    ctx.require(not report["problems"], *(report["problems"] + [["", ""]])[0])
    if case["kind"] == "notebook":
        ctx.count["notebooks"] += 1
        for i, ((_, recorded), text) in enumerate(zip(request["cells"], report["cells"])):
            compare(ctx, "cell %d of %s" % (i, case["name"]), recorded, text)
    else:
        surface(ctx, report)
    ctx.note = {"options": OPTIONS[case["options"]], "plotted": report.get("plotted")}


def table(text):
    """Rows of a printed CSV file in cartesian coordinates; None if it is something else."""
    lines = [line.split(",") for line in text.split("\n") if line.strip()]
    if not lines or "duration" not in lines[0] or any(len(line) != len(lines[0]) for line in lines):
        return None
    rows = []
    for line in lines[1:]:
        row = dict(zip(lines[0], map(float, line)))
        if "rabi_rates" in row:
            rabi, angle = row.pop("rabi_rates"), row.pop("azimuthal_angles")
            row["amplitude_x"], row["amplitude_y"] = rabi * math.cos(angle), rabi * math.sin(angle)
        rows.append(sorted(row.items()))
    return rows


def compare(ctx, where, recorded, text):
    rows = table(recorded)
    if rows is not None:  # the recorded file may be older than the present default coordinates
        found = table(text)
        ctx.require(
            found is not None and [[k for k, _ in r] for r in found] == [[k for k, _ in r] for r in rows],
            "notebook-table", "%s printed %r, recorded is %r", where, text, recorded,
        )
        for row, other in zip(rows, found):
            ctx.count["notebook_numbers"] += len(row)
            for (k, a), (_, b) in zip(row, other):
                ctx.require(
                    abs(a - b) <= 1e-9 * abs(a) + 1e-12 * (k != "duration"), "notebook-number",
                    "%s printed %s %r instead of %r", where, k, b, a,
                )
        return
    frame_a, frame_b = [" ".join(NUMBER.sub("#", t).split()) for t in (recorded, text)]
    ctx.require(frame_a == frame_b, "notebook-text", "%s printed %r, recorded is %r", where, text, recorded)
    for a, b in zip(NUMBER.findall(recorded), NUMBER.findall(text)):
        ctx.count["notebook_numbers"] += 1
        a, b = float(a), float(b)
        ctx.require(
            abs(a - b) <= 1e-9 * abs(a) + 1e-15, "notebook-number", "%s printed %r instead of %r: %s", where, b, a, text
        )


def surface(ctx, report):
    ctx.count["surfaces"] += 1
    ctx.require(not report["missing"], "missing", "the package lacks %s", report["missing"])
    ctx.require(not report["star"], "star", "import * does not provide %s", report["star"])
    ctx.require(not report["unresolved"], "unresolved", "__all__ lists unknown names %s", report["unresolved"])
    ctx.require(not report["different"], "different", "there are several objects called %s", report["different"])
    for name, rows in SIGMA.items():
        expected = [[[complex(x).real, complex(x).imag] for x in row] for row in rows]
        ctx.require(
            report["constants"][name] == [[2, 2], "complex128", expected], "constant:" + name, "%s is %s", name,
            report["constants"][name],
        )
    ctx.require(report["format"] == "matplotlib", "constant:MATPLOTLIB", "MATPLOTLIB is %r", report["format"])
    for file in ("pyproject.toml", "setup.py"):
        with open(os.path.join(target.REPO, file), encoding="utf-8") as handle:
            found = re.search(r"^\s*version\s*=\s*['\"]([^'\"]+)['\"]", handle.read(), re.M)
        if found:
            ctx.require(
                found.group(1) == report["version"], "version", "version %r, %s has %r", report["version"], file,
                found.group(1),
            )
