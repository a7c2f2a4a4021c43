"""
Imports the library in an interpreter of its own (started by the monitors of C27) and reports what happened:
reads a JSON request from standard input, writes a JSON report to the file named there.
"""

import builtins
import importlib
import io
import json
import os
import sys
import tempfile
import types
import warnings

PUBLIC = ["DrivenControl", "DynamicDecouplingSequence", "convert_dds_to_driven_control"] + [
    "new_%s_control" % n for n in (
        "bb1", "corpse", "corpse_in_bb1", "corpse_in_scrofulous", "corpse_in_sk1", "modulated_gaussian", "primitive",
        "scrofulous", "sk1", "wamf1",
    )
] + [
    "new_%s_sequence" % n for n in (
        "carr_purcell", "cpmg", "periodic", "quadratic", "ramsey", "spin_echo", "uhrig", "walsh", "x_concatenated",
        "xy_concatenated",
    )
]


def imports(request, report):
    """Imports modules one after the other, with snapshots in between."""
    from vm.props import c26

    with tempfile.TemporaryDirectory(prefix="vm-fresh-") as scratch, warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        with c26.Capture(os.path.join(scratch, "captured")) as capture:
            for name in request["modules"]:
                before, known = c26.state(), len(seen)
                names = set(vars(builtins))
                printed = capture.size()
                try:
                    importlib.import_module(name)
                except Exception as error:  # pylint: disable=broad-except
                    report["problems"].append(["exception", "importing %s raised %r" % (name, error)])
                    return
                after = c26.state()
                for what, value in before.items():
                    if after[what] != value:
                        report["problems"].append(["state", "importing %s changed the %s" % (name, what)])
                if set(vars(builtins)) != names:
                    report["problems"].append(["state", "importing %s changed the builtins" % name])
                if capture.size() != printed:
                    report["problems"].append(["printed", "importing %s printed something" % name])
                for warning in seen[known:]:
                    report["problems"].append(["warning", "importing %s warned: %s" % (name, warning.message)])
        if os.listdir("."):
            report["problems"].append(["files", "importing created %s" % os.listdir(".")])


def surface(report):
    """What the imported package offers."""
    root = importlib.import_module("qctrlopencontrols")
    report["version"] = root.__version__
    report["missing"] = [name for name in PUBLIC if not callable(getattr(root, name, None))]
    star = {}
    try:
        exec("from qctrlopencontrols import *", star)  # pylint: disable=exec-used
    except Exception as error:  # pylint: disable=broad-except
        report["problems"].append(["star", "import * raised %r" % error])
    report["star"] = sorted(set(PUBLIC) - set(star))
    report["unresolved"] = [n for n in getattr(root, "__all__", []) if not hasattr(root, n)]
    report["different"] = [
        name for name in PUBLIC for module in list(sys.modules.values())
        if getattr(module, "__name__", "").startswith("qctrlopencontrols")
        and getattr(module, name, getattr(root, name, None)) is not getattr(root, name, None)
    ]
    constants = importlib.import_module("qctrlopencontrols.constants")
    report["constants"] = {}
    for name in ("SIGMA_X", "SIGMA_Y", "SIGMA_Z", "SIGMA_M", "SIGMA_P"):
        value = getattr(constants, name)
        report["constants"][name] = [
            list(value.shape), str(value.dtype), [[[float(x.real), float(x.imag)] for x in row] for row in value.tolist()]
        ]
    report["format"] = constants.MATPLOTLIB


def notebook(request, report):
    """Executes the code of a published notebook; plotting packages are replaced by recorders."""
    plotted = []
    pyplot = types.ModuleType("matplotlib.pyplot")
    pyplot.figure = lambda *_, **__: "figure"
    package = types.ModuleType("matplotlib")
    package.pyplot = pyplot
    visualizer = types.ModuleType("qctrlvisualizer")
    visualizer.plot_controls = visualizer.plot_sequences = lambda _, data: plotted.append(data)
    sys.modules.update({"matplotlib": package, "matplotlib.pyplot": pyplot, "qctrlvisualizer": visualizer})
    names = {}
    report["cells"] = []
    for i, (source, _) in enumerate(request["cells"]):
        stream, saved = io.StringIO(), sys.stdout
        sys.stdout = stream
        try:
            exec(compile(source, "cell %d" % i, "exec"), names)  # pylint: disable=exec-used
        except Exception as error:  # pylint: disable=broad-except
            report["problems"].append(["notebook", "cell %d raised %r" % (i, error)])
            return
        finally:
            sys.stdout = saved
        report["cells"].append(stream.getvalue())
    for data in plotted:
        for name, segments in data.items():
            good = isinstance(name, str) and len(segments) and all(
                isinstance(v, (int, float, complex)) for s in segments for v in s.values()
            )
            if not good:
                report["problems"].append(["plotted", "data of %r cannot be plotted: %r" % (name, segments)])
    report["plotted"] = len(plotted)


def main():
    request = json.load(sys.stdin)
    report = {"problems": []}
    from vm import target

    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/vm-pycache"
    sys.path.insert(0, target.REPO)
    import numpy  # pylint: disable=unused-import

    with tempfile.TemporaryDirectory(prefix="vm-fresh-") as folder:
        os.chdir(folder)
        if request["cells"] is not None:
            notebook(request, report)
        else:
            imports(request, report)
            if not report["problems"]:
                surface(report)
        os.chdir("/")
    with open(request["report"], "w", encoding="utf-8") as handle:
        json.dump(report, handle)


if __name__ == "__main__":
    main()
