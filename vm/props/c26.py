"""C26: process state around operations."""

import decimal
import gc
import locale
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np

from vm.props import c20, c24
from vm.props.c20 import inspections, outcome, plain

RULE = (
    "Cases: histories of operations (successful, refused, writes which fail), each with snapshots of the "
    "process state before and after and with standard output and error captured. Non-trivial: every "
    "operation of a history was framed by snapshots; distinct by operations."
)
ASSUMPTIONS = ["imported modules and memory in use are not part of the observed state"]
COUNT = {"quick": 1500, "thorough": 8000}
MINIMUM = {"framed_operations": 30000, "failed_writes": 400, "files_written": 700}
SIGNALS = [signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE, signal.SIGHUP, signal.SIGUSR1]


def random_case(g, _tier):
    return {
        "kind": "history", "operations": [c20.operation(g) for _ in range(g.int(1, 4))],
        "types": [g.pick(["CSV", "JSON"]) for _ in range(4)],
        "coordinates": [g.pick(["cartesian", "cylindrical"]) for _ in range(4)],
        "settings": g.int(0, 10000), "bad": g.pick(["folder", "missing", "option", "type", "coordinates"]),
    }


def umask():
    mask = os.umask(0o22)
    os.umask(mask)
    return mask


class Unusual:
    """Settings unlike the defaults, so that resetting them would show too."""

    def __init__(self, number):
        self.number = number

    def __enter__(self):
        n = self.number
        self.saved = (
            np.geterr(), np.get_printoptions(), warnings.filters[:], decimal.getcontext().prec, sys.getrecursionlimit(),
            sys.getswitchinterval(), os.umask((0o27, 0o77, 0o22)[n % 3]), signal.getsignal(signal.SIGUSR1),
        )
        np.seterr(
            divide=("warn", "ignore", "print")[n % 3], over=("print", "warn", "ignore")[n % 3], under="ignore",
            invalid=("ignore", "print", "warn")[n % 3],
        )
        np.set_printoptions(
            precision=5 + n % 7, threshold=700 + n % 50, linewidth=60 + n % 90, edgeitems=2 + n % 3, suppress=n % 2 == 0,
        )
        np.random.seed(n)
        random.seed(n)
        warnings.simplefilter(("ignore", "default", "always")[n % 3], BytesWarning)
        decimal.getcontext().prec = 20 + n % 9
        sys.setrecursionlimit(self.saved[4] + 100 + n % 100)
        sys.setswitchinterval(0.002 + 0.001 * (n % 5))
        signal.signal(signal.SIGUSR1, signal.SIG_IGN)
        os.environ["VM_UNUSUAL"] = str(n)

    def __exit__(self, *_):
        settings, shown, filters, precision, limit, interval, mask, handler = self.saved
        np.seterr(**settings)
        np.set_printoptions(**shown)
        warnings.filters[:] = filters
        decimal.getcontext().prec = precision
        sys.setrecursionlimit(limit)
        sys.setswitchinterval(interval)
        os.umask(mask)
        signal.signal(signal.SIGUSR1, handler)
        os.environ.pop("VM_UNUSUAL", None)


def state():
    """Everything process-wide which an operation could change: {what: value}."""
    numpy_random = np.random.get_state()
    return {
        "numpy error settings": (np.geterr(), np.geterrcall(), np.getbufsize()),
        "numpy print settings": sorted((k, str(v)) for k, v in np.get_printoptions().items()),
        "numpy random state": (plain(numpy_random[1])[2][:16], numpy_random[2:]),
        "random state": hash(random.getstate()),
        "warning filters": [str(f) for f in warnings.filters],
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "module search path": list(sys.path),
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": str(decimal.getcontext()),
        "recursion limit": sys.getrecursionlimit(),
        "signal handlers": [signal.getsignal(s) for s in SIGNALS],
        "umask": umask(),
        "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "threads": threading.active_count(),
        "hooks": (sys.excepthook, sys.displayhook, threading.excepthook if hasattr(threading, "excepthook") else None),
        "switch interval": sys.getswitchinterval(),
        "garbage collector": gc.isenabled(),
        "file descriptors": len(os.listdir("/proc/self/fd")),
    }


class Capture:
    """Standard output and error of the process, at the level of file descriptors."""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.saved = [os.dup(1), os.dup(2)]
        self.target = os.open(self.path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(self.target, 1)
        os.dup2(self.target, 2)
        return self

    def size(self):
        sys.stdout.flush()
        sys.stderr.flush()
        return os.fstat(self.target).st_size

    def __exit__(self, *_):
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(self.saved[0], 1)
        os.dup2(self.saved[1], 2)
        for descriptor in self.saved + [self.target]:
            os.close(descriptor)
        os.remove(self.path)


def framed(ctx, capture, what, function):
    """Executes an operation between two snapshots: (result, error)."""
    before = state()
    printed = capture.size()
    result, error = outcome(function)
    after = state()
    ctx.count["framed_operations"] += 1
    for name, value in before.items():
        ctx.require(
            after[name] == value, name.replace(" ", "-") + ":" + what, "%s changed the %s: %s, was %s", what, name,
            after[name], value,
        )
    ctx.require(capture.size() == printed, "printed:" + what, "%s printed something", what)
    return result, error


class Framed:
    """Makes requests of the shared workloads between snapshots."""

    def __init__(self, ctx, capture):
        self.ctx = ctx
        self.capture = capture
        self.lib = ctx.lib
        self.count = ctx.count
        self.scratch = ctx.scratch
        self.require = ctx.require

    def call(self, function, *args, **kwargs):
        what = getattr(function, "__name__", "call")
        return framed(self.ctx, self.capture, what, lambda: function(*args, **kwargs))

    def ok(self, what, function, *args, **kwargs):
        result, error = framed(self.ctx, self.capture, what, lambda: function(*args, **kwargs))
        self.ctx.require(error is None, "exception:" + what, "valid request %s raised %r", what, error)
        return result

    def refused(self, what, function, *args, **kwargs):
        _, error = framed(self.ctx, self.capture, what, lambda: function(*args, **kwargs))
        self.ctx.require(
            isinstance(error, self.lib.ArgumentsValueError), "accepted:" + what, "invalid request %s gave %r", what, error
        )
        return error


def listing(folder):
    return sorted(os.listdir(folder))


def check(ctx, case):
    folder = os.path.join(ctx.scratch, "work")
    os.makedirs(folder, exist_ok=True)
    ctx.nontrivial(repr(case["operations"]), case["bad"])
    home = os.getcwd()
    os.chdir(folder)  # files with relative names would show up here
    try:
        with Unusual(case["settings"]), Capture(os.path.join(ctx.scratch, "captured")) as capture:
            for i, item in enumerate(case["operations"]):
                operate(ctx, capture, folder, case, i, item)
    finally:
        os.chdir(home)
    ctx.note = {"operations": [x["op"] for x in case["operations"]]}


def operate(ctx, capture, folder, case, i, item):
    subject = c24.subject_of(Framed(ctx, capture), item)
    ctx.require(listing(folder) == [], "files:" + item["op"], "files appeared: %s", listing(folder))
    if isinstance(subject, Exception):
        return
    path = os.path.join(folder, "out")
    for what, function in inspections(subject, path, case["types"][i], case["coordinates"][i]):
        _, error = framed(ctx, capture, what.split()[0], function)
        expected = ["out"] if what == "export_to_file" and error is None else []
        ctx.require(listing(folder) == expected, "files:" + what, "files after %s: %s", what, listing(folder))
        if expected:
            ctx.count["files_written"] += 1
            os.remove(path)
    options = {"filename": path, "file_type": case["types"][i], "coordinates": case["coordinates"][i]}
    there = []
    if case["bad"] == "folder":
        options["filename"] = os.path.join(folder, "sub")
        os.mkdir(options["filename"])
        there = ["sub"]
    elif case["bad"] == "missing":
        options["filename"] = os.path.join(folder, "no", "such")
    elif case["bad"] == "option":
        options["file_format"] = "other"
    elif case["bad"] == "type":
        options["file_type"] = "XML"
    else:
        options["coordinates"] = "polar"
    _, error = framed(ctx, capture, "failing export_to_file", lambda: subject.export_to_file(**options))
    ctx.count["failed_writes"] += 1
    ctx.require(error is not None, "silent-failure", "%s did not fail", options)
    ctx.require(listing(folder) == there, "files:failing", "files after a failed export: %s", listing(folder))
    if there:
        os.rmdir(options["filename"])


