"""C24: copies, pickles and other processes."""

import copy
import os
import pickle
import subprocess
import sys

import numpy as np

from vm import control as vc
from vm import conversion as vv
from vm import core, remote
from vm import sequence as vs
from vm.props import c20
from vm.props.c20 import arrays_of, fields_of, inspections, outcome, plain

RULE = (
    "Cases: objects made by all kinds of requests and errors of refused requests, copied, deep-copied, pickled "
    "and sent to another process (other hash seed, optimization level, locale or working directory) and back; "
    "requests repeated in that process. "
    "Non-trivial: all copies were compared with the original; distinct by request."
)
ASSUMPTIONS = [
    "a shallow copy may share arrays with its original",
    "four other processes per shard, each in an environment of its own",
    "pickle protocols 2 to 4 (0 and 1 cannot handle classes with __slots__, protocol 5 fails on this interpreter for "
    "several empty numpy arrays)",
]
COUNT = {"quick": 4000, "thorough": 20000}
MINIMUM = {"copies_compared": 8000, "errors_copied": 600, "remote_requests": 3000, "remote_objects": 1000}
WAYS = ["copy", "deepcopy", "remote"] + ["pickle%d" % p for p in range(2, 5)]


# options, environment and working directory of the other processes
PLACES = [
    ([], {"PYTHONHASHSEED": "1"}, None),
    (["-O"], {"PYTHONHASHSEED": "22", "TZ": "Asia/Kolkata"}, "/"),
    (["-OO"], {"PYTHONHASHSEED": "333", "HOME": "/nonexistent", "PYTHONUNBUFFERED": "1"}, "/usr"),
    (
        [], {"PYTHONHASHSEED": "4444", "LC_ALL": "C", "LANG": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0",
             "COLUMNS": "20", "LINES": "5"}, None,
    ),
]


class Remote:
    """Another process."""

    def __init__(self, place):
        self.options, self.environment, self.folder = place
        self.process = None

    def ask(self, message):
        if self.process is None or self.process.poll() is not None:
            environment = dict(os.environ, **self.environment)
            self.process = subprocess.Popen(  # ends when this process does, at the end of its input
                [sys.executable, "-W", "ignore"] + self.options + ["-m", "vm.remote"], stdin=subprocess.PIPE,
                stdout=subprocess.PIPE, env=environment, cwd=self.folder or core.HERE, close_fds=True,
            )
        remote.send(self.process.stdin, message)
        answer = remote.receive(self.process.stdout)
        if answer is None:
            raise RuntimeError("the other process ended")
        return answer


REMOTES = [Remote(place) for place in PLACES]


def random_case(g, _tier):
    item = c20.operation(g)
    return {"kind": item["op"], "item": item, "ways": g.rng.sample(WAYS, 3), "history": g.flip(0.3),
            "remote": g.int(0, len(PLACES) - 1)}


def subject_of(ctx, item):
    """An object or an error made by the library."""
    if item["op"] == "control":
        return vc.build(ctx, item["case"])[0]
    if item["op"] == "sequence":
        return vs.construct(ctx, item["case"])
    if item["op"] == "convert":
        sequence = vv.sequence_of(ctx, item["case"])
        control, error = vv.convert(ctx, item["case"], sequence)
        return control if error is None else error
    if item["op"] == "refused":
        return c20.refused_error(ctx, item)
    return c20.execute(ctx, item, "o", light=True)[1][0]


def duplicate(ctx, way, subject, place=0):
    if way == "copy":
        return ctx.ok("copy", copy.copy, subject)
    if way == "deepcopy":
        return ctx.ok("deepcopy", copy.deepcopy, subject)
    if way == "remote":
        ctx.ok("pickle", pickle.dumps, subject)
        answer = REMOTES[place].ask(("object", subject))
        ctx.require(answer[0] == "result", "remote-object", "sending an object to another process: %s", answer[1:])
        expected = (
            (type(subject).__name__, str(subject)) if isinstance(subject, Exception) else fields_of(subject)
        )
        ctx.count["remote_objects"] += 1
        ctx.require(answer[1] == expected, "remote-object", "another process received %s, sent %s", answer[1], expected)
        return answer[2]
    data = ctx.ok(way, pickle.dumps, subject, int(way[6:]))
    return ctx.ok(way, pickle.loads, data)


def describe(subject, path):
    """Results of all operations on an object, in plain form."""
    result = []
    for name, function in inspections(subject, path, "JSON", "cylindrical"):
        value, error = outcome(function)
        result.append((name, plain(value), None if error is None else str(error)))
    return result


def same_error(ctx, way, error, other):
    ctx.count["errors_copied"] += 1
    ctx.require(type(other) is type(error), "error:" + way, "%s of %r gave %r", way, type(error), type(other))
    for name in ("description", "message"):
        ctx.require(
            getattr(other, name) == getattr(error, name), "error:" + way, "%s of an error changed its %s to %r from %r",
            way, name, getattr(other, name), getattr(error, name),
        )
    for name in ("arguments", "extras"):
        ctx.require(
            repr(getattr(other, name)) == repr(getattr(error, name)), "error:" + way,
            "%s of an error changed its %s to %r from %r", way, name, getattr(other, name), getattr(error, name),
        )
    ctx.require(str(other) == str(error), "error:" + way, "%s of an error reads %r, was %r", way, str(other), str(error))


def check(ctx, case):
    item = case["item"]
    subject = subject_of(ctx, item)
    ctx.nontrivial(item["op"], repr(item.get("case")), tuple(case["ways"]))
    path = ctx.path()
    if isinstance(subject, Exception):
        for way in case["ways"]:
            same_error(ctx, way, subject, duplicate(ctx, way, subject, case["remote"]))
    else:
        if case["history"]:
            vc_touch(ctx, subject, path)
        before = fields_of(subject)
        expected = describe(subject, path)
        for way in case["ways"]:
            other = duplicate(ctx, way, subject, case["remote"])
            ctx.count["copies_compared"] += 1
            ctx.require(type(other) is type(subject), "type:" + way, "%s of a %s is a %s", way, type(subject), type(other))
            ctx.require(other is not subject, "identity:" + way, "%s returned the object itself", way)
            ctx.require(fields_of(other) == before, "content:" + way, "%s has %s, original %s", way, fields_of(other), before)
            found = describe(other, path)
            ctx.require(found == expected, "behaviour:" + way, "%s behaves differently: %s", way, different(expected, found))
            if way != "copy":
                for a in arrays_of(subject):
                    for b in arrays_of(other):
                        ctx.require(not np.shares_memory(a, b), "shared:" + way, "%s shares memory with its original", way)
                for array in arrays_of(other):
                    if array.flags.writeable:
                        array[...] = 77
            other.name = "changed"
            ctx.require(fields_of(subject) == before, "shared:" + way, "changing a %s changed the original", way)
    ctx.remove(path)
    # the same request in the other process
    here = c20.execute(ctx, item, "l", light=True)[0]
    answer = REMOTES[case["remote"]].ask(("execute", item))
    ctx.count["remote_requests"] += 1
    ctx.require(
        answer[0] == "result" and answer[1] == here, "other-process:" + item["op"],
        "another process gave %s, this one %s", *c20.difference(answer[1], here),
    )
    ctx.note = {"ways": case["ways"]}


def vc_touch(ctx, subject, path):
    """Uses an object before it is copied."""
    for _name, function in inspections(subject, path, "CSV", "cartesian"):
        outcome(function)
    ctx.count["used_before_copy"] += 1


def different(a, b):
    for x, y in zip(a, b):
        if x != y:
            return "%s: %s instead of %s" % (x[0], str(y[1:])[:300], str(x[1:])[:300])
    return "%d instead of %d operations" % (len(b), len(a))
