"""
Rarely triggered bugs, generated (development tool, not a check).

  guarded.py OUT.jsonl NUMBER SEED   takes mutants which fail the library's tests, restricts each to a
                                     condition on the arguments under which no test notices it, and runs
                                     the full quick checks of the properties anchored in the mutated file
"""

import ast
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import tempfile

import mutate

CONDITIONS = {
    "duration": ["duration > 1e3", "duration < 1e-6", "1e-4 < duration < 1e-3", "duration == 7"],
    "offset_count": ["offset_count == 17", "offset_count > 100", "offset_count % 16 == 0"],
    "paley_order": ["paley_order > 1500", "paley_order == 1023", "paley_order % 64 == 63"],
    "inner_offset_count": ["inner_offset_count == 7", "inner_offset_count > 12"],
    "outer_offset_count": ["outer_offset_count == 9", "outer_offset_count > 14"],
    "concatenation_order": ["concatenation_order >= 6", "concatenation_order == 5"],
    "rabi_rotation": ["rabi_rotation > 3 * np.pi", "rabi_rotation < 0.05", "2.0 < rabi_rotation < 2.2"],
    "maximum_rabi_rate": ["maximum_rabi_rate > 1e9", "maximum_rabi_rate < 0.01", "maximum_rabi_rate == 10"],
    "azimuthal_angle": ["azimuthal_angle > 6.5", "azimuthal_angle < -3.2", "0 < azimuthal_angle < 0.1"],
    "maximum_detuning_rate": ["maximum_detuning_rate > 10 * maximum_rabi_rate", "maximum_detuning_rate < 0.1 * maximum_rabi_rate"],
    "minimum_segment_duration": ["minimum_segment_duration > 1.0", "0 < minimum_segment_duration < 1e-6"],
    "modulation_frequency": ["modulation_frequency < 0", "modulation_frequency > 1e6"],
    "dynamic_decoupling_sequence": ["dynamic_decoupling_sequence.offsets.size > 50", "dynamic_decoupling_sequence.offsets.size == 7",
                                    "dynamic_decoupling_sequence.duration < 1e-5", "dynamic_decoupling_sequence.duration > 1e4"],
    "offsets": ["len(offsets) > 100", "len(offsets) == 11"],
    "durations": ["len(durations) > 300", "np.min(durations) < 1e-11", "np.max(durations) > 1e5"],
    "order": ["order == 6", "order > 6"],
    "concatenation_sequence": ["concatenation_sequence >= 6"],
    "name": ["name is not None", "name is None"],
    "pre_post_rotation": ["pre_post_rotation"],
    "file_type": ["file_type == 'JSON'"],
    "coordinates": ["coordinates == 'cartesian'"],
    "extras": ["extras is not None and len(extras) > 2"],
    "attributes": ["attributes is not None and len(attributes) > 5"],
}
SELF = {
    "DrivenControl": ["self.durations.size > 1000", "self.durations.size % 7 == 5", "self.durations.min() < 1e-11",
                      "self.rabi_rates.max() > 1e12", "(self.detunings < 0).all()", "self.azimuthal_angles.min() < -7"],
    "DynamicDecouplingSequence": ["self.offsets.size > 100", "self.offsets.size % 7 == 4", "self.duration > 1e5",
                                  "self.duration < 1e-7"],
}
CHECKS = {
    "driven_controls/driven_control.py": ["C06", "C07", "C08", "C09", "C10"],
    "driven_controls/predefined.py": ["C01", "C02", "C03", "C04", "C05", "C21"],
    "dynamic_decoupling_sequences/dynamic_decoupling_sequence.py": ["C15", "C16", "C17", "C10", "C18"],
    "dynamic_decoupling_sequences/predefined.py": ["C11", "C12", "C13", "C14", "C21"],
    "exceptions.py": ["C22"],
    "utils.py": ["C22", "C21"],
}


def guarded():
    """All mutants of expressions with the conditions which make sense at their place."""
    for folder, _, names in os.walk(os.path.join(mutate.REPO, "qctrlopencontrols")):
        for name in sorted(names):
            path = os.path.join(folder, name)
            if not name.endswith(".py") or name == "__init__.py":
                continue
            source = open(path, encoding="utf-8").read()
            functions = []
            for node in ast.walk(ast.parse(source)):
                if isinstance(node, ast.ClassDef):
                    functions += [(f, node.name) for f in node.body if isinstance(f, ast.FunctionDef)]
                elif isinstance(node, ast.Module):
                    functions += [(f, None) for f in node.body if isinstance(f, ast.FunctionDef)]
            for mutant in mutate.mutants_of(path):
                if mutant["what"] not in ("const+1", "const-1", "compare", "binop", "function", "unary", "boolop"):
                    continue
                place = [x for x in functions if x[0].body[0].lineno <= mutant["line"] <= x[0].end_lineno]
                if not place:
                    continue
                function, owner = place[-1]
                conditions = [CONDITIONS[a.arg] for a in function.args.args if a.arg in CONDITIONS]
                if owner and function.name != "__init__":
                    conditions.append(SELF.get(owner, []))
                if "scrofulous" in function.name or "wamf" in function.name:
                    # these schemes take three rotations only
                    conditions = [
                        ["rabi_rotation < 1", "rabi_rotation > 3"] if "rabi_rotation" in c[0] else c for c in conditions
                    ]
                if not conditions:
                    continue
                mutant["path"] = path
                mutant["conditions"] = conditions
                mutant["original"] = source
                yield mutant


def restrict(mutant, condition):
    """The source with the mutation under a condition, or None."""
    old, new = mutant["original"], mutant["source"]
    a = 0
    while a < min(len(old), len(new)) and old[a] == new[a]:
        a += 1
    # the whole line, as a statement of its own
    lines, changed = old.split("\n"), new.split("\n")
    if len(lines) != len(changed):
        return None
    tree = ast.parse(old)
    best = None
    for node in ast.walk(tree):
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Return, ast.Expr)) and node.lineno <= mutant["line"] <= node.end_lineno:
            if best is None or node.lineno >= best.lineno:
                best = node
    if best is None:
        return None
    first, last = best.lineno - 1, best.end_lineno
    if changed[:first] != lines[:first] or changed[last:] != lines[last:]:
        return None
    indent = " " * best.col_offset
    shift = ["    " + x if x.strip() else x for x in changed[first:last]]
    keep = ["    " + x if x.strip() else x for x in lines[first:last]]
    block = [indent + "if %s:" % condition] + shift + [indent + "else:"] + keep
    result = "\n".join(lines[:first] + block + lines[last:])
    try:
        compile(result, "x", "exec")
    except SyntaxError:
        return None
    return result


def passes(copy):
    env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
    try:
        return subprocess.run(
            [mutate.PYTHON, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=copy, env=env,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120,
        ).returncode == 0
    except subprocess.TimeoutExpired:
        return False


def prepare(item):
    """A bug nobody's test notices, made from one which the tests notice."""
    mutant, condition = item
    copy = tempfile.mkdtemp(prefix="mut-")
    shutil.rmtree(copy)
    shutil.copytree(mutate.REPO, copy, ignore=shutil.ignore_patterns("__pycache__", ".git"))
    target = os.path.join(copy, mutant["file"])
    try:
        source = restrict(mutant, condition)
        if source is None:
            return None
        with open(target, "w", encoding="utf-8") as handle:
            handle.write(mutant["source"])
        if passes(copy):
            return None
        with open(target, "w", encoding="utf-8") as handle:
            handle.write(source)
        if not passes(copy):
            return None
        return dict({k: mutant[k] for k in ("file", "line", "what", "old", "new")}, condition=condition, source=source)
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def judge(bug):
    copy = tempfile.mkdtemp(prefix="mut-")
    shutil.rmtree(copy)
    shutil.copytree(mutate.REPO, copy, ignore=shutil.ignore_patterns("__pycache__", ".git"))
    try:
        with open(os.path.join(copy, bug["file"]), "w", encoding="utf-8") as handle:
            handle.write(bug["source"])
        hits = []
        for prop in CHECKS[bug["file"].split("/", 1)[1]]:
            code = subprocess.run(
                ["bash", "check.sh", prop], cwd=mutate.HERE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                env=dict(os.environ, VM_REPO=copy, VERIF_TIER="quick", VERIF_SEED="77"),
            ).returncode
            if code == 1:
                hits.append(prop)
                break
            if code:
                hits.append("%s=%d" % (prop, code))
        return hits
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    out, number, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rng = random.Random(seed)
    mutants = list(guarded())
    rng.shuffle(mutants)
    items = []
    for mutant in mutants[: number * 4]:
        # one condition, or two on different arguments
        chosen = rng.sample(mutant["conditions"], min(len(mutant["conditions"]), rng.choice([1, 2, 2])))
        items.append((mutant, " and ".join("(%s)" % rng.choice(c) for c in chosen)))
    done = 0
    with multiprocessing.Pool(8) as pool:
        bugs = [b for b in pool.imap(prepare, items, chunksize=1) if b is not None][:number]
    print(len(bugs), "bugs", flush=True)
    with open(out, "w", encoding="utf-8") as handle:
        for bug in bugs:
            bug["hits"] = judge(bug)
            done += bool(bug["hits"])
            handle.write(json.dumps({k: v for k, v in bug.items() if k != "source"}) + "\n")
            handle.flush()
    print(done, "reported", flush=True)


if __name__ == "__main__":
    main()
