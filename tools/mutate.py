"""
Mutation assessment of the monitors (development tool, not a check).

  mutate.py OUT.jsonl [FILE-SUBSTRING]   mutates the library in scratch copies, runs the library's tests
                                         and, for mutants passing them, a reduced run of all monitors
"""

import ast
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile

REPO = "/repo"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
PROPS = ["C%02d" % n for n in range(1, 32)]

COMPARE = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="],
           ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"]}
BINARY = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*"], ast.Pow: ["*"],
          ast.Mod: ["*"], ast.FloorDiv: ["/"]}
FUNCTIONS = {"sin": "cos", "cos": "sin", "floor": "ceil", "ceil": "floor", "arcsin": "arccos", "arccos": "arcsin",
             "max": "min", "min": "max", "amax": "amin", "amin": "amax", "any": "all", "all": "any",
             "isclose": "greater", "zeros": "ones", "ones": "zeros", "logical_or": "logical_and",
             "logical_and": "logical_or", "greater": "less", "abs": "array", "round": "floor", "sqrt": "abs",
             "append": "setdiff1d", "cumsum": "cumprod", "logical_not": "logical_or"}


def mutants_of(path):
    source = open(path, encoding="utf-8").read()
    lines = source.split("\n")
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()) + 1)
    data = source.encode()
    tree = ast.parse(source)
    docstrings = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            docstrings.add(id(node.value))
        if isinstance(node, (ast.FunctionDef, ast.arg)):
            annotation = getattr(node, "annotation", None) or getattr(node, "returns", None)
            if annotation is not None:
                for sub in ast.walk(annotation):
                    docstrings.add(id(sub))
    parents = {}
    for node in ast.walk(tree):
        for child in ast.iter_child_nodes(node):
            parents[id(child)] = node

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset)

    def text(node):
        a, b = span(node)
        return data[a:b].decode()

    def change(node, new, what):
        a, b = span(node)
        return {"file": os.path.relpath(path, REPO), "line": node.lineno, "what": what, "old": data[a:b].decode()[:120],
                "new": new[:120], "source": (data[:a] + new.encode() + data[b:]).decode()}

    for node in ast.walk(tree):
        if id(node) in docstrings or isinstance(node, (ast.Import, ast.ImportFrom)):
            continue
        if isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                yield change(node, repr(not v), "bool")
            elif isinstance(v, (int, float)):
                yield change(node, repr(v + 1), "const+1")
                if v > 1 or isinstance(v, float):
                    yield change(node, repr(v - 1) if v - 1 >= 0 else "(%r)" % (v - 1), "const-1")
                if isinstance(v, float) and v not in (0.0, 1.0, 2.0):
                    yield change(node, repr(v * 1.001), "const*1.001")
            elif isinstance(v, str) and isinstance(parents.get(id(node)), (ast.Subscript, ast.Dict, ast.Index, ast.Compare)):
                yield change(node, repr(v + "x"), "string")
        elif isinstance(node, ast.Compare) and len(node.ops) >= 1:
            for i, op in enumerate(node.ops):
                for new in COMPARE.get(type(op), []):
                    parts = [text(node.left)]
                    for j, (o, c) in enumerate(zip(node.ops, node.comparators)):
                        symbol = new if j == i else {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==",
                                                     ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in", ast.Is: "is",
                                                     ast.IsNot: "is not"}[type(o)]
                        parts += [symbol, text(c)]
                    yield change(node, " ".join(parts), "compare")
        elif isinstance(node, ast.BinOp):
            for new in BINARY.get(type(node.op), []):
                yield change(node, "((%s) %s (%s))" % (text(node.left), new, text(node.right)), "binop")
        elif isinstance(node, ast.UnaryOp):
            yield change(node, "(%s)" % text(node.operand), "unary")
        elif isinstance(node, ast.BoolOp):
            new = " or " if isinstance(node.op, ast.And) else " and "
            yield change(node, "(" + new.join("(%s)" % text(v) for v in node.values) + ")", "boolop")
        elif isinstance(node, ast.Call):
            name = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", None)
            if name in FUNCTIONS:
                func = text(node.func)
                yield change(node.func, func[: -len(name)] + FUNCTIONS[name], "function")
            for keyword in node.keywords:
                if keyword.arg in ("name", "detunings", "azimuthal_angles", "minimum_segment_duration"):
                    yield change(keyword.value, "None", "kw-none")
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and id(getattr(node, "value", None)) not in docstrings:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.lineno < 30:
                continue
            yield change(node, "pass", "delete")
        if isinstance(node, (ast.If, ast.IfExp)):
            yield change(node.test, "True", "if-true")
            yield change(node.test, "False", "if-false")
        if isinstance(node, ast.IfExp):
            pass


def reduced(copy):
    """Runs all monitors in a reduced form; returns the properties violated."""
    env = dict(os.environ, VM_REPO=copy, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
               LANG="C.UTF-8")
    code = (
        "import sys,json\nfrom vm import core\n"
        "import importlib,queue\n"
        "class Q:\n  def put(self,x): self.x=x\n  def close(self): pass\n  def join_thread(self): pass\n"
        "for p in %r:\n"
        "  m=importlib.import_module('vm.props.'+p.lower())\n"
        "  m.COUNT={'quick':max(400,m.COUNT['quick']//20)}\n"
        "  m.NO_TRACE=True\n"
        "  q=Q(); core.run_shard(p,'quick',5,3,60.0,1,q)\n"
        "  r=json.loads(q.x)\n"
        "  if r['error']: print('ERR',p,r['error'][-300:].replace(chr(10),' '),flush=True)\n"
        "  elif r['violations']: print('HIT',p,r['violations'][0]['mechanism'].replace(chr(10),' ')[:100],flush=True)\n"
    ) % (PROPS,)
    try:
        out = subprocess.run([PYTHON, "-W", "ignore", "-c", code], env=env, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, timeout=900).stdout.decode()
    except subprocess.TimeoutExpired as error:
        return ["TIMEOUT " + (error.stdout or b"").decode()[-300:]]
    return [l for l in out.split("\n") if l.strip()]


def work(mutant):
    copy = tempfile.mkdtemp(prefix="mut-")
    try:
        for name in ("qctrlopencontrols", "tests", "setup.py", "pyproject.toml", "README.md", "setup.cfg"):
            source = os.path.join(REPO, name)
            if os.path.isdir(source):
                shutil.copytree(source, os.path.join(copy, name), ignore=shutil.ignore_patterns("__pycache__"))
            elif os.path.exists(source):
                shutil.copy(source, copy)
        with open(os.path.join(copy, mutant["file"]), "w", encoding="utf-8") as handle:
            handle.write(mutant["source"])
        env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
        try:
            tests = subprocess.run([PYTHON, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=copy,
                                   env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            passed = tests.returncode == 0
        except subprocess.TimeoutExpired:
            passed = False
        result = {k: v for k, v in mutant.items() if k != "source"}
        result["tests"] = passed
        if passed:
            result["hits"] = reduced(copy)
        return result
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    out = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else ""
    mutants = []
    for folder, _, names in os.walk(os.path.join(REPO, "qctrlopencontrols")):
        for name in sorted(names):
            path = os.path.join(folder, name)
            if name.endswith(".py") and name != "__init__.py" and only in path:
                mutants.extend(mutants_of(path))
    print(len(mutants), "mutants", flush=True)
    with multiprocessing.Pool(8) as pool, open(out, "w", encoding="utf-8") as handle:
        for result in pool.imap_unordered(work, mutants):
            handle.write(json.dumps(result) + "\n")
            handle.flush()


if __name__ == "__main__":
    main()
