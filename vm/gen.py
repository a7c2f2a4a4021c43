"""
Workload generation. All randomness comes from the generator's rng, seeded by VERIF_SEED.

Interesting values are also harvested from the numeric literals of the source under test, so that
thresholds written in the code (and their neighbours) are tried as inputs.
"""

import array as array_module
import ast
import math

import numpy as np

PI = math.pi


def harvest(files):
    """Numeric literals (and simple constant expressions) of the source files."""
    found = set()

    def value(node):
        if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)):
            return float(node.value) if not isinstance(node.value, bool) else None
        if isinstance(node, ast.Attribute) and node.attr in ("pi", "e"):
            return getattr(math, node.attr)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            inner = value(node.operand)
            return None if inner is None else -inner
        if isinstance(node, ast.BinOp):
            left, right = value(node.left), value(node.right)
            if left is None or right is None:
                return None
            try:
                if isinstance(node.op, ast.Add):
                    return left + right
                if isinstance(node.op, ast.Sub):
                    return left - right
                if isinstance(node.op, ast.Mult):
                    return left * right
                if isinstance(node.op, ast.Div):
                    return left / right
                if isinstance(node.op, ast.Pow):
                    result = left ** right
                    return result if isinstance(result, float) else None
            except (ArithmeticError, ValueError):
                return None
        return None

    for filename in files:
        with open(filename, encoding="utf-8") as handle:
            tree = ast.parse(handle.read())
        for node in ast.walk(tree):
            number = value(node)
            if number is not None and math.isfinite(number):
                found.add(abs(number))
    return sorted(found)


NAMES = [
    None, None, None, "name", "a name, with comma", "", "quote\"d 'name'", "line\nbreak", "unicode é∆π",
    "x" * 300, "None", "0", " leading", "tab\tname", "back\\slash", "{braces}", "%s %d", "name:", ":",
    "= [1] x pi", "Rabi Rates = [9.0] x 9.0", "nan",
]


class Gen:
    """Random values for the workloads."""

    def __init__(self, rng, literals=()):
        self.rng = rng
        self.literals = [x for x in literals if x > 0]
        self.integers = sorted({int(x) for x in literals if x == int(x) and 0 < x < 5000})

    # -- basic -------------------------------------------------------------------------------
    def flip(self, probability=0.5):
        return self.rng.random() < probability

    def pick(self, items):
        return items[self.rng.randrange(len(items))]

    def u(self, low, high):
        return low + (high - low) * self.rng.random()

    def logu(self, low, high):
        return math.exp(self.u(math.log(low), math.log(high)))

    def int(self, low, high):
        return self.rng.randint(low, high)

    def literal(self):
        """A harvested literal or something next to it."""
        if not self.literals:
            return 1.0
        x = self.pick(self.literals)
        roll = self.rng.random()
        if roll < 0.35:
            return x
        if roll < 0.45:
            return x * PI
        if roll < 0.55:
            return float(np.nextafter(x, np.inf))
        if roll < 0.65:
            return float(np.nextafter(x, 0.0))
        if roll < 0.75:
            return abs(x + self.pick([1.0, -1.0])) or 2.0
        if roll < 0.85:
            return x * self.pick([0.5, 2.0])
        if roll < 0.95:
            return x * self.u(0.5, 2.0)
        return 1.0 / x if x else 1.0

    # -- physics -----------------------------------------------------------------------------
    def duration(self, low=1e-9, high=1e6):
        roll = self.rng.random()
        if roll < 0.3:
            x = self.pick([1.0, 10.0, 2.0, 0.5, 1e-6, 1e-3, 100.0, 3.0, 0.1, 7.0, 1e-9, 40e-6, 2e-8])
        elif roll < 0.4:
            x = float(self.int(1, 1000))
        elif roll < 0.5:
            x = abs(self.literal())
        else:
            x = self.logu(low, high)
        return x if low <= x <= high else self.logu(low, high)

    def rate(self, low=1e-6, high=1e12):
        roll = self.rng.random()
        if roll < 0.3:
            x = self.pick([1.0, 2 * PI, PI, 10.0, 1e6, 2 * PI * 1e6, 0.1, 3.0, 1e9, 0.5])
        elif roll < 0.4:
            x = float(self.int(1, 1000))
        elif roll < 0.5:
            x = abs(self.literal())
        else:
            x = self.logu(low, high)
        return x if low <= x <= high else self.logu(low, high)

    def angle(self):
        """Any phase."""
        roll = self.rng.random()
        if roll < 0.15:
            return 0.0
        if roll < 0.45:
            return self.int(-48, 48) * PI / self.pick([2.0, 4.0, 6.0, 12.0, 8.0])
        if roll < 0.75:
            return self.u(-4 * PI, 4 * PI)
        if roll < 0.85:
            return self.pick([1, -1]) * min(self.literal(), 1000.0)
        if roll < 0.9:
            return self.pick([1, -1]) * self.logu(1e-9, 1e-2)
        if roll < 0.95:
            return float(self.int(-10, 10))
        return self.u(-1000.0, 1000.0)

    def name(self):
        return self.pick(NAMES)

    def count(self, high):
        """A number of pulses, biased to small ones."""
        roll = self.rng.random()
        if roll < 0.5:
            n = self.int(1, min(high, 12))
        elif roll < 0.65 and self.integers:
            n = self.pick(self.integers) + self.int(-1, 1)
        elif roll < 0.75:
            n = 2 ** self.int(0, 10) + self.int(-1, 1)
        else:
            n = int(self.logu(1, high + 1))
        return n if 1 <= n <= high else self.int(1, high)

    def count_value(self, n):
        """A count as given by a caller: an integer, or a float truncating to it."""
        roll = self.rng.random()
        if roll < 0.75:
            return n
        if roll < 0.87:
            return float(n)
        return n + self.pick([0.5, 0.25, 0.999, 0.001, 1e-9, 0.9, self.rng.random() * 0.99])

    # -- segments ----------------------------------------------------------------------------
    def segments(self, maximum=40):
        """Fields of an arbitrary driven control (see `Control` in fields.py)."""
        roll = self.rng.random()
        if roll < 0.2:
            n = 1
        elif roll < 0.85:
            n = self.int(2, 8)
        elif roll < 0.985:
            n = self.int(9, maximum)
        else:
            n = self.int(300, 3000)
        tscale = self.logu(1e-12, 1e6) if self.flip(0.6) else 1.0
        rscale = self.logu(1e-6, 1e15) if self.flip(0.6) else 1.0
        dscale = rscale * (self.logu(1e-9, 1e9) if self.flip(0.3) else 1.0)

        def durations():
            style = self.int(0, 5)
            if style == 0:
                return [tscale] * n
            if style == 5:
                return [tscale * self.logu(1e-14, 1.0) for _ in range(n)]
            if style == 1:
                return [float(self.int(1, 9)) * tscale for _ in range(n)]
            if style == 2:
                return [tscale * self.logu(1e-6, 1e3) for _ in range(n)]
            if style == 3:
                return [float(self.int(1, 9)) for _ in range(n)]
            return [tscale * self.u(0.1, 2.0) for _ in range(n)]

        def magnitudes(scale, signed):
            style = self.int(0, 7)
            if style == 0:
                values = [0.0] * n
            elif style == 1:
                values = [scale] * n
            elif style == 2:
                values = [self.pick([0.0, scale]) for _ in range(n)]
            elif style == 3:
                values = [scale * self.logu(1e-12, 1.0) for _ in range(n)]
            elif style == 4:
                values = [float(self.int(0, 5)) for _ in range(n)]
            elif style == 5:
                values = [self.pick([0.0, self.literal()]) for _ in range(n)]
            else:
                values = [self.pick([0.0, scale * self.u(0, 1), scale * self.u(0, 1)]) for _ in range(n)]
            if signed:
                mode = self.int(0, 3)
                if mode == 1:
                    values = [-v for v in values]
                elif mode >= 2:
                    values = [v * self.pick([-1.0, 1.0]) for v in values]
                if mode == 3 and n > 1:
                    values[self.int(0, n - 1)] = 0.0
                    values = [-abs(v) for v in values]
            return [v + 0.0 for v in values]

        def angles():
            style = self.int(0, 3)
            if style == 0:
                return [0.0] * n
            if style == 1:
                return [self.int(-4, 4) * PI / 2 for _ in range(n)]
            return [self.angle() for _ in range(n)]

        return {
            "durations": durations(),
            "rabi_rates": None if self.flip(0.12) else magnitudes(rscale, False),
            "azimuthal_angles": None if self.flip(0.12) else angles(),
            "detunings": None if self.flip(0.12) else magnitudes(dscale, True),
        }

    def form(self, values):
        """How an array is handed over by the caller."""
        if values is None:
            return "none"
        forms = ["list", "tuple", "f8", "f8", "strided", "readonly", "reversed", "npscalars", "big", "buffer"]
        if all(v == int(v) and abs(v) < 1e9 for v in values if math.isfinite(v)) and all(
            math.isfinite(v) for v in values
        ):
            forms += ["i8", "ints", "i4", "mixed"]
            if all(v >= 0 for v in values):
                forms += ["u8"]
        if all(float(np.float32(v)) == v for v in values):
            forms += ["f4"]
        return self.pick(forms)


def materialize(values, form):
    """Builds the argument described by (values, form)."""
    if values is None:
        return None
    if form == "list":
        return list(values)
    if form == "tuple":
        return tuple(values)
    if form == "ints":
        return [int(v) for v in values]
    if form == "mixed":
        return [int(v) if i % 2 else float(v) for i, v in enumerate(values)]
    if form == "npscalars":
        return [np.float64(v) for v in values]
    if form == "i8":
        return np.array([int(v) for v in values], dtype=np.int64)
    if form == "i4":
        return np.array([int(v) for v in values], dtype=np.int32)
    if form == "u8" and all(v >= 0 and v == int(v) for v in values if math.isfinite(v)) and all(map(math.isfinite, values)):
        return np.array([int(v) for v in values], dtype=np.uint64)
    if form == "big":
        return np.array(values, dtype=">f8")
    if form == "buffer":
        return array_module.array("d", values)
    if form == "f4":
        return np.array(values, dtype=np.float32)
    if form == "strided":
        buffer = np.full(2 * len(values) + 1, 777.0)
        buffer[1::2] = values
        return buffer[1::2]
    if form == "reversed":
        return np.array(list(values)[::-1], dtype=float)[::-1]
    array = np.array(values, dtype=float)
    if form == "readonly":
        array.flags.writeable = False
    return array


def flag(value, form):
    """Builds a truth value: Python bool, numpy bool or integer."""
    return {"np": np.bool_, "int": int}.get(form, bool)(bool(value))


def scalar(x, form):
    """Builds a scalar argument: Python float, int when integral, numpy scalars."""
    if form == "np":
        return np.float64(x)
    if not math.isfinite(x):
        return x
    if form == "int" and float(x) == int(x) and abs(x) < 2 ** 53:
        return int(x)
    if form == "npint" and float(x) == int(x) and abs(x) < 2 ** 31:
        return np.int64(int(x))
    return x


SCALAR_FORMS = ["py", "py", "py", "np", "int", "npint"]
FLAG_FORMS = ["py", "py", "py", "np", "int"]
