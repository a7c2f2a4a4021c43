"""
Reference mathematics, independent of the library (plain Python floats).
"""

import math

PI = math.pi


# -- SU(2) as quaternions: (w, x, y, z) <-> w - i (x sx + y sy + z sz) ---------------------------
IDENTITY = (1.0, 0.0, 0.0, 0.0)


def qmul(a, b):
    """The operator product a b (b acts first)."""
    return (
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] + a[2] * b[0] + a[3] * b[1] - a[1] * b[3],
        a[0] * b[3] + a[3] * b[0] + a[1] * b[2] - a[2] * b[1],
    )


def qnormalize(a):
    n = math.sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3])
    return (a[0] / n, a[1] / n, a[2] / n, a[3] / n)


def rotation(angle, axis):
    """exp(-i angle/2 axis.sigma), axis of unit length."""
    s = math.sin(angle / 2)
    return (math.cos(angle / 2), s * axis[0], s * axis[1], s * axis[2])


def from_vector(vx, vy, vz):
    """exp(-i/2 v.sigma)."""
    angle = math.sqrt(vx * vx + vy * vy + vz * vz)
    if angle == 0.0:
        return IDENTITY
    return rotation(angle, (vx / angle, vy / angle, vz / angle))


def qdistance(a, b):
    """Distance of two SU(2) elements up to a sign (linear in the error)."""
    plus = math.sqrt(sum((x + y) ** 2 for x, y in zip(a, b)))
    minus = math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
    return min(plus, minus)


def to_frame(q, v):
    """R(q)^-1 v: the vector of U^dagger (v.sigma) U."""
    w, x, y, z = q[0], -q[1], -q[2], -q[3]
    tx = 2 * (y * v[2] - z * v[1])
    ty = 2 * (z * v[0] - x * v[2])
    tz = 2 * (x * v[1] - y * v[0])
    return (
        v[0] + w * tx + y * tz - z * ty,
        v[1] + w * ty + z * tx - x * tz,
        v[2] + w * tz + x * ty - y * tx,
    )


def segment_unitary(duration, rabi, azimuth, detuning):
    return from_vector(
        rabi * math.cos(azimuth) * duration,
        rabi * math.sin(azimuth) * duration,
        detuning * duration,
    )


def net_unitary(segments):
    """Product over (duration, rabi, azimuth, detuning) segments."""
    total = IDENTITY
    for segment in segments:
        total = qmul(segment_unitary(*segment), total)
    return qnormalize(total)


def amplitude_response(segments):
    """First-order rotation vector caused by a relative error of the Rabi rate (per unit error)."""
    total = IDENTITY
    response = [0.0, 0.0, 0.0]
    size = 0.0
    for duration, rabi, azimuth, detuning in segments:
        if detuning != 0.0:
            raise ValueError("detuned segment")
        angle = rabi * duration
        axis = (math.cos(azimuth), math.sin(azimuth), 0.0)
        v = to_frame(total, axis)
        for i in range(3):
            response[i] += angle * v[i]
        size += angle
        total = qmul(rotation(angle, axis), total)
    return math.sqrt(sum(x * x for x in response)), size


def dephasing_response(segments):
    """
    First-order rotation vector caused by a constant detuning error (per unit detuning), divided by
    the total duration.
    """
    total = IDENTITY
    response = [0.0, 0.0, 0.0]
    time = 0.0
    for duration, rabi, azimuth, detuning in segments:
        if detuning != 0.0:
            raise ValueError("detuned segment")
        nx, ny = math.cos(azimuth), math.sin(azimuth)
        angle = rabi * duration
        if angle == 0.0:
            local = (0.0, 0.0, duration)
        else:
            # integral of the inverse rotation of z about n: cos(wt) z - sin(wt) (n x z)
            c = math.sin(angle) / rabi
            s = (1.0 - math.cos(angle)) / rabi
            cross = (ny, -nx, 0.0)
            local = (-s * cross[0], -s * cross[1], c)
        v = to_frame(total, local)
        for i in range(3):
            response[i] += v[i]
        time += duration
        total = qmul(rotation(angle, (nx, ny, 0.0)), total)
    return math.sqrt(sum(x * x for x in response)) / time


def angle_difference(a, b):
    """|a - b| modulo 2 pi."""
    return abs(math.remainder(a - b, 2 * PI))


# -- documented composite controls ---------------------------------------------------------------
WIMPERIS = ("bb1", "sk1", "corpse_in_bb1", "corpse_in_sk1")
TABULATED = ("scrofulous", "corpse_in_scrofulous", "wamf1")
SCHEMES = (
    "primitive", "bb1", "sk1", "scrofulous", "corpse", "corpse_in_bb1", "corpse_in_sk1",
    "corpse_in_scrofulous", "wamf1",
)


def corpse_angles(theta):
    k = math.asin(math.sin(theta / 2) / 2)
    return [2 * PI + theta / 2 - k, 2 * PI - 2 * k, theta / 2 - k]


def inverse_sinc(value):
    """Solution of sin(x)/x = value in (0, pi]."""
    low, high = 1e-9, PI
    if value <= 0.0:
        return PI
    for _ in range(200):
        middle = 0.5 * (low + high)
        if math.sin(middle) / middle > value:
            low = middle
        else:
            high = middle
    return 0.5 * (low + high)


def scrofulous_first_angle(theta):
    return inverse_sinc(2 * math.cos(theta / 2) / PI)


def scrofulous_phases(theta, theta_1):
    phi_1 = math.acos(
        max(-1.0, min(1.0, -PI * math.cos(theta_1) / (2 * theta_1 * math.sin(theta / 2))))
    )
    return phi_1, phi_1 - math.acos(-PI / (2 * theta_1))


def wamf1_angles(theta):
    """(theta_plus, theta_minus) per segment, from the condition of vanishing dephasing response."""
    # For a control x(a) x(b) x(b) x(a) of equal durations about one axis with net angle
    # theta + 2 pi, the first-order response vanishes for a unique splitting near the published one.
    half = (theta + 2 * PI) / 2
    if abs(theta - PI) < 1e-9:
        return PI, PI / 2
    published = {PI / 2: 0.65667825, PI / 4: 0.36256159}
    delta = min(published, key=lambda t: abs(t - theta))
    shift = published[delta] * PI / 4
    return half / 2 + shift, half / 2 - shift


def documented_segments(scheme, theta, phi):
    """
    [(rotation angle, relative rate, azimuth)] of a documented scheme; the rotation angle is the one
    of the segment, the duration is angle / (relative rate * maximum rate).
    """
    if scheme == "primitive":
        return [(theta, 1.0, phi)]
    if scheme == "corpse":
        t = corpse_angles(theta)
        return [(t[0], 1.0, phi), (t[1], 1.0, phi + PI), (t[2], 1.0, phi)]
    if scheme in WIMPERIS:
        star = math.acos(-theta / (4 * PI))
        if scheme.endswith("bb1"):
            tail = [
                (PI, 1.0, phi + star), (2 * PI, 1.0, phi + 3 * star), (PI, 1.0, phi + star),
            ]
        else:
            tail = [(2 * PI, 1.0, phi - star), (2 * PI, 1.0, phi + star)]
        head = documented_segments(
            "corpse" if scheme.startswith("corpse") else "primitive", theta, phi
        )
        return head + tail
    if scheme == "wamf1":
        plus, minus = wamf1_angles(theta)
        ratio = minus / plus
        return [(plus, 1.0, phi), (minus, ratio, phi), (minus, ratio, phi), (plus, 1.0, phi)]
    raise ValueError(scheme)


# -- documented sequences ------------------------------------------------------------------------
X, Y, Z = "X", "Y", "Z"


def uhrig(n):
    return [math.sin(i * PI / (2 * (n + 1))) ** 2 for i in range(1, n + 1)]


def walsh_offsets(order):
    """Switching points of the Walsh function of a Paley order, relative to the duration."""
    m = order.bit_length()
    samples = 1 << m

    def sign(s):
        parity = 0
        for j in range(1, m + 1):
            if (order >> (j - 1)) & 1:
                parity ^= (s >> (m - j)) & 1
        return parity

    result = []
    previous = sign(0)
    for s in range(1, samples):
        current = sign(s)
        if current != previous:
            result.append(s / samples)
        previous = current
    return result


def x_concatenated(order):
    result = []
    total = 1 << order
    for p in range(1, total):
        contributions = 0
        for level in range(order):
            if p % (1 << level) == 0:
                contributions += 1
        if contributions % 2:
            result.append((p / total, X))
    return result


def xy_concatenated(order):
    code = {1: X, 2: Y, 3: Z}
    result = []
    total = 4 ** order
    for p in range(1, total + 1):
        merged = 0
        for level in range(order):
            block = 4 ** level
            if p % block:
                break
            merged ^= 1 if (p // block) % 2 else 2
        if merged:
            result.append((p / total, code[merged]))
    return result


def sequence_pulses(kind, *counts):
    """[(offset / duration, axis)] of the documented sequences without pre/post rotations."""
    if kind == "ramsey":
        return []
    if kind == "spin_echo":
        return [(0.5, X)]
    if kind in ("carr_purcell", "cpmg"):
        n = counts[0]
        axis = X if kind == "carr_purcell" else Y
        return [((i - 0.5) / n, axis) for i in range(1, n + 1)]
    if kind == "uhrig":
        return [(t, Y) for t in uhrig(counts[0])]
    if kind == "periodic":
        n = counts[0]
        return [(i / (n + 1), X) for i in range(1, n + 1)]
    if kind == "walsh":
        return [(t, X) for t in walsh_offsets(counts[0])]
    if kind == "quadratic":
        inner, outer = counts
        edges = [0.0] + uhrig(outer) + [1.0]
        base = uhrig(inner)
        result = []
        for j in range(outer + 1):
            width = edges[j + 1] - edges[j]
            result.extend((edges[j] + width * t, Z) for t in base)
            if j < outer:
                result.append((edges[j + 1], X))
        return result
    if kind == "x_concatenated":
        return x_concatenated(counts[0])
    if kind == "xy_concatenated":
        return xy_concatenated(counts[0])
    raise ValueError(kind)


AXIS_FIELDS = {X: (PI, 0.0, 0.0), Y: (PI, PI / 2, 0.0), Z: (0.0, 0.0, PI)}


def pulse_unitary(rabi, azimuth, detuning):
    return from_vector(rabi * math.cos(azimuth), rabi * math.sin(azimuth), detuning)


def legendre_integrals(degree, t):
    """Integrals from 0 to t of the shifted Legendre polynomials of degree 0..degree-1."""
    x = 2 * t - 1
    # integral of P_n from -1 to x equals (P_{n+1}(x) - P_{n-1}(x)) / (2n + 1)
    p = [1.0, x]
    for n in range(1, degree + 1):
        p.append(((2 * n + 1) * x * p[n] - n * p[n - 1]) / (n + 1))
    result = []
    for n in range(degree):
        value = (x + 1.0) if n == 0 else (p[n + 1] - p[n - 1]) / (2 * n + 1)
        result.append(0.5 * value)
    return result


def toggling_moments(duration, pulses, axis, degree):
    """
    Largest component of the integrals over the sequence of P_n(t) times the given axis, seen in the
    frame toggled by the pulses [(offset, rabi, azimuth, detuning)], per degree.
    """
    total = IDENTITY
    sums = [[[], [], []] for _ in range(degree)]
    previous = legendre_integrals(degree, 0.0)
    edges = [(offset / duration, (rabi, azimuth, detuning)) for offset, rabi, azimuth, detuning in pulses]
    for t, pulse in edges + [(1.0, None)]:
        current = legendre_integrals(degree, t)
        v = to_frame(total, axis)
        for n in range(degree):
            step = current[n] - previous[n]
            for i in range(3):
                sums[n][i].append(step * v[i])
        previous = current
        if pulse is not None:
            total = qnormalize(qmul(pulse_unitary(*pulse), total))
    return [max(abs(math.fsum(s)) for s in sums[n]) for n in range(degree)]


# -- conversion of sequences ---------------------------------------------------------------------
class Pulse:
    """A pulse of a converted sequence."""

    def __init__(self, offset, start, end, rabi, azimuth, detuning):
        self.offset, self.start, self.end = offset, start, end
        self.rabi, self.azimuth, self.detuning = rabi, azimuth, detuning


def conversion(duration, offsets, rabi, azimuth, detuning, rabi_limit, detuning_limit, minimum):
    """
    What a conversion has to do: ("reject", reason), ("accept", pulses) or ("either", pulses) when
    the request is within the tolerance of a limit.
    """
    if not rabi_limit > 0 or not detuning_limit > 0:
        return "reject", "rate"
    if not minimum >= 0:
        return "reject", "minimum"
    if any(r < 0 for r in rabi):
        return "reject", "negative Rabi rotation"
    if any(r > 0 and d != 0 for r, d in zip(rabi, detuning)):
        return "reject", "mixed rotation"
    if any(b <= a for a, b in zip(offsets, offsets[1:])):
        return "reject", "order"
    pulses = []
    for t, r, a, d in zip(offsets, rabi, azimuth, detuning):
        width = 0.0
        if r != 0:
            width = max(r / rabi_limit, minimum)
        elif d != 0:
            width = max(abs(d) / detuning_limit, minimum)
        start, end = t - width / 2, t + width / 2
        if t == 0 and start < 0:
            start, end = 0.0, width
        if t == duration and end > duration:
            start, end = duration - width, duration
        pulses.append(Pulse(t, start, end, r, a, d))
    edges = [(p.start, p.end) for p in pulses]
    if not offsets or offsets[0] != 0:
        edges.insert(0, (0.0, 0.0))
    if not offsets or offsets[-1] != duration:
        edges.append((duration, duration))
    margin = min(b[0] - a[1] for a, b in zip(edges, edges[1:])) - minimum
    if margin >= -1e-13 * duration:
        return "accept", pulses
    if margin < -1.5e-8 * duration - 1.5e-5 * minimum:
        return "reject", "gap"
    return "either", pulses
