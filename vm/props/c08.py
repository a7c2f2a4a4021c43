"""C08: plot data of driven controls."""

import cmath

import numpy as np

from vm import control as vc

RULE = (
    "Cases: arbitrary driven controls x coordinates x normalization (explicit or default) and unsupported "
    "coordinates; each entry of the exported dictionary is compared with its segment. Non-trivial: all "
    "entries of an export compared or a refusal confirmed; distinct by control content and options."
)
ASSUMPTIONS = ["tolerance 1e-11 relative to the Rabi rate of the segment"]
COUNT = {"quick": 50000, "thorough": 400000}
MINIMUM = {"exports": 20000, "refusals_confirmed": 1000, "undriven": 500}
UNSUPPORTED = ["polar", "", "Cartesian", "CYLINDRICAL", None, "cartesian ", "cyl", "spherical", 1, "Cylindrical"]


def random_case(g, _tier):
    case = vc.make_control(g)
    case["kind"] = "export"
    case["coordinates"] = g.pick(["cartesian", "cylindrical", "default"])
    case["dimensionless"] = g.pick([True, False, "default", 1, 0, "np true", "np false"])
    case["call"] = g.pick(["kw", "pos"])
    if g.flip(0.06):
        case["kind"] = "unsupported"
        case["coordinates"] = g.pick(UNSUPPORTED)
    return case


def mix(g, base):
    other = random_case(g, None)
    if base["kind"] != other["kind"]:
        return other
    return dict(base, coordinates=other["coordinates"], dimensionless=other["dimensionless"], call=other["call"])


NUMPY = {"np true": np.bool_(True), "np false": np.bool_(False)}


def request(case):
    args, kwargs = [], {}
    case = dict(case, dimensionless=NUMPY.get(case["dimensionless"], case["dimensionless"]))
    if case["call"] == "pos" and case["coordinates"] != "default":
        args.append(case["coordinates"])
        if not isinstance(case["dimensionless"], str):
            args.append(case["dimensionless"])
        return args, kwargs
    if case["coordinates"] != "default":
        kwargs["coordinates"] = case["coordinates"]
    if not isinstance(case["dimensionless"], str):
        kwargs["dimensionless_rabi_rate"] = case["dimensionless"]
    return args, kwargs


def check(ctx, case):
    control, fields = vc.build(ctx, case)
    args, kwargs = request(case)
    ctx.nontrivial(vc.key(case), case["coordinates"], case["dimensionless"])
    if case["kind"] == "unsupported":
        ctx.refused("export to %r coordinates" % (case["coordinates"],), control.export, *args, **kwargs)
        return
    data = ctx.ok("export", control.export, *args, **kwargs)
    dt, rabi, phi, det = (fields[f] for f in vc.FIELDS)
    top = max(rabi)
    scale = top if case["dimensionless"] not in (False, 0, "np false") and top > 0 else 1.0
    if top == 0:
        ctx.count["undriven"] += 1
    cartesian = case["coordinates"] == "cartesian"
    names = {"X amplitude", "Y amplitude", "Detuning"} if cartesian else {"Rabi rate", "Detuning"}
    ctx.require(set(data) == names, "keys", "exported %s, expected %s", sorted(data), sorted(names))
    ctx.count["exports"] += 1
    waves = [cmath.rect(r, p) / scale for r, p in zip(rabi, phi)]
    expected = {"Detuning": det}
    if cartesian:
        expected["X amplitude"] = [w.real for w in waves]
        expected["Y amplitude"] = [w.imag for w in waves]
    else:
        expected["Rabi rate"] = waves
    for name, values in expected.items():
        entries = data[name]
        ctx.require(
            len(entries) == len(dt), "length:" + name, "%d entries for %d segments", len(entries), len(dt)
        )
        for i, entry in enumerate(entries):
            ctx.require(set(entry) == {"value", "duration"}, "entry", "%s entry %s", name, entry)
            ctx.require(
                float(entry["duration"]) == dt[i], "duration:" + name, "%s segment %d: duration %r, expected %r",
                name, i, entry["duration"], dt[i],
            )
            value = complex(entry["value"])
            floor = 1e-11 * (rabi[i] / scale if name != "Detuning" else abs(det[i]))
            ctx.require(
                abs(value - values[i]) <= floor, "value:" + name,
                "%s segment %d of %d: %r, expected %r (coordinates %s, dimensionless %s)",
                name, i, len(dt), entry["value"], values[i], case["coordinates"], case["dimensionless"],
            )
    ctx.note = {"keys": sorted(data), "segments": len(dt)}
