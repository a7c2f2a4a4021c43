"""
Reading of exported files, independent of the library.
"""

import csv
import json


def no_constant(name):
    raise ValueError("constant %s in JSON" % name)


def read(path, file_type, coordinates):
    """
    Parses an exported file: (fields, maximum Rabi rate, name or missing).
    Raises ValueError if the file does not have the documented structure.
    """
    pair = ("amplitude_x", "amplitude_y") if coordinates == "cartesian" else ("rabi_rates", "azimuthal_angles")
    with open(path, newline="", encoding="utf-8") as handle:
        text = handle.read()
    if file_type == "CSV":
        rows = list(csv.reader(text.splitlines()))
        if not rows:
            raise ValueError("empty file")
        header = rows[0]
        if sorted(header) != sorted(pair + ("detuning", "duration", "maximum_rabi_rate")):
            raise ValueError("titles %s" % header)
        fields = {}
        for column, name in enumerate(header):
            fields[name] = []
            for row in rows[1:]:
                if len(row) != 5:
                    raise ValueError("row %s" % row)
                fields[name].append(float(row[column]))
        maxima = fields.pop("maximum_rabi_rate")
        if len(set(maxima)) != 1:
            raise ValueError("maximum Rabi rates %s" % maxima[:5])
        return fields, maxima[0], None
    data = json.loads(text, parse_constant=no_constant)
    if not isinstance(data, dict):
        raise ValueError("not an object")
    if "name" in data and not isinstance(data["name"], str):
        raise ValueError("name %r" % (data["name"],))
    name = data.pop("name", None)
    if "maximum_rabi_rate" not in data or not isinstance(data["maximum_rabi_rate"], (int, float)):
        raise ValueError("no maximum Rabi rate")
    maximum = data.pop("maximum_rabi_rate")
    if sorted(data) != sorted(pair + ("detuning", "duration")):
        raise ValueError("fields %s" % sorted(data))
    for field, values in data.items():
        if not isinstance(values, list) or not all(
            isinstance(v, (int, float)) and not isinstance(v, bool) for v in values
        ):
            raise ValueError("field %s: %s" % (field, str(values)[:200]))
    return data, float(maximum), name
