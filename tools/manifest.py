"""Writes MANIFEST.json from the list of monitors."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECHNIQUE = {
    "C01": "runtime monitor: SU(2) product of observed segments against the requested rotation",
    "C02": "runtime monitor: first-order error integrals of observed segments",
    "C03": "runtime monitor: differential comparison with an independent segment table",
    "C04": "runtime monitor: limit invariants and metamorphic rescaling",
    "C05": "runtime monitor: net rotation, segment grid and envelope reference",
    "C06": "runtime monitor: exact round trip and injected argument defects",
    "C07": "runtime monitor: recomputation from the observed fields",
    "C08": "runtime monitor: recomputation of exported data",
    "C09": "runtime monitor: independent parsing of written files, write-fault injection",
    "C10": "runtime monitor: parsing of texts, evaluation of representations",
    "C11": "runtime monitor: differential comparison with reference pulse lists",
    "C12": "runtime monitor: differential comparison with the expanded recursion",
    "C13": "runtime monitor: paired requests and net pulse unitary",
    "C14": "runtime monitor: toggling-frame integrals of observed pulses",
    "C15": "runtime monitor: exact round trip and injected argument defects",
    "C16": "runtime monitor: timeline reconstruction from observed segments",
    "C17": "runtime monitor: limit invariants and feasibility reference",
    "C18": "runtime monitor: timeline reconstruction from parsed files",
    "C19": "runtime monitor: metamorphic rescaling of time",
    "C20": "runtime monitor: argument/object snapshots, replayed histories, memory-sharing and thread sanitizer",
    "C21": "runtime monitor: boundary requests and refusal/message oracle",
    "C22": "runtime monitor: reference texts of errors and representations",
    "C23": "sanitizer: trapped floating-point errors, recorded warnings, search for non-finite numbers",
    "C24": "runtime monitor: copies and results of a second process against the original",
    "C25": "runtime monitor: integrated unitary and dephasing response against the ideal pulses",
    "C26": "sanitizer: snapshots of the process state and captured output around every operation",
    "C27": "sanitizer: snapshots, warnings and output around imports in fresh interpreters; replayed notebooks",
    "C28": "runtime monitor: paired requests related by a symmetry",
    "C29": "runtime monitor: cross-check of independent constructors",
    "C30": "sanitizer: weak references and a census of living objects around dropped and repeated operations",
    "C31": "runtime monitor: paired requests written in different ways",
}
NOTE = (
    "Oracle evaluated on {what}; generated from VERIF_SEED in eight shards plus a fixed systematic part. "
    "Holds for everything executed, not for all inputs."
)
WHAT = {
    "C01": "every control requested from the nine composite constructors",
    "C02": "every control requested from the composite constructors",
    "C03": "every control requested from the ten constructors",
    "C04": "pairs of controls in different units",
    "C05": "every modulated Gaussian control requested",
    "C06": "every construction of a driven control, valid or with a defect at any position",
    "C07": "all derived quantities of every constructed control, fresh or modified",
    "C08": "every exported dictionary",
    "C09": "every written file, refused option and injected write failure",
    "C10": "both texts of every control and sequence",
    "C11": "all pulses of every requested sequence; Paley orders 1..2000 exhaustively",
    "C12": "all pulses of X orders up to 13 and XY orders up to 6 (quick) or 7 (thorough)",
    "C13": "pairs of sequences with and without pre/post rotations",
    "C14": "all promised noise moments of every requested sequence",
    "C15": "every construction of a sequence and its plot data",
    "C16": "all segments of every accepted conversion",
    "C17": "the outcome and all segments of every conversion",
    "C18": "every file written from a sequence and every refusal",
    "C19": "pairs of requests at different time scales",
    "C20": "histories of operations replayed in other orders, after modifications and in threads",
    "C21": "requests at, inside and outside the boundaries of all twenty constructors",
    "C22": "every error and representation made",
    "C23": "every operation on every valid object made",
    "C24": "copies of every object and error made and the same requests in another process",
    "C25": "every accepted conversion",
    "C26": "every operation of every history",
    "C27": "every import in every started interpreter, its exported names and every notebook",
    "C28": "pairs of requests related by a symmetry",
    "C29": "sets of requests whose definitions coincide; Paley orders 1..2000 exhaustively",
    "C30": "everything involved in every operation of every history",
    "C31": "pairs of writings of requests over the whole interface",
}


def main():
    checks = []
    for prop in sorted(TECHNIQUE):
        checks.append(
            {
                "property": prop, "quick_cmd": "./check.sh " + prop, "thorough_cmd": "./check.sh " + prop,
                "evidence_file": "evidence/%s.json" % prop, "technique": TECHNIQUE[prop],
                "level": "exploration", "level_note": NOTE.format(what=WHAT[prop]),
            }
        )
    manifest = {
        "version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
        "notes": "No hooks in /repo: the library is observed at its public interface from /verif/vm. "
        "A recorded violation is re-run with ./check.sh --replay FILE.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as handle:
        json.dump(manifest, handle, indent=1)
        handle.write("\n")


main()
