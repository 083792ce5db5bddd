#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("differential property-based testing against an independent SGP4 reference model", "Generated near-Earth element sets and times, text and direct entry. Trusts the independently written reference model in harness/src/oracle/sgp4.rs (validated against published SGP4 verification vectors by its own unit tests); rounding knife edges are only checked for totality."),
 "C02": ("differential property-based testing against an independent SDP4 reference model", "Generated non-resonant deep-space sets, epochs, times and both operation modes. Trusts the reference model; knife edges only checked for totality."),
 "C03": ("differential property-based testing against an independent resonance integrator", "Generated resonant and window-edge sets over zero to thousands of integration steps. Trusts the reference model; chaotic long spans only checked for totality."),
 "C04": ("stateful (history) property-based testing: used record against fresh record", "Random operation histories; the oracle is the library itself on a fresh record, so it decides history independence and not correctness of values (C01-C03 do)."),
 "C05": ("robustness fuzzing with invariant oracle and error-class differential oracle", "Absurd and ordinary element sets over decades; finiteness, radius, error field and error class. Error class compared with the reference away from knife edges."),
 "C06": ("round-trip property-based testing of generated element-set text", "Texts are written from known integers by an independent writer; every decoded field compared to 1e-13 relative."),
 "C07": ("exhaustive year/day enumeration plus property-based testing against day counting", "All 36525 year/day pairs at three fractions and random fractions; tolerance 2e-9 day."),
 "C08": ("structure-aware mutation fuzzing with an independent field classifier as oracle", "Arbitrary text and damaged element sets through all four parsers; fields the classifier cannot judge are only checked for totality and value."),
 "C09": ("generated title/line-ending/line-order variations against the two-line parser", "Oracle: stated naming and structure rules, and the two-line parser's record for the same lines."),
 "C10": ("generated multi-set files against parsing each set alone", "Oracle: expected grouping known by construction, records from the two-line parser."),
 "C11": ("property-based testing against split-precision GMST", "Oracle computes whole turns and slow terms separately; 1e-9 rad (Julian date) and 1.5e-8 rad (calendar)."),
 "C12": ("metamorphic testing: calendar entry point against elapsed-minutes entry point", "Elapsed time computed in integer nanoseconds; tolerance is the state's own response to 5e-6 min."),
 "C13": ("round-trip and invariant property-based testing of the rotation", "Oracle: rotation by independent trigonometry, length, polar component, whole turns."),
 "C14": ("round-trip property-based testing on the ellipsoid plus grid of poles and date line", "Forward map compared with the ellipsoid normal form, inverse with the generated coordinates."),
 "C15": ("property-based testing: reconstruct the target from the look angles", "Oracle: local frame built from the ellipsoid normal; reconstruction of the target."),
 "C16": ("property-based testing with range-end neighbours", "Exact range guards tested at and next to the ends; conversions to a few ulp."),
 "C17": ("metamorphic and differential property-based testing", "Oracle: range difference by independent formula; translation, rotation and reversal."),
 "C18": ("algebraic property-based testing", "Component arithmetic and metric axioms to a few ulp."),
 "C19": ("metamorphic testing: velocity against finite difference of positions", "Tolerance one percent of speed (largest deviation of the published model found in calibration: 0.52 percent)."),
 "C20": ("metamorphic testing of node, epoch and whole-turn symmetries", "Relations between propagations of the library itself; tolerance from the state's own sensitivity."),
 "C21": ("differential property-based testing of published record fields", "Trusts the reference model for rates and classes; classes only compared away from their borders' rounding noise."),
 "C22": ("every day 1901-2099 plus property-based testing against day counting", "Oracle: integer day counting and exact nanoseconds."),
 "C23": ("stateful property-based testing: resumed integrator against restart", "Oracle: the stage itself evaluated from epoch (its agreement with the theory is C24)."),
 "C24": ("stage-wise differential property-based testing against the reference model", "Each stage compared output by output with independently written formulas."),
 "C25": ("end-to-end differential property-based testing of the documented call chain", "Text, instant and observer to ground view; reference model, split-precision sidereal time and ellipsoid geometry as oracle. Instants resolve 5e-6 min; tolerances follow the reference's response to that."),
 "C26": ("stateful property-based testing: interleaved and threaded runs against each record alone", "Random collections of sets and operations. Threaded runs sample schedules, they do not enumerate them; the library has no shared state to schedule around."),
 "C27": ("robustness fuzzing of every numeric function with extreme and non-finite values", "Invariants and NaN propagation, not values (other properties decide those). A call that uses 120 CPU seconds counts as not returning. Resonant records are not asked for astronomically long times."),
 "C28": ("property-based testing against an independent physical model (Kepler ellipse with secular J2 drift)", "Coarse by nature (periodic terms of the theory are inside the tolerance), but shares no formula with SGP4 or the reference model."),
 "C29": ("metamorphic property-based testing of look angles and coordinates under the ellipsoid's symmetries", "Relations among the library's own answers: rotations, reflections, lift, sub-satellite point."),
}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [
    {"property": k, "quick_cmd": f"bash check.sh {k} quick", "thorough_cmd": f"bash check.sh {k} thorough", "technique": t, "level": "exploration", "level_note": n}
    for k, (t, n) in sorted(T.items())], "not_applicable": [],
    "notes": "No hooks: every property is observed through the crate's public interface. Repairs of /repo are listed in known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
