#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list below."""
import json
T = {
 "C01": ("differential runtime monitor against an independent SGP4 model, conditioning-derived tolerance", "Millimetre-level agreement with an independent implementation of the published equations on every sampled near-earth case; assumes that implementation (anchored to the published verification vectors by a self-test on every run)."),
 "C02": ("differential runtime monitor against an independent SDP4 model, conditioning-derived tolerance", "As C01 for deep space, both operation modes, every resonance class and integration-step boundary required to be observed."),
 "C03": ("verdict monitor against the reference model, plus finiteness and code-agreement invariants", "Which of the six outcomes applies is compared wherever the model says it is not within rounding distance of another; delivered states are always checked for finiteness and radius."),
 "C04": ("history and multi-thread monitor: recorded call histories against fresh records; ThreadSanitizer over a slice of it; Miri (data races, undefined behaviour) over several schedules of a threaded workload", "Random call histories on shared, cloned and threaded records; each answer compared with the one of a fresh record."),
 "C05": ("differential runtime monitor in integer nanoseconds", "The datetime entry point against the offset entry point at the exactly computed offset."),
 "C06": ("round-trip monitor: text printed from integer columns, decoded fields compared", "Every decoded field against the printed integer value."),
 "C07": ("complete (year, day) enumeration under a calendar monitor in integer arithmetic", "Every two-digit year and day of year, random fractions."),
 "C08": ("hostile-input run under panic, overflow, abort, divergence and memory monitors; AddressSanitizer over a slice of it; Miri (undefined behaviour) over a smaller hostile-text workload", "Debug assertions and overflow checks on; a panic, signal, runaway call or memory growth is a violation."),
 "C09": ("framing monitor: constructed texts with known structure", "Outcome and name compared with the structure the text was built from."),
 "C10": ("conservation and order monitor over constructed record streams with injected faults", "Exactly-once, in-order delivery and exact fault attribution over random streams."),
 "C11": ("fault-injection monitor: one field damaged, the error must name it", "All fields, all entry points, all cut columns; randomly damaged columns against a strict reading of them; acceptance implies finite elements."),
 "C12": ("complete day enumeration under a calendar monitor in integer arithmetic", "Every day 1901-2099 at several times of day, monotonicity included."),
 "C13": ("differential runtime monitor against IAU-82 with early turn reduction", "Dates 1900-2100 sampled densely."),
 "C14": ("metamorphic and differential runtime monitor of rotations", "Sampled vectors and angles against a rotation and its algebraic relations."),
 "C15": ("differential and round-trip runtime monitor against the ellipsoid", "Sampled points, poles/date line/equator required to be observed."),
 "C16": ("differential runtime monitor against local axes, reconstruction oracle", "Sampled observers and satellites in every quadrant, zenith, horizon and at the poles."),
 "C17": ("differential and metamorphic runtime monitor of range change", "Sampled geometries, exact one-second distance change without cancellation."),
 "C18": ("boundary-value runtime monitor with panic oracle", "Sampled angles; end points and their floating-point neighbours always observed."),
 "C19": ("trace monitor: derivative, band, plane and continuity invariants along tracks", "Model-free physical invariants on sampled tracks."),
 "C20": ("history monitor: initialisation over dirty records against fresh ones", "Sampled (previous content, new elements) pairs, both modes."),
 "C21": ("end-to-end differential runtime monitor against an independent pipeline", "The documented usage against reference model, own sidereal time, ellipsoid and local axes."),
 "C22": ("history monitor: integrator state threaded through call sequences, against restarts and an independent integration", "Sampled elements and histories, every way of resuming required to be observed."),
 "C23": ("differential runtime monitor of the public initialisation stages", "Sampled elements, modes and offsets; every returned quantity compared."),
 "C24": ("differential runtime monitor of the public periodics stage", "Sampled records, times and mean elements, both branches, all modes."),
 "C26": ("interposition monitor of the C library's entry points and bitwise repetition monitor; ThreadSanitizer over a slice of it", "Random calls of every kind, repeated in other orders and on other threads; any output, file, environment, clock, process or network entry point used during a call is a violation."),
 "C27": ("resource monitor: counting allocator, per-thread CPU clock, growth between sizes", "Held and peak bytes and growth of CPU time measured on sampled texts, orbits and histories; time margins of 6 to 20 and four measurements before a verdict."),
 "C28": ("N-version runtime monitor over build profiles", "Every sampled call answered by three builds of the same source; assumes one processor architecture."),
 "C29": ("hostile-number run under panic, overflow, divergence and finiteness monitors; AddressSanitizer over a slice of it", "NaN, infinities, extremes, arbitrary bit patterns and any datetime through every public function."),
 "C25": ("state monitor over records: reported parameters against an independent computation, invariance under predictions", "Sampled element sets and call sequences, both routes and modes."),
}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every observed quantity is public. The /repo commits on top of base are 'fix:' commits, listed in KNOWN_FINDINGS.txt."}
for k, (t, n) in sorted(T.items()):
    m["checks"].append({"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
                        "evidence_file": f"evidence/{k}.json", "technique": t, "level": "exploration", "level_note": n})
open("/verif/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
