"""Regenerates MANIFEST.json from the check files present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "property-based testing: generated raw files read back against the generator's record",
 "C02": "property-based differential testing of three readers and two encodings",
 "C03": "mutation fuzzing of raw files with a provenance oracle",
 "C04": "property-based testing against an analytic clock and waveform",
 "C05": "property-based testing of the GPS acceptance rule around generated faults",
 "C06": "property-based testing of resampling against an analytic waveform",
 "C07": "metamorphic property-based testing of conversion chunking",
 "C08": "metamorphic property-based testing of interval and file selection",
 "C09": "stateful property-based testing over histories of conversions",
 "C10": "metamorphic property-based testing with injected bad files",
 "C11": "property-based round-trip testing of merged raw files",
 "C12": "property-based testing against an independent hardware table",
 "C13": "property-based testing of sample conservation per channel and day",
 "C14": "metamorphic property-based testing over spellings of one table",
 "C15": "property-based testing against an independent robust mean",
 "C16": "property-based testing and StationXML round trip",
 "C17": "property-based testing with imposed delays; metamorphic invariances",
 "C18": "property-based testing of window tiling seen by a recording callback",
 "C19": "property-based testing against the plane-wave forward model",
 "C20": "property-based identities and independent integration",
 "C21": "property-based testing against analytic response; metamorphic linearity",
 "C22": "property-based testing against an independent model of the limits",
 "C23": "differential property-based testing of the command against the library",
 "C24": "property-based testing against independent statistics",
 "C25": "property-based testing with validity predicates on the joined pieces",
 "C26": "property-based read-back of every output format against miniSEED",
 "C27": "property-based end-to-end testing against a simulated plane wave",
 "C28": "stateful and metamorphic property-based testing of repeated, split and interrupted conversions",
 "C29": "property-based testing of the returned file table against the generator's record",
 "C30": "differential property-based testing of commands run as processes against the library",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    f = "checks/%s.py" % p.lower()
    if os.path.exists(os.path.join(V, f)):
        checks.append({"property": p, "quick_cmd": "/opt/venv/bin/python %s --tier quick" % f, "thorough_cmd": "/opt/venv/bin/python %s --tier thorough" % f,
                       "technique": TECH[p], "level": "exploration", "level_note": "generated-input search; the bounds are in DESIGN.md and the evidence"})
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
