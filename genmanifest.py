#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
T = {
 "C01": ("random differential testing of schema/instance pairs against an independent reference model", "Sampled: random schemas over all keyword families; trusts the reference model."),
 "C02": ("random differential testing against exact rational arithmetic on literals", "Sampled literals, exponents up to four digits; trusts the model's decimal arithmetic."),
 "C03": ("metamorphic pairs (equal re-spelling / near miss) against structural JSON equality", "Sampled value pairs; trusts the structural equality of the model."),
 "C04": ("random differential testing of string keywords against code point counting", "Sampled; patterns from a fixed list, searched by Go's regexp in the model too."),
 "C05": ("random differential testing of array keywords against the reference model", "Sampled; trusts the reference model."),
 "C06": ("random differential testing of object keywords against the reference model", "Sampled; trusts the reference model."),
 "C08": ("random single-document reference graphs, differential testing against the reference model's own resolver", "Sampled graphs; trusts the model's URI and pointer resolution."),
 "C09": ("random document sets in two random supply arrangements, against the reference model and an access log", "Sampled; HTTP through a stand-in transport, files real and in a stand-in file system."),
 "C10": ("random document sets with random draft declarations and loader settings, against the reference model", "Sampled; trusts the model's draft tables."),
 "C11": ("fault planting: one ill-formed keyword value anywhere in a generated schema, expected outcome known by construction", "Sampled; the list of ill-formed values per keyword is fixed."),
 "C12": ("stateful histories on one loader against the reference model of the meta-schemas and a twin loader", "Sampled histories of up to nine operations."),
 "C13": ("structure-aware and byte-level fuzzing of schemas and documents through every loader and entry point; panics, fatal errors and hangs are violations, and an own JSON recogniser decides which texts must be refused", "Sampled; cases that may recurse for ever by references are compiled but not validated (over-approximated); exponents beyond four digits only where the library refuses them."),
 "C14": ("differential testing of loader kinds on the same JSON texts, incl. caller-visible side effects of the loaders", "Sampled texts, Go types built by reflection, chunked readers and writers; HTTP through a stand-in transport."),
 "C15": ("random schema/instance pairs: reported errors against the failures the reference model predicts, by location and kind", "Sampled; trusts the reference model's list of failures."),
 "C16": ("random results with random locales, templates and added errors against an own renderer of the error templates", "Sampled; trusts the table of error kinds and details in the harness."),
 "C17": ("stateful histories of compilations and validations, each outcome compared with the same operation alone", "Sampled histories; map iteration orders are whatever the runtime draws."),
 "C18": ("random concurrent histories on shared schemas under the race detector, results compared with the sequential outcome", "Sampled schedules of the Go scheduler; a race needs to occur in a run to be seen (the detector needs both accesses, not their overlap)."),
 "C19": ("random strings near the border of each format grammar against recognisers written from the RFCs", "Sampled; spellings on which the RFCs and the documented leniency disagree are left open (see DESIGN.md)."),
 "C20": ("stateful model-based testing of the format registry against a map", "Sampled histories of up to 40 operations."),
 "C21": ("fault injection: random document sets with faults at random documents (missing, status, read error, truncation, garbage), against the expected outcome and an access log", "Sampled; faults through stand-in transport and file system."),
 "C22": ("stateful model-based testing of one SchemaLoader against a model registry", "Sampled histories; state after a refused registration is left open for the URLs it involves."),
 "C07": ("differential testing against the model plus metamorphic Boolean laws", "Sampled; the laws need no model."),
}
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "manifest_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "manifest_more.py")) else None
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --setup",
 "checks": [{
   "property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
   "technique": "property-based testing: " + T[p][0], "level": "exploration",
   "level_note": T[p][1] + " No exhaustiveness: a violation needing an input shape the generators never draw is missed."} for p in props if p in T],
 "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in T],
 "notes": "All checks are generated-input searches with rapid from the Go module in harness/; see DESIGN.md.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
