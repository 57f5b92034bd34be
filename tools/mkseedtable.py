#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append((m["property"], os.path.basename(os.path.dirname(p)), m["needs"].strip().rstrip("."), m.get("caught_by", m["property"])))
rows.sort()
t = "## Planted bugs\n\nEach was written from a property's text and the code, confirmed in a scratch copy (demonstration, existing tests), and run\nthrough its property's quick check (`tools/seedcheck.sh ID PROP`). Those that were first missed led to the spaces named behind them.\n\n"
t += "| bug | manifests with | caught by |\n|---|---|---|\n"
missed = {
    "c09-ascii-run": "C09 (first missed: led to the space `runs`)", "c04-chain-float": "C04 (first missed: led to the space `chain`)",
    "c04-repeat-range-32bit": "C04 (space huge-repeats, added for it)",
    "c15-byte-order-mark": "C15 (beginnings of files, added for it)",
    "c22-drop-bad-word": "C22 (first missed: led to the space `words`)",
    "c12-utf32-len16": "C12 (first missed: led to the space `long-keys`)",
    "c16-positive-error": "C16 (first missed: led to the space `limits`)",
    "c18-empty-preset": "C18 (first missed: led to the space `empty`)",
    "c18-amount-16bit": "C18 (first missed under load: its spaces are now ordered by weight)",
    "c25-clearerr": "C25 (first missed: led to the space `transient`)",
    "c19-hash-in-pattern": "C19 (first missed: led to the space `characters`)",
    "c01-nesting-256": "C01 (first missed: led to the space `constructs`)",
    "c08-passphrase-1k": "C08 (first missed: led to longer components)",
    "c15-no-repeat": "C15 (first missed: led to the space `sequences`, and to `joint` of C02-C04)",
    "c18-markov-cap": "C18 (first missed: led to a list that tells the orders apart)",
    "c22-many-lookups": "C22 (first missed: led to the space `long`)",
    "c02-many-ranges": "C02 (space many)",
}
for p, i, n, c in rows:
    t += "| %s | %s | %s |\n" % (i, n.replace("|", "\\|"), missed.get(i, c))
d = open(H + "/DESIGN.md").read()
d = re.sub(r"## Planted bugs\n.*\Z", "", d, flags=re.S).rstrip("\n") + "\n\n" + t
open(H + "/DESIGN.md", "w").write(d)
print(len(rows), "planted bugs")
