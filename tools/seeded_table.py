#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md (development only, no check uses it)."""
import glob, json, os
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "..", "seeded", "*", "meta.json"))):
    m = json.load(open(f)); print(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
