#!/usr/bin/env python3
"""Prints the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
print("| id | property | breaks | needs |\n|---|---|---|---|")
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    m = json.load(open(f))
    print("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"], m["needs"]))
