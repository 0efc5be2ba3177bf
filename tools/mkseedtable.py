#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import collections, json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
by = collections.defaultdict(list)
for i in sorted(os.listdir(here)):
    by[json.load(open(os.path.join(here, i, "meta.json")))["property"]].append(i)
for p in sorted(by):
    print(f"| {p} | {', '.join(by[p])} |")
