#!/usr/bin/env python3
"""Rewrites the coverage table of DESIGN.md from the evidence of the last runs (run by hand, not by checks)."""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
rows = ["| property | suite (variant) | bound (quick) | states | steps | compared |", "|---|---|---|---:|---:|---:|"]
tot = 0
for i in range(1, 30):
    e = json.load(open(f"{V}/evidence/C{i:02}.json"))
    for s in e["coverage"]["suites"]:
        tot += s["states"]
        rows.append(f"| {e['property']} | `{s['suite']}` ({s['variant']}) | {s['bound'].replace('|', chr(92)+'|')} | {s['states']:,} | {s['transitions']:,} | {s['compared']:,} |")
rows.append("")
rows.append(f"Sum over all quick checks: {tot:,} cases executed on the real code.")
p = V + "/DESIGN.md"
t = open(p).read()
a, b = "<!-- coverage begin -->", "<!-- coverage end -->"
i, j = t.index(a) + len(a), t.index(b)
open(p, "w").write(t[:i] + "\n" + "\n".join(rows) + "\n" + t[j:])
missed = {"t01": "programs of every size on the machine", "t02": "frames and tables of every size", "t03": "texts beyond 65536 lines, columns and tokens",
          "q01": "histories of one consumer", "q04": "instances requested in any order, of functions with several widths", "q05": "listings of all kinds of values", "b07": "operand values of constants on both sides", "b08": "requires-clauses of further instances", "b10": "carriage returns among the characters",
          "d01": "braces within comments of code", "d06": "separators in argument lists", "d07": "blanks in items", "g06": "lengths at and between spans (C25 instead of C16)",
          "h01": "sixth dialect: C++ with options of C23", "k11": "all pairs of iterators of long strings", "k13": "more files that can be read but not generated",
          "k15": "exact dump of BMS trees", "k16": "exact dump of documents"}
rows = ["| change | property | what it breaks | caught by | missed first; strengthened with |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| `{d}` | {m['property']} | {m['what_it_breaks'].splitlines()[0]} | {m['property']} quick | {missed.get(d[:3], '')} |")
t = open(p).read()
a, b = "<!-- seeds begin -->", "<!-- seeds end -->"
i, j = t.index(a) + len(a), t.index(b)
open(p, "w").write(t[:i] + "\n" + "\n".join(rows) + "\n" + t[j:])
