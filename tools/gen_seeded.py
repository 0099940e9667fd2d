#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from the folders of seeded/."""
import os, re
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
d = {}
ids = sorted(os.listdir(os.path.join(here, "seeded")))
for i in ids:
    p, l = i.split("-")
    d.setdefault(p, []).append(l)
s = open(os.path.join(here, "DESIGN.md")).read()
lst = "\n".join("* %s: %s" % (p, " ".join(l)) for p, l in sorted(d.items()))
s = re.sub(r"All \d+ of the following", "All %d of the following" % len(ids), s)
s = re.sub(r"(own property:\n\n)(\* C\d\d: .*\n)+", lambda m: m.group(1) + lst + "\n", s)
open(os.path.join(here, "DESIGN.md"), "w").write(s)
print(len(ids))
