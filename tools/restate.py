#!/usr/bin/env python3
"""restate.py ID TITLE STATEMENT: replaces a property's title and statement in gen_properties.py and regenerates."""
import os, re, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
p = V + "/gen_properties.py"
t = open(p).read()
i, title, st = sys.argv[1:]
m = re.search(r"p\('%s',(.*?),\n (.*?),\n" % i, t, re.S)
assert m
assert len(title) <= 80 and st.count(". ") <= 2, (len(title), st.count(". "))
title = title if title else eval(m.group(1))
t = t[:m.start()] + "p('%s',%r,\n %r,\n" % (i, title, st) + t[m.end():]
open(p, "w").write(t)
subprocess.run(["python3-vt", p], check=True)
