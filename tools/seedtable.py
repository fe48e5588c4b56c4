#!/usr/bin/env python3
"""Prints the list of planted bugs per property for DESIGN.md, from /verif/seeded and a log of `seedtool.py check`
(lines "id Cnn CAUGHT rc=1 n s ['failure in JOB (VARIANT): ...")."""
import json, os, re, sys
log = {}
for f in sys.argv[1:]:
	for l in open(f):
		m = re.match(r"(\S+) +(C\d\d) (CAUGHT|missed)[^\[]*(?:\['failure in (\S+) \((\w+)\))?", l)
		if m:
			log[m.group(1)] = (m.group(3), m.group(4), m.group(5))
by = {}
for d in sorted(os.listdir("/verif/seeded")):
	by.setdefault(json.load(open("/verif/seeded/%s/meta.json" % d))["property"], []).append(d)
for p in sorted(by):
	print("* %s: " % p + ", ".join("`%s`%s" % (d, " (%s, %s)" % log[d][1:] if log.get(d, ("", None))[1] else "") for d in by[p]))
