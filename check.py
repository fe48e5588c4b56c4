#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decides one property
check.py --replay FILE         runs one recorded failing case again
check.py --setup               builds everything the checks use"""
import os
import sys
import time

T0 = time.time()
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib", "py"))
sys.dont_write_bytecode = True
import build
import runner


def main():
	a = sys.argv[1:]
	if not a:
		print(__doc__)
		return 2
	if a[0] == "--setup":
		return runner.setup()
	if a[0] == "--replay":
		return runner.replay(a[1])
	tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER") or "quick"
	return runner.check(a[0], tier, int(os.environ.get("VERIF_SEED") or 1), T0)


if __name__ == "__main__":
	try:
		sys.exit(main())
	except build.BuildError as e:
		print("BUILD FAILED, no verdict:\n%s" % e)
		sys.exit(2)
