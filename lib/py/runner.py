"""Runs the jobs of a property, collects the evidence, reports violations."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import threading
import time

import build
import plan

OUT = os.environ.get("PBT_OUT", os.path.join(build.VERIF, "out"))
EVID = os.path.join(OUT, "evidence") if "PBT_OUT" in os.environ else os.path.join(build.VERIF, "evidence")
KNOWN = os.path.join(build.VERIF, "known_findings.txt")
CPUS = os.cpu_count() or 4
BUDGET = {"quick": 780, "thorough": 6 * 3600}


def log(*a):
	print(*a, flush=True)


def known_findings():
	"""Lines 'known: property=ID prop=NAME match=REGEX # what fails'; 'fixed:' lines suppress nothing."""
	r = []
	try:
		with open(KNOWN) as f:
			for line in f:
				m = re.match(r"known: property=(\S+) prop=(\S+) match=(.*?) # (.*)", line)
				if m:
					r.append(m.groups())
	except OSError:
		pass
	return r


def dict_file(tmp):
	p = os.path.join(tmp, "dict.txt")
	with open(p, "w") as f:
		f.write("\n".join(map(str, build.dictionary())) + "\n")
	return p


def run_cpp(exe, job, seed, cases, jobs, deadline, dictf, tmp, rep, tag):
	outp = os.path.join(tmp, tag + ".json")
	cmd = [exe, "--prop", job.prop, "--seed", str(seed), "--cases", str(cases), "--jobs", str(max(1, min(jobs, cases))),
		"--deadline", str(deadline), "--variant", job.recipe, "--dict", dictf, "--out", outp, "--replay-out", rep]
	with plan.running(job.recipe) as env:
		r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
	try:
		with open(outp) as f:
			return json.load(f)
	except (OSError, ValueError):
		return {"status": "error", "message": "runner ended with %d: %s" % (r.returncode, r.stdout.decode(errors="replace")[-2000:]),
			"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "samples": ""}


def run_java(cmd, job, seed, cases, jobs, deadline, dictf, tmp, rep, tag):
	"""Several single-threaded JVMs, each taking every n-th case."""
	n = max(1, min(jobs, cases, job.maxjobs or CPUS))
	env = dict(build.ENV)
	procs = []
	for w in range(n):
		outp = os.path.join(tmp, "%s-%d.json" % (tag, w))
		c = cmd + ["--prop", job.prop, "--seed", str(seed), "--cases", str(cases), "--shard", str(w), "--of", str(n), "--deadline", str(deadline),
			"--variant", job.recipe, "--dict", dictf, "--out", outp, "--replay-out", rep + ".%d" % w]
		procs.append((subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env), outp, w))
	res = {"status": "ok", "evaluations": 0, "distinct_nontrivial": 0, "nontrivial": 0, "labels": {}, "samples": "", "message": "", "case_text": ""}
	seen = set()
	worst = None
	for p, outp, w in procs:
		o = p.communicate()[0].decode(errors="replace")
		try:
			with open(outp) as f:
				d = json.load(f)
		except (OSError, ValueError):
			d = {"status": "error", "message": "JVM ended with %d: %s" % (p.returncode, o[-2000:]), "evaluations": 0, "labels": {}, "hashes": []}
		res["evaluations"] += d["evaluations"]
		res["nontrivial"] += d.get("nontrivial", 0)
		seen.update(d.get("hashes", []))
		for k, v in d["labels"].items():
			res["labels"][k] = res["labels"].get(k, 0) + v
		if w == 0:
			res["samples"] = d.get("samples", "")
		if d["status"] != "ok" and (worst is None or d.get("case", 1 << 60) < worst[0].get("case", 1 << 60)):
			worst = (d, w)
	res["distinct_nontrivial"] = len(seen)
	if worst:
		d, w = worst
		res.update(status=d["status"], message=d.get("message", ""), case_text=d.get("case_text", ""))
		if d["status"] == "violation":
			# Must fail again in fresh processes
			f = rep + ".%d" % w
			if not (replay_file(f, quiet=True) == 1 and replay_file(f, quiet=True) == 1):
				# The shrunk case may rest on what earlier cases left behind: try the case as generated, then the whole history
				with open(f) as fh:
					r = json.load(fh)
				short = r.pop("choices")
				for alt in ("orig_choices", "history_alt"):
					q = dict(r, **({"choices": r["orig_choices"]} if alt == "orig_choices" else {"history": [r["history_alt"][0], r["history_alt"][1], r["history_alt"][2]]}))
					with open(f, "w") as fh:
						json.dump(q, fh, indent=1)
					if replay_file(f, quiet=True) == 1 and replay_file(f, quiet=True) == 1:
						break
				else:
					with open(f, "w") as fh:
						json.dump(dict(r, choices=short), fh, indent=1)
					res["status"] = "unreproduced"
			os.replace(f, rep)
	for w in range(n):
		try:
			os.unlink(rep + ".%d" % w)
		except OSError:
			pass
	return res


def run_job(job, tier, seed, dictf, tmp, k, pid, jobs):
	t = time.time()
	cases = job.quick if tier == "quick" else job.thorough
	rep = os.path.join(OUT, "%s-%s-%s.json" % (pid, job.recipe, job.prop))
	tool = plan.tool(job.recipe)
	deadline = job.deadline if tier == "quick" else max(job.deadline, 3600)
	f = run_java if tool[0] == "java" else run_cpp
	d = f(tool[1], job, seed, cases, jobs, deadline, dictf, tmp, rep, "job%d" % k)
	if d["status"] in ("unreproduced", "lost", "error"):  # Once more, to tell an accident from a failure
		log("note: %s/%s: %s (%s); running it again" % (job.recipe, job.prop, d["status"], d.get("message", "")[:300]))
		d2 = f(tool[1], job, seed, cases, jobs, deadline, dictf, tmp, rep, "job%db" % k)
		if d2["status"] in ("unreproduced",) and d["status"] == "unreproduced" and job.racy:
			d2["status"] = "violation"  # Failures of a concurrency property need not repeat exactly
			with open(rep, "w") as fh:
				json.dump({"engine": tool[0], "prop": job.prop, "variant": job.recipe, "seed": seed, "cases": cases, "rerun": True, "failure": d2["message"], "case_text": d2.get("case_text", "")}, fh, indent=1)
		d = d2
	d["seconds"] = round(time.time() - t, 2)
	d["requested"] = cases
	d["replay"] = rep
	d["job"] = job
	return d


def check(pid, tier, seed, t0):
	p = plan.PLAN.get(pid)
	if not p:
		log("no such property: %s" % pid)
		return 2
	os.makedirs(OUT, exist_ok=True)
	os.makedirs(EVID, exist_ok=True)
	jobs = [j for j in p["jobs"] if (j.quick if tier == "quick" else j.thorough) > 0]
	plan.prepare(sorted(set(j.recipe for j in jobs)))
	tb = time.time() - t0
	log("%s (%s tier, seed %d): built in %.1f s" % (pid, tier, seed, tb))
	tmp = tempfile.mkdtemp(prefix="pbtrun.")
	results, violations, problems, notrun = [], [], [], []
	known = [k for k in known_findings() if k[0] == pid]
	knownhit = {}
	try:
		dictf = dict_file(tmp)
		lock = threading.Lock()

		def take(d):
			with lock:
				results.append(d)
				j = d["job"]
				log("  %-10s %-22s %8d cases, %d non-trivial, %s, %.1f s" % (j.recipe, j.prop, d["evaluations"], d["distinct_nontrivial"], d["status"], d["seconds"]))
				if d["status"] == "violation":
					for k in known:
						if k[1] == j.prop and re.search(k[2], d["message"] + " | " + d["case_text"], re.S):
							knownhit[k[3]] = d
							return
					violations.append(d)
				elif d["status"] != "ok":
					problems.append(d)
		bg = [(i, j) for i, j in enumerate(jobs) if j.background]
		fg = [(i, j) for i, j in enumerate(jobs) if not j.background]
		threads = []
		for i, j in bg:
			th = threading.Thread(target=lambda i=i, j=j: take(run_job(j, tier, seed, dictf, tmp, i, pid, 1)))
			th.start()
			threads.append(th)
		for i, j in fg:
			if violations:
				break
			if time.time() - t0 > BUDGET[tier]:
				notrun.append("%s/%s" % (j.recipe, j.prop))
				continue
			take(run_job(j, tier, seed, dictf, tmp, i, pid, CPUS))
		for th in threads:
			th.join()
	finally:
		shutil.rmtree(tmp, ignore_errors=True)
	labels = {}
	samples = []
	for d in results:
		for k, v in d["labels"].items():
			kk = "%s: %s" % (d["job"].prop, k)
			labels[kk] = labels.get(kk, 0) + v
		lines = [x for x in d.get("samples", "").split("\n") if x.strip()]
		for x in lines[:3]:
			samples.append("%s [%s]: %s" % (d["job"].prop, d["job"].recipe, x[:900]))
	evals = sum(d["evaluations"] for d in results)
	nontriv = {}
	for d in results:  # The same cases run against several builds count once
		nontriv[(d["job"].prop, d["job"].recipe if d["job"].recipe.startswith("java") else "cpp")] = max(nontriv.get((d["job"].prop, d["job"].recipe if d["job"].recipe.startswith("java") else "cpp"), 0), d["distinct_nontrivial"])
	ev = {
		"property": pid, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": {
			"evaluations": evals,
			"distinct_nontrivial": sum(nontriv.values()),
			"rule": p["rule"],
			"samples": samples[:40],
			"jobs": [{"build": d["job"].recipe, "check": d["job"].prop, "requested": d["requested"], "evaluations": d["evaluations"], "distinct_nontrivial": d["distinct_nontrivial"], "seconds": d["seconds"], "status": d["status"]} for d in results],
			"labels": dict(sorted(labels.items())),
			"not_run_for_time": notrun,
		},
		"assumptions": p.get("assumptions", []),
		"wall_s": round(time.time() - t0, 2),
		"violations": len(violations),
	}
	with open(os.path.join(EVID, pid + ".json"), "w") as f:
		json.dump(ev, f, indent=1)
	for what in sorted(knownhit):
		log("KNOWN-FINDING: property=%s %s" % (pid, what))
	for d in violations:
		log("failure in %s (%s): %s\n  case: %s" % (d["job"].prop, d["job"].recipe, d["message"][:1500], d["case_text"][:1500]))
		log("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(d["replay"], build.VERIF)))
	if violations:
		return 1
	if problems:
		for d in problems:
			log("no verdict from %s (%s): %s: %s" % (d["job"].prop, d["job"].recipe, d["status"], d.get("message", "")[:1500]))
		return 3
	log("%s: held on %d cases (%.1f s)" % (pid, evals, time.time() - t0))
	return 0


def replay_file(path, quiet=False):
	with open(path) as f:
		r = json.load(f)
	recipe = r["variant"]
	plan.prepare([recipe])
	kind, tool = plan.tool(recipe)
	tmp = tempfile.mkdtemp(prefix="pbtrun.")
	try:
		d = os.path.join(tmp, "dict.txt")
		with open(d, "w") as f:
			f.write("\n".join(map(str, r.get("dict", []))) + "\n")
		c = os.path.join(tmp, "choices.txt")
		with open(c, "w") as f:
			f.write("\n".join(map(str, r.get("choices", []))) + "\n")
		cmd = (tool if isinstance(tool, list) else [tool]) + ["--prop", r["prop"], "--dict", d, "--seed", str(r.get("seed", 1))]
		if r.get("rerun"):
			cmd += ["--cases", str(r["cases"]), "--jobs", str(CPUS), "--out", os.path.join(tmp, "o.json"), "--replay-out", os.path.join(tmp, "r.json"), "--variant", recipe]
		elif "history" in r:
			cmd += ["--history", "--first", str(r["history"][0]), "--step", str(r["history"][1]), "--last", str(r["history"][2])]
		else:
			cmd += ["--choices", c]
		with plan.running(recipe) as env:
			p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
		if not quiet:
			log(p.stdout.decode(errors="replace"))
			log("reproduced" if p.returncode else "did not fail")
		return 1 if p.returncode else 0
	finally:
		shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
	return replay_file(path)


def setup():
	t = time.time()
	recipes = set()
	for p in plan.PLAN.values():
		for j in p["jobs"]:
			if j.quick > 0:
				recipes.add(j.recipe)
	plan.prepare(sorted(recipes))
	log("built %d recipes in %.1f s" % (len(recipes), time.time() - t))
	return plan.selftest()
