"""Runs every sub-check of one property in parallel worker processes."""

import hashlib
import json
import os
import subprocess
import sys
import time

from harness.core import load_all

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CORES = 8
# every quick count is multiplied by this; run_jobs caps the time anyway
QUICK_FACTOR = 2
ASSUMPTIONS = [
    "numpy, scipy and scikit-learn compute what they document",
    "inputs are within the domain stated in DESIGN.md for this property",
    "comparisons allow the stated floating-point tolerance",
]


def backend_env(backend):
    env = dict(os.environ)
    name, _, bits = backend.partition(":")
    env["MUYGPYS_BACKEND"] = "numpy" if name == "mpi" else name
    if bits:
        env["MUYGPYS_FTYPE"] = bits
    return env


def derive(seed, *parts):
    text = ":".join(str(p) for p in (seed,) + parts)
    return int(hashlib.sha256(text.encode()).hexdigest()[:12], 16)


def jobs_for(prop, tier):
    """[(sub, shard, examples)]"""
    jobs = []
    for sub in load_all()[prop].values():
        total = (QUICK_FACTOR * sub.quick if tier == "quick"
                 else sub.thorough)
        shards = sub.shards if tier == "quick" else max(CORES, sub.shards)
        shards = max(1, min(shards, total))
        base, extra = divmod(total, shards)
        for s in range(shards):
            jobs.append((sub, s, base + (1 if s < extra else 0)))
    return jobs


def run_jobs(prop, tier, seed, work):
    budget = float(os.environ.get(
        "VERIF_BUDGET", "240" if tier == "quick" else "5400"))
    hard = budget + 240
    t_end = time.time() + budget
    pending = jobs_for(prop, tier)
    # longest first keeps the cores busy
    pending.sort(key=lambda j: -j[0].weight * j[2])
    running, results = [], []
    failed_subs = set()
    while pending or running:
        used = sum(j[0][0].procs for j in running)
        while pending:
            sub, shard, n = pending[0]
            procs = sub.procs
            if running and used + procs > CORES:
                break
            pending.pop(0)
            if sub.name in failed_subs:
                continue
            out = os.path.join(work, f"{sub.name}.{shard}.json")
            log = open(out + ".log", "wb")
            left = max(1.0, t_end - time.time())
            p = subprocess.Popen(
                [PY, "-m", "harness.worker", prop, sub.name,
                 str(derive(seed, prop, sub.name, shard)), str(n),
                 f"{left:.1f}", out],
                cwd=ROOT, env=backend_env(sub.backend), stdout=log,
                stderr=subprocess.STDOUT, start_new_session=True)
            running.append(((sub, shard, n), p, out, time.time()))
            used += procs
        time.sleep(0.05)
        still = []
        for job, p, out, t in running:
            if p.poll() is None and time.time() - t < hard:
                still.append((job, p, out, t))
                continue
            if p.poll() is None:
                os.killpg(p.pid, 9)
                p.wait()
                res = {"timeout": True}
            elif os.path.exists(out):
                with open(out) as f:
                    res = json.load(f)
            else:
                with open(out + ".log", errors="replace") as f:
                    res = {"error": {"case": None, "detail":
                                     f"worker exit {p.returncode}: "
                                     + f.read()[-3000:]}}
            if res.get("violation"):
                failed_subs.add(job[0].name)
            results.append((job, res))
        running = still
    return results


def confirm(prop, sub, case, work):
    """Re-run a failing case in a fresh process, bypassing Hypothesis."""
    rec = {"property": prop, "sub": sub.name, "backend": sub.backend,
           "case": case}
    path = os.path.join(work, "confirm.json")
    with open(path, "w") as f:
        json.dump(rec, f)
    p = subprocess.run([PY, "-m", "harness.worker", "--replay", path],
                       cwd=ROOT, env=backend_env(sub.backend),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=600)
    return p.returncode == 1


def main(argv):
    if len(argv) == 3 and argv[1] == "--replay":
        with open(argv[2]) as f:
            rec = json.load(f)
        p = subprocess.run([PY, "-m", "harness.worker", "--replay", argv[2]],
                           cwd=ROOT, env=backend_env(rec["backend"]))
        if p.returncode == 1:
            print(f"VIOLATION property={rec['property']} replay={argv[2]}")
        return p.returncode
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = os.path.join(ROOT, ".work", f"{prop}.{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    try:
        results = run_jobs(prop, tier, seed, work)
        return report(prop, tier, seed, results, t0, work)
    finally:
        for name in os.listdir(work):
            os.unlink(os.path.join(work, name))
        os.rmdir(work)


def report(prop, tier, seed, results, t0, work):
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        findings = {k["id"]: k for k in json.load(f)["findings"]}
    evals = skipped = oob = 0
    nontrivial, samples, subs, rules = set(), [], {}, []
    known, violations, errors = {}, [], []
    for (sub, shard, n), res in results:
        if res.get("timeout"):
            oob += n
            print(f"note: {sub.name} shard {shard} ran out of time",
                  file=sys.stderr)
            continue
        evals += res.get("evaluations", 0)
        skipped += res.get("skipped", 0)
        oob += res.get("out_of_budget", 0)
        nontrivial |= {f"{sub.name}:{h}" for h in res.get("hashes", [])}
        s = subs.setdefault(sub.name, {"evaluations": 0, "backend":
                                          sub.backend, "labels": {}})
        s["evaluations"] += res.get("evaluations", 0)
        for k, v in res.get("labels", {}).items():
            s["labels"][k] = s["labels"].get(k, 0) + v
        if shard == 0:
            samples += [{"sub": sub.name, "case": c}
                        for c in res.get("samples", [])[:2]]
            rules.append(f"[{sub.name}] {sub.rule}")
        for k, v in res.get("known", {}).items():
            known[k] = known.get(k, 0) + v
        if res.get("violation"):
            violations.append((sub, res["violation"]))
        elif res.get("error"):
            errors.append((sub, res["error"]))
    first = {}
    for sub, v in violations:
        best = first.get(sub.name)
        if best is None or len(json.dumps(v["case"])) < len(
                json.dumps(best[1]["case"])):
            first[sub.name] = (sub, v)
    for sub, v in first.values():
        rec = {"property": prop, "sub": sub.name, "backend": sub.backend,
               "case": v["case"], "detail": v["detail"], "seed": seed,
               "reproduced": confirm(prop, sub, v["case"], work)}
        blob = json.dumps(rec, indent=1, sort_keys=True)
        h = hashlib.sha256(blob.encode()).hexdigest()[:10]
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{prop}-{sub.name}-{h}.json")
        with open(path, "w") as f:
            f.write(blob + "\n")
        print(f"{sub.name}: {v['detail']}")
        print(f"VIOLATION property={prop} replay={path}")
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {findings[k]['what']} "
              f"({known[k]} cases)")
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(nontrivial),
            "rule": " ".join(rules), "samples": samples[:12],
            "skipped_out_of_domain": skipped, "not_run_budget": oob,
            "known_finding_cases": sum(known.values()), "subchecks": subs},
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(first)}
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if first:
        return 1
    for sub, e in errors:
        print(f"ERROR in {sub.name}: {e['detail']}\ncase: "
              f"{json.dumps(e['case'])[:2000]}", file=sys.stderr)
    if errors or evals == 0 or not nontrivial:
        print(f"{prop}: no answer", file=sys.stderr)
        return 2
    print(f"{prop}: held on {evals} cases ({len(nontrivial)} distinct "
          f"non-trivial, {oob} not run) in {evidence['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
