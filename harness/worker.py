"""Runs one sub-check under Hypothesis in this process; writes a JSON result.

usage: python -m harness.worker PROP SUB SEED EXAMPLES BUDGET_S OUT
       python -m harness.worker --replay FILE
"""

import hashlib
import json
import os
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")

from harness.core import Skip, Violation, load_all  # noqa: E402

REPO_SRC = "/repo/src/"
SHRINK_S = 45.0


def load(prop):
    return load_all()[prop]


def classify(exc):
    """Violation, or a crash inside the code under test on an in-domain case."""
    if isinstance(exc, Violation):
        return "violation", str(exc)
    frames = traceback.extract_tb(exc.__traceback__)
    inside = [f for f in frames if f.filename.startswith(REPO_SRC)]
    text = "".join(traceback.format_exception_only(type(exc), exc)).strip()
    if inside and not isinstance(exc, (MemoryError, KeyboardInterrupt)):
        f = inside[-1]
        return "violation", (
            f"valid input refused with {text} "
            f"({os.path.relpath(f.filename, '/repo')}:{f.lineno} {f.name})")
    detail = "".join(traceback.format_exception(
        type(exc), exc, exc.__traceback__))[-3000:]
    if isinstance(exc, (MemoryError, ImportError, OSError)):
        return "error", detail
    # the oracle is exercised on the unchanged tree; when it cannot digest what
    # the library returned (a wrong type or shape), that is a disagreement
    return "violation", "uninterpretable result: " + detail


def execute(sub, case):
    """(kind, detail, labels) of one case; numpy's RNG is fixed by the case."""
    import numpy as np

    blob = json.dumps(case, sort_keys=True)
    np.random.seed(int(hashlib.sha256(blob.encode()).hexdigest()[:8], 16))
    try:
        labels = set(sub.run(json.loads(blob)) or ())
        return "ok", "", labels
    except Skip as e:
        return "skip", str(e), set()
    except Exception as e:
        kind, detail = classify(e)
        if kind == "violation" and sub.known is not None:
            fid = sub.known(case, detail)
            if fid:
                return "known", fid, set()
        return kind, detail, set()


def diversify():
    """Hypothesis mutates each case up to five times, most of a campaign's
    cases then share their dimensions: let it do so for every fifth only."""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        mutate = ConjectureRunner.generate_mutations_from
    except (ImportError, AttributeError):
        return
    calls = [0]

    def sometimes(self, data):
        calls[0] += 1
        if calls[0] % 5 == 0:
            mutate(self, data)

    ConjectureRunner.generate_mutations_from = sometimes


def campaign(prop, name, seed, examples, budget, out):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    diversify()
    sub = load(prop)[name]
    t0 = time.time()
    st = {"evaluations": 0, "skipped": 0, "out_of_budget": 0,
          "labels": {}, "hashes": [], "samples": [], "known": {},
          "violation": None, "error": None}
    seen = set()
    fail = {"t": None, "key": None}

    @hypothesis.seed(seed)
    @settings(max_examples=examples, database=None, deadline=None,
              phases=[Phase.generate, Phase.shrink],
              suppress_health_check=list(HealthCheck),
              report_multiple_bugs=False,
              verbosity=hypothesis.Verbosity.quiet)
    @given(sub.strategy)
    def prop_test(case):
        key = json.dumps(case, sort_keys=True)
        now = time.time()
        if fail["t"] is None and now - t0 > budget:
            st["out_of_budget"] += 1
            return
        if fail["t"] is not None and now - fail["t"] > SHRINK_S \
                and key != fail["key"]:
            return
        kind, detail, labels = execute(sub, case)
        if fail["t"] is None:
            st["evaluations"] += 1
            if kind == "skip":
                st["skipped"] += 1
            if kind == "known":
                st["known"][detail] = st["known"].get(detail, 0) + 1
            for lb in [x for x in labels if x.startswith("known:")]:
                labels.discard(lb)  # everything else about the case held
                st["known"][lb[6:]] = st["known"].get(lb[6:], 0) + 1
            for lb in labels:
                st["labels"][lb] = st["labels"].get(lb, 0) + 1
            h = hashlib.sha256(key.encode()).hexdigest()[:16]
            if "nt" in labels and h not in seen:
                seen.add(h)
                st["hashes"].append(h)
                n = len(st["hashes"])
                if n in (1, 5, 25, 125) and len(key) < 3000:
                    st["samples"].append(case)
        if kind == "violation":
            if fail["t"] is None:
                fail["t"] = now
            fail["key"] = key
            st["violation"] = {"case": case, "detail": detail}
            raise Violation(detail)
        if kind == "error":
            st["error"] = {"case": case, "detail": detail}
            raise RuntimeError(detail)

    try:
        prop_test()
    except Exception as e:
        if st["violation"] is None and st["error"] is None:
            st["error"] = {"case": None, "detail": "".join(
                traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
    st["wall_s"] = time.time() - t0
    with open(out, "w") as f:
        json.dump(st, f)


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    sub = load(rec["property"])[rec["sub"]]
    kind, detail, labels = execute(sub, rec["case"])
    print(f"{kind}: {detail} {sorted(labels)}")
    return {"ok": 0, "skip": 0, "known": 0, "violation": 1}.get(kind, 2)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    prop, name, seed, examples, budget, out = sys.argv[1:7]
    campaign(prop, name, int(seed), int(examples), float(budget), out)
