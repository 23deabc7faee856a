"""Search harness: facets (strategy + oracle), sharded over processes, evidence, replay files.

A *case* is plain JSON data drawn by a Hypothesis strategy.  A *facet* has an oracle ``fn(case)``
which runs the real code on the case and raises if the property does not hold.  All randomness is
Hypothesis', seeded from VERIF_SEED, so a run is a function of (code, VERIF_SEED, tier).
"""
from __future__ import annotations

import hashlib
import json
import logging
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
from collections import Counter
from pathlib import Path

logging.getLogger().addHandler(logging.NullHandler())  # parsers' warnings are not of interest

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

CASE_CPU_LIMIT = 30.0      # CPU seconds for one case (cases normally take milliseconds)
SHRINK_SECONDS = 45


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The harness itself is at fault."""


class CaseTimeout(BaseException):
    """One case used more than CASE_CPU_LIMIT CPU seconds."""


class Facet:
    """One generated check.

    quick/thorough: number of generated cases in that tier (whole facet, over all shards).
    """

    def __init__(self, name, strategy, fn, *, quick=500, thorough=None, nontrivial=None,
                 rule="", labels=None, corpus=()):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 40
        self.nontrivial = nontrivial or (lambda case: True)
        self.rule = rule
        self.labels = labels or (lambda case: ())
        self.corpus = list(corpus)


def facet(strategy, **kw):
    """Decorator form: the function's name is the facet's name."""
    def deco(fn):
        return Facet(kw.pop("name", fn.__name__), strategy, fn, **kw)
    return deco


def canon(case) -> str:
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def describe(exc: BaseException) -> str:
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = next((f"{Path(fr.filename).name}:{fr.lineno} in {fr.name}"
                  for fr in reversed(tb) if "/castep_outputs/" in fr.filename), "oracle")
    return f"{type(exc).__name__}: {exc} [{where}]"


def _alarm(_sig, _frm):
    raise CaseTimeout


def run_case(fct: Facet, case):
    """Run one case with the CPU watchdog. Raises on violation."""
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        fct.fn(case)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _run_shard(prop, fct: Facet, count, seed, first):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGPROF, _alarm)

    out = {"facet": fct.name, "evaluations": 0, "digests": [], "labels": Counter(),
           "samples": [], "failure": None, "error": None, "nontrivial": 0, "known": []}
    digests = set()
    fail = {}

    def one(case):
        out["evaluations"] += 1
        try:
            run_case(fct, case)
        except HarnessError:
            raise
        except CaseTimeout:
            fail["case"], fail["msg"] = case, f"no result after {CASE_CPU_LIMIT} CPU seconds"
            raise
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as exc:
            fail["case"], fail["msg"] = case, describe(exc)
            fail["trace"] = traceback.format_exc()
            raise
        if fail:
            return
        if fct.nontrivial(case):
            text = canon(case)
            dig = hashlib.sha1(text.encode()).hexdigest()[:16]
            if dig not in digests:
                digests.add(dig)
                if len(out["samples"]) < 2 and len(text) < 1500:
                    out["samples"].append(case)
                elif not out["samples"]:
                    out["samples"].append(text[:1500])
            for lab in fct.labels(case):
                out["labels"][lab] += 1

    try:
        if first:
            for case in fct.corpus:
                one(case)
        if count > 0:
            test = given(fct.strategy)(one)
            test = hypothesis.seed(seed)(test)
            test = settings(max_examples=count, database=None, deadline=None,
                            report_multiple_bugs=False, print_blob=False,
                            phases=(Phase.generate, Phase.shrink),
                            suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                   HealthCheck.large_base_example,
                                                   HealthCheck.filter_too_much])(test)
            test()
    except CaseTimeout:
        out["failure"] = dict(fail)
    except HarnessError as exc:
        out["error"] = f"HarnessError: {exc}\n{traceback.format_exc()}"
    except BaseException as exc:  # noqa: BLE001
        if fail:
            out["failure"] = dict(fail)
        else:
            out["error"] = f"{type(exc).__name__}: {exc}\n{traceback.format_exc()}"
    out["digests"] = sorted(digests)
    return out


def _worker(args):
    prop, idx, count, seed, first = args
    try:
        sys.stdout = open(os.devnull, "w")  # parsers may print
        return _run_shard(prop, _FACETS[idx], count, seed, first)
    except BaseException as exc:  # noqa: BLE001
        return {"facet": _FACETS[idx].name, "evaluations": 0, "digests": [], "labels": Counter(),
                "samples": [], "failure": None,
                "error": f"{type(exc).__name__}: {exc}\n{traceback.format_exc()}"}


_FACETS: list[Facet] = []


def load_known(prop):
    path = VERIF / "known_findings.json"
    if not path.is_file():
        return []
    return [k for k in json.loads(path.read_text())["findings"] if k["property"] == prop]


def seed_for(base, *parts):
    dig = hashlib.sha256(repr((base, *parts)).encode()).digest()
    return int.from_bytes(dig[:7], "big")


#: How many times the quick cases of a facet are run; one by one of the properties, for those which take long.
BOOST = {"C10": 2, "C26": 3, "C29": 2, "C32": 2, "C36": 1, "C37": 2}


def run_property(prop, facets, *, assumptions=()):
    """Run every facet of a property; write evidence; return exit code."""
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    base = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    start = time.time()
    _FACETS[:] = facets
    only = os.environ.get("VERIF_FACET")

    jobs = []
    per = 40 if tier == "quick" else 400
    for idx, fct in enumerate(facets):
        if only and fct.name != only:
            continue
        total = int((fct.quick * BOOST.get(prop, 4) if tier == "quick" else fct.thorough) * scale)
        shards = max(1, min(16, total // per))
        for k in range(shards):
            cnt = total // shards + (1 if k < total % shards else 0)
            jobs.append((prop, idx, cnt, seed_for(base, prop, fct.name, k), k == 0))

    results = []
    ctx = mp.get_context("fork")
    nproc = min(8, os.cpu_count() or 1, len(jobs))
    with ctx.Pool(nproc, maxtasksperchild=4) as pool:
        for res in pool.imap_unordered(_worker, jobs, chunksize=1):
            results.append(res)

    code = 0
    # Known findings: run each listed case; print if it still fails as listed.
    byname = {f.name: f for f in facets}
    signal.signal(signal.SIGPROF, _alarm)
    for known in load_known(prop):
        fct = byname.get(known["facet"])
        if fct is None:
            print(f"known finding names unknown facet {known['facet']}", file=sys.stderr)
            return 3
        try:
            run_case(fct, known["case"])
        except HarnessError:
            raise
        except (Exception, CaseTimeout):
            print(f"KNOWN-FINDING: property={prop} {known['what']}")

    errors = [r for r in results if r["error"]]
    failures = {}
    for res in results:
        if res["failure"]:
            cur = failures.get(res["facet"])
            if cur is None or len(canon(res["failure"]["case"])) < len(canon(cur["case"])):
                failures[res["facet"]] = res["failure"]

    rep_dir = VERIF / "replays" / prop
    for name, failure in sorted(failures.items()):
        rep_dir.mkdir(parents=True, exist_ok=True)
        path = rep_dir / f"{name}.json"
        path.write_text(json.dumps({"property": prop, "facet": name, "case": failure["case"],
                                    "message": failure["msg"],
                                    "trace": failure.get("trace", "")}, indent=1))
        print(f"--- {prop}/{name}: {failure['msg'][:2000]}", file=sys.stderr)
        print(f"VIOLATION property={prop} replay={path}")
        code = 1

    digests = {}
    facets_cov = {}
    samples = []
    for fct in facets:
        mine = [r for r in results if r["facet"] == fct.name]
        dig = set().union(*(r["digests"] for r in mine)) if mine else set()
        digests[fct.name] = dig
        lab = Counter()
        for r in mine:
            lab.update(r["labels"])
        smp = [s for r in mine for s in r["samples"]]
        facets_cov[fct.name] = {"evaluations": sum(r["evaluations"] for r in mine),
                                "distinct_nontrivial": len(dig), "rule": fct.rule,
                                "labels": dict(sorted(lab.items()))}
        if smp:
            samples.append({"facet": fct.name, "case": smp[0]})
    evidence = {
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": sum(v["evaluations"] for v in facets_cov.values()),
            "distinct_nontrivial": sum(v["distinct_nontrivial"] for v in facets_cov.values()),
            "rule": "Cases are drawn by seeded Hypothesis strategies per facet; distinct = distinct "
                    "canonical JSON of the case; non-trivial per facet: "
                    + "; ".join(f"{f.name}: {f.rule}" for f in facets),
            "samples": samples[:40],
            "facets": facets_cov,
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - start, 2),
        "violations": len(failures),
    }
    ev = VERIF / "evidence"
    ev.mkdir(exist_ok=True)
    (ev / f"{prop}.json").write_text(json.dumps(evidence, indent=1))

    for res in errors:
        print(f"*** harness error in {prop}/{res['facet']}: {res['error']}", file=sys.stderr)
    if code == 0 and errors:
        return 3
    print(f"{prop}: {evidence['coverage']['evaluations']} cases, "
          f"{evidence['coverage']['distinct_nontrivial']} distinct non-trivial, "
          f"{len(failures)} violations, {evidence['wall_s']} s")
    return code


def replay(prop, facets, path):
    data = json.loads(Path(path).read_text())
    fct = next(f for f in facets if f.name == data["facet"])
    signal.signal(signal.SIGPROF, _alarm)
    try:
        run_case(fct, data["case"])
    except (Exception, CaseTimeout) as exc:
        traceback.print_exc()
        print(describe(exc), file=sys.stderr)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("replay: property holds on this case")
    return 0
