#!/usr/bin/env python3
"""Run the runtime-monitoring check of one property.

usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--only SCENARIO] [--count N]
Exit 0: held on everything observed.  Exit 1 + VIOLATION line: violated.
Exit 2: inconclusive (monitors observed too little, or the harness failed).
"""
import argparse
import collections
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def environment(work):
    env = dict(os.environ)
    env.update(
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYKEOPS_VERBOSE="0",
        KEOPS_CACHE_FOLDER=os.path.join(work, "keops"),
        PYTHONPATH=os.pathsep.join(["/repo/src", HERE]),
        PATH="/opt/venv/bin:" + env.get("PATH", "/usr/bin:/bin"),
        MPLBACKEND="Agg",
    )
    return env


def prepare_keops(env, folder):
    """A private KeOps build cache (KeOps has no locking), seeded with pre-compiled formulas."""
    env = dict(env, KEOPS_CACHE_FOLDER=folder)
    os.makedirs(folder, exist_ok=True)
    template = "/opt/keops-cache/template"
    if os.path.isdir(template):
        v = subprocess.run(
            [PY, "-c", "import platform,sys;print('_'.join(platform.uname()[:3]) + '_p' + sys.version.split(' ')[0])"],
            capture_output=True,
            text=True,
            check=False,
        ).stdout.strip()
        dst = os.path.join(folder, v)
        if v and not os.path.exists(dst):
            shutil.copytree(template, dst)
    return env


def ensure_version():
    p = "/repo/src/probnum/_version.py"
    if not os.path.exists(p):
        with open(p, "w") as f:
            f.write('version = "1.0.0"\n')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--count", type=int)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--_worker", nargs=4, metavar=("K", "N", "BUDGET", "OUT"))
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"

    if a._worker:
        sys.path.insert(0, HERE)
        from pnmon import core

        if a.only:
            scens = core.load_property(a.property)
            core.REGISTRY[a.property] = [s for s in scens if s.name in a.only.split(",")]
        if a.count:
            for s in core.load_property(a.property):
                s.quick = s.thorough = a.count
        k, n, budget, out = a._worker
        core.worker(a.property, a.tier, a.seed, int(k), int(n), float(budget), out)
        return 0

    ensure_version()
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="pnmon-")
    env = environment(work)
    try:
        if a.replay:
            return replay(a, env)
        return supervise(a, env, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(a, env):
    with open(a.replay) as f:
        v = json.load(f)
    env = prepare_keops(env, env["KEOPS_CACHE_FOLDER"])
    code = (
        "import sys,json;sys.path.insert(0,%r)\n"
        "from pnmon import core\n"
        "scens={s.name:s for s in core.load_property(%r)}\n"
        "m=core.Monitor(%r);e=[]\n"
        "core.run_case(m,scens[%r],%d,%d,e,600)\n"
        "print(json.dumps({'violations':m.violations,'errors':e},indent=1))\n"
        "sys.exit(1 if m.violations else (2 if e else 0))\n"
        % (HERE, a.property, a.property, v["scenario"], v["index"], v["seed"])
    )
    return subprocess.run([PY, "-c", code], env=env, check=False).returncode


def supervise(a, env, work, t0):
    budget = 420.0 if a.tier == "quick" else 3 * 3600.0
    procs = []
    for k in range(a.jobs):
        out = os.path.join(work, f"w{k}.json")
        err = open(os.path.join(work, f"w{k}.err"), "w")
        cmd = [PY, os.path.join(HERE, "run.py"), a.property, "--tier", a.tier, "--seed", str(a.seed)]
        if a.only:
            cmd += ["--only", a.only]
        if a.count:
            cmd += ["--count", str(a.count)]
        cmd += ["--_worker", str(k), str(a.jobs), str(budget), out]
        wenv = prepare_keops(env, os.path.join(work, f"keops{k}"))
        procs.append((subprocess.Popen(cmd, env=wenv, stdout=err, stderr=err, cwd=work), out))
    rules, events, rejected, per = (collections.Counter() for _ in range(4))
    distinct, violations, samples, errors = set(), [], [], []
    done = planned = 0
    slowest = (0.0, "")
    import_failures = []
    for k, (p, out) in enumerate(procs):
        try:
            p.wait(timeout=max(1.0, budget + 400 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append(f"worker {k} exceeded the watchdog")
            continue
        if not os.path.exists(out):
            with open(os.path.join(work, f"w{k}.err")) as f:
                txt = f.read()[-3000:]
            errors.append(f"worker {k} died (rc={p.returncode}): {txt}")
            if "/repo/src/probnum" in txt:
                import_failures.append(txt)
            continue
        with open(out) as f:
            d = json.load(f)
        rules.update(d["rules"])
        events.update(d["events"])
        rejected.update(d["rejected"])
        per.update(d["per_scenario"])
        distinct.update(d["distinct"])
        violations += d["violations"]
        samples += d["samples"]
        errors += d["errors"]
        done += d["done"]
        planned += d["planned"]
        slowest = max(slowest, tuple(d["slowest"]))

    sys.path.insert(0, HERE)
    from pnmon.known import load_known, match_known

    known = load_known(HERE)
    if os.environ.get("PNMON_DUMP"):
        with open(os.environ["PNMON_DUMP"], "w") as f:
            json.dump(violations, f, indent=1)
    fresh, seen_known = [], collections.Counter()
    for v in violations:
        k = match_known(v, known)
        if k is None:
            fresh.append(v)
        else:
            seen_known[k["id"]] += 1

    for k in known:
        if k["property"] == a.property:
            print(f"KNOWN-FINDING: property={a.property} {k['id']}: {k['what']} "
                  f"(observed {seen_known.get(k['id'], 0)} times in this run)")

    rc = 0
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    if fresh:
        rep_dir = os.path.join(ev_dir, "replay")
        os.makedirs(rep_dir, exist_ok=True)
        shown = set()
        n = 0
        for v in fresh:
            key = (v["scenario"], v["rule"])
            if key in shown or n >= 12:
                continue
            shown.add(key)
            n += 1
            v["seed"] = a.seed
            path = os.path.join(rep_dir, f"{a.property}-{v['scenario']}-{v['index']}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"VIOLATION property={a.property} replay={path}")
            print(f"   rule={v['rule']} scenario={v['scenario']}[{v['index']}] {v['message'][:400]}")
        print(f"   {len(fresh)} violating observations in total")
        rc = 1
    else:
        if import_failures:
            # probnum itself cannot be imported: every guarantee is gone
            path = os.path.join(ev_dir, "replay")
            os.makedirs(path, exist_ok=True)
            path = os.path.join(path, f"{a.property}-import.json")
            with open(path, "w") as f:
                json.dump({"error": import_failures[0]}, f)
            print(f"VIOLATION property={a.property} replay={path}")
            print(import_failures[0][-800:])
            rc = 1
        elif errors:
            print("INCONCLUSIVE: " + "; ".join(e[-1500:] for e in errors[:3]))
            rc = 2
        elif sum(rules.values()) == 0 or len(distinct) < 2:
            print("INCONCLUSIVE: the monitors observed nothing")
            rc = 2

    evidence = {
        "property": a.property,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(distinct),
            "rule": "a case is (scenario, generated parameters) drawn from VERIF_SEED and run "
            "against the real code; it is non-trivial if at least one oracle rule was "
            "evaluated on what was observed, distinct by scenario and generated description",
            "samples": samples[:6],
            "planned_cases": planned,
            "cases_per_scenario": dict(sorted(per.items())),
            "oracle_evaluations": sum(rules.values()),
            "oracle_evaluations_per_rule": dict(sorted(rules.items())),
            "observed_events": dict(sorted(events.items())),
            "documented_rejections": dict(sorted(rejected.items())),
            "known_findings_observed": dict(seen_known),
        },
        "assumptions": [
            "IEEE double arithmetic; numpy and scipy of the sandbox are trusted as reference",
            "tolerances are relative to the size of the reference quantity",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(ev_dir, f"{a.property}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(
        f"{a.property}: {done}/{planned} cases, {len(distinct)} distinct, "
        f"{sum(rules.values())} oracle evaluations, {len(fresh)} violations, "
        f"{evidence['wall_s']} s (slowest case {slowest[1]}: {slowest[0]} s), exit {rc}"
    )
    return rc


if __name__ == "__main__":
    sys.exit(main())
