#!/usr/bin/env python3
"""Decide one property: python3 check.py C01 [--replay FILE]

Exit 0: held on everything explored (or only listed known findings).
Exit 1: VIOLATION line printed.   Exit 2: inconclusive / harness error.
"""

import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VP_REPO", "/repo")  # VP_REPO: scratch copies, only for trying planted bugs


def module_consts(prop):
    """Read the module's literal settings without importing jax."""
    src = open(os.path.join(HERE, "props", prop.lower() + ".py")).read()
    out = {"__doc__": ast.get_docstring(ast.parse(src))}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def worker_env(mode):
    env = {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": os.environ.get("HOME", "/root"),
        "LANG": "C.UTF-8",
        "JAX_PLATFORM_NAME": "cpu",
        "JAX_PLATFORMS": "cpu",
        "MPLBACKEND": "Agg",
        "MPLCONFIGDIR": os.environ.get("VP_MPL", "/opt/venv/mpl"),
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "PYTHONPATH": REPO,
        "VP_REPO": REPO,
        "PYTHONWARNINGS": "ignore",
        "JAX_TRACEBACK_FILTERING": "off",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "TF_CPP_MIN_LOG_LEVEL": "3",
        "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        "VERIF_WORKER": "1",
    }
    if "x64" in mode:
        env["JAX_ENABLE_X64"] = "1"
    if "nan" in mode:
        pass
    return env


def known_findings():
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                head, _, text = line[len("known:"):].strip().partition(" | ")
                d = dict(p.split("=", 1) for p in head.split())
                d["text"] = text
                out.append(d)
    return out


def run_workers(prop, plan, seed, tier, soft, hard, indices=()):
    """plan: list of (mode, shard, nshards)."""
    tmp = tempfile.mkdtemp(prefix=f"vp_{prop}_")
    mpl = os.path.join(tmp, "mpl")
    src = "/opt/venv/mpl"
    try:
        shutil.copytree(src, mpl)
    except Exception:
        os.makedirs(mpl, exist_ok=True)
    procs = []
    results, problems = [], []
    try:
        for k, (mode, shard, nshards) in enumerate(plan):
            out = os.path.join(tmp, f"r{k}.json")
            env = worker_env(mode)
            env["MPLCONFIGDIR"] = mpl
            env["VP_KNOWN"] = ",".join(k["mech"] for k in known_findings() if k.get("property") == prop)
            env["TMPDIR"] = tmp
            if module_consts(prop).get("VARY_HASH"):
                env["PYTHONHASHSEED"] = str(shard + 1)
            log = open(os.path.join(tmp, f"r{k}.log"), "w+")
            p = subprocess.Popen(
                [PY, "-B", os.path.join(HERE, "worker.py"), prop, mode, str(shard), str(nshards), str(seed), tier,
                 str(soft), out, *[str(i) for i in indices]],
                env=env, cwd=tmp, stdout=log, stderr=subprocess.STDOUT, start_new_session=True,
            )
            procs.append((p, out, log, mode, shard))
        t_end = time.time() + hard
        for p, out, log, mode, shard in procs:
            try:
                p.wait(timeout=max(1.0, t_end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                problems.append(f"worker {mode}/{shard}: watchdog after {hard} s (inconclusive)")
                log.seek(0)
                problems.append(log.read()[-2000:])
                continue
            if os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                log.seek(0)
                problems.append(f"worker {mode}/{shard} ended with {p.returncode} and no result:\n{log.read()[-3000:]}")
    finally:
        for p, *_ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
        shutil.rmtree(tmp, ignore_errors=True)
    return results, problems


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if not os.path.exists(PY):
        print(f"INCONCLUSIVE property={prop}: {PY} is missing")
        return 2
    m = module_consts(prop)
    t0 = time.time()
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        seed, tier = replay["seed"], replay["tier"]
        plan = [(replay["mode"], replay.get("shard", 0), 1)]
        idx = [replay["index"]] if isinstance(replay["index"], int) else []
        results, problems = run_workers(prop, plan, seed, tier, 600, 800, idx)
    else:
        plan = []
        for mode, n in m["SHARDS"].items():
            plan += [(mode, k, n) for k in range(n)]
        soft, hard = m.get("SOFT", {"quick": 450, "thorough": 600})[tier], {"quick": 780, "thorough": 840}[tier]
        results, problems = run_workers(prop, plan, seed, tier, soft, hard)

    counts, sigs, samples, violations, errors = {}, set(), [], [], []
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        sigs |= set(r["sigs"])
        samples += r["samples"][:2]
        for v in r["violations"]:
            v["mode"], v["shard"] = r["mode"], r["shard"]
            violations.append(v)
        errors += r["errors"]
        if r["deadline_hit"]:
            counts["workers_stopped_by_soft_deadline"] = counts.get("workers_stopped_by_soft_deadline", 0) + 1

    # The same observation made in several processes must be the same, bit for bit.
    first = {}
    for r in results:
        for name, d in r.get("digests", {}).items():
            counts["digests_compared"] = counts.get("digests_compared", 0) + 1
            if first.setdefault((r["mode"], name), d) != d:
                violations.append({"mech": "differs-between-processes", "index": None, "mode": r["mode"], "shard": r["shard"],
                                   "detail": {"call": name, "digest": d, "other": first[r["mode"], name]}, "case": {}})

    # Checks over the merged observations (statistical or cross-worker rules).
    for rule in m.get("MERGED", []):
        num, den = counts.get(rule["num"], 0), counts.get(rule["den"], 0)
        if den >= rule["min_den"] and num > rule["max_rate"] * den:
            violations.append({"mech": rule["mech"], "index": None, "mode": plan[0][0], "shard": 0,
                               "detail": {"observed": num, "of": den, "max_rate": rule["max_rate"]}, "case": {}})

    known = [k for k in known_findings() if k.get("property") == prop]
    new, seen_known = [], {}
    for v in violations:
        hit = next((k for k in known if v["mech"] == k.get("mech")), None)
        if hit:
            seen_known[hit["mech"]] = hit
        else:
            new.append(v)

    for mech, k in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {mech}: {k['text']}")

    verdict = 0
    replays = []
    if new:
        verdict = 1
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for i, v in enumerate(new[:5]):
            path = os.path.join(HERE, "replays", f"{prop}_{seed}_{i}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, **v}, f, indent=1)
            replays.append((path, v))
        for path, v in replays:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  mechanism: {v['mech']}  mode={v['mode']} case={v['index']}")
            print("  detail: " + json.dumps(v["detail"])[:1500])
    missing = []
    if not replay:
        for name, least in m.get("MIN", {}).get(tier, m.get("MIN", {}).get("quick", {})).items():
            if counts.get(name, 0) < least:
                missing.append(f"{name}: observed {counts.get(name, 0)} < {least}")
    if verdict == 0 and (problems or errors or missing):
        verdict = 2
        print(f"INCONCLUSIVE property={prop}")
        for x in problems:
            print("  " + x)
        for e in errors[:3]:
            print("  harness error: " + json.dumps(e.get("case"))[:600] + "\n" + e["traceback"])
        for x in missing:
            print("  monitor not reached often enough: " + x)

    wall = time.time() - t0
    if not replay and REPO == "/repo":
        ev = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": counts.get("cases", 0),
                "distinct_nontrivial": len(sigs),
                "rule": " ".join(m.get("RULE", "").split()),
                "samples": samples[:6] or ["(no sample recorded)"],
                "observed_events": dict(sorted(counts.items())),
                "workers": [f"{mode}/{s}" for mode, s, _ in plan],
                "verdict": {0: "held", 1: "violated", 2: "inconclusive"}[verdict],
                "known_findings_seen": sorted(seen_known),
            },
            "assumptions": m.get("ASSUMES", []),
            "wall_s": round(wall, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop} {tier} seed={seed}: {({0: 'held', 1: 'VIOLATED', 2: 'inconclusive'})[verdict]} "
          f"cases={counts.get('cases', 0)} distinct={len(sigs)} checks={counts.get('oracle_checks', 0)} wall={wall:.1f}s")
    if os.environ.get("VP_VERBOSE"):
        print(json.dumps(dict(sorted(counts.items())), indent=0))
        print("worker walls", [round(r["wall"], 1) for r in results])
    return verdict


if __name__ == "__main__":
    sys.exit(main())
