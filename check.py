#!/usr/bin/env python3
"""check.py <property> quick|thorough

Decides one property by seeded search over simulated executions: builds the
simulator from /repo's working tree, explores scenarios derived from VERIF_SEED
on all cores, audits determinism, and on a violation confirms it, minimises it,
writes a replay file and confirms that file in a fresh process.

Exit 0: held on everything explored.  Exit 1: violated (VIOLATION line).
Anything else: the check itself failed and says nothing about the property.
"""
import fcntl, json, os, re, struct, subprocess, sys, tempfile, time, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
import meta as M

WORKERS = int(os.environ.get("CG3SIM_WORKERS", "8"))


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, **kw)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            e = json.loads(line)
            if e.get("status") == "known" and e["property"] == prop:
                out.append(e)
    return out


def is_known(cls, detail, known):
    for e in known:
        if e.get("scenario"):
            continue  # covers that history only, which the exploration does not generate
        if e["class"] == cls and (not e.get("detail_re") or re.search(e["detail_re"], detail, re.S)):
            return e
    return None


def parse_verdict(txt):
    m = re.search(r"^VERDICT violated=(\d) trivial=(\d) cls=(\S+) hash=(\w+)", txt, re.M)
    if not m:
        return None
    d = re.search(r"^DETAIL (.*)", txt, re.M | re.S)
    return {"violated": m.group(1) == "1", "cls": m.group(3), "hash": m.group(4), "detail": d.group(1).strip() if d else ""}


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    base = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sim = B.build(os.path.join(VERIF, "build"))
        if not sim:
            print("check: the simulator does not build against /repo", file=sys.stderr)
            return 2
        # run from a private copy, so that a later rebuild cannot change it under us
        work = tempfile.mkdtemp(prefix="cg3check.")
        simx = os.path.join(work, "sim")
        shutil.copy2(sim, simx)
    try:
        return explore(prop, tier, base, simx, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def explore(prop, tier, base, sim, work, t0):
    meta = M.PROPS[prop]
    secs = float(os.environ.get("CG3SIM_SECS", meta.get("secs", {}).get(tier, 50 if tier == "quick" else 480)))
    build_s = time.time() - t0
    procs = []
    for w in range(WORKERS):
        cmd = [sim, "batch", prop, str(base), str(w), str(WORKERS), str(secs), "100000000", tier,
               f"{work}/o{w}.json", f"{work}/h{w}.bin"]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(f"{work}/e{w}", "w")))
    deadline = time.time() + secs + 200
    for p in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.terminate()
            p.wait()
    tot = {"scenarios": 0, "nontrivial": 0, "sim_us": 0}
    stats, samples, viol, states, hashes = {}, [], {}, set(), []
    for w in range(WORKERS):
        try:
            o = json.load(open(f"{work}/o{w}.json"))
        except Exception as e:
            err = open(f"{work}/e{w}").read()[-2000:]
            print(f"check: worker {w} produced no result: {e}\n{err}", file=sys.stderr)
            return 3
        for k in tot:
            tot[k] += o[k]
        for k, v in o["stats"].items():
            stats[k] = stats.get(k, 0) + v
        samples += o["samples"]
        for v in o["violations"]:
            if v["cls"] not in viol or v["seed"] < viol[v["cls"]]["seed"]:
                viol[v["cls"]] = v
        raw = open(f"{work}/h{w}.bin", "rb").read()
        n = struct.unpack_from("<Q", raw)[0]
        states.update(struct.unpack_from(f"<{n}Q", raw, 8))
        rest = struct.unpack_from(f"<{(len(raw) - 8 - 8 * n) // 8}Q", raw, 8 + 8 * n)
        hashes.append(dict(zip(rest[0::2], rest[1::2])))
    explore_s = time.time() - t0 - build_s

    # determinism audit: the same seeds, fresh processes, in a different order and company
    audit_n = audit_bad = 0
    jobs = []
    for h in hashes:
        ks = list(h.keys())
        if not ks:
            continue
        pick = sorted({ks[0], ks[-1], ks[len(ks) // 2], ks[len(ks) // 3]}, reverse=True)
        jobs.append((h, subprocess.Popen([sim, "hashes", prop, tier] + [str(x) for x in pick], stdout=subprocess.PIPE, text=True)))
    for h, p in jobs:
        try:
            out, _ = p.communicate(timeout=150)
        except subprocess.TimeoutExpired:
            p.terminate()
            out, _ = p.communicate()
        for line in out.splitlines():
            s, x = line.split()
            audit_n += 1
            if h[int(s)] != int(x):
                audit_bad += 1
                print(f"check: determinism audit: seed {s} gave a different history", file=sys.stderr)

    known = known_findings(prop)
    new, seen_known = [], {}
    for cls, v in sorted(viol.items()):
        e = is_known(cls, v["detail"], known)
        if e:
            seen_known[e["id"]] = seen_known.get(e["id"], 0) + 1
        else:
            new.append(v)
    # findings pinned to one history: replay it; a different violation of it is reported
    for e in known:
        if not e.get("scenario"):
            continue
        v = parse_verdict(sh([sim, "exec", os.path.join(VERIF, e["scenario"])], 200).stdout)
        if v and v["violated"] and v["cls"] == e["class"]:
            seen_known[e["id"]] = 1
    for e in known:
        print(f"KNOWN-FINDING: property={prop} {e['what']}" + ("" if e["id"] in seen_known else " (not reached by this run's seeds)"))

    reported = []
    irreproducible = []
    for v in new[:3]:
        r = confirm(prop, tier, sim, v, known, work)
        (reported if r else irreproducible).append(r or v)

    wall = time.time() - t0
    runs = stats.get("runs", 0)
    faults = {k[8:]: v for k, v in sorted(stats.items()) if k.startswith("c.fault.")}
    ev = {
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": tot["scenarios"],
            "distinct_nontrivial": len(states),
            "rule": meta["rule"] + " Distinct: the set of instrumented code edges reached together with the outcome "
                    "(and, where threads run, the interleaving) hashed to one state; scenarios that exercised nothing relevant are not counted.",
            "samples": samples[:4],
            "nontrivial_scenarios": tot["nontrivial"],
            "simulated_tool_runs": runs,
            "seeds_per_hour": int(tot["scenarios"] / max(explore_s, 1e-9) * 3600),
            "simulated_runs_per_hour": int(runs / max(explore_s, 1e-9) * 3600),
            "simulated_time_s": round(stats.get("sim_us", 0) / 1e6, 3),
            "instrumented_steps": stats.get("steps", 0),
            "faults_injected": faults,
            "seam_counters": {k[2:]: v for k, v in sorted(stats.items()) if k.startswith("c.") and not k.startswith("c.fault.")},
            "outcomes": {k[8:]: v for k, v in sorted(stats.items()) if k.startswith("verdict.")},
            "property_counters": {k: v for k, v in sorted(stats.items()) if not k.startswith(("c.", "verdict.")) and k not in ("runs", "sim_us", "steps")},
            "determinism_audit": {"seeds_reexecuted": audit_n, "different_histories": audit_bad},
            "real_components": meta["real"],
            "stubbed_components": meta["stub"],
            "workers": WORKERS, "build_s": round(build_s, 1), "explore_s": round(explore_s, 1),
        },
        "assumptions": meta["assume"],
        "wall_s": round(wall, 1),
        "violations": len(reported),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: {tot['scenarios']} scenarios, {runs} simulated runs, {len(states)} distinct states, "
          f"{sum(faults.values())} faults, {len(viol)} violation classes ({len(new)} new), {wall:.0f} s")
    if reported:
        for r in reported:
            print(f"  class {r['cls']}: {r['detail'][:1500]}")
        for r in reported:
            print(f"VIOLATION property={prop} replay={r['path']}")
        return 1
    if irreproducible:
        for v in irreproducible:
            print(f"check: class {v['cls']} (seed {v['seed']}) did not reproduce: {v['detail'][:800]}", file=sys.stderr)
        return 3
    if audit_bad:
        return 3
    if tot["nontrivial"] == 0:
        print("check: nothing relevant was exercised", file=sys.stderr)
        return 3
    return 0


def confirm(prop, tier, sim, v, known, work):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    raw = os.path.join(work, "raw.scn")
    with open(raw, "w") as f:
        f.write(sh([sim, "gen", prop, str(v["seed"]), tier], 60).stdout)
    try:
        a = parse_verdict(sh([sim, "exec", raw], 200).stdout)
        b = parse_verdict(sh([sim, "exec", raw], 200).stdout)
    except subprocess.TimeoutExpired:
        return None
    if not a or not b or not a["violated"] or a["cls"] != b["cls"]:
        return None
    if a["hash"] != b["hash"]:
        print(f"check: seed {v['seed']} violates the same way but its history differs between executions", file=sys.stderr)
    name = re.sub(r"[^A-Za-z0-9_.-]+", "_", v["cls"])[:60]
    path = os.path.join(d, f"{prop}-{name}-{v['seed']}.scn")
    shutil.copy(raw, path)
    mini = os.path.join(work, "min.scn")
    try:
        sh([sim, "min", raw, mini, "30" if tier == "quick" else "90"], 150)
        c = parse_verdict(sh([sim, "exec", mini], 200).stdout) if os.path.exists(mini) else None
    except subprocess.TimeoutExpired:
        c = None
    # keep the minimised schedule only if it replays to the same, still unlisted, violation
    if c and c["violated"] and c["cls"] == a["cls"] and not is_known(c["cls"], c["detail"], known):
        shutil.copy(mini, path)
        a = c
    if os.path.exists(mini):
        os.remove(mini)
    with open(path, "a") as f:
        f.write(f"# class {a['cls']}\n# " + a["detail"][:2000].replace("\n", "\n# ") + f"\n# history hash {a['hash']}\n# replay: {VERIF}/build/sim exec {path}\n")
    return {"cls": a["cls"], "detail": a["detail"], "path": path}


if __name__ == "__main__":
    sys.exit(main())
