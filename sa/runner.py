"""Run the obligations of a property, report, write evidence."""
from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import random
import time

from . import checks, harness as H

LIMIT = 800  # seconds of wall clock after which the remaining obligations are left (and listed)


def repo_digest():
    h = hashlib.sha256()
    for base, dirs, files in sorted(w for top in ("precise", "research") for w in os.walk(os.path.join(H.REPO, top))):
        for f in sorted(files):
            if f.endswith(".py"):
                with open(os.path.join(base, f), "rb") as fh:
                    h.update(f.encode() + b"\0" + fh.read())
    return h.hexdigest()[:16]


def known(here):
    """Findings listed in known_findings.txt: {(property, obligation-label key)}."""
    out = {}
    path = os.path.join(here, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> key=<obligation :: label> | text
                rest = line[len("finding:"):].strip()
                head, _, text = rest.partition("|")
                pid = head.split("property=")[1].split()[0]
                key = head.split("key=", 1)[1].strip()
                out[pid, key] = text.strip()
    return out


def several(obs):
    return [H.discharge(o) for o in obs]


def main(pid, tier, only, jobs, verbose, here, stop=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        obs = checks.CHECKS[pid](tier)
    except H.Broken as e:
        print(f"BROKEN property={pid}: {e}")
        return 2
    if only:
        obs = [o for o in obs if only in o["id"]]
    if not obs:
        print(f"BROKEN property={pid}: no obligations")
        return 2
    obs_run = [o for o in obs if "result" not in o]
    results = [o["result"] for o in obs if "result" in o]
    if obs_run:
        if tier != "quick":  # the quick ones first, the rest in a fixed shuffled order
            try:
                first = {o["id"] for o in checks.CHECKS[pid]("quick")}
            except H.Broken:
                first = set()
            rest = [o for o in obs_run if o["id"] not in first]
            random.Random(seed).shuffle(rest)
            obs_run = [o for o in obs_run if o["id"] in first] + rest
        left = {o["id"] for o in obs_run}
        with mp.Pool(jobs, maxtasksperchild=40) as pool:
            n = max(1, min(4, len(obs_run) // (8 * jobs)))
            it = pool.imap_unordered(several, [obs_run[i:i + n] for i in range(0, len(obs_run), n)])
            while left:
                try:
                    rs = it.next(timeout=max(0.01, t0 + LIMIT - time.time()))
                except StopIteration:
                    break
                except mp.TimeoutError:
                    pool.terminate()
                    break
                for r in rs:
                    left.discard(r["id"])
                    results.append(r)
                    if stop and r["status"] == "violation":
                        pool.terminate()
                        return report(pid, tier, seed, results, t0, here, verbose, only, left)
                    if verbose:
                        print(f"  {r['status']:9} {r['id']} pairs={r['pairs']} id={r['identical']} "
                              f"ev={r['evaluated']} skip={r['skipped']} {r.get('wall')}s {r['why'] or ''}", flush=True)
    else:
        left = set()
    return report(pid, tier, seed, results, t0, here, verbose, only, left)


def report(pid, tier, seed, results, t0, here, verbose, only, left=()):
    results.sort(key=lambda r: r["id"])
    bad = [r for r in results if r["status"] == "violation"]
    broken = [r for r in results if r["status"] == "broken"]
    und = [r for r in results if r["status"] == "undecided"]
    ok = [r for r in results if r["status"] == "ok"]
    funcs = sorted({f for r in results for f in r.get("functions", ())})
    kf = known(here)
    new, listed = [], []
    for r in bad:
        for label, why in r.get("found") or [(r.get("label", ""), r["why"])]:
            key = f"{r['id']} :: {label}"
            (listed if (pid, key) in kf else new).append((key, {**r, "why": why}))
    for key, r in listed:
        print(f"KNOWN-FINDING: property={pid} {key} {kf[pid, key]}")
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    cov = {
        "explanation": (
            "Static: the library's source is parsed from the working tree and interpreted abstractly (values are "
            "hash-consed expressions over symbolic observations and hyper-parameters, paths are joined, nothing is "
            "executed). Each obligation is one driver program; its labelled observations must be equal value numbers, "
            "or equal under random interpretation of the expressions."),
        "obligations": len(results), "discharged": len(ok), "undecided": len(und), "violated": len(bad),
        "not_reached_within_the_time_limit": sorted(left),
        "observations": sum(r["pairs"] for r in results),
        "observations_equal_by_value_number": sum(r["identical"] for r in results),
        "evaluations": sum(r["evaluated"] for r in results),
        "evaluations_skipped_unstable_or_beyond_loop_bound": sum(r["skipped"] for r in results),
        "functions_analysed": len(funcs), "functions": funcs,
        "undecided_list": [{"id": r["id"], "why": r["why"]} for r in und][:200],
        "loop_bounds": sorted({a for r in results for a in r.get("assumed", ())}),
        "source_digest": repo_digest(),
        "obligation_ids": [r["id"] for r in results],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "wall_s": round(time.time() - t0, 2),
          "violations": [{"id": k, "why": r["why"]} for k, r in new],
          "assumptions": ["bounded shapes and histories as listed in obligation_ids",
                          "numpy operations behave as modelled in sa/npm.py"]}
    if not only:
        with open(os.path.join(here, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid} [{tier}]: {len(results)} obligations, {len(ok)} hold, {len(und)} undecided, {len(bad)} violated; "
          f"{cov['observations']} observations ({cov['observations_equal_by_value_number']} equal by value number), "
          f"{len(funcs)} functions; {ev['wall_s']} s")
    if left:
        print(f"  {len(left)} obligations not reached within {LIMIT} s (listed in the evidence)")
    for r in und[:5] if not verbose else und:
        print(f"  undecided: {r['id']}: {r['why']}")
    if new:
        rp = os.path.join(here, "evidence", f"{pid}.violation.txt")
        with open(rp, "w") as f:
            for k, r in new:
                f.write(f"{pid} :: {k}\n  {r['why']}\n  functions: {', '.join(r.get('functions', ()))}\n")
        k, r = new[0]
        print(f"VIOLATION property={pid} replay={rp}")
        for k, r in new[:10]:
            print(f"  {k}: {r['why']}")
        return 1
    if broken:
        for r in broken[:5]:
            print(f"BROKEN property={pid}: {r['id']}: {r['why']}")
        return 2
    if not ok:
        print(f"BROKEN property={pid}: nothing decided")
        return 2
    return 0
