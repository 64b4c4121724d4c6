"""python -m mc.run <PROPERTY> [--tier T] [--replay FILE] : run one check, write evidence, print verdict"""
import argparse
import base64
import importlib
import json
import logging
import os
import pickle
import re
import shutil
import sys
import tempfile
import time


def known_findings(path, pid):
    known = {}
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(.+?) \| (.*)", line.rstrip("\n"))
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--group")
    ap.add_argument("--times", action="store_true")
    args = ap.parse_args()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    root = os.environ.get("VERIF_DIR", os.getcwd())
    t0 = time.time()
    import bilby
    assert os.path.abspath(bilby.__file__).startswith(os.environ.get("VERIF_REPO", "/repo") + "/"), bilby.__file__
    logging.getLogger("bilby").setLevel(logging.CRITICAL + 1)
    import warnings
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    from . import core
    mod = importlib.import_module(f"checks.{args.property.lower()}")
    scratch = tempfile.mkdtemp(prefix=f"verif_{args.property}_")
    os.chdir(scratch)
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    try:
        if args.replay:
            d = json.load(open(args.replay))
            groups = {g.name: g for g in mod.groups(d["tier"], d["seed"])}
            g = groups[d["group"]]
            item = pickle.loads(base64.b64decode(d["item"])) if d.get("item") else g.items[d["index"]]
            g.items = [item]
            os.environ["MC_DEBUG"] = "1"
            res = core.run_groups([g], 1)
            for k, m in res[0][2].failures:
                print("REPRODUCED", k, m)
            return 1 if res[0][2].failures else 0
        groups = mod.groups(tier, seed)
        if args.group:
            groups = [g for g in groups if g.name == args.group]
        res = core.run_groups(groups, int(os.environ.get("VERIF_NPROC", "8")))
        after = getattr(mod, "after", None)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)

    total = core.Recorder()
    notes = {}
    known = known_findings(os.path.join(root, "KNOWN_FINDINGS.txt"), args.property)
    seen_known, new = {}, []
    samples = []
    for g, ii, rec in res:
        total.evaluations += rec.evaluations
        total.distinct |= {(g.name, d) for d in rec.distinct}
        total.outcomes |= rec.outcomes
        total.states |= {(g.name, d) for d in rec.states}
        total.transitions += rec.transitions
        total.traces += rec.traces
        for k, v in rec.notes.items():
            notes[k] = notes.get(k, 0) + v
        if rec.samples and sum(1 for s in samples if s.startswith(g.name + ": ")) < 3:
            samples.append(f"{g.name}: {rec.samples[0]}")
        for k, m in rec.failures:
            if k in known:
                seen_known[k] = m
            else:
                new.append((g, ii, k, m))
        if args.times:
            print(f"  {g.name} {core.item_label(g.items[ii])}: {rec.notes.get('_t', 0):.2f}s", file=sys.stderr)
    wall = time.time() - t0
    cov = dict(items=len(res), groups={g.name: len(g.items) for g in groups}, samples=samples,
               distinct_outcomes=len(total.outcomes), exhaustive=True,
               evaluations=total.evaluations, distinct_nontrivial=len(total.distinct), rule=mod.RULE,
               known_findings_seen=len(seen_known))
    if mod.LEVEL == "model_checking":
        cov.update(states=len(total.states), transitions=total.transitions,
                   traces_validated_against_impl=total.traces)
    cov.update({k: v for k, v in notes.items() if not k.startswith("_")})
    ev = dict(property=args.property, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(new))
    evdir = os.path.join(root, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{args.property}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={args.property} {known[k]} [{k}]")
    print(f"{args.property} {tier}: items={len(res)} evaluations={total.evaluations} "
          f"distinct={len(total.distinct)} states={len(total.states)} transitions={total.transitions} "
          f"outcomes={len(total.outcomes)} wall={wall:.1f}s")
    if new:
        rdir = os.path.join(evdir, "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = 0
        reported = set()
        for n, (g, ii, k, m) in enumerate(new):
            if k in reported:
                continue
            reported.add(k)
            if shown >= int(os.environ.get("MC_SHOW", "12")):
                break
            shown += 1
            path = os.path.join(rdir, f"{args.property}_{shown}.json")
            with open(path, "w") as f:
                json.dump(dict(property=args.property, tier=tier, seed=seed, group=g.name, index=ii, key=k, message=m,
                               item_text=core.item_label(g.items[ii]), item=core.encode_item(g.items[ii]),
                               reproduce=f"bash run.sh {args.property} --replay {path}"), f, indent=1)
            print(f"  {k[:200]}: " + " | ".join(m.split("\n"))[:int(os.environ.get("MC_CHARS", "300"))])
            print(f"VIOLATION property={args.property} replay={path}")
        print(f"{len(new)} failing cases, {len(set(k for _, _, k, _ in new))} distinct keys")
        return 1
    print(f"OK property={args.property}")
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
