#!/usr/bin/env python
"""check.py PROPERTY [--replay FILE] [--runs N] [--workers N] [--seed N] [--trace]

Runs the deterministic simulation of one property against the repository's
working tree.  Exit 0: held on everything explored.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": broken.  Anything else: the check
itself failed.
"""
import argparse
import gc
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import boot, core  # noqa: E402

CHUNK = 8


def scenario(prop, seed, index, tier):
    r = random.Random(core.seed_int(prop.ID, seed, index))
    s = prop.gen(r, tier)
    # canonical JSON form: what runs is exactly what a replay file holds
    return json.loads(json.dumps(s))


def chunk_job(prop, seed, idxs, tier):
    out = []
    for i in idxs:
        s = scenario(prop, seed, i, tier)
        r = core.run_one(prop, s)
        r["i"] = i
        r["sched"] = hashlib.sha256(json.dumps(s, sort_keys=True).encode()).hexdigest()[:16]
        out.append(r)
        if r["viol"] or r["err"]:
            break
    return dict(rs=out)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("--digests", help="write all run digests to this file")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.monotonic()
    boot.boot()
    try:
        boot.import_sut()
    except Exception as e:
        bad, kind, detail = core.classify(e)
        print("the code under test cannot be imported: %s" % detail)
        return 2
    sys.path.insert(0, os.path.join(HERE, "props"))
    prop = importlib.import_module(a.prop.lower())
    assert prop.ID == a.prop
    gc.collect()
    gc.freeze()         # a collection inside a run only walks what the run made
    if a.replay:
        return replay(prop, a)
    return explore(prop, a, t0)


def replay(prop, a):
    with open(a.replay) as f:
        d = json.load(f)
    r = core.run_fresh(prop, d["prelude"] + [d["scenario"]], trace=a.trace)
    if a.trace:
        for line in r.get("trace", []):
            print(line)
    v = r.get("viol")
    if v:
        same = v["kind"] == d["kind"] and (r["digest"] == d["digest"] or v["kind"] == "no-progress")
        print("replay: %s: %s" % (v["kind"], v["detail"]))
        print("replay: %s" % ("identical to the recorded run" if same else "differs from the recorded run"))
        print("VIOLATION property=%s replay=%s" % (prop.ID, a.replay))
        return 1
    if r.get("err"):
        print("replay: harness error: %s" % r["err"])
        return 2
    print("replay: no violation")
    return 0


def explore(prop, a, t0):
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    print("check %s seed=%d tier=%s workers=%d repo=%s" % (prop.ID, a.seed, tier, a.workers, boot.REPO))
    sys.stdout.flush()
    runs = a.runs or (prop.QUICK if tier == "quick" else prop.QUICK * getattr(prop, "DEEP", 25))
    wall_cap = float(os.environ.get("VERIF_WALL", "0")) or (240 if tier == "quick" else 780)
    findings = core.load_findings(prop.ID)
    chunk = getattr(prop, "CHUNK", CHUNK)
    idx = list(range(a.first, a.first + runs))
    chunks = [idx[i:i + chunk] for i in range(0, len(idx), chunk)]
    done = {}
    rechecks = {}
    viols, errs, known = [], [], {}
    stop_flag = [False]
    limit = core.RUN_LIMIT

    def tasks():
        for n, c in enumerate(chunks):
            if time.monotonic() - t0 > wall_cap:
                return
            yield (("run", n), (lambda c=c: chunk_job(prop, a.seed, c, tier)), limit * 2 + 60)
            # determinism: a sample of chunks is executed a second time in another process
            if n % 10 == 3:
                yield (("again", n), (lambda c=c: chunk_job(prop, a.seed, c, tier)), limit * 2 + 60)

    def on_result(key, res):
        what, n = key
        if res.get("crash"):
            errs.append("chunk %d: %s" % (n, res["crash"]))
            stop_flag[0] = True
            return
        if res.get("timeout"):
            viols.append((n, None, None))
            stop_flag[0] = True
            return
        for r in res["rs"]:
            if what == "again":
                rechecks[r["i"]] = r["digest"]
                continue
            if r["viol"]:
                s = scenario(prop, a.seed, r["i"], tier)
                f = core.match_finding(findings, s, r["viol"])
                if f:
                    known.setdefault(f["id"], (f, r["i"], r["viol"]))
                    done[r["i"]] = r
                else:
                    viols.append((n, r["i"], r["viol"]))
                    stop_flag[0] = True
            elif r["err"]:
                errs.append("run %d: %s" % (r["i"], r["err"]))
                stop_flag[0] = True
            else:
                done[r["i"]] = r
        if what == "run" and res["rs"] and not res["rs"][-1]["viol"] and not res["rs"][-1]["err"]:
            pass
        elif what == "run" and res["rs"] and res["rs"][-1]["viol"]:
            # a known finding ends its chunk early: continue behind it
            last = res["rs"][-1]["i"]
            rest = [i for i in chunks[n] if i > last]
            if rest and not stop_flag[0]:
                leftovers.append(rest)

    leftovers = []
    core.fork_map(tasks(), a.workers, on_result, stop=lambda: stop_flag[0])
    while leftovers and not stop_flag[0]:
        todo, leftovers[:] = list(leftovers), []
        base = len(chunks)
        chunks.extend(todo)
        core.fork_map(((("run", base + k), (lambda c=c: chunk_job(prop, a.seed, c, tier)), limit * 2 + 60)
                       for k, c in enumerate(todo)), a.workers, on_result, stop=lambda: stop_flag[0])

    mism = [i for i, d in rechecks.items() if i in done and done[i]["digest"] != d]
    if mism and not viols and not errs:
        # The same scenario gave two different logs in two pristine processes.
        errs.append("nondeterminism: runs %s differ between two executions" % mism[:5])
    rc = 0
    replay_path = None
    if viols:
        rc, replay_path = report(prop, a, tier, viols, chunks)
    elif errs:
        for e in errs[:3]:
            print("HARNESS-ERROR " + e)
        rc = 2
    elif len(done) < min(len(idx), max(1, runs // 4)):
        print("HARNESS-ERROR only %d of %d runs completed within %.0f s" % (len(done), runs, wall_cap))
        rc = 2
    for fid, (f, i, v) in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop.ID, f["what"]))
    wall = time.monotonic() - t0
    if not a.no_evidence:
        write_evidence(prop, a, tier, done, rechecks, mism, known, len(viols), wall, runs)
    if a.digests:
        with open(a.digests, "w") as f:
            json.dump({str(k): v["digest"] for k, v in sorted(done.items())}, f)
    if rc == 0:
        print("held on %d runs (%d simulated cycles, %d faults) in %.1f s" % (
            len(done), sum(r["cycles"] for r in done.values()),
            sum(sum(r["faults"].values()) for r in done.values()), wall))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (prop.ID, replay_path))
    return rc


def report(prop, a, tier, viols, chunks):
    viols = sorted(viols, key=lambda x: (x[1] is None, x[1] if x[1] is not None else x[0]))
    n, i, v = viols[0]
    if i is None:
        # a chunk never came back: find the run inside it
        for k in chunks[n]:
            s = scenario(prop, a.seed, k, tier)
            r = core.run_fresh(prop, [s], limit=core.RUN_LIMIT)
            if r.get("viol"):
                i, v = k, r["viol"]
                break
        if i is None:
            print("HARNESS-ERROR chunk %d timed out but each of its runs completes" % n)
            return 2, None
    scn = scenario(prop, a.seed, i, tier)
    prelude = [scenario(prop, a.seed, k, tier) for k in chunks[n] if k < i] if n < len(chunks) and i in chunks[n] else []
    print("violation in run %d: %s: %s" % (i, v["kind"], (v["detail"] or "")[:600]))
    sys.stdout.flush()
    if v["kind"] == "no-progress":
        r = core.run_fresh(prop, [scn], limit=core.RUN_LIMIT * 1.5)
        if not r.get("viol"):
            print("HARNESS-ERROR run %d timed out once but completes when run again" % i)
            return 2, None
        pre, small, trials = [], scn, 0
    else:
        pre, small, trials = core.minimise(prop, prelude, scn, v)
    r = core.run_fresh(prop, pre + [small])
    if not r.get("viol"):
        pre, small = prelude, scn
        r = core.run_fresh(prop, pre + [small])
    fv = r.get("viol") or v
    d = dict(property=prop.ID, seed=a.seed, index=i, tier=tier, kind=fv["kind"], detail=fv["detail"],
             step=fv.get("step"), node=fv.get("node"), digest=r.get("digest"), trials=trials,
             prelude=pre, scenario=small)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    name = "%s-%d-%d-%s.json" % (prop.ID, a.seed, i, hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:8])
    path = os.path.join(HERE, "replays", name)
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    # the replay file must reproduce it in a new interpreter
    p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop.ID, "--replay", path],
                       capture_output=True, text=True, env=os.environ)
    print("minimised (%d trials): %s: %s" % (trials, fv["kind"], (fv["detail"] or "")[:600]))
    print("replay in a new process: exit %d%s" % (p.returncode, ", identical" if "identical" in p.stdout else ""))
    return 1, path


def write_evidence(prop, a, tier, done, rechecks, mism, known, nviol, wall, runs):
    faults, probes = Counter(), Counter()
    for r in done.values():
        faults.update(r["faults"])
        probes.update(r["probes"])
    distinct = set()
    for r in done.values():
        if sum(r["faults"].values()) > 0:
            distinct.add(r["digest"])
    idxs = sorted(done)
    samples = []
    for i in idxs[:2]:
        s = scenario(prop, a.seed, i, tier)
        t = json.dumps(s)
        samples.append(dict(run=i, digest=done[i]["digest"], cycles=done[i]["cycles"], faults=done[i]["faults"],
                            scenario=s if len(t) < 6000 else t[:6000] + "..."))
    ev = dict(
        property=prop.ID, tier=tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=len(done),
            distinct_nontrivial=len(distinct),
            rule=prop.RULE + " Non-trivial: at least one injected fault or disturbance fired in the run; distinct: different event-log digest.",
            samples=samples,
            runs_requested=runs,
            runs_per_hour_one_seed_each=round(len(done) / max(wall, 1e-9) * 3600),
            simulated_cycles=sum(r["cycles"] for r in done.values()),
            simulated_events=sum(r["events"] for r in done.values()),
            distinct_scenarios=len({r["sched"] for r in done.values()}),
            distinct_event_logs=len({r["digest"] for r in done.values()}),
            fault_kinds=dict(sorted(faults.items())),
            probes=dict(sorted(probes.items())),
            probes_never_hit=sorted(set(getattr(prop, "PROBES", [])) - set(probes)),
            determinism=dict(runs_executed_twice=len(rechecks), mismatches=len(mism)),
            real_components=prop.REAL,
            stubbed_components=prop.STUB,
            known_findings=sorted(known),
        ),
        assumptions=getattr(prop, "ASSUME", []),
        wall_s=round(wall, 2),
        violations=nviol,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop.ID)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(HERE, "evidence", "%s.json" % prop.ID))


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)        # no interpreter shutdown chatter of imported libraries
