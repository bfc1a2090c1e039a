#!/usr/bin/env python3
"""Decides one property: check.py Cxx [--replay FILE]

1. builds the harness against /repo's working tree
2. model-checks the specification (and takes behaviours from it as schedules)
3. runs schedules (from the model, and seeded ones) against the real code
4. checks the recorded traces against the specification with TLC
"""
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import families  # noqa: E402
from vlib import *  # noqa: E402,F403
import vlib  # noqa: E402


def known_findings(prop):
    """identifier -> description, of the findings listed for this property"""
    out = {}
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2].strip()
                ident, text = rest.split(" ", 1)
                out[ident] = text
    return out


def model_check(fam, prop, tier, work):
    """Checks the design. Returns states, transitions, schedules, per-model notes"""
    states = transitions = 0
    emitted, notes = [], []
    for m in fam.models(prop, tier):
        env = dict(m.get("env", {}))
        t = Tlc(m["module"], m["cfg"], env=env, args=m.get("args", ()), keep=work,
                timeout=m.get("timeout", 780), workers=m.get("workers", 8))
        if t.rc != 0:
            print(t.out[-6000:])
            raise ToolError("the model %s/%s is wrong (TLC exit %d)" % (m["module"], m["cfg"], t.rc))
        states += t.states
        transitions += t.transitions
        emitted += [json.loads(s) for s in sorted({json.dumps(x) for x in t.lines("SCHEDULE ")})]
        notes.append("%s/%s: %d distinct states, %d generated, %.0f s, all invariants hold"
                     % (m["module"], m["cfg"], t.states, t.transitions, t.wall))
        log("model", notes[-1])
    return states, transitions, emitted, notes


def prove(fam, prop, tier, work):
    """Proofs without bounds, in the thorough tier. Returns obligations, notes"""
    total, notes = 0, []
    for module in fam.proofs(prop) if tier == "thorough" else ():
        where = fresh_dir(os.path.join(work, "proofs"))
        shutil.copy(os.path.join(SPEC, "proofs", module + ".tla"), where)
        t0 = time.time()
        r = subprocess.run(["tlapm", "-I", SPEC, "--threads", "4", "--stretch", "5", module + ".tla"], cwd=where,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        found = re.search(r"All (\d+) obligations proved", r.stdout)
        if r.returncode or not found:
            print(r.stdout[-4000:])
            raise ToolError("%s is not proved" % module)
        total += int(found.group(1))
        notes.append("%s: %s obligations proved by tlapm, %.0f s" % (module, found.group(1), time.time() - t0))
        log("proof", notes[-1])
    return total, notes


def validate(fam, prop, traces, work, tag=""):
    """Checks traces (list of JSON texts) with TLC. Returns the Tlc run and the end reports"""
    path = os.path.join(work, "checked%s.ndjson" % tag)
    with open(path, "w") as f:
        for t in traces:
            f.write(t + "\n")
    module, cfg = fam.trace_spec(prop)
    t = Tlc(module, cfg, env={"PROP": prop, "TRACES": path}, keep=work, timeout=850, heap="12g")
    ends = {}
    for tid, status, n, name, hits in t.lines("END "):
        ends[tid] = (status, n, name, hits if isinstance(hits, dict) else {})
    if t.rc not in (0, 12):
        print(t.out[-6000:])
        raise ToolError("TLC could not check the traces (exit %d)" % t.rc)
    if t.rc == 12 and not any(s == "bad" for s, _, _, _ in ends.values()):
        print(t.out[-6000:])
        raise ToolError("TLC reports a violation without a trace")
    if t.rc == 0 and len(ends) != len(traces):
        raise ToolError("%d of %d traces ended" % (len(ends), len(traces)))
    return t, ends


def batches(items, limit):
    """Split so that no TLC run holds too much, nor has more initial states than its queue keeps in memory"""
    out, size = [[]], 0
    for x in items:
        if size > limit or len(out[-1]) == 8000:
            out.append([])
            size = 0
        out[-1].append(x)
        size += len(x[1])
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    fam = families.family_of(prop)
    work = fresh_dir(os.path.join(VERIF, "work", prop))
    os.makedirs(EVIDENCE, exist_ok=True)
    binary = build(fam.hooks(prop))
    log("built the harness, %.1f s" % (time.time() - start))

    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        with open(sys.argv[3]) as f:
            schedules = [json.load(f)["schedule"]]
        states = transitions = obligations = 0
        notes, emitted, proved = [], [], []
    else:
        states, transitions, emitted, notes = model_check(fam, prop, tier, work)
        obligations, proved = prove(fam, prop, tier, work)
        schedules = None

    rng = random.Random(seed * 1000003 + int(prop[1:]))
    if schedules is None:
        schedules = fam.schedules(prop, rng, tier, emitted)
    from_model = getattr(fam, "picked", min(len(emitted), fam.model_limit(tier)))
    t0 = time.time()
    runs = execute(binary, schedules, work)
    log("executed %d schedules (%d from the model), %.1f s" % (len(runs), from_model, time.time() - t0))

    totals, hits, bad, dead, accepted, known = [0, 0], {}, [], {}, 0, {}
    listed = known_findings(prop)
    events = 0
    samples = []
    t0 = time.time()
    for batch in batches(runs, 60 << 20):
        t, ends = validate(fam, prop, [x[1] for x in batch], work)
        totals[0] += t.states
        totals[1] += t.transitions
        for f in t.lines("KNOWN "):
            known.setdefault(f[1], []).append(f)
        for tid, (status, n, name, h) in sorted(ends.items()):
            events += n
            for k, v in h.items():
                hits[k] = hits.get(k, 0) + v
            if status == "bad":
                bad.append((batch[tid - 1], n, name))
            elif status in ("dead", "apart"):
                dead[name] = dead.get(name, 0) + 1
            else:
                accepted += 1
        if bad:
            break
    log("validated %d traces, %d events: %d accepted, %d given up, %.1f s"
        % (len(runs), events, accepted, sum(dead.values()), time.time() - t0))

    unlisted = [k for k in known if k not in listed]
    if unlisted:
        raise ToolError("the specification names findings that are not listed: %s" % unlisted)

    # Is the check able to reject? Corrupt recorded traces and see.
    canaries = rejected = 0
    if not bad and len(runs) > 1:
        crng = random.Random(seed)
        out = []
        pool = list(runs)
        crng.shuffle(pool)
        for _, text in pool[:400]:
            if len(text) > 60000:
                continue
            c = fam.corrupt(prop, json.loads(text), crng)
            if c is not None:
                c["canary"] = True
                out.append(json.dumps(c, separators=(",", ":")))
            if len(out) == 40:
                break
        if out:
            t, ends = validate(fam, prop, out, work, "-canaries")
            canaries = len(out)
            rejected = sum(1 for s, _, _, _ in ends.values() if s == "bad")
            log("corrupted %d traces: %d rejected" % (canaries, rejected))

    if not bad:
        missing = [a for a in fam.required(prop) if not hits.get(a)]
        if len(runs) > 1 and missing:
            raise ToolError("actions never taken: %s" % missing)
        if canaries and not rejected:
            raise ToolError("no corrupted trace was rejected")

    for ident in sorted(known):
        log("KNOWN-FINDING: property=%s %s: %s (seen %d times)" % (prop, ident, listed[ident], len(known[ident])))

    for (schedule, text), n, name in sorted(bad, key=lambda b: len(b[0][0]))[:1]:
        samples.append({"schedule": schedule[:2000], "violated_at_event": n, "action": name})
    if not samples:
        for schedule, text in sorted(runs, key=lambda r: len(r[0]))[len(runs) // 2:][:2]:
            samples.append({"schedule": schedule[:1500], "trace": text[:1500]})
    if len(sys.argv) == 2:
        coverage = {
            "states": states + totals[0],
            "transitions": transitions + totals[1],
            "traces_validated_against_impl": len(runs),
            "samples": samples,
            "model_runs": notes,
            "model_states": states,
            "proof_runs": proved,
            "obligations": obligations,
            "discharged": obligations,
            "schedules_from_model": from_model,
            "events_validated": events,
            "traces_accepted": accepted,
            "traces_given_up_after_another_propertys_difference": dead,
            "events_per_action": hits,
            "corrupted_traces": canaries,
            "corrupted_traces_rejected": rejected,
            "known_findings_seen": {k: len(v) for k, v in known.items()},
        }
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": coverage,
            "assumptions": fam.assumptions(prop),
            "wall_s": round(time.time() - start, 1),
            "violations": len(bad),
        }
        with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
    if bad:
        (schedule, text), n, name = sorted(bad, key=lambda b: len(b[0][0]))[0]
        replay = os.path.join(EVIDENCE, prop + ".replay.json")
        trace = json.loads(text)
        with open(replay, "w") as f:
            json.dump({"property": prop, "schedule": schedule, "event": n, "action": name,
                       "observed": trace["ev"][n - 1], "trace": trace,
                       "how": "bash check.sh %s --replay %s" % (prop, replay)}, f, indent=1)
        log("event %d (%s) of this schedule is not allowed: %s" % (n, name, schedule[:400]))
        log("observed: " + json.dumps(trace["ev"][n - 1])[:600])
        log("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    log("%s: held on everything explored, %.0f s" % (prop, time.time() - start))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vlib.ToolError as e:
        print("ERROR:", e, flush=True)
        sys.exit(2)
