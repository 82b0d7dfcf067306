#!/usr/bin/env python3
"""Decide one property on /repo's working tree.  check.py C05 [--tier quick|thorough] [--seed N]
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Exit 2: the check itself failed."""
import argparse, fcntl, json, os, shutil, sys, threading, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import run, gen, stim, props, models

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
ap.add_argument("--keep", action="store_true")
A = ap.parse_args()
QUICK = A.tier != "thorough"
run.SHORT = QUICK
T0 = time.time()
LIMIT = 820 if QUICK else 24 * 3600


def log(msg):
    print("[%6.1f] %s" % (time.time() - T0, msg), flush=True)


def schema_of(work):
    out = os.path.join(work, "schema.json")
    with open(os.path.join(work, "export.out"), "w") as f:
        p = run.tlc("Export.tla", "Export.cfg", {"OUT": out}, os.path.join(work, "export"), f)
        p.wait()
    if p.returncode != 0:
        raise run.ToolError("schema export failed: " + open(os.path.join(work, "export.out")).read()[-2000:])
    return json.load(open(out))[0]


def known():
    """Findings that are listed: (property, description, matcher)."""
    got = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                j = json.loads(line[len("finding:"):])
                got.append(j)
    return got


def same_case(cmd, match):
    return all(cmd.get(k) == v for k, v in match.items())


def main():
    os.makedirs(run.BUILD, exist_ok=True)
    work = os.path.join(run.BUILD, "work", "%s-%s-%d" % (A.prop, A.tier, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return decide(work)
    finally:
        if not A.keep:
            shutil.rmtree(work, ignore_errors=True)


def decide(work):
    box = {}

    def job(name, f):
        def g():
            try:
                box[name] = f()
            except BaseException as e:      # noqa
                box[name + "!"] = e
        t = threading.Thread(target=g)
        t.start()
        return t

    def build():
        with open(os.path.join(run.BUILD, "lock"), "w") as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            b = run.build()
            mine = os.path.join(work, "harness")      # another check may rebuild while this one runs
            shutil.copy2(b, mine)
            return mine

    runs = models.plan(A.prop, QUICK, A.seed)
    ts = [job("build", build), job("schema", lambda: schema_of(work))]
    tm = job("models", lambda: run.explore(runs, work, limit=LIMIT - 200))
    tp = job("proofs", lambda: [run.prove(m, i, work) for m, i in models.PROOFS.get(A.prop, [])] if not QUICK else [])
    for t in ts:
        t.join()
    for n in ("build!", "schema!"):
        if n in box:
            raise box[n]
    log("harness built from /repo, schema exported")
    g = gen.Gen(box["schema"], "%d/%s" % (A.seed, A.prop))
    cmds = []
    space = {k: getattr(stim, k) for k in dir(stim) if not k.startswith("_")}
    space.update({k: getattr(props, k) for k in dir(props) if k.isupper()})
    for fam, nq, nt in props.FAMILIES[A.prop]:
        new = eval(fam, space)(g, nq if QUICK else nt)
        for c in new:
            c["note"] = fam
        cmds += new
    random_cmds = len(cmds)
    tm.join()
    if "models!" in box:
        raise box["models!"]
    vecs = models.commands(A.prop, runs, QUICK, A.seed)
    cmds += vecs
    for i, c in enumerate(cmds):
        c["i"] = i
    for r in runs:
        log("model %s: %d states, %d distinct, %.1f s" % (r.name, r.generated, r.distinct, r.seconds))
    log("%d random stimuli, %d behaviours of the models" % (random_cmds, len(vecs)))
    clauses = set(props.CLAUSES[A.prop]) | {"expected", "harness"}
    bad, lines, states, problems, recorded = [], 0, 0, [], 0
    step = 40000
    for at in range(0, len(cmds), step):
        part = cmds[at:at + step]
        results = run.perform(box["build"], part)
        recorded += len(results)
        v = run.judge(part, results, clauses, os.path.join(work, "judge%d" % at), limit=LIMIT - (time.time() - T0) if QUICK else 7200)
        lines += v.lines
        states += v.states
        problems += v.problems
        for i, k, cl in v.bad:
            bad.append((i, k, cl, results[i]))
        log("%d calls into the crate performed and judged, %d mismatches" % (lines, len(bad)))
        if len(bad) > 50:
            break
    # a disagreement within the machinery itself is no verdict on the code
    own = [b for b in bad if set(b[2]) & {"expected", "harness"}]
    bad = [b for b in bad if set(b[2]) - {"expected", "harness"}]
    if own and not bad:
        problems.append("generator and specification disagree: " + json.dumps(cmds[own[0][0]])[:1500])
    fresh = []
    listed = [k for k in known() if k["property"] == A.prop]
    for k in listed:
        print("KNOWN-FINDING: property=%s %s" % (A.prop, k["what"]))
    for b in bad:
        if not any(same_case(cmds[b[0]], k["match"]) for k in listed):
            fresh.append(b)
    tp.join()
    if "proofs!" in box:
        raise box["proofs!"]
    wall = time.time() - T0
    sample = [cmds[i] for i in sorted({0, len(cmds) // 3, len(cmds) - 1})] if cmds else []
    samples = [json.loads(json.dumps(s)[:4000]) if len(json.dumps(s)) < 4000 else {"op": s["op"], "abridged": json.dumps(s)[:1500]} for s in sample]
    ev = {
        "property": A.prop, "tier": "quick" if QUICK else "thorough", "seed": A.seed, "level": "model_checking",
        "coverage": {
            "states": sum(r.distinct for r in runs) + states,
            "transitions": sum(r.generated for r in runs) + lines,
            "traces_validated_against_impl": recorded,
            "calls_judged_by_the_specification": lines,
            "behaviours_exported_by_the_models_and_replayed": len(vecs),
            "random_stimuli": random_cmds,
            "models": [{"name": r.name, "distinct": r.distinct, "generated": r.generated, "seconds": round(r.seconds, 1)} for r in runs],
            "arithmetic": box["proofs"],
            "clauses": sorted(clauses - {"expected", "harness"}),
            "families": {f[0]: sum(1 for c in cmds if c.get("note") == f[0]) for f in props.FAMILIES[A.prop]},
            "samples": samples,
            "exhaustive": False,
        },
        "assumptions": ["the specification in /verif/spec states AMQP 1.0 and this library's documented choices correctly",
                        "the harness records calls, arguments and results faithfully",
                        "TLC evaluates the specification correctly"],
        "wall_s": round(wall, 1), "violations": len(fresh),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", A.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for p in problems:
        print("PROBLEM: " + p, file=sys.stderr)
    if fresh:
        fresh.sort(key=lambda b: len(json.dumps(cmds[b[0]])))
        seen = set()
        for b in fresh:
            key = (tuple(b[2]), cmds[b[0]]["op"], json.dumps(cmds[b[0]].get("ty")))
            if key in seen or len(seen) >= 5:
                continue
            seen.add(key)
            print("VIOLATION property=%s replay=%s" % (A.prop, replay(b, cmds)))
            print("  clauses %s broken at step %d of %s" % (b[2], b[1], json.dumps(cmds[b[0]])[:600]))
            print("  observed: %s" % json.dumps(b[3][b[1]] if b[1] < len(b[3]) else b[3])[:600])
        log("%d violations" % len(fresh))
        return 1
    if problems:
        return 2
    log("held")
    return 0


def replay(b, cmds):
    d = os.path.join(run.BUILD, "replays")
    os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(d, "%s-%d.json" % (A.prop, n))):
        n += 1
    path = os.path.join(d, "%s-%d.json" % (A.prop, n))
    with open(path, "w") as f:
        json.dump({"property": A.prop, "clauses": b[2], "step": b[1], "command": cmds[b[0]], "recorded": b[3],
                   "how": "python3 bin/replay.py %s performs it again on /repo's tree and judges it" % path}, f, indent=1)
    return path


if __name__ == "__main__":
    try:
        code = main()
    except run.ToolError as e:
        print("TOOL ERROR: %s" % e, file=sys.stderr)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
