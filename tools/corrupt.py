#!/usr/bin/env python3
"""Falsify recordings of the real crate in one observed place at a time: does the specification notice?

corrupt.py PROP... [--n 400] [--show 12]"""
import argparse, copy, json, os, random, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import run, gen, stim, props, models
ap = argparse.ArgumentParser()
ap.add_argument("prop", nargs="+")
ap.add_argument("--n", type=int, default=400)
ap.add_argument("--own", action="store_true", help="only the property's own clauses")
ap.add_argument("--show", type=int, default=12)
A = ap.parse_args()
IGNORED = {"peak", "msg"}


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            if k not in IGNORED:
                yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        if path[-1] in ("out", "tx", "rx", "moved") and x and all(isinstance(y, int) for y in x):
            yield path + ("drop",)
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    else:
        yield path


def falsify(r, rng):
    ps = list(leaves(r))
    if not ps:
        return None
    kinds = sorted({p[0] for p in ps})
    k = rng.choice(kinds)                      # each kind of observation alike
    path = rng.choice([p for p in ps if p[0] == k])
    r = copy.deepcopy(r)
    at = r
    for p in path[:-1]:
        at = at[p]
    if path[-1] == "drop":
        at.pop(rng.randrange(len(at)))
        return r, path
    v = at[path[-1]]
    if isinstance(v, bool):
        at[path[-1]] = not v
    elif isinstance(v, int):
        at[path[-1]] = v ^ (1 << rng.randrange(8)) if 0 <= v < 256 and len(path) > 2 else v + rng.choice([1, -1])
    else:
        return None
    return r, path


for prop in A.prop:
    work = os.path.join(run.BUILD, "work", "corrupt-%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    try:
        b = run.build()
        out = os.path.join(work, "schema.json")
        with open(os.path.join(work, "export.out"), "w") as f:
            run.tlc("Export.tla", "Export.cfg", {"OUT": out}, os.path.join(work, "export"), f).wait()
        g = gen.Gen(json.load(open(out))[0], "1/" + prop)
        space = {k: getattr(stim, k) for k in dir(stim) if not k.startswith("_")}
        space.update({k: getattr(props, k) for k in dir(props) if k.isupper()})
        cmds = []
        for fam, nq, nt in props.FAMILIES[prop]:
            if "huge" not in fam:
                cmds += eval(fam, space)(g, min(nq, A.n))
        runs = [r for r in models.plan(prop, True, 1) if r.env.get("SHARD") == "0"]
        run.explore(runs, work)
        vs = models.commands(prop, runs, True, 1)
        rng = random.Random(prop)
        cmds += rng.sample(vs, min(len(vs), A.n))
        for i, c in enumerate(cmds):
            c["i"] = i
        res = run.perform(b, cmds)
        clauses = set(props.CLAUSES[prop]) if A.own else {c for p in props.CLAUSES.values() for c in p} | {"harness"}
        done, false, where = [], {}, {}
        for c in cmds:
            steps = res.get(c["i"])
            if not steps:
                continue
            for _ in range(10):
                k = rng.randrange(len(steps))
                f = falsify(steps[k], rng)
                if f:
                    break
            else:
                continue
            false[c["i"]] = steps[:k] + [f[0]] + steps[k + 1:]
            where[c["i"]] = (k, f[1], steps[k])
            done.append(c)
        v = run.judge(done, false, clauses, os.path.join(work, "judge"))
        caught = {i for i, _, _ in v.bad}
        print("%s: %d falsified, %d rejected, %d not; %d problems" % (prop, len(done), len(caught), len(done) - len(caught), len(v.problems)))
        for p in v.problems[:2]:
            print("   problem", p[:150])
        by = {}
        for c in done:
            if c["i"] not in caught:
                k, path, r = where[c["i"]]
                by.setdefault((c["op"], c.get("ty", [""])[0] if isinstance(c.get("ty"), list) else "", c["steps"][k].get("do", sorted(c["steps"][k])[0]) if "steps" in c and k < len(c["steps"]) else "", "/".join(str(x) for x in path[:2] if isinstance(x, str))), []).append((c["i"], k, path))
        for key, l in sorted(by.items(), key=lambda x: -len(x[1]))[:A.show]:
            i, k, path = l[0]
            print("   %4d %s e.g. %s at %s: %s <- %s" % (len(l), key, k, path, json.dumps(false[i][k])[:220], json.dumps({x: y for x, y in cmds[i].items() if x != "note"})[:160]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
