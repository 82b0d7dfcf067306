"""The models TLC explores for each property, and what of their behaviours is replayed on the crate."""
import random
import run


# property: [(module, configuration, {environment}, shards, tiers)]
def exchange(plan, shards, export="dec", tiers="qt"):
    return [("Exchange", "Exchange", {"PLAN": plan, "EXPORT": export}, shards, tiers)]


def connection(plan, scripts, shards, tiers="qt"):
    cfg = "ConnectionLive" if plan == "live" else "Connection"
    return [("Connection", cfg, {"PLAN": plan, "SCRIPTS": scripts}, shards, tiers)]


def drafting(plan, shards, tiers="qt"):
    return [("Drafting", "Drafting", {"PLAN": plan}, shards, tiers)]


def grow(plan, shards, thin, tiers="qt"):
    return [("Grow", "Grow", {"PLAN": plan, "THIN": str(thin)}, shards, tiers)]


def likeness(plan, shards, thin, tiers="qt"):
    return [("Likeness", "Likeness", {"PLAN": plan, "THIN": str(thin)}, shards, tiers)]


PLANS = {
    "C01": exchange("values", 2, "enc") + exchange("sendall", 8, "no", "t"),
    "C02": exchange("sendable", 2, "enc"),
    "C03": exchange("every", 3, "enc") + drafting("triples", 8, "t") + drafting("spans", 4),
    "C04": exchange("every", 3, "enc") + drafting("spans", 4),
    "C05": exchange("send", 8, tiers="q") + exchange("sendall", 16, tiers="t") + exchange("restricted", 1) + exchange("trail", 4)
           + grow("compounds", 8, 64, "q") + grow("compounds", 8, 8, "t"),
    "C06": exchange("texts", 4) + exchange("corrupt", 8, tiers="q") + exchange("corruptall", 16, tiers="t") + exchange("extents", 4) + connection("cut1", "claims", 2)
           + grow("headers", 4, 16, "q") + grow("headers", 8, 1, "t")
           + grow("compounds", 8, 64, "q") + grow("arrays", 8, 32, "q") + grow("compounds", 8, 4, "t") + grow("arrays", 8, 2, "t"),
    "C07": exchange("cut", 4, tiers="q") + exchange("cutall", 16, tiers="t")
           + grow("headers", 4, 16, "q") + grow("headers", 8, 1, "t")
           + grow("described", 8, 16, "q") + grow("compounds", 8, 4, "t") + grow("described", 8, 2, "t"),
    "C08": connection("both1", "talks", 4) + connection("both2", "talks", 8, "t") + connection("free", "pairs", 8) + connection("cut1", "pairs", 8) + connection("cut2", "singles", 4)
           + connection("cut1", "claims", 2)
           + connection("live", "singles", 4) + connection("cut2", "pairs", 8, "t") + connection("free", "triples", 8, "t")
           + connection("live", "pairs", 8, "t") + connection("cut3", "singles", 8, "t"),
    "C09": connection("cut1", "pairs", 8) + connection("free", "pairs", 8) + connection("cut1", "triples", 8, "t")
           + connection("cut1", "sasl", 2),
    "C10": exchange("frames", 4) + grow("headers", 4, 8, "q") + grow("headers", 8, 1, "t"),
    "C11": connection("cut1", "handshakes", 4) + connection("free", "handshakes", 4) + connection("cut2", "handshakes", 8, "t"),
    "C12": exchange("extents", 4) + grow("compounds", 8, 32, "q") + grow("arrays", 8, 16, "q")
           + grow("compounds", 8, 2, "t") + grow("arrays", 8, 1, "t"),
    "C13": exchange("fields", 4) + grow("described", 8, 4, "q") + grow("described", 8, 1, "t"),
    "C14": exchange("texts", 4) + exchange("kinds", 3) + exchange("restricted", 1) + grow("codes", 4, 1) + grow("described", 8, 8, "q")
           + grow("described", 8, 1, "t"),
    "C15": exchange("messages", 3) + drafting("values", 4) + drafting("pairs", 8) + drafting("spans", 4) + drafting("triples", 8, "t"),
    "C16": drafting("values", 4) + drafting("pairs", 8) + drafting("spans", 4) + drafting("acts", 8) + drafting("triples", 8, "t"),
    "C17": drafting("values", 4) + drafting("pairs", 8) + drafting("triples", 8, "t"),
    "C18": connection("cut1", "good", 8) + drafting("payload", 4) + drafting("payspans", 2),
    "C19": [("Clock", "Clock", {"DEPTH": "1"}, 4, "q"), ("Clock", "Clock", {"DEPTH": "2"}, 8, "t")],
    "C20": [("Directory", "Directory", {"PLAN": "maps", "DEPTH": "3"}, 4, "q"), ("Directory", "Directory", {"PLAN": "maps", "DEPTH": "4"}, 8, "t"),
            ("Directory", "Directory", {"PLAN": "compare", "DEPTH": "0"}, 4, "qt")],
    "C22": likeness("bodies", 4, 150, "q") + likeness("bodies", 8, 10, "t") + likeness("values", 4, 8, "q") + likeness("rest", 4, 24, "q") + likeness("values", 8, 1, "t") + likeness("rest", 8, 1, "t"),
    "C23": [("Workshop", "Workshop", {}, 2, "qt")],
    "C21": connection("both1", "talks", 4) + connection("free", "good", 8) + connection("cut1", "good", 8) + connection("cut1", "sasl", 2) + connection("cut2", "good", 8, "t"),
}
# invariants of arithmetic over unbounded integers, shown by Apalache in the thorough tier
PROOFS = {"C19": [("Epoch", i) for i in ("Counts", "Falls", "Bounds")]}
# how many exported behaviours are replayed at most
CAP = {"quick": 90000, "thorough": 400000}
SLOW = {"C15": 12000, "C16": 14000, "C17": 10000, "C20": 8000}      # histories, in the quick tier


def plan(prop, quick, seed):
    runs = []
    for module, cfg, env, shards, tiers in PLANS.get(prop, []):
        if ("q" if quick else "t") not in tiers:
            continue
        for k in range(shards):
            e = dict(env, SHARD=str(k), SHARDS=str(shards), SEED=str(seed))
            runs.append(run.Run("/".join([module] + [env[x] for x in ("PLAN", "SCRIPTS", "THIN", "DEPTH") if x in env] + [str(k)]), module, cfg, env=e))
    return runs


def commands(prop, runs, quick, seed):
    """All behaviours of the small models, and a share of the large ones', within the cap."""
    cap = SLOW.get(prop, CAP["quick"]) if quick else CAP["thorough"]
    groups = {}
    for r in runs:
        groups.setdefault(r.name.rsplit("/", 1)[0], []).append(r)
    got = sorted(((name, run.vectors(rs)) for name, rs in groups.items()), key=lambda x: (len(x[1]), x[0]))
    out = []
    for k, (name, vs) in enumerate(got):
        share = (cap - len(out)) // (len(got) - k)
        if len(vs) > share:
            vs = random.Random("%d/%s/%s" % (seed, prop, name)).sample(vs, share)
        out += vs
    return out
