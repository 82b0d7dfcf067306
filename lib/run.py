"""Building the harness, running stimuli on the real crate, and having TLC judge what happened."""
import json, os, resource, selectors, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4
SHORT = True                # runs of seconds rather than minutes


class ToolError(Exception):
    pass


# ---------------------------------------------------------------- building
def build(profile="dev"):
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               PATH=env.get("PATH", "") + ":/root/.cargo/bin")
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "build", "--offline", "--locked"] + (["--release"] if profile == "release" else [])
    # cargo goes by modification times; forget the crate under test so that any change is seen
    import glob, shutil
    for d in glob.glob(os.path.join(BUILD, "target", "*", ".fingerprint", "amqp-codec-*")):
        shutil.rmtree(d, ignore_errors=True)
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness does not build:\n" + p.stdout[-6000:])
    return os.path.join(BUILD, "target", "release" if profile == "release" else "debug", "amqp-harness")


# ---------------------------------------------------------------- running
def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Shard:
    """Runs commands one after another in harness processes, surviving the death of any."""

    def __init__(self, binary, cmds, timeout, results):
        self.binary, self.cmds, self.timeout, self.results = binary, cmds, timeout, results
        self.error = None
        self.deaths = self.hangs = 0

    def run(self):
        try:
            at = 0
            while at < len(self.cmds):
                at = self.process(at)
                if self.hangs >= 3 or self.deaths >= 300:
                    break                       # plenty to report; the rest is left undone
        except Exception as e:                  # noqa
            self.error = e

    def process(self, at):
        p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, preexec_fn=_limits)

        def feed():
            try:
                for c in self.cmds[at:]:
                    p.stdin.write(c[1])
                p.stdin.close()
            except (BrokenPipeError, OSError):
                pass
        t = threading.Thread(target=feed, daemon=True)
        t.start()
        fd = p.stdout.fileno()
        os.set_blocking(fd, False)
        sel = selectors.DefaultSelector()
        sel.register(fd, selectors.EVENT_READ)
        buf = b""
        last = time.time()
        hung = False
        steps = []
        while True:
            got = sel.select(timeout=max(0.1, self.timeout - (time.time() - last)))
            if not got:
                if time.time() - last >= self.timeout:
                    hung = True
                    p.kill()
                    break
                continue
            data = os.read(fd, 1 << 20)
            if not data:
                break
            last = time.time()
            buf += data
            lines = buf.split(b"\n")
            buf = lines.pop()
            for line in lines:
                j = json.loads(line)
                if "end" in j:
                    self.results[j["i"]] = steps
                    steps = []
                    at += 1
                else:
                    steps.append(j["r"])
        p.stdout.close()
        code = p.wait()
        t.join(5)
        if at >= len(self.cmds):
            return at
        if code == 3 and not hung:
            raise ToolError("the harness refused command %s" % self.cmds[at][1][:600])
        if code == 0 and not hung:
            raise ToolError("the harness ended early")
        steps.append({"res": "hang" if hung else "abort"})
        self.hangs += hung
        self.deaths += 1
        self.results[self.cmds[at][0]] = steps
        return at + 1


def perform(binary, cmds, timeout=20, jobs=None):
    """cmds: list of dicts with distinct "i". Returns {i: [step results]}."""
    jobs = jobs or CORES
    text = [(c["i"], (json.dumps(c, separators=(",", ":")) + "\n").encode()) for c in cmds]
    results = {}
    shards = [Shard(binary, text[k::jobs], timeout, results) for k in range(jobs) if text[k::jobs]]
    ts = [threading.Thread(target=s.run) for s in shards]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for s in shards:
        if s.error:
            raise s.error if isinstance(s.error, ToolError) else ToolError(repr(s.error))
    return results


# ---------------------------------------------------------------- traces
SESSION = {"text", "pipe", "msg"}
SKIP = {"steps", "keys", "note"}
CAP = 2000000000


def cap(r):
    for k in ("size", "rem", "peak", "rx", "tx", "moved"):
        if k in r and isinstance(r[k], int) and not -CAP < r[k] < CAP:
            r[k] = CAP
    b = r.get("back")
    if isinstance(b, dict):
        cap(b)
    return r


def trace_lines(cmd, steps):
    if cmd["op"] not in SESSION:
        e = {k: v for k, v in cmd.items() if k not in SKIP}
        e.update(cap(steps[0]))
        e["k"], e["new"] = 0, True
        return [e]
    out = []
    for k, r in enumerate(steps):
        e = {"i": cmd["i"], "k": k, "op": cmd["op"]}
        if k == 0:
            e.update({f: v for f, v in cmd.items() if f not in SKIP})
            e["new"] = True
        if k < len(cmd["steps"]):
            e.update(cmd["steps"][k])
        e.update(cap(r))
        out.append(e)
    return out


def tlc(module, cfg, env, metadir, out, heap="2g", extra=()):
    """Start TLC; everything it writes goes below metadir."""
    os.makedirs(metadir, exist_ok=True)
    e = dict(os.environ)
    for k in ("JAVA_TOOL_OPTIONS", "_JAVA_OPTIONS", "JDK_JAVA_OPTIONS"):
        e.pop(k, None)
    e.update(env)
    jit = ["-XX:TieredStopAtLevel=1"] if SHORT else []      # the optimising compiler pays only in long runs
    return subprocess.Popen(["java", *jit, "-XX:+UseSerialGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + metadir,
                             "-cp", TLA, "tlc2.TLC", "-config", cfg, "-workers", "1", "-metadir", metadir,
                             "-noGenerateSpecTE", "-deadlock", *extra, module],
                            env=e, stdout=out, stderr=subprocess.STDOUT, cwd=SPEC)


def prove(module, inv, work, limit=3600):
    """An invariant of a module without transitions, for all values, by Apalache."""
    d = os.path.join(work, "apalache-" + inv)
    os.makedirs(d, exist_ok=True)
    t = time.time()
    p = subprocess.run(["apalache-mc", "check", "--inv=" + inv, "--length=0", "--out-dir=" + d, "--run-dir=" + d + "/run", module + ".tla"],
                       cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
    if p.returncode != 0 or "The outcome is: NoError" not in p.stdout:
        raise ToolError("Apalache does not show %s!%s:\n%s" % (module, inv, p.stdout[-2000:]))
    return {"module": module, "invariant": inv, "by": "Apalache, all values", "seconds": round(time.time() - t, 1)}


def printed(out, tag):
    """The JSON payloads of lines <<"tag", "...">> that TLC printed."""
    got = []
    head = '<<"%s", ' % tag
    for line in out.splitlines():
        if line.startswith(head) and line.endswith(">>"):
            got.append(line[len(head):-2])
    return got


class Judgement:
    def __init__(self):
        self.bad, self.lines, self.states, self.problems = [], 0, 0, []


def judge(cmds, results, clauses, work, jobs=None, limit=600):
    """Have TLC validate what was recorded."""
    jobs = jobs or CORES
    os.makedirs(work, exist_ok=True)
    verdict = Judgement()
    sessions = []
    for c in cmds:
        if c["i"] in results and results[c["i"]]:
            sessions.append([json.dumps(e, separators=(",", ":")) + "\n" for e in trace_lines(c, results[c["i"]])])
    if not sessions:
        return verdict
    # even shards by weight
    sessions.sort(key=lambda s: sum(map(len, s)) + 400 * len(s), reverse=True)
    jobs = min(jobs, len(sessions))
    shards = [[] for _ in range(jobs)]
    load = [0] * jobs
    for s in sessions:
        k = load.index(min(load))
        shards[k].append(s)
        load[k] += sum(map(len, s)) + 400 * len(s)
    end = time.time() + limit
    ts = [threading.Thread(target=_judge_shard, args=(k, sh, clauses, work, end, verdict)) for k, sh in enumerate(shards)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return verdict


def _judge_shard(k, sessions, clauses, work, end, verdict):
    """One TLC after another until every session of the shard is judged (one, unless something goes wrong)."""
    header = json.dumps({"clauses": sorted(clauses)}) + "\n"
    tries = 0
    while sessions:
        path = os.path.join(work, "trace%d.ndjson" % k)
        lines = [l for s in sessions for l in s]
        with open(path, "w") as f:
            f.write(header)
            f.writelines(lines)
        outp = os.path.join(work, "judge%d.%d.out" % (k, tries))
        with open(outp, "w") as out:
            p = tlc("CodecTrace.tla", "CodecTrace.cfg", {"TRACE": path}, os.path.join(work, "meta%d.%d" % (k, tries)), out)
            try:
                p.wait(max(1, end - time.time()))
                late = False
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                late = True
        with open(outp) as f:
            text = f.read()
        for m in printed(text, "MISMATCH"):
            i, step, cl = json.loads(json.loads(m))
            verdict.bad.append((i, step, cl))
        done = printed(text, "JUDGED")
        if p.returncode == 0 and [int(x) for x in done] == [len(lines)]:
            verdict.lines += len(lines)
            verdict.states += len(lines) + 1
            return
        if late:
            verdict.problems.append("judging took too long (%s)" % outp)
            return
        # TLC could not evaluate a line: leave its session out and go on behind it
        at = [int(w[2]) for w in (l.replace("/\\", "").split() for l in text.splitlines()) if w[:2] == ["taken", "="]]
        verdict.problems.append("TLC could not judge a line (%s)\n%s" % (outp, text[-1500:]))
        tries += 1
        if not at or tries > 4:
            return
        n = at[-1]           # lines taken, the header included: the next one is line n (from 0, header excluded: n - 1)
        passed = 0
        while sessions and passed + len(sessions[0]) <= n - 1:
            passed += len(sessions.pop(0))
        verdict.lines += passed
        verdict.states += passed
        if sessions:
            sessions.pop(0)


# ---------------------------------------------------------------- model checking
class Run:
    """One TLC run over a model."""
    def __init__(self, name, module, cfg=None, env=None, extra=()):
        self.name, self.module, self.cfg = name, module + ".tla", (cfg or module) + ".cfg"
        self.env, self.extra = env or {}, tuple(extra)
        self.generated = self.distinct = 0
        self.text = ""
        self.seconds = 0.0


def explore(runs, work, limit=600, jobs=None):
    """Model-check all runs in parallel, filling in their results."""
    os.makedirs(work, exist_ok=True)
    pend, live = list(enumerate(runs)), []
    end = time.time() + limit
    try:
        while pend or live:
            while pend and len(live) < (jobs or CORES):
                k, r = pend.pop(0)
                path = os.path.join(work, "mc%d.out" % k)
                out = open(path, "w")
                p = tlc(r.module, r.cfg, r.env, os.path.join(work, "mcmeta%d" % k), out, extra=r.extra)
                out.close()
                live.append((r, p, path, time.time()))
            time.sleep(0.03)
            for item in list(live):
                r, p, path, t0 = item
                if p.poll() is None:
                    if time.time() > end:
                        raise ToolError("model checking %s took too long" % r.name)
                    continue
                live.remove(item)
                r.seconds = time.time() - t0
                with open(path) as f:
                    r.text = f.read()
                if p.returncode != 0:
                    raise ToolError("TLC: %s fails (%s)\n%s" % (r.name, path, r.text[:3000] + r.text[-3000:]))
                for line in r.text.splitlines():
                    if "states generated," in line and line[:1].isdigit():
                        w = line.replace(",", "").split()
                        r.generated, r.distinct = int(w[0]), int(w[3])
    finally:
        for _, p, _, _ in live:
            p.kill()
    return runs


def vectors(runs):
    """The commands the models exported."""
    return [json.loads(json.loads(v)) for r in runs for v in printed(r.text, "VECTOR")]
