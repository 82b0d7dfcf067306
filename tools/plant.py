#!/usr/bin/env python3
"""Make /verif/seeded/<id> from tools/bugs.py, keeping only bugs that build, pass the stable tests and
that their demonstration tells apart.  plant.py [ID...]"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import bugs

SCRATCH = "/tmp/bug"
STABLE = set()
b = json.load(open("/opt/vp/BASELINE.json"))
for k in ("stable", "tests", "passed", "pass"):
    if k in b:
        STABLE = set(b[k] if isinstance(b[k], list) else b[k].keys())
        break
assert STABLE, list(b)

DEMO = '''#!/bin/bash
# Runs main.rs against the amqp-codec in the working directory: 0 if it behaves, 1 if not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh 2>/dev/null
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$here/Cargo.lock.txt" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
amqp-codec = { path = "$repo" }
bytes = "0.4"
chrono = "0.4"
hashbrown = "0.1.8"
ordered-float = "1.0"
string = "0.1.3"
tokio-io = "0.1"
uuid = "0.7"
END
cd "$dir" || exit 2
export CARGO_TARGET_DIR="$dir/target" CARGO_NET_OFFLINE=true
cargo build --offline -q 2> "$dir/log" || { cat "$dir/log"; exit 2; }
timeout 60 "$dir/target/debug/demo"
'''
HEAD = '''#![allow(dead_code, unused_imports)]
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::*;
use bytes::{BufMut, Bytes, BytesMut};
use tokio_io::codec::{Decoder, Encoder};

/// What encoding writes.
fn enc<T: Encode>(v: &T) -> Vec<u8> {
    let mut b = BytesMut::with_capacity(v.encoded_size() + 64);
    v.encode(&mut b);
    b.to_vec()
}

fn string(s: &str) -> ByteStr {
    ByteStr::from_str(s)
}

fn symbol(s: &str) -> Symbol {
    Symbol::from_slice(s)
}

'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def env():
    e = dict(os.environ)
    return e


def tests(cwd):
    """Build and run the repository's tests in a copy, as /opt/vp does in /repo."""
    out = os.path.join(cwd, "target", "results.json")
    p = sh("set -e; . /opt/vp/env.sh; cd %s; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > target/vp-test.log 2>&1 || true; "
           "python3 /opt/vp/results.py %s cargo:%s/target/vp-test.log; tail -5 target/vp-test.log" % (cwd, out, cwd))
    r = json.load(open(out))
    return r, p.stdout


def main():
    want = sys.argv[1:]
    todo = [x for x in bugs.BUGS if not want or x["id"] in want]
    shutil.rmtree(SCRATCH, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", SCRATCH])
    sh("git -C %s checkout -q -- . && git -C %s clean -fdq src" % (SCRATCH, SCRATCH))
    lock = open(os.path.join(VERIF, "harness", "Cargo.lock")).read().replace('name = "amqp-harness"', 'name = "demo"')
    fails = 0
    for x in todo:
        sh("git -C %s checkout -q -- ." % SCRATCH)
        d = os.path.join(VERIF, "seeded", x["id"])
        shutil.rmtree(d, ignore_errors=True)
        tmp = "/tmp/bugdemo"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + "/demo.sh", "w").write(DEMO)
        os.chmod(tmp + "/demo.sh", 0o755)
        open(tmp + "/main.rs", "w").write(HEAD + x["demo"].strip() + "\n")
        open(tmp + "/Cargo.lock.txt", "w").write(lock)
        p0 = sh(tmp + "/demo.sh", cwd=SCRATCH)
        if p0.returncode != 0:
            print("%s: demo fails on the unchanged tree (%d)\n%s" % (x["id"], p0.returncode, p0.stdout[-2500:]))
            fails += 1
            continue
        ok = True
        for f, old, new, *after in x["edits"]:
            path = os.path.join(SCRATCH, f)
            s = open(path).read()
            # with a fourth part, the first place after that text; otherwise the only place
            at = s.find(after[0]) if after else 0
            n = s[at:].count(old)
            if at < 0 or n == 0 or n != 1 and not after:
                print("%s: %d places for %r" % (x["id"], n, old[:60]))
                ok = False
                break
            open(path, "w").write(s[:at] + s[at:].replace(old, new, 1))
        if not ok:
            fails += 1
            continue
        diff = sh("git -C %s diff" % SCRATCH).stdout
        r, text = tests(SCRATCH)
        passed = set(r.get("passed", []))
        if isinstance(r.get("passed"), dict):
            passed = set(r["passed"])
        missing = STABLE - passed
        if missing:
            print("%s: tests fail %s\n%s" % (x["id"], sorted(missing)[:5], text[-1500:]))
            fails += 1
            continue
        p1 = sh(tmp + "/demo.sh", cwd=SCRATCH)
        if p1.returncode in (0, 2):
            print("%s: demo gives %d with the change\n%s" % (x["id"], p1.returncode, p1.stdout[-1500:]))
            fails += 1
            continue
        # lines taken away must be the original repository's
        mine = sh("git -C /repo diff 5f33e90 HEAD | grep '^+'").stdout.splitlines()
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and ("+" + l[1:]) in mine and len(l.strip()) > 6:
                print("%s: note, line of a fix? %s" % (x["id"], l))
        shutil.copytree(tmp, d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": x["property"], "needs": x["needs"], "what_it_breaks": x["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("%s (%s): kept" % (x["id"], x["property"]))
        sys.stdout.flush()
    shutil.rmtree(SCRATCH, ignore_errors=True)
    shutil.rmtree("/tmp/bugdemo", ignore_errors=True)
    print("%d failed" % fails)


main()
