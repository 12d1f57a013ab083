#!/usr/bin/env python3
"""plant.py new ID PROP SPEC.py     make /verif/seeded/ID from a spec file defining
                                    EDITS=[(file, old, new)...], MAIN (demo main.rs), NEEDS, BREAKS
   plant.py verify ID...            builds, tests and runs the demo on a scratch copy with the patch
   plant.py check ID... [--prop P]  applies the patch to /repo, runs the property's check, undoes it
Planted bugs only ever live in scratch copies or, for `check`, uncommitted in /repo's tree."""
import json, os, shutil, subprocess, sys
V = "/verif/seeded"
SC = "/tmp/plant-scratch"
DEMO = """#!/bin/bash
# Run with cwd = the repository.  Exit 0: the behaviour is right.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
psbt-v2 = { path = "$repo", features = ["std", "serde", "base64", "miniscript", "silent-payments"] }
bitcoin = "0.32.8"
miniscript = "12.2.0"
serde_json = "1.0.68"
T
cd "$d" && CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=none cargo run --offline -q
"""
FS = ["--all-features", "--features serde,base64,miniscript", "--no-default-features --features serde,base64,silent-payments"]


def sh(cmd, cwd=None, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def scratch():
    os.makedirs(SC, exist_ok=True)
    sh("rsync -a --delete --exclude target /repo/ %s/repo/ || (rm -rf /tmp/plant-scratch/repo; cp -a /repo /tmp/plant-scratch/repo)" % SC)
    return SC + "/repo"


def new(i, prop, spec):
    ns = {}
    exec(open(spec).read(), ns)
    r = scratch()
    for f, old, nw in ns["EDITS"]:
        p = os.path.join(r, "src", f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, nw))
    d = os.path.join(V, i)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git diff", r).stdout)
    open(d + "/main.rs", "w").write(ns["MAIN"])
    shutil.copy("/verif/tools/demo.lock", d + "/Cargo.lock")
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    return verify(i)


def verify(i):
    r = scratch()
    d = os.path.join(V, i)
    e = dict(os.environ)
    p = sh("git apply %s/patch.diff" % d, r)
    if p.returncode:
        print(i, "does not apply", p.stdout)
        return False
    os.environ["BITCOIND_SKIP_DOWNLOAD"] = "1"
    for fs in FS:
        p = sh("CARGO_TARGET_DIR=%s/target cargo test -q --workspace --no-fail-fast --offline %s 2>&1" % (SC, fs), r)
        bad = [l for l in p.stdout.split("\n") if "FAILED" in l or l.startswith("error")]
        if p.returncode:
            print(i, "tests", fs, bad[:5], p.stdout[-500:])
            return False
    a = sh("bash %s/demo.sh" % d, "/repo")
    b = sh("bash %s/demo.sh" % d, r)
    print(i, "demo clean rc", a.returncode, "patched rc", b.returncode, "|", b.stdout.strip().split("\n")[-2:])
    if a.returncode:
        print(a.stdout[-1500:])
    if "could not compile" in b.stdout:
        print(b.stdout[-1500:])
        return False
    return a.returncode == 0 and b.returncode != 0


def check(i, props=None):
    d = os.path.join(V, i)
    props = props or [json.load(open(d + "/meta.json"))["property"]]
    assert sh("git status --porcelain --untracked-files=no", "/repo").stdout == ""
    try:
        assert sh("git apply %s/patch.diff" % d, "/repo").returncode == 0
        for prop in props:
            p = sh("python3 check.py %s" % prop, "/verif", 2000)
            ls = [l for l in p.stdout.split("\n") if " x " in l]
            print(i, prop, "CAUGHT" if p.returncode == 1 else "MISSED rc %d" % p.returncode, "|", [l[:160] for l in ls[:2]], flush=True)
    finally:
        sh("git checkout -- .", "/repo")


def spaced(k, prop, patch=None, edits=None, extra=""):
    """Runs a property's check in a mount namespace of its own, where /repo is a patched copy (so that /repo stays as it is)."""
    b = "/tmp/pn%s" % k
    os.makedirs(b + "/repo", exist_ok=True)
    sh("rsync -a --delete --exclude target /repo/ %s/repo/ && rsync -a --delete --exclude .work --exclude .build --exclude seeded --exclude .git /verif/ %s/verif/" % (b, b))
    if not os.path.isdir(b + "/verif/.build"):
        sh("cp -a /verif/.build %s/verif/.build" % b)
    if patch:
        p = sh("git apply %s" % patch, b + "/repo")
        assert p.returncode == 0, p.stdout
    for f, old, nw in edits or []:
        p = os.path.join(b, "repo/src", f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, nw))
    p = sh("unshare -Urm bash -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && python3 check.py %s %s'" % (b, b, prop, extra), "/", 2500)
    ls = [l for l in p.stdout.split("\n") if " x " in l]
    return ("CAUGHT" if p.returncode == 1 else "MISSED rc %d" % p.returncode) + " | " + str([l[:200] for l in ls[:2]]) + ("" if p.returncode in (0, 1) else p.stdout[-600:])


def nscheck(k, i, props=None):
    d = os.path.join(V, i)
    for prop in props or [json.load(open(d + "/meta.json"))["property"]]:
        print(i, prop, spaced(k, prop, d + "/patch.diff"), flush=True)


def mut(k, spec, only=None):
    """Mutants without a demonstration: spec defines M = {name: (props, [(file, old, new)...])}."""
    ns = {}
    exec(open(spec).read(), ns)
    for name, (props, edits) in ns["M"].items():
        if only and name not in only:
            continue
        for prop in props.split():
            print(name, prop, spaced(k, prop, None, edits), flush=True)


a = sys.argv
if a[1] == "nscheck":
    ps = None
    if "--prop" in a:
        ps = a[a.index("--prop") + 1].split(",")
        a = a[:a.index("--prop")]
    for x in a[3:]:
        nscheck(a[2], x, ps)
if a[1] == "mut":
    mut(a[2], a[3], a[4:])
if a[1] == "new":
    sys.exit(0 if new(a[2], a[3], a[4]) else 1)
if a[1] == "verify":
    sys.exit(0 if all([verify(x) for x in a[2:]]) else 1)
if a[1] == "check":
    ps = None
    if "--prop" in a:
        ps = a[a.index("--prop") + 1].split(",")
        a = a[:a.index("--prop")]
    for x in a[2:]:
        check(x, ps)
