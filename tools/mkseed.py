#!/usr/bin/env python3
"""mkseed.py ID CRATES PROPERTY SCRATCH MAIN.rs NEEDS BREAKS: packs the change made in SCRATCH (a copy of /repo) with a demonstration
and confirms it: builds, stable tests pass, demo passes without and fails with the change."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, crates, prop, scratch, main, needs, breaks = sys.argv[1:8]
d = "%s/seeded/%s" % (V, sid)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d + "/demo/src")
diff = subprocess.check_output(["git", "-C", scratch, "diff", "--", "contracts", "packages"], text=True)
assert diff.strip(), "empty diff"
open(d + "/patch.diff", "w").write(diff)
for c in ["symrt", "stubs"] + ["h_" + c for c in crates.split(",")]:
    shutil.copytree("%s/harness/%s" % (V, c), "%s/demo/%s" % (d, c), ignore=shutil.ignore_patterns("target", "Cargo.lock"))
shutil.copyfile(main, d + "/demo/src/main.rs")
deps = "".join('h_%s = { path = "h_%s" }\n' % (c, c) for c in crates.split(","))
api = [l for c in crates.split(",") for l in open("%s/harness/h_%s/Cargo.toml" % (V, c)).read().split("[dependencies]")[1].splitlines() if l.strip() and "symrt" not in l and "stubs" not in l]
open(d + "/demo/Cargo.toml", "w").write('''[workspace]

[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
symrt = { path = "symrt", features = ["native"] }
stubs = { path = "stubs" }
%s%s
''' % (deps, "\n".join(sorted(set(api)))))
open(d + "/demo.sh", "w").write('''#!/bin/bash
# Runs the scenario in demo/src/main.rs against the contracts in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp -r "$here/demo/." "$t"
find "$t" -name Cargo.toml -exec sed -i "s#\\"/repo/#\\"$repo/#" {} +
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cd "$t" || exit 3
CARGO_TARGET_DIR=${DEMO_TARGET:-$t/target} cargo run --offline --quiet
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
