#!/usr/bin/env python3
"""Development aid: regenerates the sym/native workspaces from the harness crates present."""
import glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = V + "/harness"
crates = sorted(os.path.basename(p)[2:] for p in glob.glob(H + "/h_*"))
feats = "".join('%s = ["dep:h_%s"]\n' % (c, c) for c in crates)
deps = "".join('h_%s = { path = "../h_%s", optional = true }\n' % (c, c) for c in crates)
open(H + "/sym/Cargo.toml", "w").write('''[workspace]

[package]
name = "symall"
version = "0.1.0"
edition = "2021"

[features]
%s
[dependencies]
symrt = { path = "../symrt" }
%s
[patch.crates-io]
cosmwasm-std = { path = "../patched/cosmwasm-std" }

[profile.release]
opt-level = 1
debug = false
lto = "off"
codegen-units = 1
panic = "abort"
overflow-checks = false
incremental = false
debug-assertions = false
''' % (feats, deps))
open(H + "/native/Cargo.toml", "w").write('''[workspace]

[package]
name = "replay"
version = "0.1.0"
edition = "2021"

[features]
%s
[dependencies]
symrt = { path = "../symrt", features = ["native"] }
%s
[profile.dev]
opt-level = 0
debug = false
overflow-checks = false
debug-assertions = false
incremental = false
''' % (feats, deps))
t = "// Generated by tools/gen.py.\npub fn find(n: &str) -> Option<fn()> {\n    match n {\n"
for c in crates:
    for f in sorted(glob.glob("%s/h_%s/src/*.rs" % (H, c))):
        mod = os.path.basename(f)[:-3]
        path = "" if mod == "lib" else mod + "::"
        for e in re.findall(r"^entry!\((\w+)", open(f).read(), re.M):
            t += '        #[cfg(feature = "%s")]\n        "%s" => Some(h_%s::%s%s),\n' % (c, e, c, path, e)
t += "        _ => None,\n    }\n}\n"
open(H + "/native/src/table.rs", "w").write(t)
