"""Build, link, execute symbolically, replay natively."""
import json, os, subprocess, sys, shutil, glob, time, hashlib, fcntl
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "build")
TOOLCHAIN = "1.77.2-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"


class Error(Exception):
    pass


def llvm_bin():
    for p in sorted(glob.glob(os.path.expanduser("~/.rustup/toolchains/nightly-*/lib/rustlib/%s/bin" % TRIPLE))):
        if os.path.exists(p + "/llvm-link"):
            return p
    for p in sorted(glob.glob("/root/.rustup/toolchains/*/lib/rustlib/%s/bin" % TRIPLE)):
        if os.path.exists(p + "/llvm-link"):
            return p
    raise Error("llvm tools not found")


def repo_env():
    """Environment of the repository's own toolchain."""
    out = subprocess.run(["bash", "-c", "set -a; . /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    e = dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise Error("%s failed (%d):\n%s" % (" ".join(cmd[:6]), r.returncode, (r.stdout + r.stderr)[-6000:]))
    return r.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.p = os.path.join(B, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def engine():
    with Lock("engine"):
        e = dict(os.environ)
        e["RUSTUP_TOOLCHAIN"] = "stable"
        e.pop("RUSTFLAGS", None)
        e.pop("CARGO_TARGET_DIR", None)
        run(["cargo", "build", "--release", "--offline", "--quiet", "--target-dir", B + "/engine"], cwd=V + "/engine", env=e)
    return B + "/engine/release/symex"


def std_bitcode():
    d = B + "/std"
    stamp = d + "/ok"
    with Lock("std"):
        if os.path.exists(stamp):
            return sorted(glob.glob(d + "/*.bc"))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        L = llvm_bin()
        e = repo_env()
        sysroot = run(["rustc", "--print", "sysroot"], env=e).strip()
        for n in ["core", "alloc", "std", "hashbrown", "compiler_builtins", "panic_abort", "memchr", "rustc_std_workspace_core"]:
            for lib in glob.glob("%s/lib/rustlib/%s/lib/lib%s-*.rlib" % (sysroot, TRIPLE, n)):
                t = d + "/x_" + n
                os.makedirs(t)
                run([L + "/llvm-ar", "x", lib], cwd=t)
                for o in sorted(glob.glob(t + "/*.o")):
                    bc = "%s/%s_%s.bc" % (d, n, hashlib.md5(o.encode()).hexdigest()[:8])
                    r = subprocess.run([L + "/llvm-objcopy", "--dump-section", ".llvmbc=" + bc, o, "/dev/null"], capture_output=True)
                    if r.returncode != 0 and os.path.exists(bc):
                        os.remove(bc)
                shutil.rmtree(t)
        open(stamp, "w").close()
    return sorted(glob.glob(d + "/*.bc"))


def lockfile(dst):
    """The harness workspaces resolve with the repository's own lock file."""
    shutil.copyfile("/repo/Cargo.lock", dst)


def cargo_artifacts(ws, features, target_dir, rustflags, extra):
    e = repo_env()
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    cmd = ["cargo", "build", "--offline", "--message-format=json", "--features", ",".join(features), "--target-dir", target_dir] + extra
    r = subprocess.run(cmd, cwd=ws, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        msgs = []
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"].get("level") == "error":
                msgs.append(m["message"].get("rendered") or "")
        raise Error("cargo build failed:\n" + "".join(msgs)[-6000:] + r.stderr[-3000:])
    out = []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            out.append(m)
    return out


def module(features, entries, workdir):
    """Whole-program IR of the given entries, from the current tree."""
    L = llvm_bin()
    std = std_bitcode()
    with Lock("sym"):
        lockfile(V + "/harness/sym/Cargo.lock")
        arts = cargo_artifacts(
            V + "/harness/sym", features, B + "/sym",
            "-Clinker-plugin-lto -Cembed-bitcode=yes -Clinker=%s/tools/nolink.sh" % V,
            ["--release", "--target", TRIPLE],
        )
        rlibs = []
        for a in arts:
            for f in a["filenames"]:
                if f.endswith(".rlib") and ("/%s/" % TRIPLE) in f:
                    rlibs.append(f)
        shutil.rmtree(workdir, ignore_errors=True)
        os.makedirs(workdir + "/bc")
        objs = []
        for i, f in enumerate(rlibs):
            t = "%s/bc/%d" % (workdir, i)
            os.makedirs(t)
            run([L + "/llvm-ar", "x", f], cwd=t)
            objs += sorted(glob.glob(t + "/*.o"))
    allbc = workdir + "/all.bc"
    run([L + "/llvm-link"] + objs + std + ["-o", allbc])
    m = workdir + "/m.bc"
    run([L + "/opt", "--strip-debug", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries), allbc, "-o", m])
    ll = workdir + "/m.ll"
    run([L + "/llvm-dis", m, "-o", ll])
    shutil.rmtree(workdir + "/bc")
    os.remove(allbc)
    os.remove(m)
    return ll


def native(features):
    with Lock("native"):
        lockfile(V + "/harness/native/Cargo.lock")
        arts = cargo_artifacts(V + "/harness/native", features, B + "/native", "", [])
        for a in arts:
            if a.get("executable") and a["target"]["name"] == "replay":
                return a["executable"]
    raise Error("no native replay binary")


def merge(parts):
    out = None
    for p in parts:
        if out is None:
            out = p
            continue
        for k, v in p.items():
            if k in ("wall", "max_query"):
                out[k] = max(out[k], v)
            elif isinstance(v, (int, float)):
                out[k] += v
            elif k == "checks":
                for l, (n, f) in v.items():
                    o = out[k].setdefault(l, [0, 0])
                    out[k][l] = [o[0] + n, o[1] + f]
            elif isinstance(v, dict):
                for l, n in v.items():
                    out[k][l] = out[k].get(l, 0) + n
            elif k == "functions":
                out[k] = sorted(set(out[k]) | set(v))
            else:
                out[k] = out[k] + v
    return out


def symex(eng, ll, entry, workdir, params, timeout, jobs=8, query_ms=4000, hard_ms=60000):
    d = "%s/out_%s" % (workdir, entry)
    shutil.rmtree(d, ignore_errors=True)
    cmd = [eng, ll, entry, d, "--jobs", str(jobs), "--timeout", str(timeout), "--query-ms", str(query_ms), "--hard-ms", str(hard_ms)]
    for k, v in params.items():
        cmd += ["--param", "%s=%d" % (k, v)]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Error("symex %s: %s" % (entry, (r.stdout + r.stderr)[-3000:]))
    n = int(r.stdout.strip().splitlines()[-1])
    parts = [json.load(open("%s/part%d.json" % (d, i))) for i in range(n)]
    return merge(parts)


def case_text(inputs, params):
    t = ["case"]
    for k, v in params.items():
        t.append("param\t%s\t%d" % (k, v))
    for n, v in inputs:
        t.append("in\t%s\t%s" % (n, v))
    t.append("end")
    return "\n".join(t) + "\n"


def replay(exe, entry, cases, path):
    with open(path, "w") as f:
        f.write("".join(cases))
    r = subprocess.run([exe, entry, path], capture_output=True, text=True, timeout=600)
    out = []
    for l in r.stdout.splitlines():
        w = l.split("\t")
        if len(w) >= 3:
            out.append((w[0], w[1].split("|") if w[1] else [], w[2].split("|") if w[2] else []))
    if len(out) != len(cases):
        raise Error("native replay of %s stopped after %d of %d cases: %s" % (entry, len(out), len(cases), r.stderr[-1500:]))
    return out
