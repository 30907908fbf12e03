#!/usr/bin/env python3
"""plant.py new ID PROP          take /tmp/plant/repo's diff as seeded/ID/patch.diff, /tmp/plant/demo.rs as the demo
plant.py verify ID [--nocheck]   apply to /repo, build, test, demo, run the property's check; undo
(development tool; no check uses it)"""
import json, os, shutil, subprocess, sys
ROOT = "/verif"
SEED = ROOT + "/seeded"
DEMO_SH = '''#!/bin/bash
# builds demo.rs against the crates of the current directory (/repo) in a scratch folder and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$tmp"' EXIT
export PATH="/usr/local/bin:/usr/bin:/bin:$HOME/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUST_MIN_STACK=16777216
MC_REPO=$PWD MC_WS=$tmp/ws MC_STUBS=$here/stubs python3 "$here/gen_ws.py" || exit 90
mkdir -p "$tmp/demo/src"
sed "s#@WS@#$tmp/ws#; s#@STUBS@#$here/stubs#" "$here/Cargo.toml.in" > "$tmp/demo/Cargo.toml"
cp "$here/demo.rs" "$tmp/demo/src/main.rs"; cp "$here/Cargo.lock.in" "$tmp/demo/Cargo.lock"
cd "$tmp/demo" || exit 90
RUSTFLAGS="-Awarnings @FLAGS@" CARGO_TARGET_DIR=$tmp/target CARGO_PROFILE_RELEASE_OPT_LEVEL=1 cargo build --release --offline -q || exit 91
timeout 120 "$tmp/target/release/demo"
'''
DEMO_GO = '''#!/bin/bash
# runs demo.go against the Go library of the current directory (/repo), over stand-ins for gnark, in a scratch folder
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX); trap 'chmod -R u+w "$tmp"; rm -rf "$tmp"' EXIT
export PATH="/usr/local/bin:/usr/bin:/bin:/usr/local/go/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOTELEMETRY=off
export GOCACHE=$tmp/cache GOPATH=$tmp/path
MC_REPO=$PWD MC_WS=$tmp/ws MC_STUBS=$here/stubs python3 "$here/gen_ws.py" || exit 90
mkdir -p "$tmp/ws/recursion-gnark/go/demo" "$tmp/out"
cp "$here/demo.go" "$tmp/ws/recursion-gnark/go/demo/main.go"
cd "$tmp/ws/recursion-gnark/go" || exit 90
go build -tags=debug -o "$tmp/run" ./demo || exit 91
cd "$tmp/out" && timeout 120 "$tmp/run"
'''
DEMO_JS = '''#!/bin/bash
# runs demo.js against the example machines of the current directory (/repo), over stand-ins for the npm packages, in a scratch folder
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$tmp"' EXIT
export PATH="/usr/local/bin:/usr/bin:/bin:$PATH"
MC_REPO=$PWD MC_WS=$tmp/ws MC_STUBS=$here/stubs python3 "$here/gen_ws.py" || exit 90
mkdir -p "$tmp/out"; cp "$here/demo.js" "$tmp/ws/starkjs/demo.js"
cd "$tmp/ws/starkjs" && MC_TMP=$tmp/out timeout 120 node -r "$here/stubs/js/preload.js" demo.js
'''
DEPS = {
 "starky": '''starky = { path = "@WS@/starky" }
fields = { path = "@WS@/fields" }
ff = { package = "ff_ce", version = "0.12", features = ["derive"] }
num-bigint = "0.4"
serde_json = "1.0"
rayon = "1.5"
anyhow = "1.0.79"
''',
 "alg": '''starky = { path = "@WS@/starky" }
fields = { path = "@WS@/fields" }
algebraic = { path = "@WS@/algebraic" }
recursion = { path = "@WS@/recursion" }
ff = { package = "ff_ce", version = "0.12", features = ["derive"] }
num-bigint = "0.4"
serde_json = "1.0"
''',
 "gpu": 'algebraic-gpu = { path = "@WS@/algebraic-gpu" }\nserde_json = "1.0"\nnum-bigint = "0.4"\nbellperson = { version = "0.26", default-features = false, features = ["groth16"] }\nblstrs = "0.7.1"\n',
 "gnark": 'recursion-gnark-ffi = { path = "@WS@/recursion-gnark/ffi" }\nserde_json = "1.0"\nark-bls12-381 = { version = "0.5.0", default-features = false, features = ["curve"] }\n',
}
DEPS["cli"] = '''clap = { path = "@STUBS@/cli/clap" }
starky = { path = "@STUBS@/cli/starky" }
groth16 = { path = "@STUBS@/cli/groth16" }
recursion = { path = "@STUBS@/cli/recursion" }
dsl_compile = { path = "@WS@/dsl_compile" }
env_logger = "0.10"
log = "0.4.0"
anyhow = "1.0.79"
[[bin]]
name = "zkit"
path = "@WS@/zkit/src/main.rs"
[[bin]]
name = "demo"
path = "src/main.rs"
'''
DEPS["pil"] = '''starky = { path = "@WS@/starky" }
fields = { path = "@WS@/fields" }
recursion = { path = "@WS@/recursion", default-features = false }
zkvm = { path = "@WS@/zkvm" }
powdr = { path = "@STUBS@/powdr" }
powdr-parser-util = { path = "@STUBS@/powdr-parser-util" }
serde_json = { version = "1.0", features = ["arbitrary_precision"] }
'''
LOCK = {"pil": "h_pil", "cli": "h_cli", "starky": "h_core", "alg": "h_alg", "gpu": "h_gpu", "gnark": "h_gnark"}


def sh(c, **k):
    return subprocess.run(c, shell=True, **k).returncode


def new(i, prop, kind="starky", flags=""):
    d = f"{SEED}/{i}"
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", "/tmp/plant/repo", "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy("/tmp/plant/demo.rs", d + "/demo.rs")
    finish(d, kind, flags)
    sh("git -C /tmp/plant/repo checkout -q -- .")


def finish(d, kind, flags=""):
    if kind in ("go", "js"):
        open(d + "/demo.sh", "w").write({"go": DEMO_GO, "js": DEMO_JS}[kind])
        os.chmod(d + "/demo.sh", 0o755)
        shutil.copy(ROOT + "/mc/gen_ws.py", d)
        shutil.rmtree(d + "/stubs", ignore_errors=True)
        shutil.copytree(ROOT + "/mc/stubs", d + "/stubs", ignore=shutil.ignore_patterns("target", *{"go": ["js"], "js": ["go"]}[kind]))
        if os.path.exists(d + "/demo.rs"):
            os.rename(d + "/demo.rs", d + "/demo." + kind)
        return
    open(d + "/demo.sh", "w").write(DEMO_SH.replace("@FLAGS@", flags))
    os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(ROOT + "/mc/gen_ws.py", d)
    shutil.rmtree(d + "/stubs", ignore_errors=True)
    shutil.copytree(ROOT + "/mc/stubs", d + "/stubs", ignore=shutil.ignore_patterns("target", "go", "js"))
    open(d + "/Cargo.toml.in", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n' + DEPS[kind])
    shutil.copy(f"{ROOT}/mc/{LOCK[kind]}/Cargo.lock", d + "/Cargo.lock.in")


def demo(d, tag):
    r = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    print(tag, "demo:", r.returncode, (r.stdout + r.stderr)[-300:].strip().replace("\n", " | "))
    return r.returncode


def verify(i, check=True):
    d = f"{SEED}/{i}"
    meta = json.load(open(d + "/meta.json"))
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]), "dirty"
    ok = demo(d, "clean") == 0
    if sh(f"git -C /repo apply --check {d}/patch.diff"):
        return print(i, "does not apply")
    sh(f"git -C /repo apply {d}/patch.diff")
    caught = None
    try:
        b = sh("bash /opt/vp/build.sh > /tmp/plant/build.log 2>&1")
        sh("bash /opt/vp/test.sh /tmp/plant/out.json > /tmp/plant/test.log 2>&1")
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        out = json.load(open("/tmp/plant/out.json"))
        passed = set(out["passed"]) if "passed" in out else {k for k, v in out.items() if v == "passed"}
        miss = stable - passed
        print("build", b, "missing tests:", sorted(miss))
        r = demo(d, "patched")
        ok = ok and b == 0 and not miss and r not in (0, 90, 91)
        if check:
            p = subprocess.run(["bash", ROOT + "/mc/run.sh", meta["property"], "quick"], cwd=ROOT, capture_output=True, text=True)
            caught = p.returncode == 1 and f"VIOLATION property={meta['property']} " in p.stdout
            print("check exit", p.returncode, [l[:250] for l in p.stdout.splitlines() if "VIOLATION" in l or l.startswith("  ")][:4], p.stderr[-300:] if p.returncode not in (0, 1) else "")
    finally:
        sh("git -C /repo checkout -q -- .")
    print("RESULT", i, meta["property"], "counts" if ok else "DOES NOT COUNT", "caught" if caught else "MISSED" if check else "")


if __name__ == "__main__":
    if sys.argv[1] == "new":
        new(*sys.argv[2:])
    elif sys.argv[1] == "refresh":
        for i in sorted(os.listdir(SEED)):
            own = [k for k in ("go", "js") if os.path.exists(f"{SEED}/{i}/demo.{k}")]
            if own:
                finish(f"{SEED}/{i}", own[0])
                continue
            t = open(f"{SEED}/{i}/Cargo.toml.in").read()
            k = [k for k in DEPS if t.endswith(DEPS[k])][0]
            fl = [l for l in open(f"{SEED}/{i}/demo.sh") if l.startswith("RUSTFLAGS")][0].split('"')[1].replace("-Awarnings ", "")
            finish(f"{SEED}/{i}", k, fl)
    else:
        for i in sys.argv[2].split(","):
            verify(i, "--nocheck" not in sys.argv)
