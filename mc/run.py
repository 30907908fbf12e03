#!/usr/bin/env python3
"""run.py PROPERTY TIER | run.py --setup: builds what a check needs from /repo and runs it."""
import fcntl, json, os, signal, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
# harness -> (directory, cargo features, extra rustflags, target dir)
H = {
    "core": ("h_core", [], "", "target"),
    "gpu": ("h_gpu", [], "", "target"),
    "alg": ("h_alg", [], "", "target"),
    "gnark": ("h_gnark", [], "", "target"),
    "groth": ("h_groth", [], "", "target"),
    "cli": ("h_cli", [], "", "target"),
    "wrap": ("h_wrap", [], "", "target"),
    "pil": ("h_pil", [], "", "target"),
    "avx2": ("h_core", [], "-C target-feature=+avx2", "target_avx2"),
    "avx512": ("h_core", ["avx512"], "-C target-feature=+avx512bw,+avx512cd,+avx512dq,+avx512f,+avx512vl", "target_avx512"),
    "sched": ("h_sched", [], "--cfg mc_small_tasks", "target_sched"),
}
PROPS = {p: ["core"] for p in "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P26 P27 P28 P29 P30 P32".split()}
PROPS.update({p: ["gpu", "alg"] for p in "P17 P18 P19".split()})
PROPS.update({p: ["alg"] for p in "P20 P21".split()})
PROPS["P22"] = ["groth"]
PROPS["P23"] = ["gnark"]
PROPS["P25"] = ["sched"]
PROPS["P31"] = ["cli"]
PROPS["P33"] = ["wrap"]
PROPS["P34"] = PROPS["P35"] = PROPS["P36"] = ["pil"]
with open("/proc/cpuinfo") as f:
    CPU = f.read().split()
VECTOR = [h for h in ("avx2", "avx512") if all(x in CPU for x in ([h] if h == "avx2" else "avx512bw avx512cd avx512dq avx512f avx512vl".split()))]
H = {h: v for h, v in H.items() if not h.startswith("avx") or h in VECTOR}
PROPS["P24"] = VECTOR or ["core"]


def env(h):
    e = dict(os.environ)
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + os.path.expanduser("~/.cargo/bin") + ":" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="1.88.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
             RUSTC_WRAPPER="", RUSTFLAGS=("--cfg mc_hooks -Awarnings " + H[h][2]).strip(), MC_ROOT=ROOT,
             CARGO_TARGET_DIR=os.path.join(BUILD, H[h][3]), RUST_MIN_STACK="16777216")
    e.setdefault("RUST_LOG", "off")
    if h == "avx512":
        # the feature the repository asks for needs it with this compiler
        e["RUSTC_BOOTSTRAP"] = "1"
    return e


def feature(h, prop):
    """the feature of one property in a harness that has one for each"""
    if h in ("avx2", "avx512"):
        return "p24"
    if h in ("core", "gpu", "alg", "pil"):
        return {"P07": "p06", "P29": "p26", "P30": "p26", "P20": "rec", "P21": "rec"}.get(prop, prop.lower())


def go():
    """the Go library (over stand-ins for gnark) and the program that calls its parts"""
    e = dict(env("wrap"), GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", CGO_ENABLED="1",
             GOCACHE=os.path.join(BUILD, "gocache"), GOPATH=os.path.join(BUILD, "gopath"), GOTELEMETRY="off", GOWORK="off")
    d = os.path.join(BUILD, "ws", "recursion-gnark", "go")
    for a in (["-tags=debug", "-buildmode=c-archive", "-o", "libeigengnark.a", "."], ["-o", "godrive", "./drive"]):
        if subprocess.run(["go", "build"] + a, cwd=d, env=e).returncode:
            print("build of the Go library failed")
            sys.exit(3)


def build(h, prop=None):
    d, feats, _, tgt = H[h]
    if h == "wrap":
        go()
    lock = os.path.join(ROOT, "mc", d, "Cargo.lock")
    with open(lock) as f:
        before = f.read()
    # all properties in one program; should that not build, this property alone
    tries = [feats, feats + [feature(h, prop)]] if prop and feature(h, prop) else [feats]
    if h in ("avx2", "avx512"):
        tries = [feats + ["p24"]]
    for f in tries:
        cmd = ["cargo", "build", "--release", "--offline", "-q"]
        if f != feats:
            cmd.append("--no-default-features")
        if f:
            cmd += ["--features", ",".join(f)]
        r = subprocess.run(cmd, cwd=os.path.join(ROOT, "mc", d), env=env(h))
        if r.returncode == 0:
            break
    with open(lock) as f:
        if f.read() != before and os.environ.get("MC_KEEP_LOCK"):
            print("note: Cargo.lock of", d, "changed")
    if r.returncode:
        print("build of", h, "failed")
        sys.exit(3)
    return os.path.join(BUILD, tgt, "release", d)


def main():
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        subprocess.check_call([sys.executable, os.path.join(ROOT, "mc", "gen_ws.py")])
        if sys.argv[1] == "--setup":
            for h in H:
                build(h)
            return 0
        prop = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
        exes = [(h, build(h, prop)) for h in PROPS[prop]]
    rc = 0
    for part, (h, x) in enumerate(exes):
        e = env(h)
        e["MC_PART"] = str(part)
        e["MC_HARNESS"] = h
        e.update({"MC_EXE_" + k: v for k, v in exes})
        why = None
        # a quick check has to answer within 900 s, the build included
        limit = max(60, min(480, 860 - int(time.time() - t0))) if tier == "quick" else 6 * 3600
        p = subprocess.Popen([x, prop, tier], env=e, cwd=ROOT, start_new_session=True)
        try:
            r = p.wait(timeout=limit)
            if r not in (0, 1):
                # the harness catches panics: it was ended by an abort, a stack overflow or a failed allocation
                why = f"the code under test ended the process (status {r})"
        except subprocess.TimeoutExpired:
            why = f"the code under test did not finish within {limit} s (a passing run takes a small fraction of that)"
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        if why:
            d = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, f"{prop}-{h}-ended.json")
            with open(f, "w") as o:
                json.dump({"property": prop, "key": "ended", "what": why, "how": f"bash mc/run.sh {prop} {tier}"}, o)
            print(f"VIOLATION property={prop} replay={f}\n  {why}")
            r = 1
        rc = max(rc, r)
    return rc


sys.exit(main())
