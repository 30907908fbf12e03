#!/usr/bin/env python3
"""Lays out /verif/build/ws: the crates of /repo's current working tree, made buildable offline.

Every source file that gets compiled is a copy of the one in /repo, rewritten when the content
differs (so that cargo notices a change whatever its time stamp); data folders are symlinks.
Changed on the way are only
  - the Cargo.toml's: git dependencies become path dependencies on the stand-ins in mc/stubs, or the
    published version of the same crate (bellperson)
  - recursion-gnark/ffi/src/lib.rs: without the module that links the Go library.
/verif/build/ws_sched holds fields and starky once more, with starky's std::sync replaced by mc/sync
(the same under a controlled scheduler).
Files are rewritten only when their content changes, so that cargo works incrementally."""
import os, re, shutil, sys

REPO = os.environ.get("MC_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = os.environ.get("MC_WS", os.path.join(ROOT, "build", "ws"))
STUBS = os.environ.get("MC_STUBS", os.path.join(ROOT, "mc", "stubs"))

CRATES = {
    "fields": {"skip": set()},
    "starky": {"skip": {"benches", "tests", "data"}},
    "algebraic": {"skip": set()},
    "algebraic-gpu": {"skip": set()},
    "recursion": {"skip": set()},
    # itertools 0.12 (which the crate lists and does not use) is not available offline
    "zkvm": {"skip": {"program", "test-vectors"}, "manifest": [(r'(?m)^itertools *= *"0\.12[^"]*"', 'itertools = "0.10"')]},
    # the configuration over BLS12-381 (the other one needs franklin-crypto's curves), on the CPU
    "groth16": {
        "skip": {"test-vectors"},
        "manifest": [
            (r'(?m)^bellperson *=.*$', 'bellperson = { version = "0.26", default-features = false, features = ["groth16"], optional = true }'),
            (r'(?m)^franklin-crypto *=.*$', ""),
            (r'(?m)^regex *=.*$', 'regex = "1"'),
            (r'"(bellperson|algebraic-gpu)/opencl"', r'"\1"'),
        ],
    },
    "recursion-gnark/ffi": {"skip": {"build.rs", "go"}},
    # the same with the module that links the Go library, the library's source (over the stand-ins in mc/stubs/go
    # for gnark) and the command line
    "recursion-gnark/ffi_go": {"from": "recursion-gnark/ffi", "skip": {"build.rs", "go"}, "keep": {"build.rs"}},
    "recursion-gnark/go": {"from": "recursion-gnark/ffi/go", "skip": {"go.mod", "go.sum"}, "manifest": None,
                           "keep": {"go.mod", "drive", "libeigengnark.a", "libeigengnark.h", "godrive"}},
    "recursion-gnark/cli": {"skip": set()},
    # the example state machines, over stand-ins for pilcom and pil-stark
    "starkjs": {"skip": {"node_modules", "package-lock.json"}, "manifest": None, "keep": {"node_modules"}, "copy": True},
    # the command line and the compiler's driver, over stand-ins for clap, circom's stages and wast
    "zkit": {"skip": set()},
    "dsl_compile": {
        "skip": set(),
        "manifest": [
            (r'(?m)^(dag|lalrpop-util) *=.*$', ""),
            (r'(?m)^(ansi_term|wast|parser|program_structure|type_analysis|constraint_generation|constraint_writers|compiler) *=.*$',
             lambda m: '%s = { path = "%s/cli/%s" }' % (m[1], STUBS, m[1])),
        ],
    },
}

GIT = {
    "franklin-crypto": 'franklin-crypto = { path = "%s/franklin-crypto", features = ["plonk"] }' % STUBS,
    "profiler_macro": 'profiler_macro = { path = "%s/profiler_macro" }' % STUBS,
    "powdr": 'powdr = { path = "%s/powdr" }' % STUBS,
    "powdr-parser-util": 'powdr-parser-util = { path = "%s/powdr-parser-util" }' % STUBS,
}


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.unlink(path)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def copy(src, path, change=None):
    if os.path.islink(path):
        os.unlink(path)
    with open(src, "rb") as f:
        data = f.read()
    if change:
        data = change(data)
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    with open(path, "wb") as f:
        f.write(data)


def link(target, path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        if os.readlink(path) == target:
            return
        os.unlink(path)
    elif os.path.isdir(path):
        shutil.rmtree(path)
    elif os.path.exists(path):
        os.unlink(path)
    os.symlink(target, path)


def manifest(text):
    out = []
    section = ""
    for line in text.splitlines(keepends=True):
        m = re.match(r"\s*\[+([\w\-.]+)\]+", line)
        if m:
            section = m[1]
        if section in ("dev-dependencies", "bench", "build-dependencies"):
            continue  # not needed by the harnesses (they only use the libraries)
        name = re.match(r"([\w-]+)\s*=\s*[\"{]", line)
        if name and name[1] in GIT and section == "dependencies":
            line = GIT[name[1]] + "\n"
        elif re.match(r"[\w-]+\s*=\s*\[", line) and section == "features":
            line = re.sub(r'"(?:franklin-crypto|powdr|powdr-parser-util)(/[^"]*)?"\s*,?\s*', "", line)
        out.append(line)
    return "".join(out)


def mirror(src, dst, rel, cfg):
    """symlink tree: real directories, symlinked files."""
    keep = set()
    for name in sorted(os.listdir(src)):
        r = os.path.join(rel, name) if rel else name
        if name in cfg["skip"] or name in ("target", "Cargo.toml"):
            continue
        s, d = os.path.join(src, name), os.path.join(dst, name)
        if os.path.isdir(s):
            keep.add(name)
            if rel == "" and name not in ("src", "eigen") and not cfg.get("copy"):
                link(s, d)
            else:
                if os.path.islink(d):
                    os.unlink(d)
                os.makedirs(d, exist_ok=True)
                mirror(s, d, r, cfg)
        else:
            keep.add(name)
            copy(s, d, cfg.get("change") if name.endswith(".rs") else None)
    for name in os.listdir(dst):
        if name not in keep and name not in ("Cargo.toml", "Cargo.lock") and not (rel == "" and name in cfg.get("keep", ())):
            d = os.path.join(dst, name)
            if os.path.isdir(d) and not os.path.islink(d):
                shutil.rmtree(d)
            else:
                os.unlink(d)


def main():
    for crate, cfg in CRATES.items():
        src, dst = os.path.join(REPO, cfg.get("from", crate)), os.path.join(WS, crate)
        os.makedirs(dst, exist_ok=True)
        mirror(src, dst, "", cfg)
        if cfg.get("manifest", ()) is None:
            continue
        with open(os.path.join(src, "Cargo.toml")) as f:
            t = f.read()
        for a, b in cfg.get("manifest", ()):
            t = re.sub(a, b, t)
        write(os.path.join(dst, "Cargo.toml"), manifest(t))
        lib = os.path.join(dst, "src/lib.rs")
        if crate == "recursion-gnark/ffi":
            with open(os.path.join(src, "src/lib.rs")) as f:
                t = f.read()
            write(lib, re.sub(r"(?m)^(\s*pub mod ffi;)", r"// \1", t))
    link(os.path.join(STUBS, "js"), os.path.join(WS, "starkjs", "node_modules"))
    if os.path.isdir(os.path.join(STUBS, "go")):
        wrap()
    if "MC_WS" not in os.environ:
        sched()


def wrap():
    go = os.path.join(WS, "recursion-gnark")
    with open(os.path.join(STUBS, "go/build.rs")) as f:
        write(os.path.join(go, "ffi_go/build.rs"), f.read())
    deps = ("gnark", "gnark-crypto")
    write(os.path.join(go, "go/go.mod"), "module github.com/0xEigenLabs/eigen-recursion-gnark\n\ngo 1.23\n\n"
          + "".join("require github.com/consensys/%s v0.0.0\n" % d for d in deps) + "\n"
          + "".join("replace github.com/consensys/%s => %s/go/%s\n" % (d, STUBS, d) for d in deps))
    os.makedirs(os.path.join(go, "go/drive"), exist_ok=True)
    copy(os.path.join(STUBS, "go/drive/main.go"), os.path.join(go, "go/drive/main.go"))


def sched():
    ws = WS + "_sched"
    for crate in ("fields", "starky"):
        cfg = dict(CRATES[crate])
        if crate == "starky":
            cfg["change"] = lambda b: re.sub(rb"(?:::)?\bstd::sync\b", b"mc_sync", b)
        src, dst = os.path.join(REPO, crate), os.path.join(ws, crate)
        os.makedirs(dst, exist_ok=True)
        mirror(src, dst, "", cfg)
        with open(os.path.join(src, "Cargo.toml")) as f:
            t = manifest(f.read())
        if crate == "starky":
            t = t.replace("[dependencies]\n", '[dependencies]\nmc_sync = { path = "%s" }\n' % os.path.join(ROOT, "mc", "sync"), 1)
        write(os.path.join(dst, "Cargo.toml"), t)


main()
