#!/usr/bin/env python3
"""Planted bugs (development only): plants.py make ID... writes seeded/ID from the spec below."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
P = {}
def bug(id, prop, edits, demo, needs, breaks, kind="starky", flags=""):
    P[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, kind=kind, flags=flags)
for f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "plants"))):
    if f.endswith(".py"):
        exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "plants", f)).read(), f, "exec"))

def make(i):
    b = P[i]
    R = "/tmp/plant/repo"
    subprocess.check_call(f"rm -rf {R}; git clone -q /repo {R}", shell=True)
    for f, old, new, *cnt in b["edits"]:
        s = open(f"{R}/{f}").read()
        n = s.count(old)
        want = cnt[0] if cnt else 1
        assert n == want, (i, f, old, n)
        open(f"{R}/{f}", "w").write(s.replace(old, new))
    open("/tmp/plant/demo.rs", "w").write(b["demo"])
    plant.new(i, b["prop"], b["kind"], b["flags"])
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{plant.SEED}/{i}/meta.json", "w"), indent=1)

if __name__ == "__main__":
    ids = sys.argv[2:] or [i for i in P]
    for i in ids:
        make(i)
        if sys.argv[1] == "try":
            import shutil
            R = f"/tmp/plant/try_{i}"
            subprocess.check_call(f"rm -rf {R}; git clone -q /repo {R}", shell=True)
            o = []
            for patched in (0, 1):
                if patched:
                    subprocess.check_call(f"git -C {R} apply {plant.SEED}/{i}/patch.diff", shell=True)
                r = subprocess.run(["bash", f"{plant.SEED}/{i}/demo.sh"], cwd=R, capture_output=True, text=True)
                o.append(r.returncode)
                if r.returncode != 0:
                    print(i, "patched" if patched else "clean", (r.stdout + r.stderr)[-600:])
            print("TRY", i, o, flush=True)
            shutil.rmtree(R)
        if sys.argv[1] == "verify":
            plant.verify(i)
