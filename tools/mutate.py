#!/usr/bin/env python3
"""mutate.py OUT FILE[:PROPS] ... (development only): single-token mutations of FILE in /tmp/mut/repo, each run
through the quick checks of the properties anchored there (by a copy of /verif in /tmp/mut/verif); survivors are listed."""
import json, os, random, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
REPO, V = "/tmp/mut/repo", "/tmp/mut/verif"
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
       (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r"\b0\.\.", "1.."), (r"\.\.=", ".."),
       (r" % ", " / "), (r" / ", " * "), (r" << ", " >> "), (r" >> ", " << "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"), (r"\+= ", "-= "), (r"-= ", "+= "), (r"\*= ", "+= "), (r"\b1\b", "2"), (r"\b2\b", "3"),
       (r"\b3\b", "2"), (r"\b4\b", "3"), (r"\b0\b", "1"), (r"\b8\b", "7"), (r"\b12\b", "11"), (r"\b16\b", "15"), (r"\bcontinue;", ";"), (r"\bmax\(", "min("), (r"\bmin\(", "max("),
       (r"ZERO", "ONE"), (r"ONE", "ZERO"), (r"\.is_empty\(\)", ".is_empty() == false"), (r"\.push\(", ".insert(0, ")]


def sites(path):
    out = []
    src = open(path).read().split("\n")
    stop = next((i for i, l in enumerate(src) if "#[cfg(test)]" in l), len(src))
    skip = 0
    for i, l in enumerate(src[:stop]):
        t = l.strip()
        if re.search(r"cfg\(.*(avx|mc_)", t):
            skip = 3
        if skip:
            skip -= 1
            continue
        if not t or t.startswith(("//", "use ", "#", "log::", "pub struct", "println", "assert", "///", "debug!", "impl", "fn ", "pub fn")) or "log::" in t or "anyhow!" in t or "format!" in t:
            continue
        c = l.split("//")[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, c):
                out.append((i, c[: m.start()] + rep + c[m.end():], l))
        if re.match(r"^[\w\.\[\]\* ]+(\.push|\.put|\.extend|\.append|\.insert)?.*;$", t) and not re.match(r"^(let|return|break|continue|\}|pub|mod|const|static)", t):
            out.append((i, " " * (len(l) - len(l.lstrip())) + "{}", l))
    return out


def main():
    out = open(sys.argv[1], "a")
    per = int(os.environ.get("PER", "10"))
    where = {}
    for p in props.PROPS:
        for f in p["files"]:
            where.setdefault(f, []).append(p["id"])
    for a in sys.argv[2:]:
        f, _, ps = a.partition(":")
        ps = ps.split(",") if ps else where[f]
        path = os.path.join(REPO, f)
        subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
        s = sites(path)
        random.Random(os.environ.get("SEED", "1") + f).shuffle(s)
        text = open(path).read().split("\n")
        done = 0
        for i, new, old in s:
            if done >= per:
                break
            t = list(text)
            t[i] = new
            open(path, "w").write("\n".join(t))
            res = "SURVIVED"
            for p in ps:
                try:
                    r = subprocess.run(["python3", V + "/mc/run.py", p, "quick"], cwd=V, env={**os.environ, "MC_REPO": REPO}, capture_output=True, text=True, timeout=880)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 99
                if rc == 3:
                    res = None
                    break
                if rc:
                    res = f"caught by {p}" + ("" if rc == 1 else f" ({rc})")
                    break
            if res:
                done += 1
                out.write(f"{res} {f}:{i + 1}: {old.strip()}  ==>  {new.strip()}\n")
                out.flush()
        open(path, "w").write("\n".join(text))


main()
