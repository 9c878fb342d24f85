#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from the descriptions in defs.py and confirms each one.
usage: mkseed.py ID... [--check]   (--check also runs the property's check against /repo with the patch)"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from defs import SEEDS
SC, TARGET, BASE = "/tmp/sc", "/tmp/sc-target", "bf52979"
env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=TARGET)
sh = lambda c, cwd=SC, **k: subprocess.run(c, shell=isinstance(c, str), cwd=cwd, env=env, capture_output=True, text=True, **k)

def fresh():
    if not os.path.exists(SC):
        shutil.copytree("/repo", SC, ignore=shutil.ignore_patterns("target"), symlinks=True)
    sh("git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git checkout -q -- . ")

def tests():
    r = sh("cargo test --workspace --all-features --lib --bins --examples --test custom --offline --no-fail-fast -- --test-threads 8")
    r2 = sh("cargo test --workspace --all-features --doc --offline --no-fail-fast -- --test-threads 8")
    bad = [l for l in (r.stdout + r2.stdout).splitlines() if l.endswith("FAILED") or "... FAILED" in l]
    return r.returncode == 0 and r2.returncode == 0, bad or (r.stderr + r2.stderr)[-1500:]

def make(name, check):
    d = SEEDS[name]
    fresh()
    out = f"/verif/seeded/{name}"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    for file, old, new in d["edits"]:
        p = f"{SC}/{file}"
        s = open(p).read()
        if s.count(old) != 1:
            return f"{s.count(old)} matches of the edit in {file}"
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff").stdout
    # every removed line (or the line before a pure insertion) is of the original repository
    for file in {e[0] for e in d["edits"]}:
        blame = sh(f"git -C /repo blame -s --abbrev=7 {file}").stdout.splitlines()
        orig = {l.split(")", 1)[0].split()[-1] for l in blame if l.lstrip("^").startswith(BASE[:6])}
        n, seen = 0, False
        for l in sh(f"git diff -U0 {file}").stdout.splitlines():
            if l.startswith("@@"):
                n = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-") and not l.startswith("---"):
                seen |= str(n) in orig
                if str(n) not in orig and l[1:].strip() not in ("", "}"):
                    print("   note: not an original line:", l)
                n += 1
        if not seen:
            return "changes no original line of " + file
    open(f"{out}/patch.diff", "w").write(diff)
    for f in ("demo.sh", "main.rs"):
        shutil.copy(f"{here}/demo/{f}", out)
    os.chmod(f"{out}/demo.sh", 0o755)
    json.dump(d["cases"], open(f"{out}/cases.json", "w"), indent=1)
    sh("git checkout -q -- .")
    if "demo" in d:      # a demonstration of its own
        for f, t in d["demo"].items():
            open(f"{out}/{f}", "w").write(t)
    else:
        want = sh(["bash", f"{out}/demo.sh", "show"])
        if want.returncode:
            return "demo does not run: " + want.stdout + want.stderr
        want = want.stdout.split("\n--\n")
        for c, w in zip(d["cases"], want):
            c["want"] = w
        json.dump(d["cases"], open(f"{out}/cases.json", "w"), indent=1)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
    r = sh(["bash", f"{out}/demo.sh"])
    if r.returncode:
        return "demo fails on the unchanged tree: " + r.stdout + r.stderr
    for c in d["cases"]:
        print("   want", c.get("want", "")[:300])
    a = sh(["git", "apply", f"{out}/patch.diff"])
    if a.returncode:
        return a.stderr
    ok, bad = tests()
    r = sh(["bash", f"{out}/demo.sh"])
    print("  ", r.stdout[:1500].replace("\n", "\n   "))
    sh("git checkout -q -- .")
    if not ok:
        return f"tests fail: {bad}"
    if r.returncode in (0, 2, 124):
        return f"demo gives {r.returncode} with the patch: {r.stderr}"
    return run(name, d["property"]) if check else "made"

def run(name, prop):
    try:
        a = sh(["git", "apply", f"/verif/seeded/{name}/patch.diff"], cwd="/repo")
        if a.returncode:
            return a.stderr
        r = subprocess.run(["python3", "/verif/tools/check.py", prop], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        return f"{'CAUGHT' if r.returncode == 1 and v else 'MISSED'} by {prop}: exit {r.returncode} {v[:1]} {r.stderr[-300:] if r.returncode not in (0, 1) else ''}"
    finally:
        sh("git checkout -q -- .", cwd="/repo")

if __name__ == "__main__":
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    for n in names or sorted(SEEDS):
        print(n, flush=True)
        print("  ", run(n, SEEDS[n]["property"]) if "--only-check" in sys.argv else make(n, "--check" in sys.argv), flush=True)
