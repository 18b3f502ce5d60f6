#!/usr/bin/env python3
"""Runs checks against a changed copy of /repo, away from /repo and /verif.

    trial.py SLOT PATCH|-|revert:COMMIT PROP..       (results on stdout; the copy lives in /tmp/trial-SLOT)
"""
import glob, os, shutil, subprocess, sys, time
slot, patch, props = sys.argv[1], sys.argv[2], sys.argv[3:]
base = f"/tmp/trial-{slot}"
repo, verif = base + "/repo", base + "/verif"
os.makedirs(base, exist_ok=True)
def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
sh("rsync", "-a", "--delete", "--exclude", "target", "/repo/", repo) if shutil.which("rsync") else None
if not shutil.which("rsync"):
    shutil.rmtree(repo, ignore_errors=True)
    shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("target"))
if patch.startswith("revert:"):
    r = sh("git", "revert", "--no-commit", patch[7:], cwd=repo)
    if r.returncode: sys.exit("revert failed: " + r.stdout)
elif patch != "-":
    r = sh("git", "apply", os.path.abspath(patch), cwd=repo)
    if r.returncode: sys.exit("patch failed: " + r.stdout)
os.makedirs(verif, exist_ok=True)
for n in os.listdir(verif):
    if n != ".build":
        p = os.path.join(verif, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
for n in ("check.py", "MANIFEST.json", "known-findings.json"):
    shutil.copy("/verif/" + n, verif)
shutil.copytree("/verif/harness", verif + "/harness", ignore=shutil.ignore_patterns("target"))
if not os.environ.get("NO_REGRESSIONS"):
    shutil.copytree("/verif/regressions", verif + "/regressions")
t = open(verif + "/harness/Cargo.toml").read().replace('"/repo', f'"{repo}')
open(verif + "/harness/Cargo.toml", "w").write(t)
if not os.path.isdir(verif + "/.build") and os.path.isdir("/verif/.build"):
    shutil.copytree("/verif/.build", verif + "/.build", ignore=shutil.ignore_patterns("dev"))
env = dict(os.environ, FM_REPO=repo)
for p in props:
    s = time.time()
    r = sh("python3", "check.py", p, cwd=verif, env=env)
    v = "CAUGHT" if r.returncode == 1 and f"VIOLATION property={p} " in r.stdout else "quiet" if r.returncode == 0 else f"ERROR {r.returncode}"
    print(f"{os.path.basename(os.path.dirname(patch)) or patch} {p}: {v} ({time.time()-s:.0f} s)", flush=True)
    if v != "quiet" or os.environ.get("V"):
        print("   " + r.stdout.strip()[-int(os.environ.get("LEN", "600")):].replace("\n", "\n   "), flush=True)
