#!/usr/bin/env python3
"""Development aid, not a check: runs checks against planted bugs, in scratch copies of /repo and /verif.

usage: sweep.py [-a] [-t] ID...      (no ID: all of /verif/seeded; -a: every check, not only the bug's own; DIR=... other place of bugs)
"""
import json, os, re, shutil, subprocess, sys, time
DIR = os.environ.get("DIR", "/verif/seeded")
W = "/tmp/sweep"
allp = "-a" in sys.argv
only = [a[2:].split(",") for a in sys.argv[1:] if a.startswith("-p")]
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(DIR))
V, R = W + "/verif", W + "/repo"
os.makedirs(W, exist_ok=True)
if not os.path.exists(R):
    subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
subprocess.run(["git", "-C", R, "pull", "-q"], check=True)
shutil.copy("/repo/Cargo.lock", R) if os.path.exists("/repo/Cargo.lock") else None
os.makedirs(V, exist_ok=True)
for x in ("check.py", "mc", "known-findings.txt"):
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "/verif/" + x, V + "/"]) if shutil.which("rsync") else subprocess.run(f"rm -rf {V}/{x}; cp -a /verif/{x} {V}/", shell=True)
for f in ("mc/build.sh", "mc/Cargo.toml", "mc/Cargo.lock"):
    if os.path.exists(f"{V}/{f}"):
        s = open(f"{V}/{f}").read().replace("/verif/", V + "/").replace('"/repo"', f'"{R}"')
        open(f"{V}/{f}", "w").write(s)
for i in ids:
    meta = json.load(open(f"{DIR}/{i}/meta.json"))
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    p = subprocess.run(["git", "-C", R, "apply", f"{DIR}/{i}/patch.diff"])
    if p.returncode:
        print(i, "patch does not apply"); continue
    # only the lines of the original repository count
    base = "81ff56f"
    props = only[0] if only else [f"C{k:02}" for k in range(1, 40)] if allp else [meta["property"]]
    have = set(json.loads(l)["id"] for l in open("/verif/properties.jsonl"))
    res = []
    for pr in props:
        if pr not in have: continue
        t = time.time()
        q = subprocess.run(["python3", V + "/check.py", pr] + (["--thorough"] if "-t" in sys.argv else []), capture_output=True, text=True)
        m = re.search(r"^" + pr + r" \((\w+)\): (.*)", q.stdout, re.M)
        res.append((pr, q.returncode, round(time.time() - t), m.group(0)[:110] if m else q.stdout.strip()[-160:] if q.returncode else ""))
    own = [r for r in res if r[0] == meta["property"]]
    print(i, meta["property"], "CAUGHT" if own and own[0][1] == 1 else "MISSED" if own and own[0][1] == 0 else "ERR" if own else "-",
          (own[0][2], own[0][3]) if own else "", "all:" + ",".join(r[0] for r in res if r[1] == 1) + (" ODD:" + ",".join(r[0] for r in res if r[1] > 1) if any(r[1] > 1 for r in res) else ""), flush=True)
subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
