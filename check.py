#!/usr/bin/env python3
"""Decides one property: builds the explorer from /repo's working tree, runs it, writes the evidence.

usage: check.py PROPERTY [--thorough]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict (e.g. the build failed)
"""
import json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "out")
EVID = os.path.join(HERE, "evidence")
VARIANTS = ["small", "real"]


def binary(v):
    return os.path.join(HERE, "target", v, "release", "mc")


def build():
    p = subprocess.run(["bash", os.path.join(HERE, "mc", "build.sh")], capture_output=True, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout + p.stderr)
        print("the explorer does not build against /repo's working tree")
        sys.exit(2)


def slot_replay(path):
    """A journal slot left by a crash: the operation under way, then the history it ran on."""
    try:
        text = open(path, "rb").read().decode("utf-8", "replace")
    except OSError:
        return None
    m = re.match(r"cur (.*?) #\n", text)
    i = text.find("engine ")
    if not m or i < 0:
        return None
    out = []
    for line in text[i:].splitlines():
        if line.startswith("ops "):
            line = line + (";" if line != "ops " else "") + m.group(1)
        out.append(line)
    return "\n".join(out) + "\n"


def violation(prop, variant, replay, msg):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, f"{prop}-{variant}.replay")
    with open(path, "w") as f:
        f.write(replay)
    print(f"{prop} ({variant}): {msg}")
    print(f"replay with: {os.path.relpath(binary(variant), HERE)} replay {os.path.relpath(path, HERE)}")
    print(f"VIOLATION property={prop} replay={path}")


def explore(prop, variant, thorough, secs):
    """(scenario reports, violation or None)"""
    jdir = os.path.join("/dev/shm" if os.path.isdir("/dev/shm") else OUT, f"mc-journal-{os.getpid()}-{variant}")
    os.makedirs(jdir, exist_ok=True)
    cmd = [binary(variant), "run", prop, "--secs", str(secs), "--journal", jdir] + (["--thorough"] if thorough else [])
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, text=True, errors="replace")
        try:
            out, _ = p.communicate(timeout=secs * 1.5 + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            print(f"{prop} ({variant}): the explorer did not stop by itself")
            return [json.loads(l[5:]) for l in out.splitlines() if l.startswith("SCEN ")], None, "no verdict"
        scen = [json.loads(l[5:]) for l in out.splitlines() if l.startswith("SCEN ")]
        rep = ""
        if "REPLAY-BEGIN\n" in out:
            rep = out.split("REPLAY-BEGIN\n", 1)[1].split("REPLAY-END", 1)[0]
        if p.returncode == 0:
            return scen, None, None
        if p.returncode == 1 and rep:
            msg = next((l[6:] for l in out.splitlines() if l.startswith("FOUND ")), "")
            return scen, (rep, msg), None
        if p.returncode == 3 and "engine " in rep:
            s = next((l[5:] for l in out.splitlines() if l.startswith("HANG ")), "?")
            # an operation that never comes back: confirm it on its own
            if crash_confirmed(variant, rep, jdir):
                return scen, (rep, f"an operation did not come back (seen for {s} s)"), None
            return scen, None, "an operation took too long in the explorer, but not on its own"
        # the process died: find the operation that does it
        for w in sorted(os.listdir(jdir)):
            r = slot_replay(os.path.join(jdir, w))
            if r and crash_confirmed(variant, r, jdir):
                return scen, (r, "an operation crashes the process or does not come back"), None
        return scen, None, f"the explorer ended with {p.returncode}"
    finally:
        shutil.rmtree(jdir, ignore_errors=True)


def crash_confirmed(variant, replay, jdir):
    f = os.path.join(jdir, "confirm")
    with open(f, "w") as h:
        h.write(replay)
    try:
        p = subprocess.run(["prlimit", "--as=8000000000", binary(variant), "replay", f], capture_output=True, timeout=20)
        return p.returncode not in (0, 2)
    except subprocess.TimeoutExpired:
        return True


def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv[2:]
    t0 = time.time()
    build()
    budget = 5400 if thorough else 420
    scen, found, err = [], None, None
    start = time.time()
    for v in VARIANTS:
        left = max(30, int(budget - (time.time() - start)))
        s, viol, e = explore(prop, v, thorough, left if v == VARIANTS[-1] else max(30, left * 2 // 3))
        scen += s
        err = err or e
        if viol:
            found = (v,) + viol
            break
    if found:
        err = None
    tot = lambda k: sum(s[k] for s in scen)
    samples = [f"[{s['variant']}] {s['scenario']}: {x}" for s in scen for x in s["samples"][-1:] if x]
    ev = {
        "property": prop,
        "tier": "thorough" if thorough else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": tot("states"),
            "transitions": tot("transitions"),
            "traces_validated_against_impl": tot("validated"),
            "samples": (samples or ["(no scenario finished before the violation)"])[:12],
            "states_expanded": tot("expanded"),
            "transitions_judged": tot("judged"),
            "deepest_tree_levels": max([s["tree_levels"] for s in scen] or [0]),
            "largest_tree_elements": max([s["max_leaves"] for s in scen] or [0]),
            "exhaustive": bool(scen) and all(s["complete"] for s in scen) and not found and not err,
            "explanation": "Every operation of each scenario's alphabet, with every argument of its small domain, is executed on the real crate "
            "from every distinct state reached (states are merged by a canonical form of the real tree), up to the scenario's size bound or depth; "
            "states = distinct real states, transitions = executions of one operation on the real code, transitions_judged = those whose whole effect "
            "was compared with the reference; traces_validated_against_impl = histories re-executed from a new container on one instance, ending in "
            "the state recorded for them.",
            "scenarios": [{k: s[k] for k in s if k != "samples"} for s in scen],
        },
        "assumptions": [
            "sizes, depths and element kinds stay within the bounds listed per scenario",
            "the variant 'small' runs the same code with node fan-out 5 and rope chunk 4 (cfg vp_small), 'real' with the shipped constants",
            "states with equal canonical form have equal futures (argued in DESIGN.md; states for which that could fail are kept apart)",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if found else 0,
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"{prop}: {ev['coverage']['states']} states, {ev['coverage']['transitions']} transitions ({ev['coverage']['transitions_judged']} judged), "
        f"{ev['coverage']['traces_validated_against_impl']} traces validated, {len(scen)} scenarios"
        + ("" if ev["coverage"]["exhaustive"] else ", NOT exhaustive within the bounds") + f", {ev['wall_s']} s"
    )
    if found:
        violation(prop, *found)
        sys.exit(1)
    if err:
        print(f"{prop}: no verdict: {err}")
        sys.exit(2)


main()
