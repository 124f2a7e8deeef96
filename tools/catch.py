#!/usr/bin/env python3
"""Runs the own check of planted bugs, on copies of /repo and /verif:  catch.py [ID ...]
Results go to tools/catches.json (which check.py never reads)."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
WORK = "/tmp/catchwork"
OUT = os.path.join(VERIF, "tools", "catches.json")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, errors="replace", **kw)


def main(ids):
    ids = ids or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    os.makedirs(WORK, exist_ok=True)
    for name in ("verif", "repo"):
        if os.path.isdir(f"{WORK}/{name}"):
            shutil.rmtree(f"{WORK}/{name}")
    subprocess.run(["cp", "-a", "/repo", WORK + "/repo"], check=True)
    sh(["git", "checkout", "-q", "--", "."], WORK + "/repo")
    subprocess.run(["git", "clone", "-q", VERIF, WORK + "/verif"], check=True)
    subprocess.run(["bash", "setup.sh"], cwd=WORK + "/verif", check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for b in ids:
        d = os.path.join(VERIF, "seeded", b)
        prop = json.load(open(d + "/meta.json"))["property"]
        r = sh(["git", "apply", d + "/patch.diff"], WORK + "/repo")
        if r.returncode:
            print(b, "does not apply", flush=True)
            continue
        t = time.time()
        r = sh([sys.executable, "check.py", prop], WORK + "/verif", env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
        secs = round(time.time() - t)
        sh(["git", "checkout", "-q", "--", "."], WORK + "/repo")
        m = re.search(r"VIOLATION property=(\w+) replay=\S*/C\d+-(.*)-\d+-\d+\.json", r.stdout)
        res = dict(property=prop, caught=r.returncode == 1 and bool(m), by=m.group(2) if m else None, exit=r.returncode, seconds=secs)
        print(b, json.dumps(res), flush=True)
        done = json.load(open(OUT)) if os.path.exists(OUT) else {}
        done[b] = res
        json.dump(done, open(OUT, "w"), indent=1, sort_keys=True)
    shutil.rmtree(WORK)


main(sys.argv[1:])
