#!/usr/bin/env python3
"""Makes and verifies planted bugs:  seed.py BUGS.py [ID ...]
BUGS.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)], main (Rust body of the demonstration), needs, breaks.
A bug is kept as seeded/<id>/ once it compiles, passes the stable tests and its demonstration tells it from the original."""
import importlib.util, json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
WORK = "/tmp/seedwork"
ENV = {**os.environ, "PATH": "/root/.cargo/bin:" + os.environ["PATH"], "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
       "CARGO_NET_OFFLINE": "true", "RUSTC_WRAPPER": "", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only",
       "CARGO_RESOLVER_LOCKFILE_PATH": WORK + "/lock/Cargo.lock"}
STABLE = [s.split("::", 2)[2] if False else s.split("lib.rs::")[1] for s in json.load(open("/opt/vp/BASELINE.json"))["stable"]]


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, errors="replace", **kw)


def fresh():
    repo = WORK + "/repo"
    if not os.path.isdir(repo):
        os.makedirs(WORK, exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
    sh(["git", "fetch", "-q", "/repo", "HEAD"], repo)
    sh(["git", "reset", "-q", "--hard", "FETCH_HEAD"], repo)
    os.makedirs(WORK + "/lock", exist_ok=True)
    shutil.copy(repo + "/Cargo.lock", WORK + "/lock/Cargo.lock")
    return repo


def demo(d, repo):
    r = sh(["bash", os.path.join(d, "demo.sh")], repo, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-1500:]


def make(b):
    d = os.path.join(SEEDED, b["id"])
    repo = fresh()
    os.makedirs(d, exist_ok=True)
    if os.path.isdir(d + "/demo"):
        shutil.rmtree(d + "/demo")
    shutil.copytree(os.path.join(HERE, "demo"), d + "/demo", ignore=shutil.ignore_patterns("target", "demo.sh"))
    shutil.copy(os.path.join(HERE, "demo", "demo.sh"), d + "/demo.sh")
    with open(d + "/demo/src/main.rs", "w") as f:
        f.write("mod support;\nuse support::*;\n\n" + b["main"].strip() + "\n")
    code, out = demo(d, repo)
    if code != 0:
        return f"demonstration fails on the unchanged tree ({code}):\n{out}"
    for path, old, new in b["edits"]:
        p = os.path.join(repo, "src", path)
        s = open(p).read()
        if s.count(old) != 1:
            return f"{path}: {s.count(old)} matches of {old!r}"
        open(p, "w").write(s.replace(old, new))
    patch = sh(["git", "diff"], repo).stdout
    open(d + "/patch.diff", "w").write(patch)
    r = sh(["cargo", "test", "--workspace", "--all-targets", "--no-run", "--offline", "--quiet"], repo)
    if r.returncode == 0:
        r = sh(["cargo", "check", "--workspace", "--features", "indexing", "--offline", "--quiet"], repo)
    if r.returncode != 0:
        return "does not compile:\n" + r.stderr[-3000:]
    r = sh(["cargo", "test", "--lib", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], repo)
    bad = [t for t in STABLE if f"test {t} ... ok" not in r.stdout]
    if bad:
        return f"stable tests fail: {bad}\n{r.stdout[-1500:]}"
    code, out = demo(d, repo)
    if code == 0 or code == 3:
        return f"demonstration does not tell ({code}):\n{out}"
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return None


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for b in m.BUGS:
        if sys.argv[2:] and b["id"] not in sys.argv[2:]:
            continue
        why = make(b)
        print(b["id"], "kept" if why is None else "REFUSED: " + why, flush=True)
        if why:
            d = os.path.join(SEEDED, b["id"])
            shutil.rmtree(d)
    if os.path.isdir(WORK + "/repo"):
        fresh()


main()
