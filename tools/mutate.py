#!/usr/bin/env python3
"""Small mechanical changes of /repo, against the checks:  mutate.py SEED COUNT [FILE ...]
Works on copies. A change counts if it compiles and the stable tests pass with it. Which check stops it, or that none does, goes to tools/mutants.json
(which no check reads): what survives is either no change of behaviour or a gap."""
import json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
WORK = "/tmp/mutwork"
OUT = os.path.join(VERIF, "tools", "mutants.json")
CHECKS = {
    "ngram/index.rs": "C06 C05 C07", "ngram/indexer.rs": "C04 C05 C07", "ngram/result_ranker.rs": "C07 C08",
    "js_interactable/feature_filter.rs": "C10", "js_interactable/category_handler.rs": "C13 C08 C14 C16", "js_interactable/tag_handler.rs": "C13 C08 C14 C16",
    "js_interactable/product_producer.rs": "C14 C11 C16", "lib.rs": "C16 C15 C18 C10 C09 C08 C07", "classic_indexes/order.rs": "C09 C01", "classic_indexes/mod.rs": "C01 C19",
    "classic_indexes/tag.rs": "C12 C01 C15 C08", "classic_indexes/categorical.rs": "C12 C01 C08 C19", "data/container.rs": "C01 C03 C11", "data/features.rs": "C10 C11 C02 C19 C03",
    "data/product.rs": "C20 C11 C01 C03 C04", "data/raw_parser.rs": "C18 C11 C12 C09", "data/vendor.rs": "C11 C01 C19", "serialize/primitives.rs": "C02 C03",
    "serialize/collections.rs": "C17 C02 C03", "serialize/nodes.rs": "C01 C19 C03", "serialize/all_indexes.rs": "C01 C19 C03", "serialize/sequential_array.rs": "C02 C01", "main.rs": "C21",
}
RULES = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" \+ 1\b", " + 2"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" \+= ", " -= "), (r" \+= 1\b", " += 2"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.reverse\(\)", ""), (r"\.rev\(\)", ""), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().take(64)"), (r"\.into_iter\(\)", ".into_iter().skip(1)"),
    (r"\b(\d+)\b(?!\.|_|u8|u64)", lambda m: str(int(m.group(1)) + 1)), (r"\b0\.8\b", "0.79"), (r"\b0\.8\b", "0.84"), (r"\b1\.0\b", "0.99"), (r"\.first\(\)", ".last()"), (r"contains\(", "is_empty() || !self.active.contains("),
    (r">>", "<<"), (r" \| ", " ^ "), (r" & ", " | "), (r"swap_remove\(", "remove("), (r"\.min\(", ".max("), (r"if let Some", "if let Some"), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"),
    (r"\.sort\w*\([^;]*\);", ";"), (r"\.clone\(\)", ".clone()"), (r"&self\.", "&self."), (r"front", "back"), (r"\bOccupied\b", "Occupied"), (r"zip\(", "skip(1).zip("), (r"unwrap_or\(0", "unwrap_or(1"), (r"if (.*) \{$", r"if !(\1) {"),
]


def sites():
    out = []
    for f in CHECKS:
        src = open("/repo/src/" + f).read()
        body = re.split(r"#\[cfg\(test\)\]|#\[test\]", src)[0]
        for n, line in enumerate(body.split("\n")):
            code = line.split("//")[0]
            if not code.strip() or code.strip().startswith(("use ", "pub use", "mod ", "pub mod", "#[", "#!")):
                continue
            for a, b in RULES:
                for m in re.finditer(a, code):
                    new = code[:m.start()] + re.sub(a, b, m.group(0), count=1) + code[m.end():]
                    if new != code:
                        out.append((f, n, new))
            if re.match(r"\s*[a-z_][\w.]*(\(.*\)|\s[-+|&>]*=.*);$", code) and not code.strip().startswith("let"):
                out.append((f, n, ""))
    return sorted(set(out))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, errors="replace", **kw)


def main():
    seed, count, only = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    env = {**os.environ, "PATH": "/root/.cargo/bin:" + os.environ["PATH"], "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true", "RUSTC_WRAPPER": "",
           "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "CARGO_RESOLVER_LOCKFILE_PATH": WORK + "/lock/Cargo.lock"}
    stable = [s.split("lib.rs::")[1] for s in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
    if os.path.isdir(WORK):
        shutil.rmtree(WORK)
    os.makedirs(WORK + "/lock")
    subprocess.run(["cp", "-a", "/repo", WORK + "/repo"], check=True)
    sh(["git", "checkout", "-q", "--", "."], WORK + "/repo")
    shutil.copy(WORK + "/repo/Cargo.lock", WORK + "/lock/Cargo.lock")
    subprocess.run(["git", "clone", "-q", VERIF, WORK + "/verif"], check=True)
    subprocess.run(["bash", "setup.sh"], cwd=WORK + "/verif", check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    all_sites = [s for s in sites() if not only or s[0] in only]
    random.Random(seed).shuffle(all_sites)
    print(len(all_sites), "sites", flush=True)
    done = json.load(open(OUT)) if os.path.exists(OUT) else []
    known = {(d["file"], d["old"], d["new"]) for d in done}
    n = 0
    for f, line, new in all_sites:
        if n == count:
            break
        p = f"{WORK}/repo/src/{f}"
        src = open(p).read()
        lines = src.split("\n")
        old = lines[line]
        if (f, old.strip(), new.strip()) in known:
            continue
        lines[line] = new
        open(p, "w").write("\n".join(lines))
        try:
            r = sh(["cargo", "check", "--features", "indexing", "--offline", "--quiet"], WORK + "/repo", env=env)
            if r.returncode:
                continue
            try:
                r = sh(["cargo", "test", "--lib", "--offline", "--quiet"], WORK + "/repo", env=env, timeout=60)
            except subprocess.TimeoutExpired:
                continue
            if any(f"{t} ... FAILED" in r.stdout or re.search(rf"^    {re.escape(t)}$", r.stdout, re.M) for t in stable):
                continue
            n += 1
            t0, by = time.time(), None
            for c in CHECKS[f].split():
                try:
                    r = sh([sys.executable, "check.py", c], WORK + "/verif", env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"}, timeout=400)
                except subprocess.TimeoutExpired:
                    by = c + " (no answer)"
                    break
                if r.returncode:
                    by = c if r.returncode == 1 else f"{c} ({r.returncode})"
                    break
            d = dict(file=f, line=line + 1, old=old.strip(), new=new.strip(), by=by)
            print(round(time.time() - t0), json.dumps(d), flush=True)
            done.append(d)
            json.dump(done, open(OUT, "w"), indent=1)
        finally:
            open(p, "w").write(src)
    shutil.rmtree(WORK)


main()
