#!/usr/bin/env python3
"""Decides one property: model checks its part of the specification, drives the real library
(random histories, and every case the model checker visited), and has TLC validate what was recorded.

  check.py ID [--tier quick|thorough] [--seed N]
  check.py --replay FILE          drive and judge again the run a VIOLATION line names
Exit 0: held on everything explored.  1: VIOLATION line.  2: the check itself failed.
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
DRIVER = os.path.join(HARNESS, "target", "debug", "conformance")
OUT = os.path.join(HERE, "out")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = 7

sys.path.insert(0, HERE)
import literals  # noqa: E402
from plan import PLAN, TITLE  # noqa: E402


class Broken(Exception):
    """The check itself does not work."""


def cargo_env():
    """The toolchain /repo is built with (see /opt/vp/env.sh, which is not sourced: it writes in /opt/vp)."""
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env.setdefault("HOME", "/root")
    env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTC_WRAPPER"] = ""
    env["CARGO_INCREMENTAL"] = "1"
    for k in ("CARGO_RESOLVER_LOCKFILE_PATH", "CARGO_TARGET_DIR", "RUSTFLAGS"):
        env.pop(k, None)
    return env


def build(program=True):
    """The driver, and the repository's own indexing program where it is run."""
    bins = ["--bin", "conformance"] + (["--bin", "indexer"] if program else [])
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"] + bins, cwd=HARNESS, env=cargo_env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("the conformance driver does not build against /repo:\n" + r.stderr[-3000:])


def java(tmp, heap, workers, args, extra_env, timeout):
    meta = tempfile.mkdtemp(dir=tmp, prefix="meta")
    cmd = ["java", f"-Xmx{heap}m", "-Xss64m", f"-Djava.io.tmpdir={meta}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:CICompilerCount=2",
           "-cp", JAR, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers)] + args
    out = os.path.join(meta, "tlc.out")
    try:
        with open(out, "w") as f:
            r = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **extra_env}, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        code = r.returncode
    except subprocess.TimeoutExpired:
        code = -1
    return code, out, meta


def counts(path):
    gen = dist = 0
    with open(path) as f:
        for line in f:
            m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct", line)
            if m:
                gen, dist = (int(x.replace(",", "")) for x in m.groups())
    return gen, dist


def tail(path, n=2500):
    with open(path, errors="replace") as f:
        lines = [l for l in f if not re.match(r'<<"(CASE|SCRIPT|FILE|CATALOGUES)"', l)]
    return "".join(lines)[-n:]


def write_cases(tlc_out, dest):
    """Cases printed by a model, one JSON object per line."""
    n = 0
    with open(tlc_out) as f, open(dest, "w") as g:
        for line in f:
            m = re.match(r'<<"(CASE|FILE)", (".*")>>$', line)
            if m:
                g.write(json.loads(m.group(2)) + "\n")
                n += 1
    return n


def write_scripts(tlc_out, dest, limit, seed):
    """Scripts printed by a session model: those that are not the beginning of another."""
    cats, seen = None, set()
    with open(tlc_out) as f:
        for line in f:
            m = re.match(r'<<"(SCRIPT|CATALOGUES)", (".*")>>$', line)
            if m:
                v = json.loads(json.loads(m.group(2)))
                if m.group(1) == "CATALOGUES":
                    cats = v
                else:
                    seen.add(tuple(json.dumps(o, sort_keys=True) for o in v))
    begun = {k[:i] for k in seen for i in range(1, len(k))}
    ks = sorted((k for k in seen if k not in begun), key=lambda k: (len(k), k))
    total = len(ks)
    if limit and total > limit:
        import random
        ks = sorted(random.Random(seed).sample(ks, limit), key=lambda k: (len(k), k))
    with open(dest, "w") as g:
        g.write(json.dumps(cats) + "\n")
        for k in ks:
            g.write("[" + ",".join(k) + "]\n")
    return len(ks), total


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.words = os.path.join(self.tmp, "literals.json")
        literals.write(self.words)
        self.plan = PLAN[pid]
        self.lock = threading.Lock()
        self.models, self.traces, self.samples = [], [], []
        self.violations, self.known_hits = [], []
        self.known = load_known(pid)
        self.events = {}
        self.stop = threading.Event()

    # ---- models
    def model(self, spec):
        """spec: name of a cfg, or (cfg, {constant: value}) with constants replaced."""
        cfg, over = spec if isinstance(spec, tuple) else (spec, {})
        module = "_".join(cfg.split("_")[:2])
        text = open(os.path.join(SPEC, cfg + ".cfg")).read()
        for k, v in over.items():
            text, n = re.subn(rf"(?m)^ {k} (=|<-) .*$", f" {k} = {v}" if not str(v).startswith("<-") else f" {k} {v}", text)
            if n != 1:
                raise Broken(f"constant {k} of {cfg}")
        path = os.path.join(self.tmp, cfg + "-" + str(abs(hash(str(over))) % 10**6) + ".cfg")
        with open(path, "w") as f:
            f.write(text)
        t0 = time.time()
        code, out, meta = java(self.tmp, 3000 if self.quick else 6000, 1 if module == "MC_Session" else 2, ["-config", path, module + ".tla"], {}, 800)
        gen, dist = counts(out)
        if code != 0:
            raise Broken(f"model {cfg} {over}: TLC ended with {code}\n{tail(out)}")
        with self.lock:
            self.models.append(dict(model=cfg, constants=over, states=dist, transitions=gen, wall_s=round(time.time() - t0, 1)))
        return out

    # ---- recorded runs
    def drive(self, job):
        dest = os.path.join(self.tmp, "%s-%d-%d.ndjson" % (re.sub(r"\W", "_", job["suite"]), job["n"], job["shard"]))
        args = [DRIVER, job["suite"], "out=" + dest, "dict=" + self.words] + [f"{k}={job[k]}" for k in ("seed", "shard", "shards", "scale", "in", "mute") if job.get(k) not in (None, "")]

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        ended = None
        stats = {}
        try:
            r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=240, preexec_fn=limits)
            if r.returncode != 0:
                ended = f"exit status {r.returncode}"
            for line in r.stdout.decode(errors="replace").splitlines()[-3:]:
                if line.startswith("STATS "):
                    stats = json.loads(line[6:])
        except subprocess.TimeoutExpired:
            ended = "no end within 240 s"
        if ended:
            with open(dest, "ab") as f:
                f.seek(0, 2)
                f.write(b"\n" + json.dumps({"ev": "Crash", "what": ended}).encode() + b"\n")
            # a line cut short by the crash is no event
            good = []
            for line in open(dest, errors="replace"):
                try:
                    json.loads(line)
                    good.append(line)
                except ValueError:
                    pass
            open(dest, "w").writelines(good)
        return dest, stats, args

    def validate(self, trace):
        """(accepted, position, messages, states)"""
        code, out, meta = java(self.tmp, 2600, 1, ["-config", "Trace.cfg", "Trace.tla"], {"TRACE": trace}, 780)
        gen, dist = counts(out)
        text = open(out, errors="replace").read()
        shutil.rmtree(meta, ignore_errors=True)
        if code == 0 and "No error has been found" in text:
            return True, None, [], dist
        if "Computing initial states" not in text or "OutOfMemory" in text or "StackOverflow" in text or code == -1:
            why = " ".join(re.findall(r"(?m)^Error:.*", text)[:2])
            raise Broken(f"trace validation ended with {code} {why}\n{text[-2500:]}")
        if "Overflow when computing" in text:
            # numbers the specification does not reach
            return False, int(re.findall(r"(?m)^/?\\?\s*l = (\d+)", text)[-1]), None, dist
        m = re.search(r'"REJECTED-AT", (\d+), "OF", (\d+)', text)
        if m:
            at = int(m.group(1))
        else:
            # an event the specification cannot even be asked about
            ls = re.findall(r"(?m)^/?\\?\s*l = (\d+)", text)
            at = int(ls[-1]) if ls else None
            if at is None:
                raise Broken(f"trace validation ended with {code}\n{text[-2500:]}")
        msgs = [x for x in re.findall(r'<<\s*"MISMATCH".*?>>(?=\n[^ ]|\Z)', text, re.S)][-4:]
        if not m:
            msgs.append(" ".join(text[text.find("Error:"):][:400].split()))
        return False, at, msgs, dist

    def run_job(self, job):
        if self.stop.is_set():
            return
        t0 = time.time()
        trace, stats, args = self.drive(job)
        lines = open(trace, errors="replace").read().split("\n")
        lines = [l for l in lines if l]
        kinds, scen, sample = {}, 0, None
        fresh = True
        for l in lines:
            ev = re.search(r'"ev":"(\w+)"', l) or re.search(r'"ev": "(\w+)"', l)
            k = ev.group(1) if ev else "?"
            kinds[k] = kinds.get(k, 0) + 1
            if k in ("Reset", "Scenario", "Forget"):
                fresh = True
            elif fresh:
                scen, fresh = scen + 1, False
        if not lines:
            raise Broken(f"{job['suite']} recorded nothing")
        judged = [k for k in kinds if k not in ("Reset", "Scenario", "Forget", "Build", "Rebuild", "Load", "NewHandler")]
        if judged:
            pick = min((l for l in lines if f'"ev":"{judged[-1]}"' in l), key=lambda l: abs(len(l) - 600), default="{}")
            sample = pick[:600]
        ok, at, msgs, dist = self.validate(trace)
        beyond = 0
        while not ok:
            if msgs is None:
                # the rest of this scenario is left out
                beyond += 1
                ends = ("Reset",) if any('"ev":"Load"' in l for l in lines) else ("Reset", "Scenario")
                to = next((i for i in range(at, len(lines)) if any(f'"ev":"{e}"' in lines[i] for e in ends)), len(lines))
                if beyond > 8 or at <= 1:
                    raise Broken(f"numbers beyond the specification's: {lines[at - 1][:300]}")
                del lines[at - 1:to]
                with open(trace, "w") as f:
                    f.write("\n".join(lines) + "\n")
                ok, at, msgs, dist = self.validate(trace)
                continue
            ev = lines[at - 1] if at and at <= len(lines) else "{}"
            hit = next((k for k in self.known if re.search(k["event"], ev) and re.search(k["message"], " ".join(msgs), re.S)), None)
            if hit:
                with self.lock:
                    self.known_hits.append(hit["text"])
                del lines[at - 1]
                with open(trace, "w") as f:
                    f.write("\n".join(lines) + "\n")
                ok, at, msgs, dist = self.validate(trace)
                continue
            self.violation(job, args, lines, at, msgs)
            break
        with self.lock:
            for k, v in kinds.items():
                self.events[k] = self.events.get(k, 0) + v
            self.traces.append(dict(suite=job["suite"], seed=job["seed"], shard=job["shard"], events=len(lines), scenarios=scen,
                                    states=dist, stats=stats, left_out=beyond, wall_s=round(time.time() - t0, 1), accepted=ok))
            if sample and len(self.samples) < 6 and all(s["suite"] != job["suite"] for s in self.samples):
                self.samples.append(dict(suite=job["suite"], event=sample))
        os.unlink(trace)

    def violation(self, job, args, lines, at, msgs):
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, f"{self.pid}-{job['suite']}-{job['n']}-{job['shard']}.json")
        # the scenario the rejected event belongs to
        start = 0
        for i in range(min(at, len(lines)) - 1, -1, -1):
            if re.search(r'"ev": ?"(Reset|Forget|Scenario)"', lines[i]):
                start = i
                break
        keep = {k: v for k, v in job.items()}
        if job.get("in"):
            src = os.path.join(OUT, f"{self.pid}-{job['suite']}-{job['n']}.in")
            shutil.copyfile(job["in"], src)
            keep["in"] = src
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, title=TITLE[self.pid], job=keep, rejected_event_number=at,
                           rejected_event=lines[at - 1][:20000] if at <= len(lines) else "end of the run",
                           specification_says=[" ".join(m.split())[:2000] for m in msgs],
                           scenario=[l[:4000] for l in lines[max(start, at - 200):at]],
                           command=" ".join(args), again=f"python3 {HERE}/check.py --replay {path}"), f, indent=1)
        with self.lock:
            self.violations.append((path, " ".join(" ".join(msgs).split())[:300]))
        if self.quick:
            self.stop.set()

    # ---- everything
    def jobs_of(self, s, n, infile=None):
        shards = s.get("shards", 1) if self.quick else s.get("tshards", s.get("shards", 1))
        scale = s.get("scale", 1) if self.quick else s.get("tscale", s.get("scale", 1))
        seeds = 1 if self.quick or infile else s.get("tseeds", 1)
        for k in range(seeds):
            for i in range(shards):
                yield dict(suite=s["suite"], seed=self.seed + 1000 * k, shard=i, shards=shards, scale=scale, n=n * 10 + k,
                           mute=",".join(s.get("mute", [])), **({"in": infile} if infile else {}))

    def feed(self, n, s, pool):
        """A suite that needs an input file: made by a model, by the specification's writer, or kept."""
        dest = os.path.join(self.tmp, f"in-{n}")
        if "golden" in s:
            shutil.copyfile(os.path.join(HERE, s["golden"]), dest)
        elif "written" in s:
            scale = s["written"] if self.quick else s.get("twritten", s["written"])
            seeds = os.path.join(self.tmp, f"seeds-{n}")
            subprocess.run([DRIVER, "seeds", "out=" + seeds, f"seed={self.seed}", f"scale={scale}"], check=True, stdout=subprocess.DEVNULL)
            code, out, meta = java(self.tmp, 3000, 3, ["-config", "GenFiles.cfg", "GenFiles.tla"], {"SEEDS": seeds}, 700)
            if code != 0:
                raise Broken("GenFiles: " + tail(out))
            gen, dist = counts(out)
            made = write_cases(out, dest)
            with self.lock:
                self.models.append(dict(model="GenFiles", constants={"files": made}, states=dist, transitions=gen))
        else:
            model = s["model"] if self.quick else s.get("tmodel", s["model"])
            out = self.model(model)
            if s["suite"] in ("scripts", "cli-scripts"):
                used, total = write_scripts(out, dest, s.get("limit") if self.quick else s.get("tlimit"), self.seed)
                with self.lock:
                    self.models[-1].setdefault("scripts", {})[str(model)] = [used, total]
            else:
                write_cases(out, dest)
        return [pool.submit(self.run_job, j) for j in self.jobs_of(s, n, dest)]

    def run(self):
        t0 = time.time()
        try:
            build(program=any(s["suite"].startswith("cli") for s in self.plan["suites"]))
            with ThreadPoolExecutor(WORKERS) as pool, ThreadPoolExecutor(4) as feeders:
                first = [feeders.submit(self.model, m) for m in self.plan.get("models" if self.quick else "tmodels", self.plan.get("models", []))]
                feeds = [feeders.submit(self.feed, n, s, pool) for n, s in enumerate(self.plan["suites"])
                         if any(k in s for k in ("model", "golden", "written"))]
                rest = [pool.submit(self.run_job, j) for n, s in enumerate(self.plan["suites"])
                        if not any(k in s for k in ("model", "golden", "written")) for j in self.jobs_of(s, n)]
                for f in first + rest:
                    f.result()
                for f in feeds:
                    for g in f.result():
                        g.result()
            if not self.violations:
                for k in self.plan["needs"]:
                    if self.events.get(k, 0) == 0:
                        raise Broken(f"no {k} event was recorded: nothing was decided")
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        self.evidence(time.time() - t0)
        for k in sorted(set(self.known_hits)):
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        for path, msg in self.violations:
            print(f"VIOLATION property={self.pid} replay={path}")
            if msg:
                print("  " + msg)
        if not self.violations:
            ev = sum(t["events"] for t in self.traces)
            print(f"{self.pid} held: {sum(m['states'] for m in self.models)} model states, {len(self.traces)} runs, {ev} events accepted, {time.time() - t0:.0f} s")
        return 1 if self.violations else 0

    def evidence(self, wall):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tr = self.traces
        cov = dict(
            states=sum(m["states"] for m in self.models),
            transitions=sum(m["transitions"] for m in self.models),
            traces_validated_against_impl=sum(t["scenarios"] for t in tr if t["accepted"]),
            recorded_runs=len(tr),
            events_judged=sum(t["events"] for t in tr),
            events_by_kind=dict(sorted(self.events.items())),
            models=self.models,
            runs=tr if len(tr) <= 40 else tr[:40],
            samples=self.samples or [{"none": True}],
            explanation="states/transitions: explored by TLC in the models of the specification. traces_validated_against_impl: "
                        "scenarios (one index, history or script each) of the real library accepted by the trace specification.",
        )
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                           assumptions=self.plan.get("assumptions", []), wall_s=round(wall, 1), violations=len(self.violations)), f, indent=1)


def load_known(pid):
    """Lines 'finding: property=<id> event=<regex> message=<regex> | <what fails>' of known-findings.txt."""
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) event=(\S+) message=(\S+) \| (.*)", line)
            if m and m.group(1) == pid:
                out.append(dict(event=m.group(2), message=m.group(3), text=m.group(4)))
    return out


def replay(path):
    r = json.load(open(path))
    c = Check(r["property"], "quick", r["job"]["seed"])
    build()
    try:
        trace, _, args = c.drive(r["job"])
        ok, at, msgs, _ = c.validate(trace)
        print(" ".join(args))
        if ok:
            print("accepted")
            return 0
        print("rejected at event", at)
        print(open(trace).read().split("\n")[at - 1][:3000])
        print("\n".join(msgs))
        return 1
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)


def main():
    args = sys.argv[1:]
    if args[:1] == ["--replay"]:
        return replay(args[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--seed" in args:
        seed = int(args[args.index("--seed") + 1])
    pid = args[0]
    try:
        return Check(pid, tier, seed).run()
    except Broken as e:
        print(f"CHECK-ERROR property={pid}: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
