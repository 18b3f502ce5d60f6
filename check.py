#!/usr/bin/env python3
"""Decides one property of fuel-merkle: builds the harness against /repo and runs its generators.

    check.py ID [--tier quick|thorough] [--seed N]     (defaults: VERIF_TIER, VERIF_SEED)
    check.py --setup                                   build every configuration
    check.py --replay FILE..                           evaluate saved cases

Exit status: 0 the property held, 1 it is broken (a VIOLATION line names the replay file),
2 the check could not be carried out.
"""
import fcntl, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FM_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
HARNESS = os.path.join(HERE, "harness")

# Build configurations: cargo arguments, and the share of the generated and of the enumerated
# cases that each takes.
CONFIGS = {
    "std-checked": dict(profile="checked", std=True, share=0.6, enum=1.0),
    "std-release": dict(profile="release", std=True, share=0.25, enum=0.25),
    "nostd-checked": dict(profile="checked", std=False, share=0.15, enum=0.15),
    "nostd-release": dict(profile="release", std=False, share=0.0, enum=0.0),
    "fuzz": dict(profile="fuzz", std=True, share=0.0, enum=0.0),
}
STD_ONLY = {"H01", "H02"}
MAIN = ["std-checked", "std-release", "nostd-checked"]
# Multiplies the generated cases (FM_SCALE multiplies further).
SCALE = dict(quick=2.0, thorough=1.0)
# Seconds of coverage-guided search after the generated cases (FM_FUZZ sets another number).
FUZZ_TIME = dict(quick=0, thorough=1200)
LIBFUZZER = sorted(glob.glob("/usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a"))
PLAIN = [c for c in CONFIGS if c != "fuzz"]
CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP}
REPLAY_CPU = 60


class Failed(Exception):
    """The check could not be carried out."""


def say(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building

def sources():
    """Every file the builds depend on."""
    out = []
    for root in (REPO, os.path.join(REPO, "test-helpers")):
        for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
            p = os.path.join(root, f)
            if os.path.isfile(p):
                out.append(p)
    for top in (os.path.join(REPO, "src"), os.path.join(REPO, "test-helpers", "src"), os.path.join(HARNESS, "src")):
        for d, dirs, files in os.walk(top):
            dirs.sort()
            out += [os.path.join(d, f) for f in sorted(files)]
    for d, dirs, files in os.walk(os.path.join(HARNESS, "vendor")):
        dirs.sort()
        out += [os.path.join(d, f) for f in sorted(files)]
    out += [os.path.join(HARNESS, f) for f in ("Cargo.toml", "Cargo.lock", "instrument.sh")]
    return out


def stamp():
    h = hashlib.sha256()
    for p in sources():
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def binary(config):
    return os.path.join(BUILD, config, CONFIGS[config]["profile"], "fm-harness")


def build_one(config, key, errors):
    c = CONFIGS[config]
    target = os.path.join(BUILD, config)
    mark = os.path.join(target, "stamp")
    try:
        with open(mark) as f:
            if f.read() == key and os.path.isfile(binary(config)):
                return
    except OSError:
        pass
    os.makedirs(target, exist_ok=True)
    if os.path.exists(mark):
        os.remove(mark)
    env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS")}
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_NET_OFFLINE"] = "true"
    lock = os.path.join(HARNESS, "Cargo.lock")
    clean = ["cargo", "clean", "--offline", "--profile", c["profile"], "-p", "fuel-merkle", "-p", "fm-harness"]
    if c["std"]:
        clean += ["-p", "fuel-merkle-test-helpers"]
    build = ["cargo", "build", "--offline", "--locked", "--profile", c["profile"], "--bin", "fm-harness"]
    if not os.path.exists(lock):
        build.remove("--locked")
    if not c["std"]:
        build.append("--no-default-features")
    if config == "fuzz":
        build += ["--features", "fuzz"]
        env["RUSTC_WRAPPER"] = os.path.join(HARNESS, "instrument.sh")
        env["FM_FUZZER_LIB"] = LIBFUZZER[-1]
    # File times may lie (a tree laid out by a copy), so cargo is not left to judge by them.
    subprocess.run(clean, cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(build, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 and "--locked" in build and "lock file" in p.stdout:
        # /repo's dependencies changed: resolve again, in a copy of the harness.
        p = unlocked(config, build, env)
    if p.returncode != 0:
        errors.append(f"{config}: cargo build failed\n" + p.stdout[-6000:])
        return
    with open(mark, "w") as f:
        f.write(key)


def unlocked(config, build, env):
    with tempfile.TemporaryDirectory(prefix="fm-harness-") as d:
        copy = os.path.join(d, "harness")
        shutil.copytree(HARNESS, copy, ignore=shutil.ignore_patterns("target"))
        cmd = [a for a in build if a != "--locked"]
        return subprocess.run(cmd, cwd=copy, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(configs):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = stamp()
        errors = []
        jobs = [threading.Thread(target=build_one, args=(c, key, errors)) for c in configs]
        for j in jobs:
            j.start()
        for j in jobs:
            j.join()
        if errors:
            raise Failed("\n".join(errors))
        if stamp() != key:
            raise Failed("the sources changed during the build")


# ---------------------------------------------------------------- running

def constants():
    """The integer literals above 2 of the code under test (not of its tests): the generators draw
    from them now and then, besides their own values."""
    found = set()
    for top in (os.path.join(REPO, "src"), os.path.join(REPO, "test-helpers", "src")):
        for d, _, files in os.walk(top):
            for f in files:
                if not f.endswith(".rs"):
                    continue
                with open(os.path.join(d, f), errors="replace") as h:
                    text = h.read().split("#[cfg(test)]")[0]
                text = re.sub(r"//[^\n]*", "", text)
                for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?(?!\w)", text):
                    try:
                        found.add(int(m.group(1).replace("_", ""), 0))
                    except ValueError:
                        pass
                for m in re.finditer(r"b'(?:\\x([0-9a-fA-F]{2})|([^\\]))'", text):
                    found.add(int(m.group(1), 16) if m.group(1) else ord(m.group(2)))
                for m in re.finditer(r"\b1(?:[ui]\w+)? *<< *([0-9]+)\b", text):
                    found.add(1 << min(int(m.group(1)), 64))
    return sorted(x for x in found if 2 < x < 1 << 64)[:2000]

def harness(config, args, configs_for_x01=None, **kw):
    env = dict(os.environ, FM_CONSTANTS=",".join(map(str, constants())))
    if configs_for_x01:
        env["FM_BINS"] = ",".join(f"{c}={binary(c)}" for c in configs_for_x01)
    return subprocess.run([binary(config)] + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def limit_cpu():
    resource.setrlimit(resource.RLIMIT_CPU, (REPLAY_CPU, REPLAY_CPU + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay(config, file, bins):
    """'holds', 'fails: ...', or 'unreadable: ...' for one saved case."""
    try:
        p = harness(config, ["replay", file], bins, preexec_fn=limit_cpu, timeout=REPLAY_CPU * 5)
    except subprocess.TimeoutExpired:
        return "unreadable: it neither ended nor used its processor time"
    if p.returncode == 0:
        return "holds"
    if p.returncode == 1:
        return "fails: " + p.stdout.strip().split("FAILS: ", 1)[-1]
    if p.returncode < 0:
        s = signal.Signals(-p.returncode)
        if s in (signal.SIGXCPU, signal.SIGKILL) or s in CRASHES:
            what = "does not end" if s not in CRASHES else f"the process dies of {s.name}"
            return f"fails: {what}"
    return f"unreadable: status {p.returncode}: {p.stdout[-2000:]}"


def known_findings(prop):
    """The cases of this property that are listed as known findings."""
    out = []
    path = os.path.join(HERE, "known-findings.json")
    if os.path.exists(path):
        with open(path) as f:
            out = [k for k in json.load(f)["findings"] if k["property"] == prop]
    return out


def violation(prop, doc):
    text = json.dumps(doc, indent=1, sort_keys=True)
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{doc.get('check', 'x')}-{hashlib.sha256(text.encode()).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        f.write(text + "\n")
    say(f"  {doc.get('message', '')[:1500]}")
    say(f"VIOLATION property={prop} replay={path}")


def reproduce(prop, config, files, why, bins):
    """Replays saved cases; returns the first that fails on its own."""
    for f in sorted(files):
        r = replay(config, f, bins)
        if r.startswith("fails: "):
            with open(f) as h:
                doc = json.load(h)
            doc.update(message=r[7:], config=config)
            return doc
    return None


def run_config(prop, config, tier, seed, share, enum, scratch, bins, deadline):
    """Runs the harness in one configuration; returns its report and a failure document."""
    out = os.path.join(scratch, f"{config}.json")
    late = os.path.join(scratch, f"late-{config}")
    os.makedirs(late)
    args = ["run", prop, "--tier", tier, "--seed", str(seed), "--config", config, "--share", str(share * SCALE[tier] * float(os.environ.get("FM_SCALE", "1"))),
            "--enum-share", str(enum), "--threads", str(os.cpu_count() or 4), "--out", out, "--watch", late]
    p = harness(config, args, bins, timeout=deadline)
    if p.returncode in (0, 1) and os.path.exists(out):
        with open(out) as f:
            report = json.load(f)
        return report, report["failure"]
    if p.returncode == 3:
        doc = reproduce(prop, config, glob.glob(late + "/late-*.json"), "does not end", bins)
        if doc:
            return None, doc
        raise Failed(f"{config}: a case took too long, but ends when run alone")
    if p.returncode < 0 and signal.Signals(-p.returncode) in CRASHES:
        trace = os.path.join(scratch, f"trace-{config}")
        os.makedirs(trace)
        q = harness(config, args + ["--trace", trace], bins, timeout=deadline)
        doc = reproduce(prop, config, glob.glob(trace + "/trace-*.json"), "the process dies", bins)
        if doc:
            return None, doc
        raise Failed(f"{config}: the harness died of signal {-p.returncode} (then {q.returncode}) and no case reproduces it\n{p.stdout[-3000:]}")
    raise Failed(f"{config}: the harness ended with status {p.returncode}\n{p.stdout[-4000:]}")


def fuzz(prop, seed, seconds, scratch):
    """Coverage-guided search over the inputs of the property's generators, by libFuzzer.  Returns its
    reports and a failure document."""
    listing = harness("fuzz", ["list"], timeout=60).stdout.split("\n")
    subs = [l.split()[1] for l in listing if l.startswith(prop + " ") and l.endswith("generated")]
    if not subs:
        return [], None
    jobs = []
    env = dict(os.environ, FM_CONSTANTS=",".join(map(str, constants())))
    for n in range(max(os.cpu_count() or 4, len(subs))):
        name = subs[n % len(subs)]
        d = os.path.join(scratch, f"fuzz-{n}")
        corpus = os.path.join(scratch, f"corpus-{name}")
        os.makedirs(d)
        os.makedirs(corpus, exist_ok=True)
        args = ["fuzz", prop, name, os.path.join(d, "out.json"), "--watch", d,
                f"-max_total_time={seconds}", f"-seed={(seed * 1000 + n) % 2**31 + 1}", f"-use_value_profile={n // len(subs) % 2}",
                "-max_len=4096", "-len_control=0", "-reload=1", "-rss_limit_mb=3500", "-timeout=300", f"-artifact_prefix={d}/", corpus]
        with open(os.path.join(d, "log"), "w") as log:
            p = subprocess.Popen([binary("fuzz")] + args, stdout=log, stderr=subprocess.STDOUT, cwd=d, env=env)
        jobs.append((name, d, p))
    reports, failure = {}, None
    end = time.time() + seconds + 150
    try:
        waiting = list(jobs)
        while waiting and not failure and time.time() < end:
            time.sleep(0.2)
            for job in [j for j in waiting if j[2].poll() is not None]:
                waiting.remove(job)
                name, d, p = job
                out = os.path.join(d, "out.json")
                if os.path.exists(out):
                    with open(out) as f:
                        r = json.load(f)
                    cov = r["coverage"]
                    best = reports.setdefault(name, dict(cov, evaluations=0, nontrivial=0, comparisons=0, distinct_nontrivial=0, labels={}))
                    for k in ("evaluations", "nontrivial", "comparisons"):
                        best[k] += cov[k]
                    best["distinct_nontrivial"] = max(best["distinct_nontrivial"], cov["distinct_nontrivial"])
                    if r["failure"]:
                        # The finding counts if it shows in a plain build too.
                        file = os.path.join(d, "failure.json")
                        with open(file, "w") as f:
                            json.dump(r["failure"], f)
                        failure = reproduce(prop, "std-checked", [file], None, None) or reproduce(prop, "fuzz", [file], None, None)
                elif p.returncode:
                    failure = stopped(prop, name, d)
                if failure:
                    break
    finally:
        for *_, p in jobs:
            if p.poll() is None:
                p.kill()
            p.wait()
    return list(reports.values()), failure


def stopped(prop, name, d):
    """Whether a search that ended early left an input that dies or does not end by itself."""
    files = glob.glob(d + "/late-*.json")
    for f in glob.glob(d + "/crash-*") + glob.glob(d + "/timeout-*") + glob.glob(d + "/oom-*"):
        try:
            p = harness("std-checked", ["decode", prop, name, f], preexec_fn=limit_cpu, timeout=REPLAY_CPU * 5)
        except subprocess.TimeoutExpired:
            continue
        if p.returncode == 0:
            with open(f + ".json", "w") as out:
                out.write(p.stdout)
            files.append(f + ".json")
    return reproduce(prop, "std-checked", files, None, None)


def merge(reports):
    """Adds up what the configurations covered, per sub-check."""
    subs, samples = {}, []
    for config, r in reports:
        for c in r["checks"]:
            s = subs.setdefault(c["check"], dict(check=c["check"], rule=c["rule"], enumerated=c["enumerated"],
                                                 evaluations=0, nontrivial=0, distinct_nontrivial=0, comparisons=0,
                                                 labels={}, wall_s=0, by_config={}))
            # Generated cases differ between configurations (the seed depends on it); enumerated
            # ones repeat, so they count once.
            for k in ("evaluations", "nontrivial", "comparisons"):
                s[k] += c[k]
            d = c["distinct_nontrivial"]
            s["distinct_nontrivial"] = max(s["distinct_nontrivial"], d) if c["enumerated"] else s["distinct_nontrivial"] + d
            s["wall_s"] = round(s["wall_s"] + c["wall_s"], 3)
            s["by_config"][config] = s["by_config"].get(config, 0) + c["evaluations"]
            for k, v in c["labels"].items():
                s["labels"][k] = s["labels"].get(k, 0) + v
            if c["samples"] and len(samples) < 8 and len(json.dumps(c["samples"][0])) < 3000:
                samples.append(dict(check=c["check"], config=config, case=c["samples"][0]))
    return list(subs.values()), samples


def check(prop, tier, seed):
    start = time.time()
    with open(os.path.join(HERE, "MANIFEST.json")) as f:
        entry = next((c for c in json.load(f)["checks"] if c["property"] == prop), {})
    if prop == "X01":
        bins = PLAIN
        needed, plan = bins, [("std-checked", 1.0, 1.0)]
    else:
        configs = [c for c in MAIN if not (prop in STD_ONLY and not CONFIGS[c]["std"])]
        needed, bins = configs, None
        total = sum(CONFIGS[c]["share"] for c in configs)
        plan = [(c, CONFIGS[c]["share"] / total, CONFIGS[c]["enum"]) for c in configs]
    build(needed)
    built = time.time()
    status = 0
    failure = None
    reports = []
    known_seen = []
    replayed = 0

    findings = known_findings(prop)
    listed = {os.path.normpath(os.path.join(HERE, k["replay"])): k for k in findings}
    scratch = tempfile.mkdtemp(prefix="fm-check-")
    try:
        # Saved cases first: those of repaired defects must hold, listed findings still fail.
        for file in sorted(glob.glob(os.path.join(HERE, "regressions", f"{prop}*.json"))):
            for config, *_ in plan:
                r = replay(config, file, bins)
                replayed += 1
                if r.startswith("fails: "):
                    if os.path.normpath(file) in listed:
                        known_seen.append(listed[os.path.normpath(file)])
                        say(f"KNOWN-FINDING: property={prop} {listed[os.path.normpath(file)]['what']}")
                        break
                    with open(file) as h:
                        failure = json.load(h)
                    failure.update(message=r[7:], config=config, saved=os.path.basename(file))
                    break
                if r != "holds":
                    raise Failed(f"{file}: {r}")
            if failure:
                break
        if not failure:
            for config, share, enum in plan:
                left = (850 if tier == "quick" else 6 * 3600) - (time.time() - start)
                report, failure = run_config(prop, config, tier, seed, share, enum, scratch, bins, left)
                if report:
                    reports.append((config, report))
                if failure:
                    break
        seconds = int(os.environ.get("FM_FUZZ", FUZZ_TIME[tier]))
        if seconds and not failure and prop != "X01" and LIBFUZZER:
            build(["fuzz"])
            fuzzed, failure = fuzz(prop, seed, seconds, scratch)
            reports.append(("fuzz", dict(checks=fuzzed)))
    except subprocess.TimeoutExpired:
        raise Failed("out of time")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    subs, samples = merge(reports)
    evaluations = sum(s["evaluations"] for s in subs) + replayed
    distinct = sum(s["distinct_nontrivial"] for s in subs)
    violations = []
    if failure:
        status = 1
        violation(prop, failure)
        violations.append(dict(check=failure.get("check"), message=failure.get("message"), case=failure.get("case")))
        if not samples:
            samples.append(dict(check=failure.get("check"), config=failure.get("config"), case=failure.get("case")))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=entry.get("level", "exploration"),
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=distinct,
            rule="Cases are compared as written out; a generated case counts once per build that ran it, an enumerated one once. " + " | ".join(f"{s['check']}{' (enumerated)' if s['enumerated'] else ''}: {s['rule']}" for s in subs)
                 if subs else "a saved case was replayed",
            samples=samples,
            checks=[{k: v for k, v in s.items() if k != "rule"} for s in subs],
            saved_cases_replayed=replayed,
            configurations=([c for c, *_ in plan] if not bins else bins) + (["fuzz"] if any(c == "fuzz" for c, _ in reports) else []),
        ),
        assumptions=[
            "fuel-merkle is built by the installed stable toolchain from the working tree of /repo",
            "SHA-256 of the sha2 crate, which the reference models share with the code under test",
        ],
        build_s=round(built - start, 1),
        wall_s=round(time.time() - start, 1),
        violations=violations,
        known_findings=[k["what"] for k in known_seen],
    )
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    if status == 0:
        say(f"{prop}: held on {evaluations} cases, {distinct} of them distinct and non-trivial ({tier}, seed {seed}, "
            f"build {built - start:.0f} s, total {time.time() - start:.0f} s)")
    return status


def main(args):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    if args[:1] == ["--setup"]:
        build(PLAIN)
        return 0
    if args[:1] == ["--replay"]:
        bins = PLAIN
        build(bins)
        worst = 0
        for f in args[1:]:
            for c in MAIN:
                with open(f) as h:
                    if json.load(h)["property"] in STD_ONLY and not CONFIGS[c]["std"]:
                        continue
                r = replay(c, f, bins)
                say(f"{f} [{c}]: {r}")
                worst = max(worst, 0 if r == "holds" else 1 if r.startswith("fails") else 2)
        return worst
    prop = None
    it = iter(args)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--seed":
            seed = next(it)
        else:
            prop = a
    if not prop:
        print(__doc__)
        return 2
    return check(prop, "thorough" if tier == "thorough" else "quick", int(seed, 0) if seed.lstrip("-").isdigit() else 1)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except Failed as e:
        say(f"ERROR: {e}")
        code = 2
    sys.exit(code)
