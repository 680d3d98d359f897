#!/usr/bin/env python3
"""Decides one property: builds the checkers from /repo's working tree, runs the drivers that
monitor the property, compares what they found with the known findings, writes the evidence.

usage: run.py <PROPERTY> [quick|thorough]      run.py --setup
exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no answer (build failure, ...)
"""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
ENV = {
    "HOME": "/root",
    "PATH": "/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin",
    "RUSTUP_TOOLCHAIN": "1.72.1",
    "CARGO_NET_OFFLINE": "true",
    "CARGO_TERM_COLOR": "never",
    "RUSTC_WRAPPER": "",
    "CARGO_TARGET_DIR": TARGET,
    "RUST_BACKTRACE": "0",
}

# property -> [(crate, binary)]
sys.path.insert(0, VERIF)
from checks import BINS, ASSUMPTIONS, LEVEL  # noqa: E402

# the crate whose code the macro of the computation language generates
PROGRAMS = "mcp"


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith("CARGO") and k not in ("RUSTFLAGS", "RUSTC_WRAPPER")}
    e.update(ENV)
    e.update(kw)
    return e


def source_stamp():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".json")):
                p = os.path.join(root, f)
                h.update(p.encode())
                try:
                    with open(p, "rb") as fd:
                        h.update(hashlib.sha256(fd.read()).digest())
                except OSError:
                    pass
    return h.hexdigest()


def repo_packages():
    out = set()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ("target", ".git", "node_modules")]
        if "Cargo.toml" in files:
            m = re.search(r'^name\s*=\s*"([^"]+)"', open(os.path.join(root, "Cargo.toml")).read(), re.M)
            if m:
                out.add(m.group(1))
    return sorted(out)


STAMP = os.path.join(TARGET, ".stamp")


def fresh():
    """Everything from /repo is rebuilt when any of its sources differs from the last build."""
    os.makedirs(TARGET, exist_ok=True)
    if not os.path.exists(STAMP) or open(STAMP).read() == source_stamp():
        return
    # proc macros read files cargo does not know about, and files may carry old time stamps
    packages = repo_packages()
    for crate in sorted({c for bs in BINS.values() for c, _ in bs}):
        d = os.path.join(VERIF, crate)
        known = set(re.findall(r'^name = "([^"]+)"', open(os.path.join(d, "Cargo.lock")).read(), re.M))
        args = ["cargo", "clean", "--release", "--offline"]
        for p in packages:
            if p in known:
                args += ["-p", p]
        subprocess.run(args, cwd=d, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def stamped():
    with open(STAMP, "w") as f:
        f.write(source_stamp())


def build(crate, bins):
    fresh()
    args = ["cargo", "build", "--release", "--offline", "--locked"]
    for b in bins:
        args += ["--bin", b]
    r = subprocess.run(args, cwd=os.path.join(VERIF, crate), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        return False
    stamped()
    return True


def build_programs(crate, bins):
    """Builds the crate with the enumerated programs of the computation language.
    Returns None, or what became of it: ("refused", example) when programs of the language are refused (the others are
    not), ("other", why) when the crate as a whole does not fit the current tree (this decides nothing)."""
    d = os.path.join(VERIF, crate)
    fresh()
    args = ["cargo", "build", "--release", "--offline", "--locked", "--message-format", "short"]
    p = subprocess.Popen(args, cwd=d, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    late = threading.Event()
    timer = threading.Timer(420, lambda: (late.set(), p.kill()))
    timer.start()
    panics, errors, total, lines = {}, {}, 0, []
    for line in p.stderr:
        lines.append(line.strip())
        m = re.search(r"(\S*/p(\d+)\.rs):\d+:\d+: error(.*)", line)
        if not m:
            continue
        (panics if "panicked" in m.group(3) else errors).setdefault(int(m.group(2)), (m.group(1), m.group(3)))
        if len(panics) >= 20:
            # rustc is slow with these
            p.kill()
            break
    p.stderr.close()
    rc = p.wait()
    timer.cancel()
    if rc == 0:
        stamped()
        return None
    m = re.search(r"\[fn\(\) -> Meta; (\d+)\]", "".join(open(f).read() for f in glob.glob(os.path.join(TARGET, "release", "build", "mcp-*", "out", "programs.rs"))[:1]))
    total = int(m.group(1)) if m else 0
    # (rustc reports everything of a phase, so programs it complains about in an interrupted run say nothing about the others)
    bad = panics or (errors if not late.is_set() and len(errors) < total * 9 // 10 else {})
    if not bad:
        return ("other", " | ".join(lines[-3:])[:300])
    f, why = bad[min(bad)]
    src = " ".join(open(f).read().split())
    return ("refused", f"{len(bad)}+ legal programs are refused{why}: {src[:1200]}")


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def keyid(k):
    return re.sub(r"\s+", "_", k)


def main():
    if sys.argv[1:2] == ["--setup"]:
        ok = True
        crates = {}
        for bs in BINS.values():
            for c, b in bs:
                crates.setdefault(c, set()).add(b)
        for c, bs in sorted(crates.items()):
            if c == PROGRAMS:
                build_programs(c, sorted(bs))
            else:
                ok &= build(c, sorted(bs))
        return 0 if ok else 2

    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    crates = {}
    for c, b in BINS[prop]:
        crates.setdefault(c, []).append(b)
    programs = None
    for c, bs in crates.items():
        if c == PROGRAMS:
            programs = build_programs(c, bs)
        elif not build(c, bs):
            print("cannot build the checkers against the current tree")
            return 2
    fcntl.flock(lock, fcntl.LOCK_UN)
    built = time.time() - start
    total = dict(states=0, transitions=0, traces=0)
    complete, drivers, samples, found = True, [], [], []
    budget = int(os.environ.get("MC_BUDGET", "0")) or (300 if tier == "quick" else 3000)
    n = len([c for c, _ in BINS[prop] if c != PROGRAMS])
    for c, b in BINS[prop]:
        if c == PROGRAMS and programs:
            kind, why = programs
            drivers.append(dict(driver=b, bounds="not run: " + why[:300], states=0))
            complete = False
            if kind == "refused":
                found.append(dict(key="program-refused", count=1, driver=b, msg=why, trace=[why], bin=b))
            else:
                print(f"note: the enumerated programs do not compile against the current tree and are left out: {why}")
            continue
        out = os.path.join(TARGET, f"result-{prop}-{b}.json")
        if os.path.exists(out):
            os.remove(out)
        e = env(MC_OUT=out, VERIF_TIER=tier, VERIF_SEED=str(seed), MC_BUDGET=str(budget // n))
        try:
            r = subprocess.run([os.path.join(TARGET, "release", b), prop], cwd=VERIF, env=e, stderr=subprocess.PIPE, text=True,
                               timeout=budget // n * 2 + 120)
        except subprocess.TimeoutExpired:
            print(f"{b}: no answer in time")
            return 2
        if r.returncode == 101:
            # The harness met a state of the implementation that its specification excludes
            # (for example a legitimate set-up step that is refused).
            tail = [l for l in r.stderr.splitlines() if l.strip()][-6:]
            msg = " | ".join(tail)
            m = re.search(r"SETUP-FAILED ([^:]*)", r.stderr)
            found.append(dict(key="setup-failed:" + m.group(1).strip() if m else "harness-panic", count=1, driver=b, msg=msg[:1500], trace=[msg[:1500]], bin=b))
            drivers.append(dict(driver=b, bounds="aborted", states=0))
            complete = False
            continue
        m = re.search(r"NO-END .*|memory allocation of .* failed|thread .* has overflowed its stack", r.stderr)
        if m and r.returncode in (102, -6, 134):
            # an execution that does not end, or that brings the process down
            found.append(dict(key="no-end", count=1, driver=b, msg=m.group(0)[:1500], trace=[m.group(0)[:1500]], bin=b))
            drivers.append(dict(driver=b, bounds="aborted", states=0))
            complete = False
            continue
        if r.returncode != 0 or not os.path.exists(out):
            sys.stdout.write(r.stderr[-3000:])
            print(f"{b}: exit code {r.returncode}")
            return 2
        d = json.load(open(out))
        for k in total:
            total[k] += d[k]
        complete &= d["complete"]
        drivers += d["drivers"]
        samples += d["samples"]
        for f in d["found"]:
            f["bin"] = b
            found.append(f)
    known = known_findings(prop)
    new = []
    for f in found:
        k = keyid(f["key"])
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {known[k]} [{k}: {f['count']} occurrences]")
        else:
            new.append(f)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "model_checking"),
        "coverage": {
            "states": total["states"], "transitions": total["transitions"], "traces_validated_against_impl": total["traces"],
            "samples": samples[:12], "exhaustive": bool(complete), "drivers": drivers,
            "rule": "every transition is an execution of the implementation compared with the reference model; traces_validated_against_impl counts maximal paths re-executed from the initial state plus single-shot executions",
        },
        "assumptions": ASSUMPTIONS.get(prop, []) + ASSUMPTIONS["*"],
        "wall_s": round(time.time() - start, 2),
        "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(f"{prop} {tier}: states={total['states']} transitions={total['transitions']} traces={total['traces']} "
          f"complete={complete} drivers={len(drivers)} build={built:.0f}s wall={time.time()-start:.0f}s")
    if new:
        rp = os.path.join(VERIF, "evidence", f"replay-{prop}.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "how": f"target/release/<bin> {prop} (deterministic; the trace lists the actions from the initial state)", "violations": new}, f, indent=1)
        for f in new[:8]:
            print(f"  {f['key']}: {f['msg'][:400]}")
            print("    trace: " + " -> ".join(f["trace"])[:600])
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
