#!/usr/bin/env python3
"""Run the monitors of one property against /repo's working tree.

usage: check.py PROPERTY [quick|thorough]      (VERIF_SEED picks the seed, VERIF_TIER the tier)
       check.py --setup

Exit 0: held on everything observed. Exit 1 with a VIOLATION line: broken. Exit 2: no answer (build failure,
time limit, tool failure, too little observed).
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
REPO = "/repo"
TRIPLE = "x86_64-unknown-linux-gnu"
WARN = "-Awarnings"
HOOK = "--cfg momentous_verif"

BINS = {p: "dt" for p in "B01 B02 B03 B04 E01 T01 A01 A02 A03 A04 A05 A06 A07 A08 L01 L02 L03".split()}
BINS.update({"I01": "i01", "I02": "i02", "I03": "i03", "I04": "i04", "I05": "i05", "D01": "d01", "D02": "d02", "T02": "d02", "P01": "p01", "N01": "n01", "X01": "x01"})
HOOKED = {"N01"}
FEW = "--cfg momentous_few_types"
PROPS = list(BINS) + ["S01"]

RULES = {
    "dt": "Date-times, amounts and builder inputs are drawn from VERIF_SEED with weight on leap-second days, month ends, range ends "
          "and wrap-around amounts, over the system leap table and random ones; distinct = different (start, operation, table) by hash; "
          "non-trivial = the case involves what the property is about (see the counters).",
    "i01": "System times drawn at and around every leap entry, the ends of 32- and 64-bit seconds and the epoch, into tick types and "
           "scales; distinct by exact time, tick type, scale and table; non-trivial = leap seconds were counted or the time is before 1970.",
    "i02": "Clock readings at every month end, leap day and year end, around leap entries and random, in processes with different TZ and "
           "TZDIR; distinct by (clock reading, system time, process).",
    "i03": "Pairs of ticks drawn near each other, at type ends and near multiples of the scale ratio; distinct by value pair and type pair.",
    "i04": "Ticks at type ends and near multiples of the scale ratio, for all tick types and scale pairs; distinct by value and types.",
    "i05": "Ticks and durations at type ends and boundaries of other types; distinct by value and types.",
    "d01": "Dividends and divisors at type ends and near multiples; distinct by values and types.",
    "d02": "Pairs and collections of ticks drawn near each other and at type ends; distinct by values and types.",
    "p01": "Date-times from the generators of the date-time monitors with amounts at and near the ends of the argument types, ticks at "
           "type ends; each call timed on its thread's processor clock; distinct by operands.",
    "x01": "The workloads of the other monitors, with the C library's functions that have effects replaced by recording ones; distinct = different "
           "cases of those workloads; every call is watched.",
    "n01": "Every place, operation and amount of every small slice, and long random walks; distinct by (length, place, operation).",
}
ASSUME = {
    "dt": ["the oracle's calendar (checked against day-by-day counting at start) and TZif reader", "leap tables obey RFC 8536 (changes of one second, 28 days apart, first entry after day 0, non-empty)"],
    "i01": ["the process's C library does not count leap seconds (TZ is unset)", "at most 50 leap entries, as the parser's format allows"],
    "i02": ["glibc's gmtime_r is the C library's view of the clock", "current times in years 1 to 9999", "a clock that counts leap seconds is judged once its calendar differs from plain Unix time"],
    "i03": ["oracle arithmetic in 256-bit integers"],
    "i04": ["oracle arithmetic in 256-bit integers"],
    "i05": ["oracle arithmetic in 256-bit integers"],
    "d01": ["oracle arithmetic in 256-bit integers"],
    "d02": ["oracle arithmetic in 256-bit integers"],
    "p01": ["5 ms of processor time (the best of up to seven tries) is far above any bounded operation and far below a walk through the calendar"],
    "x01": ["effects pass through the C library's functions, as those of Rust's standard library do, or show in the state of the process afterwards"],
    "n01": ["the cfg(momentous_verif) hook forwards to the crate's cursor unchanged"],
    "S01": ["sanitizers, Miri and valgrind see only what the workload runs", "libc itself is not instrumented (its thread-unsafe calendar functions are replaced by visible stand-ins)"],
}


STARTED = time.time()


class Inconclusive(Exception):
    pass


class BuildFailed(Exception):
    pass


class SendSync(Exception):
    pass


def env(flags="", **extra):
    e = {k: v for k, v in os.environ.items() if k not in ("TZ", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER")}
    e.update(TZDIR="/usr/share/zoneinfo", CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0", CARGO_TERM_COLOR="never",
             RUSTUP_TOOLCHAIN="stable", RUSTFLAGS=(WARN + " " + flags).strip())
    e.update(extra)
    return e


def run(cmd, timeout, environ, cwd=HARNESS, log=None):
    """(return code, or None on time-out; output)"""
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=environ, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        f.seek(0)
        return rc, f.read().decode("utf-8", "replace")


def parallel(jobs):
    """Run thunks at once; returns results or re-raises the first exception."""
    out = [None] * len(jobs)
    err = [None] * len(jobs)

    def go(i, j):
        try:
            out[i] = j()
        except BaseException as e:  # noqa
            err[i] = e

    ts = [threading.Thread(target=go, args=x) for x in enumerate(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for e in err:
        if e:
            raise e
    return out


def build(target, bins, profile, flags="", toolchain=None, extra=(), timeout=700):
    cmd = ["cargo", "build", "--offline", "-q", "--profile", profile, "--target-dir", os.path.join(TARGET, target), *extra]
    for b in bins:
        cmd += ["--bin", b]
    e = env(flags)
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    rc, out = run(cmd, timeout, e)
    if rc is None:
        raise Inconclusive(f"build of {bins} timed out")
    if rc != 0:
        if "E0277" in out and re.search(r"cannot be (sent|shared) between threads safely", out):
            raise SendSync(out[-6000:])
        raise BuildFailed(f"build of {bins} failed:\n{out[-6000:]}")
    sub = {"dev": "debug"}.get(profile, profile)
    triple = TRIPLE if "--target" in extra else ""
    return [os.path.join(TARGET, target, triple, sub, b) for b in bins]


def monitor(exe, prop, tier, seed, scratch, timeout, extra=(), environ=None, wrap=()):
    """Run one monitor process; returns its report (a violation if it was killed by a fault)."""
    os.makedirs(scratch, exist_ok=True)
    out = os.path.join(scratch, "report.json")
    cmd = [*wrap, exe, "--prop", prop, "--tier", tier, "--seed", str(seed), "--scratch", scratch, "--out", out, *extra]
    rc, text = run(cmd, timeout, environ or env())
    shown = " ".join(cmd)
    if rc is None:
        raise Inconclusive(f"{shown}: time limit of {timeout} s")
    if rc == -signal.SIGKILL or rc == 3:
        raise Inconclusive(f"{shown}: ended with {rc}\n{text[-3000:]}")
    if rc < 0:
        return {"evaluations": 0, "distinct": 0, "nviol": 1, "counters": {}, "samples": [], "seed": seed,
                "violations": [{"what": "abnormal end", "detail": f"{shown}: killed by {signal.Signals(-rc).name}: {text[-1500:]}"}]}, shown, text
    if rc != 0 or not os.path.exists(out):
        raise Inconclusive(f"{shown}: ended with {rc}\n{text[-3000:]}")
    with open(out) as f:
        return json.load(f), shown, text


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) signature=(.+?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Result:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = STARTED
        self.evals = self.distinct = self.nviol = 0
        self.counters, self.samples, self.violations, self.cmds, self.notes = {}, [], [], [], []
        self.inconclusive = []

    def add(self, rep, cmd, label):
        self.evals += rep["evaluations"]
        self.distinct = max(self.distinct, rep["distinct"])
        self.nviol += rep["nviol"]
        for k, v in rep["counters"].items():
            k = f"{label}: {k}"
            if k.split(": ", 1)[1].startswith("max:"):
                self.counters[k] = max(self.counters.get(k, 0), v)
            else:
                self.counters[k] = self.counters.get(k, 0) + v
        for s in rep["samples"]:
            if len(self.samples) < 10:
                self.samples.append(s[:600])
        for v in rep["violations"]:
            self.violations.append({**v, "run": label, "command": cmd})
        self.cmds.append(cmd)

    def finish(self, rule, gates):
        known = known_findings(self.prop)
        new, old = [], set()
        for v in self.violations:
            hit = [k for k in known if k[0] in v["detail"]]
            if hit:
                old.add(hit[0])
            else:
                new.append(v)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.evals, "distinct_nontrivial": self.distinct, "rule": rule,
                "samples": self.samples or ["(none)"], "observed": self.counters,
                "runs": self.cmds, "notes": self.notes,
            },
            "assumptions": ASSUME.get(BINS.get(self.prop, self.prop), []),
            "wall_s": round(time.time() - self.start, 2),
            "violations": self.nviol,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{self.prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        for sig, what in sorted(old):
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        if new:
            return violation(self.prop, self.tier, self.seed, new)
        for msg in self.inconclusive:
            print(f"inconclusive: {msg}", file=sys.stderr)
        if self.inconclusive:
            return 2
        for k, least in gates.items():
            got = self.evals if k == "evaluations" else self.counters.get(k, 0)
            if got < least:
                print(f"inconclusive: observed only {got} of \"{k}\", expected at least {least}", file=sys.stderr)
                return 2
        print(f"{self.prop} {self.tier} seed {self.seed}: held on {self.evals} evaluations ({self.distinct} distinct), {ev['wall_s']} s")
        return 0


def violation(prop, tier, seed, items):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed,
                   "replay": f"VERIF_SEED={seed} python3 check.py {prop} {tier}", "violations": items}, f, indent=1)
    for v in items[:5]:
        print(f"  {v.get('run', '')} {v['what']}: {v['detail'][:1200]}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def gates_for(prop, tier):
    path = os.path.join(VERIF, "gates.json")
    if not os.path.exists(path) or os.environ.get("VERIF_NO_GATES"):
        return {}
    return json.load(open(path)).get(prop, {})


def check_monitored(prop, tier, seed, scratch):
    b = BINS[prop]
    flags = HOOK if prop in HOOKED else FEW if prop == "X01" else ""
    suffix = "-hook" if prop in HOOKED else "-few" if prop == "X01" else ""
    try:
        exes = parallel([
            lambda: build("chk" + suffix, [b], "chk", flags)[0],
        ] + [lambda: build("rel" + suffix, [b], "release", flags)[0]] * (prop != "X01" or tier != "quick") + [lambda: build("dev", [b], "dev", flags)[0]] * (prop == "P01"))
    except SendSync as e:
        if prop != "L02":
            raise BuildFailed(str(e))
        return violation(prop, tier, seed, [{"what": "threads", "detail": "values cannot be used from several threads any more: " + str(e)}])
    r = Result(prop, tier, seed)
    limit = 420 if tier == "quick" else 6 * 3600
    seeds = [seed] if tier == "quick" else [seed, seed + 1000]
    for s in seeds:
        # An optimiser may turn a walk into a division, so cost is also watched without one.
        for i, (label, exe) in enumerate(zip(("checked arithmetic", "release", "unoptimised"), exes)):
            # The runs explore different inputs.
            sub = s + 500_000 * i
            try:
                rep, cmd, _ = monitor(exe, prop, tier, sub, os.path.join(scratch, f"{sub}"), limit, ("--scale", "20") if i == 2 else ())
                r.add(rep, cmd, label)
            except Inconclusive as e:
                r.inconclusive.append(str(e))
            shutil.rmtree(os.path.join(scratch, f"{sub}"), ignore_errors=True)
            if r.nviol:
                break
        if r.nviol:
            break
    return r.finish(RULES[b], gates_for(prop, tier))


# ---- S01 ------------------------------------------------------------------------------------------

ASAN = "halt_on_error=1:abort_on_error=0:exitcode=86:detect_stack_use_after_return=1:strict_init_order=1"
TSAN = "halt_on_error=0:exitcode=87:report_bugs=1:second_deadlock_stack=1"


ASAN_BINS = ["san", "dt", "i01", "i03", "i04", "i05", "d01", "d02", "n01"]


def check_s01(prop, tier, seed, scratch):
    deep = tier != "quick"
    nightly = dict(toolchain="nightly", extra=("--target", TRIPLE))

    def builds(hook, bins):
        return parallel([
            lambda: build("asan", bins, "release", f"{hook} --cfg momentous_few_types -Zsanitizer=address", **nightly),
            lambda: build("asan-chk", bins, "chk", f"{hook} --cfg momentous_few_types -Zsanitizer=address", **nightly),
            lambda: build("tsan", ["san"], "release", f"{hook} -Zsanitizer=thread", toolchain="nightly",
                          extra=("--target", TRIPLE, "-Zbuild-std")),
            lambda: build("rel-hook", ["san"], "release", hook),
            lambda: build("leak", ["san"], "release", f"{hook} --cfg momentous_count_allocations"),
        ])

    hook, asan_bins, fallback = HOOK, ASAN_BINS, None
    try:
        try:
            asan, asan_chk, tsan, plain, leak = builds(hook, asan_bins)
        except BuildFailed as e:
            # The rest of the workload does not need the private items behind the hook.
            hook, asan_bins, fallback = "", [b for b in ASAN_BINS if b != "n01"], str(e)
            asan, asan_chk, tsan, plain, leak = builds(hook, asan_bins)
    except SendSync as e:
        return violation(prop, tier, seed, [{"what": "threads", "detail": "values cannot be used from several threads any more: " + str(e)}])
    r = Result(prop, tier, seed)
    r.notes.append(f"builds took {time.time() - STARTED:.0f} s")
    if fallback:
        r.notes.append("built without the hook, which does not compile: " + fallback[-800:])
    miri_env = env(hook, RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS="-Zmiri-disable-isolation")
    miri_cmd = ["cargo", "miri", "run", "--offline", "-q", "--bin", "san", "--target-dir", os.path.join(TARGET, "miri"), "--"]
    step = [0]
    spent = {}
    lock = threading.Lock()

    def sub():
        with lock:
            step[0] += 1
            d = os.path.join(scratch, f"s{step[0]}")
        os.makedirs(d, exist_ok=True)
        return d

    def tool(label, cmd, environ, patterns, timeout, stderr_only_patterns=True):
        """One run under a tool. A report block is a violation; anything else abnormal is inconclusive, except
        death by a memory fault."""
        out = os.path.join(sub(), "report.json")
        cmd = [*cmd, "--out", out]
        if "--scratch" not in cmd:
            cmd += ["--scratch", os.path.dirname(out)]
        began = time.time()
        rc, text = run(cmd, timeout, environ)
        with lock:
            spent[label] = spent.get(label, 0) + time.time() - began
        shown = " ".join(cmd)
        blocks = [m.start() for p in patterns for m in re.finditer(p, text)]
        with lock:
            if blocks:
                at = min(blocks)
                r.nviol += len(blocks)
                r.violations.append({"what": label, "detail": text[at:at + 4000], "run": label, "command": shown})
                return
            if rc is not None and rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGTRAP):
                r.nviol += 1
                r.violations.append({"what": label, "detail": f"killed by {signal.Signals(-rc).name}: {text[-3000:]}", "run": label, "command": shown})
                return
            if rc != 0 or not os.path.exists(out):
                r.inconclusive.append(f"{shown}: ended with {rc}\n{text[-2500:]}")
                return
            rep = json.load(open(out))
            # Wrong results are for the other properties' monitors.
            other = rep["nviol"]
            if "--leak" not in cmd:
                rep["nviol"], rep["violations"] = 0, []
                if other:
                    rep["counters"]["results that other monitors judge"] = other
            # Cases under one tool are not distinct from those under another.
            before = r.distinct
            r.add(rep, shown, label)
            r.distinct = max(before, rep["distinct"])
            r.counters[f"{label}: runs"] = r.counters.get(f"{label}: runs", 0) + 1

    asan_pat = [r"ERROR: AddressSanitizer", r"ERROR: LeakSanitizer: detected memory leaks"]
    tsan_pat = [r"WARNING: ThreadSanitizer", r"ERROR: ThreadSanitizer"]
    miri_pat = [r"error: Undefined Behavior", r"error: memory leaked", r"error: the evaluated program deadlocked", r"error: abnormal termination"]
    vg_pat = [r"==\d+== (Invalid|Use of uninit|Conditional jump|Syscall param|Source and destination overlap|Mismatched free|Jump to the invalid|Process terminating|.* definitely lost)"]
    vg = ["valgrind", "-q", "--error-exitcode=77", "--leak-check=full", "--show-leak-kinds=definite", "--errors-for-leak-kinds=definite"]
    asan_env = env(ASAN_OPTIONS=ASAN)
    tsan_env = env(TSAN_OPTIONS=TSAN)

    # Positive controls: each tool must report a deliberate fault here and now.
    def control(label, cmd, environ, patterns, must=True):
        d = sub()
        rc, text = run([*cmd, "--out", os.path.join(d, "o.json"), "--scratch", d], 300, environ)
        seen = any(re.search(p, text) for p in patterns)
        with lock:
            r.notes.append(f"control: {label} {'reported' if seen else 'did not report'} a deliberate fault")
            if must and not seen:
                r.inconclusive.append(f"{label} does not report a deliberate fault: {text[-1500:]}")
        return seen

    lsan = control("LeakSanitizer", [asan[0], "--tiny", "--plant=leak"], asan_env, [asan_pat[1]], must=False)
    if not lsan:
        asan_env = env(ASAN_OPTIONS=ASAN + ":detect_leaks=0")
    parallel([
        lambda: control("AddressSanitizer", [asan[0], "--tiny", "--plant=overflow"], asan_env, asan_pat[:1]),
        lambda: control("ThreadSanitizer", [tsan[0], "--tiny", "--plant=race"], tsan_env, tsan_pat),
        lambda: control("valgrind", [*vg, plain[0], "--tiny", "--plant=overflow"], env(), vg_pat),
        lambda: control("Miri", [*miri_cmd, "--tiny", "--scale", "10", "--threads", "2", "--plant=race"], miri_env, miri_pat[:1]),
    ])
    if r.inconclusive:
        return r.finish("", {})

    s = ["--seed"]
    # Miri: many small programs, each with its own scheduling seed, in parallel with one another.
    n_miri = 8 if not deep else 64
    jobs = []
    for k in range(n_miri):
        e = dict(miri_env)
        flags = "-Zmiri-disable-isolation -Zmiri-seed=%d" % (seed * 1000 + k)
        flags += ["", " -Zmiri-preemption-rate=0.2", " -Zmiri-tree-borrows"][k % 3]
        e["MIRIFLAGS"] = flags
        cmd = [*miri_cmd, "--tiny", "--prop", "S01", "--seed", str(seed * 1000 + k), "--threads", str(2 + k % 3), "--tier", tier]
        jobs.append(lambda e=e, cmd=cmd: tool("Miri", cmd, e, miri_pat, 800 if not deep else 3000))
    for i in range(0, len(jobs), 8):
        parallel(jobs[i:i + 8])
        if r.nviol:
            break

    # First use of everything by all threads at once: many short processes; then longer mixes.
    bursts = 60 if not deep else 2000
    par = 4
    work = []
    for k in range(bursts):
        work.append(lambda k=k: tool("ThreadSanitizer", [tsan[0], "--small", "--prop", "S01", "--seed", str(seed * 7919 + k), "--threads", str(2 + k % 7), "--scale", "20"], tsan_env, tsan_pat, 200))
    for k in range(3 if not deep else 40):
        work.append(lambda k=k: tool("ThreadSanitizer", [tsan[0], "--full", "--prop", "S01", "--seed", str(seed * 31 + k), "--tier", tier], tsan_env, tsan_pat, 1200))
    for k in range(3 if not deep else 40):
        work.append(lambda k=k: tool("AddressSanitizer", [asan[0], "--full", "--prop", "S01", "--seed", str(seed * 31 + k), "--tier", tier], asan_env, asan_pat, 1200))
    for k in range(2 if not deep else 20):
        work.append(lambda k=k: tool("valgrind", [*vg, plain[0], "--small", "--prop", "S01", "--seed", str(seed * 31 + k), "--tier", tier], env(), vg_pat, 1200))
    # The other monitors' workloads, for their breadth, under AddressSanitizer: as shipped, and with every
    # arithmetic, debug and unsafe-precondition check on.
    for p, b in BINS.items():
        if b in asan_bins:
            for built, label in ((asan, "AddressSanitizer"), (asan_chk, "AddressSanitizer with debug checks")):
                exe = built[asan_bins.index(b)]
                work.append(lambda p=p, exe=exe, label=label: tool(label, [exe, "--prop", p, "--seed", str(seed), "--scale", "1" if not deep else "20"], asan_env, asan_pat, 1200))
    work.append(lambda: tool("AddressSanitizer with debug checks", [asan_chk[0], "--full", "--prop", "S01", "--seed", str(seed * 37), "--tier", tier], asan_env, asan_pat, 1200))
    for k in range(2 if not deep else 10):
        work.append(lambda k=k: tool("counting allocator", [leak[0], "--leak", "--prop", "S01", "--seed", str(seed * 31 + k), "--tier", tier], env(), [], 1200))
    for i in range(0, 0 if r.nviol else len(work), par):
        parallel(work[i:i + par])
        if r.nviol:
            break
    r.notes.append("process seconds: " + ", ".join(f"{k} {v:.0f}" for k, v in sorted(spent.items())))
    return r.finish(
        "Uses of the public API (first-use bursts of all threads, shared chronologies and date-times, system-time conversions, invalid input, "
        "hand-over between threads) run under AddressSanitizer+LeakSanitizer, ThreadSanitizer, Miri, valgrind memcheck and a counting allocator; "
        "distinct = uses with different inputs in the largest single run; non-trivial = every one calls the library.",
        gates_for(prop, tier))


def setup():
    jobs = [
        lambda: build("chk", ["dt", "i01", "i02", "i03", "i04", "i05", "d01", "d02", "p01"], "chk"),
        lambda: build("rel", ["dt", "i01", "i02", "i03", "i04", "i05", "d01", "d02", "p01"], "release"),
        lambda: build("dev", ["p01"], "dev"),
        lambda: build("chk-hook", ["n01"], "chk", HOOK),
        lambda: build("chk-few", ["x01"], "chk", FEW),
    ]
    parallel(jobs)
    print("harness built")
    return 0


def main():
    if sys.argv[1:] == ["--setup"]:
        return setup()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if prop not in PROPS or tier not in ("quick", "thorough"):
        print(__doc__)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        f = check_s01 if prop == "S01" else check_monitored
        return f(prop, tier, seed, scratch)
    except (Inconclusive, BuildFailed, SendSync) as e:
        print(f"no answer: {e}", file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
