#!/usr/bin/env python3
"""Build the harness from /repo's working tree and run the monitors of one property.

usage: check.py <ID> quick|thorough      exit 0 held, 1 VIOLATION line, 2 no verdict
       check.py build [variant...]       (setup) build the variants
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time, fcntl

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
TARGET = os.path.join(V, "target")
WORK = os.path.join(V, "work")
TRIPLE = "x86_64-unknown-linux-gnu"

VARIANTS = {
    # what users run / everything the compiler can check / sanitizers / interpreter
    "release": dict(tool="stable", args=["--release"], bin="release/vpmon"),
    "checked": dict(tool="stable", args=["--profile", "checked"], bin="checked/vpmon"),
    "asan": dict(tool="nightly", args=["--target", TRIPLE], bin=TRIPLE + "/debug/vpmon",
                 flags="-Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer"),
    # std instrumented too: otherwise its mutexes are invisible and every use of them looks like a race
    "tsan": dict(tool="nightly", args=["-Zbuild-std", "--target", TRIPLE], bin=TRIPLE + "/debug/vpmon",
                 flags="-Zsanitizer=thread"),
    # reads of uninitialised memory at native speed; std must be instrumented as well
    "msan": dict(tool="nightly", args=["-Zbuild-std", "--target", TRIPLE], bin=TRIPLE + "/debug/vpmon",
                 flags="-Zsanitizer=memory -Zsanitizer-memory-track-origins"),
    "miri": dict(tool="nightly", args=[], bin=None),
}

# property -> runs: (variant, scale at quick, scale at thorough, extra)
STD = [("release", 1.0, 1.0), ("checked", 0.12, 0.2)]
PLAN = {p: STD for p in ["C01", "C02", "C04", "C05", "C06", "C07", "C08"]}
PLAN["C03"] = [("release", 1.0, 1.0), ("checked", 1.0, 1.0)]
PLAN["C09"] = [("release", 2.0, 1.0), ("checked", 0.2, 0.1)]
PLAN["C10"] = [("release", 1.0, 1.0), ("tsan", 0.3, 0.3), ("miri", 1.0, 1.0, {"_miriflags": "-Zmiri-many-seeds=0..4"})]
PLAN["C11"] = [("checked", 4.0, 2.0), ("asan", 3.0, 2.0), ("msan", 2.0, 1.0), ("miri", 0.6, 1.0, {"_procs": 6})]
for _p in ["C12", "C13", "C14", "C16", "C17", "C18", "C22"]:
    PLAN[_p] = [("release", 1.0, 1.0), ("checked", 0.3, 0.3)]
PLAN["C15"] = [("release", 4.0, 2.0), ("checked", 0.5, 0.3)]
PLAN["C19"] = [("release", 1.0, 1.0)]
PLAN["C20"] = [("release", 2.0, 1.0), ("checked", 1.0, 1.0)]
PLAN["C21"] = [("release", 1.0, 1.0), ("checked", 0.3, 0.3)]

PERM = ("One evaluation is one input state run through every evaluator of one instance and compared element by element with "
        "an independent layered evaluation of the specification; distinct by (instance, state), non-trivial when the output "
        "differs from the input. States: systematic special families, mixtures of special values, groups of close relatives, "
        "and states computed backwards through the model so that a chosen inner layer sees a chosen value.")
CUSTOM = " Parameter sets are generated over production and tiny fields; tiny state spaces are run completely."
TREE = ("One evaluation is one accumulated root compared with a plain fold of the padded leaves; compressions are symbolic "
        "(injective), so equal roots mean equal trees, as well as algebraic, degenerate and real. Distinct by (tree, size, leaf "
        "pattern, compression), non-trivial always.")
RULES = {
    "C01": PERM, "C02": PERM, "C04": PERM + CUSTOM, "C05": PERM + CUSTOM, "C06": PERM + CUSTOM, "C07": PERM + CUSTOM,
    "C03": "One evaluation is one table entry compared with the regenerated one, one reported parameter, or one state run through "
           "a named instance and one built from the regenerated tables; non-trivial when the expected entry is not zero.",
    "C08": "One evaluation is one output entered in an image set, or one state recovered through the model's inverse; distinct by "
           "(instance, state), non-trivial when the output differs from the input.",
    "C09": "One evaluation is one call in a random history (instances, clones, relocated parameters, threads, refused calls, noise "
           "in between) whose result is compared with the first result for that instance and input and, on any doubt, with the same "
           "call made alone in a pristine process; distinct by (instance, operation, input).",
    "C10": "One evaluation is one call made while other threads use the same instances, compared as for C09; distinct by (instance, "
           "operation, input). Counters give the distinct completion orders and thread switches recorded; TSan and Miri watch every access.",
    "C11": "One evaluation is one API call of a random tour with good or odd arguments under a sanitizer, the interpreter or checked "
           "arithmetic; distinct by (field, operation, step).",
    "C12": TREE, "C13": TREE, "C14": TREE,
    "C15": "One evaluation is one compressed pair compared with the permutation of (a, b, 0...), or one refusal by an instance of "
           "another width; distinct by (instance, pair).",
    "C16": "One evaluation is one matrix operation compared with an independent computation or the defining identity; distinct by "
           "(operation, matrix).",
    "C17": "One evaluation is one field operation compared with big-integer arithmetic; distinct by (field, operation, operands).",
    "C18": "One evaluation is one string decoded or refused, compared with a big-integer oracle; distinct by (field, string).",
    "C19": "One evaluation is one drawn element or generated constant entering the statistics (chi-square on cells, bits, pairs; "
           "freshness across sets, threads and processes); distinct by drawn value or draw index.",
    "C20": "One evaluation is one misuse that must panic, or one correct call compared with its result before the misuse; distinct by "
           "(misuse, arguments).",
    "C21": "One evaluation is one call made between two readings of the live heap; distinct_nontrivial counts the call classes "
           "(instance x kind of call), each measured over six equal batches after warming up.",
    "C22": "One evaluation is one state run through the cheap partial rounds with derived tables and through the plain ones; distinct "
           "by (matrix, constants, state).",
}
MODEL = ["the harness's own model of the specification and its own Grain LFSR are right (they reproduce the published test vectors)",
         "ark-ff arithmetic is shared by model and code for the model's fields; C17 checks it against big integers"]
NOTES = {p: MODEL for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"]}
NOTES["C19"] = ["statistical thresholds are set so that a correct generator fails a run with probability below 1e-9"]
NOTES["C10"] = ["TSan sees the interleavings that occurred; Miri explores a few schedules per seed"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def repo_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, x) for x in ("Cargo.toml", "Cargo.lock", "build.rs")]
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        roots += [os.path.join(d, f) for f in sorted(fs)]
    for f in roots:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
            h.update(b"\0")
    return h.hexdigest()


def env_for(variant, hooks):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR",
              "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL", "MIRIFLAGS"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    fl = ["--cfg", "vp_hooks"] if hooks else []
    fl += VARIANTS[variant].get("flags", "").split()
    e["RUSTFLAGS"] = " ".join(fl)
    e["XDG_CACHE_HOME"] = os.path.join(TARGET, "cache")
    return e


class NoVerdict(Exception):
    pass


class NotShareable(Exception):
    """The monitors do not compile because the library's types can no longer be used by several threads."""


THREADS = re.compile(r"cannot be (sent|shared) between threads safely")


def tdir(variant, hooks):
    return os.path.join(TARGET, variant + ("" if hooks else "-nohooks"))


SHARE = {}  # variant -> features the harness must be run with (Miri builds as it runs)


def build(variant, judge_sharing=False):
    """Returns (hooks, description of how to run)."""
    v = VARIANTS[variant]
    os.makedirs(TARGET, exist_ok=True)
    want = repo_hash()
    for hooks in (True, False):
        td = tdir(variant, hooks)
        os.makedirs(td, exist_ok=True)
        lock = open(os.path.join(td, ".vplock"), "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        env = env_for(variant, hooks)
        stamp = os.path.join(td, "repo.sha256")
        have = open(stamp).read().strip() if os.path.exists(stamp) else ""
        base = ["cargo", "+" + v["tool"]]
        man = ["--manifest-path", os.path.join(V, "harness/Cargo.toml"), "--target-dir", td, "--offline"]
        if have != want and have != "":
            # never trust timestamps: the tree may be a copy with arbitrary ones
            prof = v["args"] if variant in ("release", "checked") else []
            for pkg in ("zkhash", "vpmon"):
                subprocess.run(base + ["clean", "-p", pkg] + prof +
                               (["--target", TRIPLE] if variant in ("asan", "tsan", "msan") else []) + man,
                               env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if variant == "miri":
                shutil.rmtree(os.path.join(td, "miri"), ignore_errors=True)
        if os.path.exists(stamp):
            os.unlink(stamp)
        if variant == "miri":
            # `miri run` builds and interprets; a no-op property builds it
            env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
        t0 = time.time()
        for share in ([], ["--features", "share"]):
            if variant == "miri":
                cmd = base + ["miri", "run"] + share + man + ["--", "noop"]
            else:
                cmd = base + ["build"] + v["args"] + share + man
            try:
                r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=840)
            except subprocess.TimeoutExpired:
                raise NoVerdict("building %s timed out" % variant)
            unshared = r.returncode != 0 and THREADS.search(r.stdout) and "could not compile `vpmon`" in r.stdout
            if not unshared:
                break
            if judge_sharing:
                raise NotShareable(r.stdout)
            log("the types cannot be used by several threads; building %s without sharing" % variant)
        if r.returncode == 0:
            SHARE[variant] = share
            with open(stamp, "w") as f:
                f.write(want)
            log("built %s%s in %.1f s" % (variant, "" if hooks else " (no hooks)", time.time() - t0))
            return hooks, td
        log("build of %s (hooks=%s) failed:\n%s" % (variant, hooks, r.stdout[-3000:]))
        if unshared:
            break
    raise NoVerdict("the tree does not build as %s" % variant)


SAN = re.compile(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|ERROR: ThreadSanitizer|WARNING: MemorySanitizer|ERROR: MemorySanitizer|error: Undefined Behavior|"
                 r"unsafe precondition\(s\) violated|has overflowed its stack|panic in a function that cannot unwind|"
                 r"error: memory leaked|attempt to .* with overflow|free\(\): |malloc\(\): |double free|corrupted)")


def save_replay(prop, variant, text, cmd, seed):
    d = os.path.join(WORK, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s-report.txt" % (prop, variant, seed))
    with open(p, "w") as f:
        f.write("command: %s\n\n%s\n" % (" ".join(cmd), text))
    return p


def build_all(variants, judge_sharing=False):
    """Build side by side: each variant is mostly a chain of single crates."""
    import threading
    res = {}

    def one(v):
        try:
            res[v] = build(v, judge_sharing)
        except BaseException as e:
            res[v] = e
    ts = [threading.Thread(target=one, args=(v,)) for v in variants]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for v in variants:
        if isinstance(res[v], NotShareable):
            raise res[v]
    for v in variants:
        if isinstance(res[v], BaseException):
            raise res[v]
    return res


def run_many(prop, tier, seed, variant, scale, extra, deadline, built):
    n = int(extra.get("_procs", 1))
    if n == 1:
        return run_one(prop, tier, seed, variant, scale, extra, deadline, built, 0)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(run_one, prop, tier, seed + 100 * k, variant, scale, extra, deadline, built, k) for k in range(n)]
        rs = [f.result() for f in fs]
    if any(r is None for r in rs):
        return None
    tot = rs[0]
    for r in rs[1:]:
        tot["evaluations"] += r["evaluations"]
        tot["distinct"] += r["distinct"]
        tot["wall_s"] = max(tot["wall_s"], r["wall_s"])
        for k, c in r["counters"].items():
            tot["counters"][k] = tot["counters"].get(k, 0) + c
    tot["processes"] = n
    return tot


def run_one(prop, tier, seed, variant, scale, extra, deadline, built, k):
    hooks, td = built
    v = VARIANTS[variant]
    out = os.path.join(WORK, "%s-%s-%d-%d.json" % (prop, variant, os.getpid(), k))
    os.makedirs(WORK, exist_ok=True)
    if os.path.exists(out):
        os.unlink(out)
    args = [prop, "--tier", tier, "--seed", str(seed), "--variant", variant, "--scale", str(scale), "--out", out,
            "--repo", REPO, "--replay", os.path.join(WORK, "replay"), "--known", known_file(prop)]
    for k, x in extra.items():
        if not k.startswith("_"):
            args += ["--" + k, str(x)]
    env = env_for(variant, hooks)
    env["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:exitcode=77:detect_stack_use_after_return=1:abort_on_error=0"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
    env["MSAN_OPTIONS"] = "halt_on_error=1:exitcode=86"
    if variant == "miri":
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation " + extra.get("_miriflags", "")
        cmd = ["cargo", "+nightly", "miri", "run"] + SHARE.get(variant, []) + ["--manifest-path", os.path.join(V, "harness/Cargo.toml"),
               "--target-dir", td, "--offline", "-q", "--"] + args
    else:
        cmd = [os.path.join(td, v["bin"])] + args
    t0 = time.time()
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         start_new_session=True)
    try:
        so, se = p.communicate(timeout=max(30, deadline - time.time()))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise NoVerdict("%s run did not finish in time" % variant)
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    log("%s %s: exit %s in %.1f s" % (prop, variant, p.returncode, time.time() - t0))
    for line in so.splitlines():
        if line.startswith("KNOWN-FINDING:"):
            print(line)
    if p.returncode == 1 and re.search(r"^VIOLATION property=%s " % prop, so, re.M):
        sys.stdout.write(so[-6000:])
        return None
    m = SAN.search(se)
    crashed = p.returncode < 0 and -p.returncode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE)
    if "memory allocation of" in se and not m:
        crashed = False
    if (m and p.returncode != 0) or crashed:
        rp = save_replay(prop, variant, "exit %s\n%s\n%s" % (p.returncode, so[-4000:], se[-20000:]), cmd, seed)
        print("# %s [%s]: %s" % (prop, variant, m.group(0) if m else "killed by signal %d" % -p.returncode))
        for line in se.splitlines()[:40]:
            print("# " + line[:300])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return None
    if p.returncode != 0 or not os.path.exists(out):
        log(so[-3000:])
        log(se[-6000:])
        raise NoVerdict("%s run ended with %s" % (variant, p.returncode))
    d = json.load(open(out))
    os.unlink(out)
    return d


def known_file(prop):
    """Keys of the recorded findings of this property, one per line (read-only input of the harness)."""
    src = os.path.join(V, "known_findings.json")
    keys = []
    if os.path.exists(src):
        keys = [f["key"] for f in json.load(open(src)).get("findings", []) if f["property"] == prop]
    os.makedirs(WORK, exist_ok=True)
    p = os.path.join(WORK, "known-%s-%d.txt" % (prop, os.getpid()))
    with open(p, "w") as f:
        f.write("".join(k + "\n" for k in keys))
    return p


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "build":
        try:
            build_all(sys.argv[2:] or list(VARIANTS))
        except NoVerdict as e:
            log(e)
            sys.exit(2)
        sys.exit(0)
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    runs = []
    violated = False
    if prop == "C23":
        script(prop, tier, seed, t0, deadline)
    try:
        built = build_all(sorted({r[0] for r in PLAN[prop]}), prop == "C10")
        for i, r in enumerate(PLAN[prop]):
            variant, q, t = r[:3]
            extra = dict(r[3]) if len(r) > 3 else {}
            scale = q if tier == "quick" else t
            if scale <= 0:
                continue
            d = run_many(prop, tier, seed * 1000 + i, variant, scale, extra, deadline, built[variant])
            if d is None:
                violated = True
                break
            d["run"] = i
            runs.append(d)
    except NotShareable as e:
        rp = save_replay(prop, "build", str(e), ["cargo", "build"], seed)
        m = re.search(r"error.*cannot be (sent|shared).*", str(e))
        print("# C10: the hash and tree types can no longer be shared by threads: %s" % (m.group(0) if m else ""))
        print("VIOLATION property=C10 replay=%s" % rp)
        write_evidence(prop, tier, seed, runs, t0, 1, "the types cannot be used by several threads")
        sys.exit(1)
    except NoVerdict as e:
        print("INCONCLUSIVE property=%s %s" % (prop, e))
        write_evidence(prop, tier, seed, runs, t0, 0, str(e))
        sys.exit(2)
    finally:
        try:
            os.unlink(os.path.join(WORK, "known-%s-%d.txt" % (prop, os.getpid())))
        except OSError:
            pass
    if not violated and sum(d["evaluations"] for d in runs) == 0:
        print("INCONCLUSIVE property=%s nothing was observed" % prop)
        sys.exit(2)
    write_evidence(prop, tier, seed, runs, t0, int(violated), None)
    sys.exit(1 if violated else 0)


def script(prop, tier, seed, t0, deadline):
    """C23: the parameter script, run by a stand-in for Sage; nothing to compile."""
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, "params-%d.json" % os.getpid())
    cmd = [sys.executable, "-B", os.path.join(V, "script/params.py"), REPO, tier, str(seed), out]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        so, se = p.communicate(timeout=max(30, deadline - time.time()))
        d = json.load(open(out))
    except (subprocess.TimeoutExpired, OSError, ValueError) as e:
        print("INCONCLUSIVE property=%s %s" % (prop, e))
        write_evidence(prop, tier, seed, [], t0, 0, str(e))
        sys.exit(2)
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        if os.path.exists(out):
            os.unlink(out)
    d.update(variant="script", hooks=False, wall_s=round(time.time() - t0, 3))
    if d["violation"]:
        rp = save_replay(prop, "script", d["violation"], cmd, seed)
        print("# %s: what the parameter script emits is wrong" % prop)
        print("# witness: %s" % d["violation"][:1500])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    elif d["unable"]:
        print("INCONCLUSIVE property=%s %s" % (prop, d["unable"][-1500:]))
    write_evidence(prop, tier, seed, [d], t0, int(bool(d["violation"])), d["unable"])
    sys.exit(p.returncode if p.returncode in (0, 1) else 2)


def write_evidence(prop, tier, seed, runs, t0, violations, note):
    samples = []
    for d in runs:
        samples += ["[%s] %s" % (d["variant"], s) for s in d["samples"][:12]]
    cov = {
        "evaluations": sum(d["evaluations"] for d in runs),
        "distinct_nontrivial": sum(d["distinct"] for d in runs),
        "rule": RULES.get(prop, DEFAULT_RULE) + " Counted per build variant; each variant uses its own random stream.",
        "samples": samples[:40],
        "runs": [{"variant": d["variant"], "evaluations": d["evaluations"], "distinct_nontrivial": d["distinct"],
                  "hooks": d["hooks"], "wall_s": d["wall_s"], "observed": d["counters"]} for d in runs],
    }
    if note:
        cov["note"] = note
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": NOTES.get(prop, []), "wall_s": round(time.time() - t0, 3), "violations": violations}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = os.path.join(V, "evidence", ".%s.%d.tmp" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(V, "evidence", "%s.json" % prop))


RULES["C23"] = ("One evaluation is one emitted number (or pair of round numbers) compared with an independent computation, or one refused "
                "width; distinct by (prime, width, table, position, value).")
NOTES["C23"] = ["Sage is not installed: the script is run by a stand-in for the Sage functions it uses (script/sagelike.py)"]

DEFAULT_RULE = ("One evaluation is one observed call (or generated case) judged by the oracle; it is distinct by "
                "(instance or object, input) and non-trivial when the call changed its input or could have failed.")

if __name__ == "__main__":
    main()
