#!/usr/bin/env python3
"""check.py <property>        run the check of one property (VERIF_SEED, VERIF_TIER)
   check.py setup             build everything once
   check.py replay <file>     run one replay file against /repo's current tree
   check.py selftest          determinism of the simulator itself

Builds the simulator against /repo's working tree, searches seeded cases, writes
evidence/<property>.json.  Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Exit 2: no answer."""
import fcntl, glob, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")

# cases per property: quick, thorough (first configuration; the others get a share)
CASES = {
    "C01": (6000, 120000), "C02": (75000, 1500000), "C03": (90000, 2000000), "C04": (12000, 250000),
    "C05": (1800, 40000), "C06": (20000, 400000), "C07": (18000, 350000), "C08": (1800, 40000),
    "C09": (60000, 1800000), "C10": (1200, 20000), "C11": (75000, 1500000), "C12": (30000, 900000),
    "C13": (75000, 1500000),
}
# configuration: (cargo arguments, profile directory, share of the cases)
CONFIGS = {
    "quick": [("f32", [], "debug", 1.0), ("f64", ["--features", "f64"], "debug", 0.2)],
    "thorough": [
        ("f32", [], "debug", 1.0),
        ("f64", ["--features", "f64"], "debug", 0.4),
        ("f32-release", ["--release"], "release", 0.4),
    ],
}

REAL = {
    "default": "the whole pbrtrs library (src/parser.rs and the src/core code it uses), compiled from /repo's working tree with edge callbacks; std",
    "C11": "the whole command-line program (src/bin/pbrt.rs) and the pbrtrs library, compiled from /repo's working tree; std's output path",
}
STUB = {
    "default": "operating system behind libc symbols (clock, entropy, environment, files, descriptors, futex), thread scheduler, allocator decisions; storage and transfer of the scene text (a fault model on bytes: the repository has no file-loading code of its own)",
    "C11": "kernel side of write/writev on standard output and allocator decisions (preloaded shim that injects errors and passes accepted bytes on)",
}
RULES = {
    "C01": "a case is a generated well-formed scene and 4-16 instants of a copy in progress (cut position, tail missing/zeroed/blank/newlines); non-trivial: distinct (scene, cut, tail) with the cut before the end of the world block",
    "C02": "a case is a generated scene and a sequence of 0-5 storage/transfer faults; non-trivial: distinct delivered texts that are undamaged or differ from the original; oracle: reference reader, directives without parameters",
    "C03": "a case is a generated scene and a sequence of 0-5 storage/transfer faults; non-trivial: distinct delivered texts that are undamaged or differ from the original; oracle: reference reader, parameter sets",
    "C04": "a case is 2-8 threads with 1-3 calls each and an explicit schedule of pre-emptions at instrumented edges, allocations and lock waits; non-trivial: distinct cases in which at least one pre-emption happened; oracle: outcome of each call alone in a fresh process",
    "C05": "a case is a history of 2-66000 calls (values, refusals, panics; 1-3 threads one after the other); non-trivial: distinct histories of at least two calls; oracle: outcome of each call alone in a fresh process",
    "C06": "a case is 1-4 calls and a changed environment (memory contents and layout, clock, entropy, variables, arguments, files, pid); non-trivial: all distinct cases; oracle: outcome in the default environment, and no recorded effect",
    "C07": "a case is a call and 3-10 plans of failing allocations; non-trivial: distinct (call, failing allocations) in which an allocation did fail; oracle: outcome with enough memory",
    "C08": "a case is 2-24 texts each read three times, and possibly hundreds of texts with names never seen before; non-trivial: distinct cases; oracle: allocator book-keeping",
    "C09": "a case is a damaged scene, a long text, or a random mixture of words, characters and numbers; non-trivial: distinct delivered texts; oracle: answer within the step, allocation and byte budget",
    "C10": "a case is a piece of text repeated n, n*k and 2*n*k times, read on a large stack with its use measured and on a 2 MiB stack; non-trivial: distinct cases",
    "C11": "a case is a plan of faults for the program's writes and allocations; non-trivial: distinct plans of which at least one fault fired; oracle: exit status and delivered bytes",
    "C12": "a case is a (possibly damaged) text and a set of line endings rewritten once or twice; non-trivial: distinct rewritten texts; oracle: outcome of the text with LF only",
    "C13": "a case is a generated scene and 1-5 storage/transfer faults; non-trivial: distinct damaged texts refused with a place; oracle: words and lines of the delivered text",
}


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.98.1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:" + e.get("PATH", "")
    return e


class NoAnswer(Exception):
    pass


def cargo(manifest, target, args, wrapper):
    """Builds from /repo's current tree; cargo's own change detection (file times) is not trusted."""
    for d in glob.glob(os.path.join(target, "*", ".fingerprint", "pbrtrs-*")):
        shutil.rmtree(d, ignore_errors=True)
    e = env()
    if wrapper:
        e["RUSTC_WRAPPER"] = os.path.join(HERE, "sim", "rustc-wrap.sh")
    cmd = ["cargo", "build", "-q", "--offline", "--manifest-path", manifest, "--target-dir", target] + args
    for attempt in range(2):
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=HERE)
        if r.returncode == 0:
            return
        shutil.rmtree(target, ignore_errors=True)  # a damaged cache, perhaps
    sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
    raise NoAnswer("build failed")


def build(name, args, prof, prop):
    t = os.path.join(TARGET, name)
    cargo(os.path.join(HERE, "sim", "Cargo.toml"), t, args, True)
    e = env()
    if prop == "C11":
        b = os.path.join(TARGET, "bin-" + name)
        cargo(os.path.join(HERE, "pbrtbin", "Cargo.toml"), b, args, False)
        shim = os.path.join(TARGET, "shim.so")
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", shim, os.path.join(HERE, "sim", "shim.c")], env=e)
        if r.returncode != 0:
            raise NoAnswer("cannot build the shim")
        e["SIM_PBRT"] = os.path.join(b, prof, "pbrt")
        e["SIM_SHIM"] = shim
    dictionary(e)
    return os.path.join(t, prof, "sim"), e


# Literals of the code as first seen: tried less often than new ones.
KNOWN = set('Accelerator|ActiveTransform|AreaLightSource|AttributeBegin|AttributeEnd|Camera|ConcatTransform|CoordSysTransform|CoordinateSystem|EOF|Film|Filter|Identity|Include|Integrator|LightSource|LookAt|Material|Rotate|Sampler|Scale|Shape|Singular matrix in Matrix4::inverse|Singular matrix in Matrix::inverse|Texture|Transform|TransformBegin|TransformEnd|TransformTimes|Translate|WorldBegin|WorldEnd|blackbody|bool|divide by zero|false|float|float_as_f64|int|integer|point2|point2f|reading file|rgb|spectrum|string|texture|true|vector2|vector2f|xyz'.split('|'))


def dictionary(e):
    """String and number literals of the code under test, for the generators."""
    words, numbers = set(), set()
    for f in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.rs"), recursive=True)):
        t = open(f, encoding="utf-8", errors="replace").read()
        t = re.split(r"#\[cfg\(test\)\]\s*(?:pub\s+)?mod\s", t)[0]
        for w in re.findall(r'"((?:[^"\\\n]|\\.)*)"', t):
            if len(w) <= 40 and "{" not in w and "\\" not in w and "(" not in w:
                words.add(w)
        t = re.sub(r'"(?:[^"\\\n]|\\.)*"', '""', t)
        t = re.sub(r"//[^\n]*", "", t)
        for a, b in re.findall(r"\b(\d+)\s*<<\s*(\d+)\b", t):
            if int(b) < 17:
                numbers.add(int(a) << int(b))
        for n in re.findall(r"\b(0x[0-9a-fA-F_]+|\d[\d_]*)", t):
            v = int(n.replace("_", ""), 0) if n.startswith("0x") else int(n.replace("_", ""))
            if 8 < v <= 70000:
                numbers.add(v)
    p = os.path.join(TARGET, "dict.txt")
    with open(p, "w") as f:
        f.writelines("s %s\n" % w * (1 if w in KNOWN else 6) for w in sorted(words))
        f.writelines("n %d\n" % n * (1 if n in (9, 10, 100, 999) else 3) for n in sorted(numbers))
    e["SIM_DICT"] = p


def reproduces(binary, e, path):
    for _ in range(2):
        r = subprocess.run([binary, "replay", path], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        if r.returncode == 1:
            return True
    return False


def check(prop, seed, tier):
    t0 = time.time()
    results, violation, notes = [], None, []
    workers = min(8, os.cpu_count() or 1)
    wall = 200 if tier == "quick" else 3000
    for name, args, prof, share in CONFIGS[tier]:
        binary, e = build(name, args, prof, prop)
        n = max(16, int(CASES[prop][tier == "thorough"] * share))
        out = os.path.join(TARGET, "out-%s-%s.json" % (prop, name))
        if os.path.exists(out):
            os.remove(out)
        cmd = [binary, "run", "--prop", prop, "--seed", str(seed), "--cases", str(n), "--workers", str(workers),
               "--wall", str(wall), "--out", out, "--replay-dir", os.path.join(HERE, "replays")]
        r = subprocess.run(cmd, env=e)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            raise NoAnswer("the simulator failed (status %d)" % r.returncode)
        d = json.load(open(out))
        results.append(d)
        if d["violation"]:
            if reproduces(binary, e, d["violation"]["replay"]):
                violation = d["violation"]
                break
            notes.append("case %d looked like a violation but its replay did not reproduce it" % d["violation"]["index"])
    write_evidence(prop, seed, tier, results, violation, notes, time.time() - t0)
    if violation:
        print("%s: [%s] %s" % (prop, violation["class"], "".join(c if c.isprintable() else "\\x%02x" % ord(c) for c in violation["detail"][:600])))
        print("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
        return 1
    if not sum(x["distinct_nontrivial"] for x in results):
        raise NoAnswer("no case exercised the property")
    print("%s: held in %d simulated runs (%d cases, %d distinct non-trivial) in %.0f s" % (
        prop, sum(x["runs"] for x in results), sum(x["evaluations"] for x in results),
        sum(x["distinct_nontrivial"] for x in results), time.time() - t0))
    return 0


def write_evidence(prop, seed, tier, results, violation, notes, wall):
    def total(k):
        return sum(x[k] for x in results)

    def merged(k):
        m = {}
        for x in results:
            for a, b in x[k].items():
                m[a] = max(m.get(a, 0), b) if a.startswith("max ") else m.get(a, 0) + b
        return m

    secs = max(0.001, total("search_s"))
    samples = []
    for x in results:
        samples += x["samples"]
    cov = {
        "evaluations": total("evaluations"),
        "distinct_nontrivial": total("distinct_nontrivial"),
        "rule": RULES[prop],
        "samples": [s[:3000] for s in samples[:4]],
        "simulated_runs": total("runs"),
        "runs_per_hour": int(total("runs") / secs * 3600),
        "cases_per_hour": int(total("evaluations") / secs * 3600),
        "simulated_time_steps": total("steps"),
        "simulated_time_unit": "writes seen by the simulated kernel" if prop == "C11" else "instrumented edges and allocator calls executed by the code under test",
        "faults_injected": merged("faults"),
        "reached": merged("probes"),
        "edges_reached_of_instrumented": {x["config"]: [x["edges_reached"], x["edges_total"]] for x in results},
        "configurations": {x["config"]: {"cases": x["evaluations"], "runs": x["runs"], "cut_by_wall_clock": x["cut_by_wall"]} for x in results},
        "determinism_audit": {"cases_run_twice": total("audited"), "differing": [i for x in results for i in x["unstable"]]},
        "seeds": "cases 0..n-1 of seed %d; each case is one seeded generator (seed, property, index)" % seed,
        "real_components": REAL.get(prop, REAL["default"]),
        "stub_components": STUB.get(prop, STUB["default"]),
    }
    if prop in ("C04", "C05"):
        cov["thread_switches"] = total("switches")
        cov["distinct_interleavings"] = total("distinct_interleavings")
        cov["interleaving_measure"] = "hash of the sequence of (step number, thread switched to) of a run"
    if notes:
        cov["notes"] = notes
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "wall_s": round(wall, 3), "violations": 1 if violation else 0,
        "assumptions": [
            "explored cases only: seeded search, not exhaustive",
            "the reference reader and the generators in /verif/sim are right about the scene format",
        ],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")


def replay(path):
    prop, config = "", "f32"
    for l in open(path):
        if l.startswith("property "):
            prop = l.split()[1]
        if l.startswith("config "):
            config = l.split()[1]
    for name, args, prof, _ in CONFIGS["thorough"]:
        if name == config:
            binary, e = build(name, args, prof, prop)
            return subprocess.run([binary, "replay", path], env=e).returncode
    raise NoAnswer("unknown configuration " + config)


def selftest():
    """Same seed, different numbers of workers, fresh processes: the executions must be identical."""
    bad = 0
    for prop in sorted(CASES):
        binary, e = build("f32", [], "debug", prop)
        got = []
        for w in (1, 5, 8):
            out = os.path.join(TARGET, "self.json")
            n = max(24, CASES[prop][0] // 40)
            subprocess.run([binary, "run", "--prop", prop, "--seed", "77", "--cases", str(n), "--workers", str(w), "--out", out], env=e)
            d = json.load(open(out))
            got.append((d["digest"], d["steps"], d["runs"], d["distinct_nontrivial"], d["distinct_interleavings"], d["unstable"]))
        ok = got[0] == got[1] == got[2]
        bad += not ok
        print(prop, "identical" if ok else "DIFFERS %r" % got)
    return 1 if bad else 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        cmd = sys.argv[1]
        try:
            if cmd == "setup":
                for name, args, prof, _ in CONFIGS["quick"]:
                    build(name, args, prof, "C11")
                return 0
            if cmd == "replay":
                return replay(sys.argv[2])
            if cmd == "selftest":
                return selftest()
            seed = int(os.environ.get("VERIF_SEED", "1") or 1)
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--thorough" in sys.argv:
                tier = "thorough"
            return check(cmd, seed, "thorough" if tier == "thorough" else "quick")
        except NoAnswer as x:
            print("no answer: %s" % x, file=sys.stderr)
            return 2


if __name__ == "__main__":
    sys.exit(main())
