#!/usr/bin/env python3
"""Runs one property check:  python3 run.py C01 [--tier quick|thorough] [--seed N]
                             python3 run.py --replay evidence/replays/C01.json
Builds the harnesses of the property from the headers in /repo's working tree, runs them, judges, writes evidence/<id>.json.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the machinery itself failed."""
import argparse, concurrent.futures as cf, hashlib, json, os, pathlib, re, shutil, subprocess, sys, tempfile, time

ROOT = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = pathlib.Path(os.environ.get("VERIF_BUILD", ROOT / ".build"))
EVID = ROOT / "evidence"
H = ROOT / "harness"
CPUS = os.cpu_count() or 4
RUN_LIMIT = {"quick": 420, "thorough": 3600}

try:
    CPUFLAGS = set(re.search(r"^flags\s*:(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
except Exception:
    CPUFLAGS = set()
AVX2 = "avx2" in CPUFLAGS
AVX512 = {"avx512f", "avx512dq", "avx512vl"} <= CPUFLAGS

GXX = ["g++", "-std=c++20", "-w", "-pthread"]
CLANG = ["clang++", "-std=c++20", "-w", "-pthread"]
O2 = GXX + ["-O2"]
SAN = GXX + ["-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-DVF_SANITIZED"]
TSAN = GXX + ["-O1", "-g1", "-fsanitize=thread", "-DVF_SANITIZED", "-DVF_NO_TRACE"]


class Unit:
    """one binary and how to run it"""

    def __init__(self, src, name=None, cc=O2, defs=(), libs=("-lquadmath",), args=(), env=None, kind="plain", tier=None, prefix=(), exclusive=True):
        self.src, self.cc, self.defs, self.libs = src, list(cc), list(defs), list(libs)
        self.name = name or src
        self.args, self.env, self.kind, self.tier, self.prefix = list(args), env or {}, kind, tier, list(prefix)
        self.exclusive = exclusive  # uses every core by itself

    def key(self, heads):
        h = hashlib.sha256()
        for x in (self.cc, self.defs, self.libs, heads):
            h.update(repr(x).encode())
        for f in [H / (self.src + ".cpp")] + sorted(H.glob("*.hpp")):
            h.update(f.read_bytes())
        return h.hexdigest()[:24]


def parts(src, n, **kw):
    return [Unit(src, f"{src}.{p}", defs=[f"-DPART={p}"], **kw) for p in range(n)]


PARTS = {"c01": 5, "c02": 4, "c03": 1, "c04": 3, "c05": 5, "c06": 1, "c07": 2, "c08": 1, "c09": 1, "c10": 2, "c11": 1, "c12": 1, "c13": 1,
         "c14": 1, "c15": 1, "c16": 1, "c17": 2, "c18": 2, "c19": 1, "c20": 1, "c21": 1, "c22": 1, "c26": 1, "c28": 1, "c31": 1, "c34": 1}


def sanitized(srcs, factor=1):
    us = []
    for s in srcs:
        for p in range(PARTS[s]):
            us.append(Unit(s, f"asan+ubsan {s}.{p}", cc=SAN, defs=[f"-DPART={p}", f"-DVF_TINY={factor}"], kind="san", tier="tiny", args=["--threads", "2", "--hang", "120"], exclusive=False,
                           env={"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1",
                                "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77"}))
    return us


def memcheck():
    return [Unit("c23", "memcheck ops", cc=GXX + ["-O1", "-g1", "-DVF_SANITIZED"], kind="san", tier="tiny", args=["--threads", "2", "--hang", "500"], exclusive=False,
                 prefix=["valgrind", "-q", "--error-exitcode=77", "--track-origins=no"])]


def units(prop, tier, seed):
    p = prop.lower()
    if p in PARTS and p != "c34":
        return parts(p, PARTS[p])
    if prop == "C23":
        var = [("g++ -O2", O2, []), ("g++ -O0", GXX + ["-O0"], []), ("g++ -O3 -funsigned-char", GXX + ["-O3", "-funsigned-char"], []),
               ("g++ -O2 -fno-exceptions", O2 + ["-fno-exceptions"], []), ("g++ -Os -DNDEBUG -fwrapv -std=gnu++23", ["g++", "-std=gnu++23", "-w", "-pthread", "-Os", "-fwrapv"], ["-DNDEBUG"]),
               ("clang++ -O0 -std=gnu++20", CLANG + ["-O0", "-std=gnu++20"], []), ("clang++ -O2", CLANG + ["-O2"], []), ("clang++ -O3 -DNDEBUG", CLANG + ["-O3"], ["-DNDEBUG"]),
               ("g++ -O1 -fno-inline -frounding-math without SIMD", GXX + ["-O1", "-fno-inline", "-frounding-math"], ["-DEIRIN_MATH_NO_SIMD", "-D_GLIBCXX_ASSERTIONS"]),
               ("g++ -O2 -march=native -flto", O2 + ["-march=native", "-flto"], [])]
        if AVX2:
            var.append(("g++ -O3 -mavx2 -mfma", GXX + ["-O3", "-mavx2", "-mfma"], []))
            var.append(("clang++ -O2 -mavx2 -mfma", CLANG + ["-O2", "-mavx2", "-mfma"], []))
        return [Unit("c23", n, cc=c, defs=d, libs=[], kind="digest") for n, c, d in var]
    if prop == "C24":
        return sanitized(["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14"], 1 if tier == "quick" else 10) + memcheck()
    if prop == "C34":
        return [Unit("c34", "g++ -O2"), Unit("c34", "clang++ -O1", cc=CLANG + ["-O1"], libs=[])] + sanitized(["c34"], 40)
    if prop == "C33":
        return sanitized(["c15", "c16", "c17", "c18", "c19", "c20", "c21", "c22", "c26", "c28", "c31"], 4 if tier == "quick" else 60) + memcheck()
    if prop == "C25":
        return [Unit("c25", "tsan", cc=TSAN + (["-mavx2"] if AVX2 else []), defs=[] if AVX2 else ["-DVF_NO_SIMD"], kind="tsan")]
    if prop == "C27":
        us = []
        if AVX2:
            us.append(Unit("c27", "avx2", cc=O2 + ["-mavx2"], defs=["-DPART=0"]))
            us.append(Unit("c27", "avx2 clang", cc=CLANG + ["-O2", "-mavx2"], defs=["-DPART=0"], libs=[]))
            us.append(Unit("c27", "avx2 sanitized", cc=SAN + ["-mavx2"], defs=["-DPART=0"], kind="san", tier="tiny", args=["--threads", "2"], env={"UBSAN_OPTIONS": "halt_on_error=1:exitcode=77", "ASAN_OPTIONS": "exitcode=77"}))
        if AVX512:
            us.append(Unit("c27", "avx512", cc=O2 + ["-mavx2", "-mavx512f", "-mavx512dq", "-mavx512vl"], defs=["-DPART=1"]))
        return us
    if prop == "C29":
        return [Unit("c29", "g++ -fno-exceptions", cc=O2 + ["-fno-exceptions"]), Unit("c29", "clang++ -fno-exceptions", cc=CLANG + ["-O1", "-fno-exceptions"], libs=[])]
    if prop == "C32":
        cnt = 120 if tier == "quick" else 1500
        us = []
        for q in range(4):
            d = [f"-DPART={q}", f"-DSEED={seed % 1000003}ull", f"-DCOUNT={cnt}"]
            us.append(Unit("c32", f"g++ constants.{q}", cc=GXX + ["-O1", f"-fconstexpr-ops-limit={cnt * 5000000}", f"-fconstexpr-loop-limit=10000000", "-fconstexpr-depth=4096"], defs=d, libs=[]))
            us.append(Unit("c32", f"clang++ constants.{q}", cc=CLANG + ["-O1", f"-fconstexpr-steps={min(cnt * 5000000, 4000000000)}"], defs=d, libs=[]))
        return us
    raise SystemExit(f"unknown property {prop}")


def heads_digest():
    h = hashlib.sha256()
    inc = REPO / "include"
    for f in sorted(inc.rglob("*")):
        if f.is_file():
            h.update(str(f.relative_to(inc)).encode() + b"\0" + f.read_bytes() + b"\0")
    return h.hexdigest()


class Fault(Exception):
    pass


def compiler_works(cc):
    """the compiler is able to build a trivial program with these options"""
    BUILD.mkdir(parents=True, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="probe.", dir=BUILD) as d:  # several may be at it at once
        src = pathlib.Path(d) / "p.cpp"
        src.write_text("#include <iostream>\n#include <format>\n#include <string>\nint main(){ std::cout << std::string(\"x\"); }\n")
        return subprocess.run(cc + [str(src), "-o", str(src) + ".out"], capture_output=True, text=True).returncode == 0


def compile_unit(u, heads):
    out = BUILD / f"{u.src}.{u.key(heads)}"
    u.bin = out
    if out.exists():
        os.utime(out)
        return None
    tmp = pathlib.Path(f"{out}.{os.getpid()}.{abs(hash(u.name)) % 100000}.tmp")
    cmd = u.cc + u.defs + [f"-I{REPO}/include", f"-I{H}", str(H / (u.src + ".cpp")), "-o", str(tmp)] + u.libs
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=800, errors="replace")
    except subprocess.TimeoutExpired:
        raise Fault(f"compiling {u.name} took too long")
    if r.returncode == 0:
        os.replace(tmp, out)
        return None
    tmp.unlink(missing_ok=True)
    if r.returncode < 0 or "internal compiler error" in r.stderr or "Killed signal" in r.stderr or "No space left" in r.stderr:
        raise Fault(f"the compiler failed on {u.name}: {r.stderr[-400:]}")
    if not compiler_works(u.cc):
        raise Fault(f"the compiler does not work: {' '.join(u.cc)}: {r.stderr[-300:]}")
    errs = [l for l in r.stderr.splitlines() if "error" in l or "not a constant expression" in l]
    return {"key": f"does not compile: {u.name}", "detail": " / ".join(errs[:4])[:900] or r.stderr[-600:], "count": 1, "log": r.stderr[:20000], "cmd": " ".join(cmd)}


def run_bin(u, seed, tier, out, extra=(), limit=None):
    args = [str(u.bin), "--seed", str(seed), "--tier", u.tier or tier, "--out", str(out)] + u.args + list(extra)
    env = dict(os.environ)
    env.update(u.env)
    for suffix in ("", ".crash"):
        pathlib.Path(str(out) + suffix).unlink(missing_ok=True)
    try:
        r = subprocess.run(u.prefix + args, capture_output=True, text=True, errors="replace", env=env, timeout=limit or RUN_LIMIT[tier], cwd=str(out.parent))
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return "timeout", ""


def crash_text(out):
    c = pathlib.Path(str(out) + ".crash")
    return c.read_text(errors="replace").strip() if c.exists() else ""


def excerpt(log):
    """the telling lines of a sanitizer report"""
    keep = [l.strip() for l in log.splitlines() if re.search(r"runtime error|ERROR: |SUMMARY: |WARNING: ThreadSanitizer|Invalid (read|write)|uninitialised|==\d+==\s+at 0x|#\d+ .*eirin", l)]
    return " | ".join(keep[:6])[:900] or log.strip()[-500:]


def san_key(log):
    m = re.search(r"(?:SUMMARY: )(\w+Sanitizer: [\w-]+)", log)
    if m:
        return m.group(1)
    m = re.search(r"runtime error: (.*)", log)
    if m:
        return "UndefinedBehaviorSanitizer: " + re.sub(r"-?[0-9][0-9a-fx.e+-]*", "#", m.group(1))[:80].strip()
    if re.search(r"Invalid (read|write)", log):
        return "memcheck: invalid access"
    if "uninitialised" in log:
        return "memcheck: uninitialised value"
    return "abnormal end"


def execute(u, seed, tier, work):
    """runs a unit; returns (failures, [result dicts], events)"""
    if u.kind == "tsan":
        return execute_tsan(u, seed, tier, work)
    out = work / (re.sub(r"[^A-Za-z0-9.]+", "_", u.name) + ".json")
    for attempt in (1, 2):
        rc, log = run_bin(u, seed, tier, out)
        if rc in (5, "timeout"):
            if attempt == 1:
                continue  # a loaded machine looks the same: once more before it counts
            if rc == "timeout":
                raise Fault(f"{u.name} did not finish in time")
            return [{"key": f"hang: {u.name}", "detail": crash_text(out), "count": 1}], []
        break
    if rc in (0, 1) and not out.exists() and not u.prefix:
        # the workload itself cannot end like this, so the code under test ended the program
        return [{"key": f"early end: {u.name}", "detail": f"exit status {rc} before the workload was done", "count": 1, "log": log[-8000:]}], []
    if rc in (0, 1):
        try:
            res = json.loads(out.read_text())
        except Exception as e:
            raise Fault(f"{u.name}: unreadable result: {e}")
        if (rc == 1) != bool(res["failures"]):
            raise Fault(f"{u.name}: exit {rc} does not match its result file")
        if rc == 0 and u.kind == "san" and not res["counts"]:
            raise Fault(f"{u.name}: observed nothing")
        return res["failures"], [res]
    if rc == 4:
        return [{"key": f"crash: {u.name}", "detail": crash_text(out) or log[-400:], "count": 1, "log": log[-8000:]}], []
    if rc == 77 or (u.kind == "san" and rc not in (0, 1, 3)):
        if "unexpected memory mapping" in log or "ReserveShadowMemory" in log or "FATAL: kernel" in log:
            raise Fault(f"{u.name}: sanitizer could not start: {log[-300:]}")
        return [{"key": f"{u.name}: {san_key(log)}", "detail": excerpt(log), "count": 1, "log": log[:20000]}], []
    if rc == -9:
        raise Fault(f"{u.name}: killed (memory?)")
    return [{"key": f"abnormal end: {u.name}", "detail": f"exit {rc}: {log[-400:]}", "count": 1, "log": log[-8000:]}], []


def execute_tsan(u, seed, tier, work):
    runs = 320 if tier == "quick" else 3000
    fails, results = [], []
    prefix, stuck = [], []

    def one(i):
        out = work / f"tsan{i}.json"
        u2 = Unit(u.src, kind="tsan", prefix=prefix, env={"TSAN_OPTIONS": "exitcode=66:halt_on_error=0:second_deadlock_stack=1"})
        u2.bin = u.bin
        if len(stuck) >= 6:
            return i, "timeout", "", None
        rc, log = run_bin(u2, seed * 100000 + i, tier, out, limit=90)
        if rc == "timeout":
            stuck.append(i)
        res = None
        if out.exists():
            try:
                res = json.loads(out.read_text())
            except Exception:
                res = None
            out.unlink()
        return i, rc, log, res

    i, rc, log, res = one(0)
    if "unexpected memory mapping" in log or "FATAL: ThreadSanitizer" in log:
        prefix[:] = ["setarch", "-R"]
        i, rc, log, res = one(0)
        if "FATAL: ThreadSanitizer" in log:
            raise Fault("ThreadSanitizer cannot start here: " + log[-300:])
    timeouts = 0
    with cf.ThreadPoolExecutor(max(1, CPUS // 2)) as ex:
        for i, rc, log, res in ex.map(one, range(runs)):
            if rc == "timeout":
                timeouts += 1
                continue
            if "ThreadSanitizer" in log:
                fails.append({"key": "race: " + san_key(log), "detail": excerpt(log), "count": 1, "log": log[:12000], "seed": seed * 100000 + i})
            elif rc not in (0, 1):
                fails.append({"key": "threads: abnormal end", "detail": f"exit {rc}: {log[-400:]}", "count": 1, "seed": seed * 100000 + i})
            if res:
                results.append(res)
                for f in res["failures"]:
                    f["seed"] = seed * 100000 + i
                    fails.append(f)
    if len(stuck) >= 6:
        again, stuck = stuck[:2], []
        if all(one(i)[1] == "timeout" for i in again):
            fails.append({"key": "threads: no progress", "detail": f"{timeouts} of {runs} runs did not end", "count": timeouts})
        elif not fails:
            raise Fault("the runs with threads take too long here")
    return fails, results


def compare_digests(us, per_unit, seed, tier, work):
    """C23: the same evaluations have the same results in every build"""
    fails = []
    base_u, base = None, None
    compared = 0
    for u in us:
        rs = per_unit.get(u.name)
        if not rs:
            continue
        d = {k[7:]: v for k, v in rs[0]["notes"].items() if k.startswith("digest ")}
        if base is None:
            base_u, base = u, d
            continue
        for k in sorted(set(base) | set(d)):
            compared += 1
            if base.get(k) == d.get(k):
                continue
            where = ""
            try:
                dumps = []
                for v in (base_u, u):
                    df = work / "dump.txt"
                    run_bin(v, seed, tier, work / "dump.json", extra=["--only", k, "--dump", str(df)])
                    dumps.append(df.read_text(errors="replace").splitlines())
                    df.unlink()
                where = next((f"{x} versus {y}" for x, y in zip(*dumps) if x.split(" ")[:2] != y.split(" ")[:2]), "")
            except Exception as e:
                where = f"(no dump: {e})"
            fails.append({"key": f"builds differ: {k}", "detail": f"{base_u.name} versus {u.name}: evaluation {where}"[:900], "count": 1})
    return fails, compared


def load_known():
    known = []
    p = ROOT / "known-findings.txt"
    if p.exists():
        for l in p.read_text().splitlines():
            m = re.match(r"known:\s+property=(\S+)\s+key=\"([^\"]+)\"\s+(.*)", l)
            if m:
                known.append(m.groups())
    return known


def clean_cache():
    fs = sorted((f for f in BUILD.glob("c*.*") if f.is_file()), key=lambda f: f.stat().st_mtime)
    total = sum(f.stat().st_size for f in fs)
    for f in fs:
        if total < 1500 << 20:
            break
        total -= f.stat().st_size
        f.unlink(missing_ok=True)


def check(prop, tier, seed, only=None):
    t0 = time.time()
    BUILD.mkdir(parents=True, exist_ok=True)
    EVID.mkdir(exist_ok=True)
    work = BUILD / f"work.{prop}.{os.getpid()}"
    work.mkdir(parents=True, exist_ok=True)
    try:
        clean_cache()
        us = units(prop, tier, seed)
        if only:
            us = [u for u in us if u.name == only] or us
        heads = heads_digest()
        fails, results, per_unit, ran = [], [], {}, []
        with cf.ThreadPoolExecutor(CPUS) as ex:
            # a binary that several units share is built once
            for u, bad in zip(us, ex.map(lambda u: compile_unit(u, heads), us)):
                if bad:
                    bad["unit"] = u.name
                    fails.append(bad)
                else:
                    ran.append(u)
        built = time.time() - t0

        found, faults = list(fails), []

        def go(u):
            if found and time.time() - t0 > (240 if tier == "quick" else 3600):
                return u, [], []  # there is something to report already
            try:
                f, r = execute(u, seed, tier, work)
            except Fault as e:
                faults.append(e)
                return u, [], []
            for x in f:
                x["unit"] = u.name
            found.extend(f)
            return u, f, r

        todo = [go(u) for u in ran if u.exclusive]
        with cf.ThreadPoolExecutor(CPUS) as ex:
            todo += list(ex.map(go, [u for u in ran if not u.exclusive]))
        for u, f, r in todo:
            fails += f
            results += r
            per_unit[u.name] = r
        if faults and not fails:
            raise faults[0]
        compared = 0
        if prop == "C23":
            f, compared = compare_digests(ran, per_unit, seed, tier, work)
            fails += f
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known, reported, listed = load_known(), [], []
    for f in fails:
        hit = next((k for k in known if k[0] == prop and k[1] == f["key"]), None)
        (listed if hit else reported).append((f, hit))
    counts, states, worst, samples, notes = {}, {}, {}, [], {}
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r["states"].items():
            states[k] = states.get(k, 0) + v if prop == "C25" else max(states.get(k, 0), v)
        for k, (v, d) in r.get("worst", {}).items():
            if v > worst.get(k, [-1])[0]:
                worst[k] = [v, d]
        for k, v in r.get("notes", {}).items():
            if not k.startswith("digest "):
                notes[k] = v
        for k, v in r.get("samples", {}).items():
            if len(samples) < 40:
                samples.append(f"{k}: {v}")
    meta = PROPS.get(prop, {})
    cov = {"evaluations": sum(counts.values()), "distinct_nontrivial": sum(states.values()),
           "rule": "an evaluation is one monitored event (a call of the library judged by the oracle); inputs are structured values (powers of two, whole numbers, halves, multiples of pi/4, range ends and their neighbours), random values of every magnitude and sweeps; distinct counts the different (sign, magnitude) classes of the operands per monitor, or, for threads, arrival orders and operations",
           "samples": samples[:40], "monitors": counts, "binaries_run": [u.name for u in ran], "build_s": round(built, 1)}
    if compared:
        cov["digests_compared_between_builds"] = compared
    if worst:
        cov["worst_error_relative_to_bound"] = dict(sorted(worst.items(), key=lambda kv: -kv[1][0])[:40])
    if notes:
        cov["notes"] = notes
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["x86-64, GCC 13 / Clang 18 with libstdc++", "inputs whose exact result fits the format (overflow is the caller's responsibility)"],
          "wall_s": round(time.time() - t0, 1), "violations": len(reported)}
    (EVID / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    for f, hit in listed:
        print(f"KNOWN-FINDING: property={prop} {hit[2]}")
    if reported:
        rp = EVID / "replays" / f"{prop}.json"
        rp.parent.mkdir(parents=True, exist_ok=True)
        rp.write_text(json.dumps({"property": prop, "tier": tier, "seed": seed, "unit": reported[0][0].get("unit"), "failures": [f for f, _ in reported[:60]]}, indent=1))
        seen = set()
        for f, _ in reported:
            if f["key"] in seen or len(seen) >= 12:
                continue
            seen.add(f["key"])
            print(f"  {f['key']} ({f['count']}x): {f['detail']}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if not counts:
        if prop == "C27" and not AVX2:
            print("C27: no vector instructions on this processor, nothing observed")
            return 0
        raise Fault("nothing was observed")
    print(f"{prop} held: {cov['evaluations']} events, {cov['distinct_nontrivial']} distinct classes, {len(ran)} binaries, {ev['wall_s']} s (build {cov['build_s']} s)")
    return 0


PROPS = {}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.prop == "setup":
            for cc in (O2, SAN, TSAN, CLANG):
                if not compiler_works(cc):
                    raise Fault("compiler does not work: " + " ".join(cc))
            print("compilers and sanitizers work")
            return 0
        only = None
        if a.replay:
            r = json.loads(pathlib.Path(a.replay).read_text())
            a.prop, a.tier, a.seed, only = r["property"], r["tier"], r["seed"], r.get("unit")
        return check(a.prop, a.tier, a.seed, only)
    except Fault as e:
        print(f"ERROR {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
