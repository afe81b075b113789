#!/usr/bin/env python3
"""Development aid: makes and confirms planted bugs.  seedtest.py SPEC.py [ID...] ; SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo, cxx='')]
For each: scratch copy of /repo, edit, tests pass, demo passes clean and fails patched, then the property's quick check is run against the copy.
   seedtest.py --check ID... : only runs the check of already kept seeds (against a patched copy)."""
import json, os, pathlib, shutil, subprocess, sys, concurrent.futures as cf
ROOT = pathlib.Path(__file__).resolve().parent.parent
SEED = ROOT / "seeded"
DEMO = """#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
%s
"""
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def copy(tag):
    d = pathlib.Path(f"/tmp/x/w/{tag}")
    shutil.rmtree(d, ignore_errors=True); d.parent.mkdir(parents=True, exist_ok=True)
    sh(f"git clone -q /repo {d}")
    return d
def tests_pass(d):
    t = d / "_t"; t.mkdir(exist_ok=True)
    r = sh(f"g++ -std=c++20 -O2 -w -Iinclude test/main.cpp test/test_io.cpp -lgtest -lgtest_main -pthread -o {t}/t && {t}/t", cwd=d)
    shutil.rmtree(t)
    return r.returncode == 0, (r.stdout + r.stderr)[-1500:]
def check(sid, prop, d, tier="quick"):
    env = dict(os.environ, VERIF_REPO=str(d), VERIF_BUILD=f"/tmp/x/wb/{sid}")
    r = subprocess.run(["python3", str(ROOT / "run.py"), prop, "--tier", tier], capture_output=True, text=True, env=env)
    shutil.rmtree(f"/tmp/x/wb/{sid}", ignore_errors=True)
    return r.returncode, (r.stdout + r.stderr).strip()
def make(s):
    sid = s["id"]; out = SEED / sid
    d = copy(sid)
    for f, old, new in s["edits"]:
        p = d / "include/eirin" / f; t = p.read_text()
        if t.count(old) != s.get("times", 1): return sid, f"EDIT matches {t.count(old)} times: {old[:60]}"
        p.write_text(t.replace(old, new))
    patch = sh("git diff", cwd=d).stdout
    ok, log = tests_pass(d)
    if not ok: return sid, "TESTS FAIL " + log[-600:]
    out.mkdir(parents=True, exist_ok=True)
    (out / "patch.diff").write_text(patch)
    (out / "demo.cpp").write_text(s["demo"].strip() + "\n")
    build = s.get("script") or f'g++ -std=c++20 -O1 -w -Iinclude {s.get("cxx", "")} "$d/demo.cpp" -o "$t/demo" && "$t/demo"'
    (out / "demo.sh").write_text(DEMO % build.strip())
    os.chmod(out / "demo.sh", 0o755)
    (out / "meta.json").write_text(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
    a = sh(f"bash {out}/demo.sh", cwd="/repo", timeout=280)
    b = sh(f"bash {out}/demo.sh", cwd=str(d), timeout=280)
    if a.returncode != 0 or b.returncode == 0:
        shutil.move(str(out), f"/tmp/x/bad-{sid}") if not os.path.exists(f"/tmp/x/bad-{sid}") else shutil.rmtree(out)
        return sid, f"DEMO clean={a.returncode} patched={b.returncode} {(a.stdout+a.stderr)[-400:]} || {(b.stdout+b.stderr)[-300:]}"
    return sid, None
def main():
    args = sys.argv[1:]
    todo = []
    if args and args[0] == "--check":
        ids = args[1:] or sorted(p.name for p in SEED.iterdir())
        for i in ids:
            d = copy(i); r = sh(f"git apply {SEED}/{i}/patch.diff", cwd=d)
            if r.returncode: print(i, "DOES NOT APPLY", r.stderr); continue
            todo.append((i, json.loads((SEED / i / "meta.json").read_text())["property"]))
    else:
        ns = {}; exec(open(args[0]).read(), ns)
        want = set(args[1:])
        with cf.ThreadPoolExecutor(8) as ex:
            for (sid, err), s in zip(ex.map(make, [s for s in ns["SEEDS"] if not want or s["id"] in want]), [s for s in ns["SEEDS"] if not want or s["id"] in want]):
                print(sid, err or "confirmed", flush=True)
                if not err: todo.append((sid, s["prop"]))
    def one(x):
        sid, prop = x
        rc, log = check(sid, prop, f"/tmp/x/w/{sid}")
        return sid, prop, rc, log
    with cf.ThreadPoolExecutor(2) as ex:
        for sid, prop, rc, log in ex.map(one, todo):
            print(("CAUGHT " if rc == 1 else "MISSED " if rc == 0 else f"ERROR{rc} ") + sid, prop, log[:260].replace("\n", " | "), flush=True)
            shutil.rmtree(f"/tmp/x/w/{sid}", ignore_errors=True)
main()
