#!/usr/bin/env python3
"""Development aid: lists the planted bugs whose patches change no line of the original repository (they would not count)."""
import re, subprocess, pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
BASE = "743fad5"
blame = {}
def original(f, n):
    if f not in blame:
        blame[f] = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f], capture_output=True, text=True, errors="replace").stdout.splitlines()
    return blame[f][n - 1].startswith("^" + BASE) and blame[f][n - 1].split(")", 1)[1].strip() not in ("", "{", "}")
CLONE = "/tmp/seedlines"
subprocess.run(["rm", "-rf", CLONE]); subprocess.run(["git", "clone", "-q", "/repo", CLONE])
for p in sorted((ROOT / "seeded").iterdir()):
    hits = 0
    f, n = None, 0
    # the line numbers of a patch might be those of an older tree
    subprocess.run(["git", "-C", CLONE, "apply", str(p / "patch.diff")], check=True)
    diff = subprocess.run(["git", "-C", CLONE, "diff", "-U0"], capture_output=True, text=True, errors="replace").stdout
    subprocess.run(["git", "-C", CLONE, "checkout", "-q", "--", "."])
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        elif m := re.match(r"@@ -(\d+)", l):
            n = int(m.group(1))
        elif l.startswith("+++"):
            pass
        elif l.startswith("-"):
            hits += original(f, n)
            n += 1
        elif l.startswith(" ") or l == "":
            n += 1
    if not hits:
        print(p.name)
subprocess.run(["rm", "-rf", CLONE])
