#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE: makes seeded/ID/patch.diff from edits read as JSON on stdin
{"edits":[[file,old,new],...],"needs":..,"what":..}; demo.cpp must already be in seeded/ID."""
import json, os, subprocess, sys
V = "/verif"; R = "/repo"; I = "include/boost/numeric/odeint/"
sid, prop = sys.argv[1:3]
d = json.load(sys.stdin)
dst = os.path.join(V, "seeded", sid); os.makedirs(dst, exist_ok=True)
assert subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout == ""
try:
    for f, old, new in d["edits"]:
        p = os.path.join(R, I + f); s = open(p, newline='').read()
        crlf = "\r\n" in s
        if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        n = s.count(old)
        k = d.get("nth", {}).get(f)
        if k is None:
            assert n == 1, (f, n)
            s = s.replace(old, new)
        else:
            parts = s.split(old); s = old.join(parts[:k]) + new + old.join(parts[k:])
        open(p, "w", newline='').write(s)
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True).stdout
    open(os.path.join(dst, "patch.diff"), "wb").write(diff)
finally:
    subprocess.run(["git", "-C", R, "checkout", "--", "."], stderr=subprocess.DEVNULL)
json.dump(dict(property=prop, needs=d["needs"], what_it_breaks=d["what"]), open(os.path.join(dst, "meta.json"), "w"), indent=1)
sh = os.path.join(dst, "demo.sh")
open(sh, "w").write('''#!/bin/bash
# exit 0: the property holds on this demonstration; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"; src="$PWD"
out="$(mktemp -d)"; trap 'rm -rf "$out"' EXIT
g++ -std=gnu++14 -w %s -I"$src/include" "$here/demo.cpp" -o "$out/demo" %s || exit 2
timeout 60 "$out/demo"
''' % (d.get("flags", ""), d.get("libs", "")))
os.chmod(sh, 0o755)
