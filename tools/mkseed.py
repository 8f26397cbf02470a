#!/usr/bin/env python3
"""mkseed.py ID PROP FILE: reads from stdin three blocks separated by lines '====': old text, new text, needs, what_it_breaks; writes patch.diff and meta.json"""
import sys, json, os, subprocess
R = os.environ.get("VERIF_REPO", "/repo")
sid, prop, f = sys.argv[1:4]
b = sys.stdin.read().split("\n====\n")
old, new, needs, what = b[0], b[1], b[2].strip(), b[3].strip()
p = R + "/" + f; s = open(p, encoding="latin-1").read()
assert s.count(old) == 1, "old text occurs %d times" % s.count(old)
open(p, "w", encoding="latin-1").write(s.replace(old, new))
d = os.environ.get("VDIR", "/verif") + "/seeded/" + sid; os.makedirs(d, exist_ok=True)
mode = "a" if os.environ.get("APPEND") else "w"
diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True).stdout
open(d + "/patch.diff", "wb").write(diff)
if not os.environ.get("KEEP"): subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
