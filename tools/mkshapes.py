#!/usr/bin/env python3
"""Writes specs/shapes.json: the kinds of loops every function under contract has, for which its invariants were written.
Run it after changing a spec; a proof that fails for a function whose loops have other kinds is not reported as a violation."""
import glob, json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from verus_stage import root
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
vx = sys.argv[1]
out = {}
with tempfile.TemporaryDirectory() as d:
    for s in sorted(glob.glob(HERE + "/specs/*.vs")):
        u = os.path.basename(s)[:-3]
        subprocess.run([vx, root(u), s, d + "/x.rs", d + "/x.json"], check=True)
        out[u] = {f["name"]: f["shape"] for f in json.load(open(d + "/x.json"))["functions"] if f["shape"]}
json.dump(out, open(HERE + "/specs/shapes.json", "w"), indent=1)
# The names declared now, by which a later check recognises a renamed one.
rows = json.loads(subprocess.run([vx, "--decls", "/repo/src"], capture_output=True, text=True, check=True).stdout)
with open(HERE + "/specs/decls.json", "w") as f:
    f.write("[\n" + ",\n".join(json.dumps(r) for r in rows) + "\n]\n")
