"""overlay/known_locals.json: the names of the locals of every extracted function of the unchanged tree.
usage: python3 tools/locals.py EXTRACT REPO"""
import json, os, subprocess, sys, tempfile
ext, repo = sys.argv[1:3]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(here, "overlay", "known_locals.json")
if os.path.exists(out): os.remove(out)
res = {}
with tempfile.TemporaryDirectory() as d:
    for u in "abe bls codecs ffi hybrid msp parse py scheme wasm".split():
        subprocess.run([ext, "--repo", repo, "--overlay", f"{here}/overlay/{u}.ov", "--out", f"{d}/o.rs", "--meta", f"{d}/m.json"], check=True)
        res[u] = {f["key"]: f["locals"] for f in json.load(open(f"{d}/m.json"))["functions"] if f.get("locals")}
json.dump(res, open(out, "w"), indent=0, sort_keys=True)
