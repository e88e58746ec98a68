"""Runs inside the project's Python environment: replays sessions of wrapper calls read as JSON and reports
what each call did.  argv: package-parent  job.json  out.json"""
import sys, os, json, warnings, io, contextlib
root, job, out = sys.argv[1:4]
sys.path.insert(0, root)
warnings.simplefilter("ignore")
import numpy as np
from pathlib import Path
import pygrt
from pygrt import utils
assert os.path.realpath(pygrt.__file__).startswith(os.path.realpath(root)), pygrt.__file__
LOG = os.environ["VP_LOG"]
CTL = os.environ["VP_CTL"]

def dec(v):
    """[kind, payload...] -> the Python value"""
    k = v[0]
    if k == "none": return None
    if k == "bool": return v[1] == "T"
    if k == "num": return float(v[1])
    if k == "int": return int(v[1])
    if k == "np": return np.float64(v[1])
    if k == "str": return v[1]
    if k == "path": return Path(v[1])
    if k == "seq": return [float(x) for x in v[1:]]
    if k == "tup": return tuple(float(x) for x in v[1:])
    if k == "arr": return np.array([float(x) for x in v[1:]])
    if k == "ilist": return [int(x) for x in v[1:]]
    if k == "slist": return list(v[1:])
    if k == "nest": return [[float(x) for x in v[1:]]]
    raise ValueError(k)

def summary(r):
    if r is None: return {"kind": "none"}
    if isinstance(r, dict):
        return {"kind": "nc", "vars": {k: [float(x) for x in np.ravel(v["data"]).astype(float)] if v["data"].dtype.kind in "fi" else [] for k, v in r["variables"].items()},
                "dims": r["dimensions"], "shapes": {k: list(v["dimensions"]) for k, v in r["variables"].items()},
                "atts": {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in r["attributes"].items()}}
    if isinstance(r, tuple): return {"kind": "tuple", "vals": [np.asarray(x).astype(float).tolist() for x in r], "scalar": [np.ndim(x) == 0 for x in r]}
    if isinstance(r, np.ndarray): return {"kind": "arr", "shape": list(r.shape), "vals": np.ravel(r).astype(float).tolist()}
    return {"kind": "stream", "traces": [[t.stats.channel, float(t.stats.delta), [float(x) for x in t.data]] for t in r]}

res = []
for session in json.load(open(job)):
    objs = {}; sres = []
    for call in session:
        if os.path.exists(LOG): os.remove(LOG)
        open(CTL, "w").write(str(call.get("rc", 0)))
        a = {k: dec(v) for k, v in call["args"].items() if v[0] != "omit"}
        o = {"exc": "", "msg": "", "ret": {"kind": "none"}}
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                fn = call["fn"]
                if fn == "new": objs[call["obj"]] = pygrt.PyModel1D(**a)
                elif "obj" in call: o["ret"] = summary(getattr(objs[call["obj"]], fn)(**a))
                elif fn in ("compute_strain", "compute_rotation", "compute_stress"): o["ret"] = summary(getattr(utils, fn)(a.pop("path"), **a))
                elif fn.startswith("gen_"): o["ret"] = summary(getattr(pygrt.signals, fn)(*a.values()))
                else: o["ret"] = summary(getattr(utils, fn)(**a))
        except Exception as e:
            o["exc"] = type(e).__name__; o["msg"] = str(e)[:500]
        o["runs"] = []
        if os.path.exists(LOG):
            d = open(LOG, "rb").read().decode("utf8", "replace").split("\0\n")
            o["runs"] = [x.split("\0")[1:] for x in d if x]
        sres.append(o)
    res.append(sres)
json.dump(res, open(out, "w"))
