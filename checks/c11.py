"""C11: static strain / rotation / stress (spec: Tensor, StTensor, StTensorMC, StTensorTrace)"""
import os, json, random, shutil, math
import numpy as np
from scipy.io import netcdf_file
import vp, stlib
from vp import q as Q

PAIRS = {"strain": [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)], "rotation": [(0, 1), (0, 2), (1, 2)]}
PAIRS["stress"] = PAIRS["strain"]

def geometry(rng, pts):
    if pts:
        out = []
        for _ in range(rng.randint(1, 6)):
            r = rng.randint(0, 9)
            out.append(rng.choice([(r, 0), (0, -r), (-r, 0), (0, r), (3, 4), (-6, 8), (5, -12), (0, 0), (-4, -3)]))
        return out, None
    if rng.random() < .4:
        ax = ([0], sorted(rng.sample(range(-5, 6), rng.randint(1, 4))))
        if rng.random() < .5: ax = (ax[1], ax[0])
    else:
        a, b = rng.choice([(3, 4), (4, 3), (5, 12)]); ax = (rng.choice([[-a, 0, a], [0, a], [-a]]), rng.choice([[-b, 0, b], [-b, 0], [0, b]]))
    return [(n, e) for n in ax[0] for e in ax[1]], ax

def make(rng, v):
    P, ax = geometry(rng, v["pts"])
    I = lambda: rng.randint(-9, 9)
    return dict(v, P=P, ax=ax, unit=rng.choice([1.0, 0.5, 0.1, 20.0, 1e-4, 1e-3]), u=[[I() for _ in range(3)] for _ in P], d=[[[I() for _ in range(3)] for _ in range(3)] for _ in P],
                med=[rng.choice([(4, 2, 3), (5, 3, 2), (6, 3, 3), (3, 0, 1), (7, 4, 2)]) for _ in P], seed=rng.random())

def write(path, c):
    u = c["unit"]; ch = "ZNE" if c["zne"] else "ZRT"
    f = netcdf_file(path, "w")
    f.layout = "points" if c["pts"] else "grid"; f.depsrc = 2.0; f.calc_upar = np.int32(c["upar"]); f.rot2ZNE = np.int32(c["zne"]); f.computeType = "DC"
    if c["pts"]:
        f.createDimension("point", len(c["P"])); dims = ("point",); shp = (len(c["P"]),)
    else:
        va, vb, rho = c["med"][0]; f.deprcv = 0.0; f.rcv_va = float(va); f.rcv_vb = float(vb); f.rcv_rho = float(rho)
        f.createDimension("north", len(c["ax"][0])); f.createDimension("east", len(c["ax"][1])); dims = ("north", "east"); shp = (len(c["ax"][0]), len(c["ax"][1]))
    def var(n, d, x):
        v = f.createVariable(n, "d", d); v[:] = np.asarray(x, float)
    if c["pts"]:
        var("north", dims, [p[0] * u for p in c["P"]]); var("east", dims, [p[1] * u for p in c["P"]]); var("depth", dims, [0.0] * len(c["P"]))
        for j, n in enumerate(("rcv_va", "rcv_vb", "rcv_rho")): var(n, dims, [m[j] for m in c["med"]])
    else:
        var("north", ("north",), [x * u for x in c["ax"][0]]); var("east", ("east",), [x * u for x in c["ax"][1]])
    for j in range(3):
        var(ch[j], dims, np.reshape([x[j] * 1e5 * u for x in c["u"]], shp))
        if c["upar"]:
            for i in range(3): var(ch[i].lower() + ch[j], dims, np.reshape([x[i][j] for x in c["d"]], shp))
    f.close()

def observe(chk, c):
    d = chk.dirnew(); p = d + "/s.nc"; write(p, c); ch = "ZNE" if c["zne"] else "ZRT"
    log = []; raw = {"rc": []}
    have = lambda v: [op for op in ("strain", "rotation", "stress") if all(f"{op}_{ch[a]}{ch[b]}" in v for a, b in PAIRS[op])]
    prev, pa, pd = stlib.read(p)
    for op in c["steps"]:
        r = chk.grt(["static", op, p]); raw["rc"].append([op, r.returncode, r.stderr[-150:]])
        try:
            now, a, dm = stlib.read(p)
            same = set(prev) <= set(now) and all(np.array_equal(prev[k], now[k], equal_nan=True) and pd[k] == dm[k] for k in prev) and a == pa
            new = set(now) - set(prev)
            exp = {f"{op}_{ch[x]}{ch[y]}" for x, y in PAIRS[op]}
            same = same and (new == exp if r.returncode == 0 else not new)
            h = have(now); prev, pd = now, dm
        except Exception as e:
            same, h = False, []; raw["read"] = repr(e)
        log.append({"rc0": r.returncode == 0, "untouched": bool(same), "have": h})
    rec = {k: c[k] for k in ("upar", "zne", "pts", "steps")}
    rec["log"] = log; rec["pt"] = []
    for i, (n, e) in enumerate(c["P"]):
        r_ = math.isqrt(n * n + e * e); va, vb, rho = c["med"][i if c["pts"] else 0]
        s = 1 if c["zne"] or r_ == 0 else r_
        pt = {"r": r_, "u": c["u"][i], "d": c["d"][i], "va": va, "vb": vb, "rho": rho}
        for op, sc in (("strain", 10.0 * s), ("rotation", 10.0 * s), ("stress", 1e-10 * s)):
            if all(f"{op}_{ch[a]}{ch[b]}" in prev for a, b in PAIRS[op]):
                pt[op] = [Q(float(prev[f"{op}_{ch[a]}{ch[b]}"].ravel()[i]), sc) for a, b in PAIRS[op]]
        rec["pt"].append(pt)
    shutil.rmtree(d, True)
    return rec, raw

def run(chk):
    r = chk.tlc("StTensorMC", "StTensorMCDeep.cfg" if chk.thorough else "StTensorMC.cfg")
    hist = r.json; assert len(hist) >= 216
    if len(hist) > 2000: hist = chk.rng.sample(hist, 2000)
    cases = [make(chk.rng, {k: h[k] for k in ("upar", "zne", "pts", "steps")}) for h in hist]
    for _ in range(3000 if chk.thorough else 500):
        st = ["strain", "rotation", "stress"]; chk.rng.shuffle(st)
        cases.append(make(chk.rng, {"upar": True, "zne": chk.rng.random() < .5, "pts": chk.rng.random() < .5, "steps": st}))
    def corrupt(t):
        for p in t["pt"]:
            if "stress" in p and max(map(abs, p["stress"])) > 20: p["stress"] = [-x for x in p["stress"]]; return t
        return None
    recs, _ = chk.judge("StTensorTrace", cases, lambda c: observe(chk, c), lambda c: json.dumps(c), corrupt=corrupt)
    for h, rec in zip(hist, recs):
        if "log" in rec and [s["rc0"] for s in rec["log"]] != h["rcs"]: chk.violate("history not reproduced", {"h": h, "rec": rec})
    chk.assumptions += ["integer displacements and derivatives on receivers with integer distance"]

vp.main(run, "C11")
