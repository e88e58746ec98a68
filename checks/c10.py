"""C10: a finite fault is the sum of its sub-faults (spec: FiniteFault, FiniteFaultMC, FFPlan, FFTrace)"""
import os, math, json, random, shutil
from fractions import Fraction as Fr
import numpy as np
import vp, gf, stlib
from vp import q as Q

KINDS = [("DC", 180.0), ("DC", 90.0), ("TS", None), ("EX", None)]
ANG = gf.angles(5); DIPS = [(0, 1, 1), (3, 4, 5), (4, 3, 5), (0, 1, 1)]
A = gf.adict

def make(rng):
    lib = {"ds": rng.choice([[0, 2, 4, 9, 30], [1, 6, 25], [0, 1, 2, 3, 40], [1, 2, 8, 40], [0, 30]]), "dr": rng.choice([[0], [0, 2], [0, 1, 5]]),
           "rs": rng.choice([[0, 10, 20, 40, 90], [0, 5, 11, 30, 60], list(range(0, 61, 6)), [0, 1, 3, 100], [2, 9, 30]])}
    if rng.random() < .03: lib["ds"] = [5]
    faults = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        st = rng.choice(ANG); dip = rng.choice(DIPS); kode = rng.choice([100, 100, 200, 300, 400, 500])
        inr = False; rk = (1, 0, 1); v1, v2 = rng.randint(-3, 3), rng.randint(-3, 3)
        if v1 == 0 and v2 == 0: v1 = 2
        faults.append({"n0": rng.randint(-6, 6), "e0": rng.randint(-6, 6), "L": rng.randint(1, 9), "st": A(st), "dip": A(dip),
                       "top": rng.randint(1, 3), "W": rng.randint(1, 7), "kode": kode, "v1": v1, "v2": v2, "inr": inr, "rk": A(rk)})
    if rng.random() < .15:
        for f in faults: f.update(inr=True, kode=100, v1=0, v2=rng.randint(1, 3), rk=A(rng.choice(ANG)))
    if rng.random() < .05: rng.choice(faults)["kode"] = rng.choice([101, 600, 0])
    if rng.random() < .05: rng.choice(faults).update(rng.choice([{"L": 0}, {"W": 0}, {"dip": A((1, 0, 1))}, {"dip": A((4, -3, 5))}, {"dip": A((-3, 4, 5))}]))
    given = rng.random() < .75
    dL, dW = rng.choice([1, 2, 3, 4, 10]), rng.choice([1, 2, 3, 4, 10])
    layout = rng.choice(["points", "points", "grid", "native"])
    if layout == "native":
        ax = ([0], lib["rs"])
    elif layout == "grid":
        a, b = rng.choice([(3, 4), (4, 3), (6, 8)]); ax = (rng.choice([[-a, 0, a], [0, a], [a]]), rng.choice([[-b, 0, b], [-b, 0], [b]]))
    else: ax = None
    d = rng.choice(lib["dr"] + list(range(lib["dr"][0], lib["dr"][-1] + 1)))
    if ax: rc = [(n, e, d if len(lib["dr"]) > 1 else lib["dr"][0]) for n in ax[0] for e in ax[1]]
    else:
        rc = []
        for _ in range(rng.randint(1, 4)):
            r = rng.randint(0, 12)
            n, e = rng.choice([(r, 0), (0, -r), (-r, 0), (3, -4), (-8, 6), (4, 3)])
            rc.append((n, e, rng.randint(lib["dr"][0], lib["dr"][-1])))
    rcv = []
    for n, e, dd in rc:
        r = math.isqrt(n * n + e * e); f = math.gcd(r, math.gcd(abs(n), abs(e))) or 1
        rcv.append({"n": n, "e": e, "r": r, "d": dd, "az": A((n // f, e // f, r // f) if r else (1, 0, 1))})
    return {"lib": lib, "faults": faults, "given": given, "dL": dL, "dW": dW, "extra": False, "rcv": rcv, "layout": layout, "ax": ax,
            "zne": rng.random() < .5, "upar": rng.random() < .5, "unit": rng.choice([1.0, 1.0, 0.1, 0.3, 0.7]), "seed": rng.randint(0, 10 ** 6)}

def spec_case(c):
    return {k: c[k] for k in ("lib", "faults", "given", "dL", "dW", "extra", "rcv", "zne", "upar")}

def write_inputs(chk, c, d):
    u = c["unit"]; rng = random.Random(c["seed"]); ng = np.random.default_rng(c["seed"])
    ds, dr, rs = c["lib"]["ds"], c["lib"]["dr"], c["lib"]["rs"]
    shp = (len(ds), len(dr), len(rs), 6, 3)
    med = [(6.0 + .3 * i, 3.0 + .1 * i, 2.5 + .05 * i) for i in range(len(ds))]
    stlib.write(d + "/lib.nc", [x * u for x in ds], [x * u for x in dr], [0.0], [x * u for x in rs], ng.uniform(-1, 1, shp),
                ng.uniform(-1, 1, shp) / u, ng.uniform(-1, 1, shp) / u, src_med=med)
    inr = any(f["inr"] for f in c["faults"])
    path = d + ("/f.inr" if inr else "/f.inp")
    with open(path, "w") as f:
        f.write("  #   X-start Y-start X-fin Y-fin Kode rt.lat reverse dip top bot\nxxx xxxxxxxxxx xxxxxxxxxx\n")
        for i, x in enumerate(c["faults"]):
            s, dp = x["st"], x["dip"]
            e1 = x["e0"] + x["L"] * s["s"] / s["h"]; n1 = x["n0"] + x["L"] * s["c"] / s["h"]; bot = x["top"] + x["W"] * dp["s"] / dp["h"]
            dip = math.degrees(math.atan2(dp["s"], dp["c"]))
            v1 = math.degrees(math.atan2(x["rk"]["s"], x["rk"]["c"])) if x["inr"] else x["v1"]
            row = [i + 1, x["e0"] * u, x["n0"] * u, e1 * u, n1 * u, x["kode"], v1, x["v2"], dip, x["top"] * u, bot * u]
            f.write(rng.choice(["  ", ""]) + rng.choice(["  ", "\t", " "]).join(repr(y) for y in row) + rng.choice(["", "  Fault %d" % (i + 1)]) + "\n")
    return path

def field(path, zne, upar, npts):
    v, a, _ = stlib.read(path)
    ch = "ZNE" if zne else "ZRT"
    U = np.stack([v[x].ravel() for x in ch], 1)
    D = np.stack([np.stack([v[x.lower() + y].ravel() for y in ch], 1) for x in ch], 1) if upar else np.zeros((U.shape[0], 3, 3))
    if "depth" in v: at = np.stack([v["north"], v["east"], v["depth"]], 1)
    else:
        n = np.repeat(v["north"], len(v["east"])); at = np.stack([n, np.tile(v["east"], len(v["north"])), np.full(n.shape, float(a["deprcv"]))], 1)
    return U, D, at

def observe(chk, c, plan, omp="1"):
    d = chk.dirnew(); u = c["unit"]; path = write_inputs(chk, c, d)
    F = lambda x: repr(float(x) * u)
    o = ["-G" + d + "/lib.nc", "-C" + path + ("+i%s/%s" % (F(c["dL"]), F(c["dW"])) if c["given"] else ""), "-O" + d + "/o.nc"]
    if c["extra"]: o.append("-Ds" + F(c["lib"]["ds"][0]))
    if c["zne"]: o.append("-N")
    if c["upar"]: o.append("-e")
    if c["layout"] == "points":
        open(d + "/r.txt", "w").write("".join("%s %s %s\n" % (F(p["n"]), F(p["e"]), F(p["d"])) for p in c["rcv"])); o.append("-Q" + d + "/r.txt")
    else:
        if len(c["lib"]["dr"]) > 1: o.append("-Dr" + F(c["rcv"][0]["d"]))
        if c["layout"] == "grid":
            for k, ax in zip("XY", c["ax"]):
                o.append("-%s%s/%s/%s" % (k, F(ax[0]), F(ax[-1]), F(ax[1] - ax[0] if len(ax) > 1 else 1)))
    random.Random(c["seed"]).shuffle(o)
    r = chk.grt(["static", "syn", *o], omp=omp)
    rec = {"c": spec_case(c), "rc0": r.returncode == 0, "wrote": os.path.exists(d + "/o.nc"), "partsok": True, "nparts": 0, "parts": [], "obs": []}
    raw = {"cmd": o, "rc": r.returncode, "err": r.stderr[-300:], "faults": open(path).read()}
    if rec["rc0"] and rec["wrote"] and not plan["refused"]:
        U, D, at = field(d + "/o.nc", c["zne"], c["upar"], len(c["rcv"]))
        parts = []
        for f, P in zip(c["faults"], plan["plan"]):
            strike = math.degrees(math.atan2(f["st"]["s"], f["st"]["c"])) % 360.0; dip = math.degrees(math.atan2(f["dip"]["s"], f["dip"]["c"]))
            for t in P["tiles"]:
                with open(d + "/t.txt", "w") as g:
                    for p in c["rcv"]:
                        g.write("%s %s %s\n" % (F(p["n"] - Fr(t["n"], P["hden"])), F(p["e"] - Fr(t["e"], P["hden"])), F(p["d"])))
                for (kind, rake), s in zip(KINDS, P["comps"]):
                    if s == 0: continue
                    pot = s / P["cden"] * (1e6 if P["point"] else 1e12 * t["area"] * u * u)
                    a = ["-G" + d + "/lib.nc", "-Q" + d + "/t.txt", "-O" + d + "/t.nc", "-N", "-Su" + repr(pot), "-Ds" + F(Fr(t["d"], P["zden"]))]
                    if c["upar"]: a.append("-e")
                    if kind == "DC": a.append("-M%r/%r/%r" % (strike, dip, rake))
                    if kind == "TS": a.append("-M%r/%r" % (strike, dip))
                    r2 = chk.grt(["static", "syn", *a])
                    if r2.returncode: rec["partsok"] = False; raw["part"] = [a, r2.stderr[-300:]]; break
                    parts.append(field(d + "/t.nc", True, c["upar"], len(c["rcv"])))
        if parts and U.shape[0] == len(c["rcv"]):
            # derivatives per km of the unit, so that displacement over distance compares directly
            S = sum(np.abs(p[0]) for p in parts).max(); S = max(S, sum(np.abs(p[1]) for p in parts).max() * 1e5 * u, np.abs(U).max(), np.abs(D).max() * 1e5 * u) or 1.0
            sc = 1.5e6 / S
            enc = lambda U, D, i: {"u": [Q(x, sc) for x in U[i].tolist()], "d": [[Q(x * 1e5 * u, sc) for x in row] for row in D[i].tolist()]}
            rec["parts"] = [[enc(p[0], p[1], i) for i in range(len(c["rcv"]))] for p in parts]; rec["nparts"] = len(parts)
            rec["obs"] = [dict(enc(U, D, i), at=[Q(x / u, 100) for x in at[i]]) for i in range(U.shape[0])]
            raw["u"] = U.tolist(); raw["sum"] = sum(p[0] for p in parts).tolist()
    shutil.rmtree(d, True)
    return rec, raw

def coincide(c, plan):
    for P in plan["plan"]:
        for t in P["tiles"]:
            for p in c["rcv"]:
                if Fr(t["n"], P["hden"]) == p["n"] and Fr(t["e"], P["hden"]) == p["e"]: return True
    return False

def plans(chk, cases):
    path = chk.scratch + "/plan.ndjson"
    with open(path, "w") as f:
        for c in cases: f.write(json.dumps(spec_case(c)) + "\n")
    r = chk.tlc("FFPlan", env={"VP_TRACE": path})
    out = {j["id"]: j for j in r.json}
    if len(out) != len(cases): raise vp.Infra("planner lost cases: " + r.out[-2000:])
    return [out[i + 1] for i in range(len(cases))]

def run(chk):
    chk.tlc("FiniteFaultMC", "FiniteFaultMCDeep.cfg" if chk.thorough else "FiniteFaultMC.cfg")
    N = 2500 if chk.thorough else 420
    cases = []
    while len(cases) < N:
        c = make(chk.rng)
        s = (c["dL"], c["dW"]) if c["given"] else (1, 1)
        n = sum(1 if f["kode"] >= 400 else -(-f["L"] // s[0]) * -(-f["W"] // s[1]) for f in c["faults"])
        if n > 24 and chk.rng.random() < .9: continue
        if chk.rng.random() < .02: c["extra"] = True
        cases.append(c)
    # exact multiples in awkward units
    for k in range(30 if chk.thorough else 10):
        c = make(chk.rng); m = chk.rng.choice([3, 5, 7, 9, 14]); c["faults"] = c["faults"][:1]
        c["faults"][0].update(L=m, W=1, st=A((1, 0, 1)), dip=A((0, 1, 1)), n0=0, e0=3, kode=100, inr=False, v1=1, v2=-1)
        c.update(given=True, dL=1, dW=1, unit=chk.rng.choice([0.3, 0.7, 0.1, 0.6])); cases.append(c)
    pl = plans(chk, cases)
    keep = [(c, p) for c, p in zip(cases, pl) if p["refused"] or (not coincide(c, p) and sum(len(P["tiles"]) for P in p["plan"]) <= 60)]
    chk.notes["plans"] = {"refused": sum(p["refused"] for _, p in keep), "tiles": sum(len(P["tiles"]) for _, p in keep if not p["refused"] for P in p["plan"]), "cases": len(keep)}
    def corrupt(t):
        if t["obs"] and max(map(abs, t["obs"][0]["u"])) > 1000: t["obs"][0]["u"] = [-x for x in t["obs"][0]["u"]]; return t
        return None
    chk.judge("FFTrace", keep, lambda x: observe(chk, x[0], x[1], omp=str(1 + x[0]["seed"] % 3)), lambda x: json.dumps(x[0]), corrupt=corrupt)
    chk.assumptions += ["the point-source synthesis used for each tile is the one decided by C09", "angles with rational sine and cosine"]

vp.main(run, "C10")
