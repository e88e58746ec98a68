"""C09: static syn interpolates the library (spec: StaticSyn, StaticSynMC, StaticSynTrace)"""
import os, math, json
import numpy as np
import vp, gf, stlib
from vp import q as Q

def isq(x):
    r = math.isqrt(x); return r if r * r == x else None

def layouts(rng):
    """(north axis, east axis) in integers whose every distance is an integer"""
    k = rng.random()
    if k < .5:
        n = rng.randint(1, 6)
        if rng.random() < .5:
            a = rng.choice([0, 0, 1]); st = rng.choice([1, 2, 5]); return [0], [a + st * i for i in range(n)]
        pool = [0, 1, 2, 3, 4, 5, 6, 8, 10]
        return [0], sorted(rng.sample(pool, n))
    a, b = rng.choice([(3, 4), (4, 3), (6, 8), (8, 6)])
    N = rng.choice([[0, a], [-a, 0, a], [-a, 0], [-a, a], [a], [-a]])
    E = rng.choice([[0, b], [-b, 0, b], [-b, 0], [b], [-b, b]])
    return N, E

def receivers(rng, layout, N0, E0):
    if layout == "native": return N0, E0
    if layout == "grid":
        if rng.random() < .4:
            n = rng.randint(1, 4); a = rng.randint(-5, 5)
            ax = [a + i * rng.choice([1]) for i in range(n)]
            return (ax, [0]) if rng.random() < .5 else ([0], ax)
        a, b = rng.choice([(3, 4), (4, 3), (6, 8)])
        return rng.choice([[-a, 0, a], [0, a], [-a, 0]]), rng.choice([[-b, 0, b], [0, b], [-b, 0]])
    return None

ANG5 = gf.angles(5)
def source(rng):
    t = rng.choice(["EX", "SF", "DC", "DC", "TS", "MT"])
    A = lambda l: gf.adict(rng.choice(l))
    dips = [a for a in ANG5 if a[0] >= 0 and a[1] >= 0]; right = [a for a in ANG5 if a[2] == 1]
    if t == "EX": return {"type": t}
    if t == "SF": return {"type": t, "f": [rng.randint(-3, 3) for _ in range(3)]}
    if t == "MT": return {"type": t, "m": [rng.randint(-3, 3) for _ in range(6)]}
    if t == "TS": return {"type": t, "strike": A(ANG5), "dip": A(rng.choice([dips, right[:1], dips])), "vr": [4, 1]}
    return {"type": t, "strike": A(ANG5), "dip": A(dips), "rake": A(rng.choice([ANG5, right, right]))}

def fix_dip(s):
    if "dip" in s and (s["dip"]["c"] < 0 or s["dip"]["s"] < 0): s["dip"] = gf.adict((0, 1, 1))
    return s

def bracket(ax, x):
    if x in ax: i = ax.index(x); return i, i, 1
    i = max(j for j in range(len(ax)) if ax[j] < x); return i, i + 1, ax[i + 1] - ax[i]

def dirof(p):
    if p["r"] == 0: return {"c": 1, "s": 0, "h": 1}
    f = math.gcd(p["r"], math.gcd(abs(p["n"]), abs(p["e"])))
    return {"c": p["n"] // f, "s": p["e"] // f, "h": p["r"] // f}

def dens(lib, q, p):
    eff = lambda i: lib["rs"][i] or 1
    S = bracket(lib["ds"], q["ds"] if q["hasds"] else lib["ds"][0]); R = bracket(lib["dr"], p["d"]); X = bracket(lib["rs"], p["r"])
    az = dirof(p); W = gf.weights_den(q["src"], az); h = az["h"] if q["zne"] else 1
    I = S[2] * R[2] * X[2]; rs = eff(X[0]) if X[0] == X[1] else eff(X[0]) * eff(X[1])
    return {"u": W * h * I, "d": W * h * h * I * rs}

def inaxis(ax, x): return x == ax[0] if len(ax) == 1 else ax[0] <= x <= ax[-1]

def make(rng):
    while True:
        N0, E0 = layouts(rng)
        rs = sorted({isq(n * n + e * e) for n in N0 for e in E0})
        ds = sorted(rng.sample([0, 1, 2, 3, 5], rng.choice([1, 2, 3]))); dr = sorted(rng.sample([0, 1, 2, 4], rng.choice([1, 2, 3])))
        lim = 2
        G = lambda: [[[[[rng.randint(-lim, lim) for _ in range(3)] for _ in range(6)] for _ in rs] for _ in dr] for _ in ds]
        lib = {"ds": ds, "dr": dr, "rs": rs, "g": G(), "gz": G(), "gr": G(),
               "vr": [rng.choice([[4, 1], [3, 1]]) for _ in ds], "mu": [rng.choice([1, 2, 3]) for _ in ds]}
        layout = rng.choice(["points", "points", "grid", "native"])
        hasds = len(ds) > 1 or rng.random() < .5
        if rng.random() < .03: hasds = not hasds
        hasdr = layout != "points" and (len(dr) > 1 or rng.random() < .5)
        if rng.random() < .03: hasdr = not hasdr
        pick = lambda ax: rng.choice(ax) if len(ax) == 1 or rng.random() < .4 else rng.randint(ax[0], ax[-1])
        dsv = pick(ds) if rng.random() < .95 else rng.choice([ds[-1] + 1, max(ds[0] - 1, 0)])
        drv = pick(dr) if rng.random() < .95 else rng.choice([dr[-1] + 1, max(dr[0] - 1, 0)])
        if not hasds: dsv = 0
        if not hasdr: drv = 0
        src = fix_dip(source(rng))
        if src["type"] == "TS": src["vr"] = list(lib["vr"][0])
        q = {"src": src, "k": rng.choice([1, 1, -1, 2]), "su": rng.random() < .4, "ds": dsv, "hasds": hasds, "dr": drv, "hasdr": hasdr,
             "layout": layout, "zne": rng.random() < .5, "upar": rng.random() < .5}
        ax = None
        if layout == "points":
            pts = []
            for _ in range(rng.randint(1, 6)):
                if rng.random() < .5:
                    r = rng.randint(0, max(rs) + 1); n, e = rng.choice([(r, 0), (-r, 0), (0, r), (0, -r)])
                else:
                    m = rng.choice([1, 1, 2]); n, e = m * rng.choice([-3, 3]), m * rng.choice([-4, 4])
                    if rng.random() < .5: n, e = e, n
                    r = isq(n * n + e * e)
                pts.append({"n": n, "e": e, "r": r, "d": pick(dr) if rng.random() < .985 else dr[-1] + 1})
        else:
            ax = receivers(rng, layout, N0, E0); d = drv if hasdr else dr[0]
            pts = [{"n": n, "e": e, "r": isq(n * n + e * e), "d": d} for n in ax[0] for e in ax[1]]
        okd = inaxis(ds, dsv if hasds else ds[0])
        big = 1
        for p in pts:
            if okd and inaxis(dr, p["d"]) and rs[0] <= p["r"] <= rs[-1]:
                D = dens(lib, q, p); big = max(big, D["u"] * (6 if q["upar"] else 1), D["d"] if q["upar"] else 1)
        mx = max(lib["mu"]) if q["su"] else 1
        amp = 3 if src["type"] in ("SF", "MT") else 1
        if big * lim * mx * abs(q["k"]) * amp * 40 < 2e9:
            return dict(N0=N0, E0=E0, lib=lib, q=q, pts=pts, ax=ax, unit=rng.choice([1.0, 1.0, 0.5, 0.1, 7.3]), order=rng.randint(0, 9))

def write_lib(path, case, corrupt=None):
    lib, u = case["lib"], case["unit"]
    full = lambda G, s: [[[[[x * s for x in f] for f in G[a][b][lib["rs"].index(isq(n * n + e * e))]] for n in case["N0"] for e in case["E0"]]
                          for b in range(len(lib["dr"]))] for a in range(len(lib["ds"]))]
    med = [(math.sqrt(v[0] / v[1]) * 2.0, 2.0, m / 4.0) for v, m in zip(lib["vr"], lib["mu"])]
    stlib.write(path, [x * u for x in lib["ds"]], [x * u for x in lib["dr"]], [x * u for x in case["N0"]], [x * u for x in case["E0"]],
                full(lib["g"], 1.0), full(lib["gz"], 1 / u), full(lib["gr"], 1 / u), src_med=med)

def observe(chk, case):
    q, u = case["q"], case["unit"]
    d = chk.dirnew(); write_lib(d + "/lib.nc", case)
    F = lambda x: repr(x * u)
    o = ["-G" + d + "/lib.nc", "-O" + d + "/o.nc", *gf.src_args(q["src"])]
    if q["su"]: o.append("-Su" + gf.fmt(q["k"] * (1e10 if q["src"]["type"] != "SF" else 1e5)))
    else: o.append("-S" + gf.fmt(q["k"] * (1e15 if q["src"]["type"] == "SF" else 1e20)))
    if q["hasds"]: o.append("-Ds" + F(q["ds"]))
    if q["hasdr"]: o.append("-Dr" + F(q["dr"]))
    if q["zne"]: o.append("-N")
    if q["upar"]: o.append("-e")
    if q["layout"] == "points":
        with open(d + "/rcv.txt", "w") as f:
            for p in case["pts"]: f.write("%s %s %s\n" % (F(p["n"]), F(p["e"]), F(p["d"])))
        o.append("-Q" + d + "/rcv.txt")
    elif q["layout"] == "grid":
        for opt, ax in zip("XY", case["ax"]):
            st = (ax[1] - ax[0]) if len(ax) > 1 else 1
            o.append("-%s%s/%s/%s" % (opt, F(ax[0]), F(ax[-1]), F(st)))
    o = o[case["order"] % len(o):] + o[:case["order"] % len(o)]
    r = chk.grt(["static", "syn", *o])
    rec = {"lib": case["lib"], "q": q, "rc0": r.returncode == 0, "wrote": os.path.exists(d + "/o.nc"), "vars": False, "warned": "out of distance" in (r.stderr + r.stdout) or "WARN" in (r.stderr + r.stdout),
           "npts": 0, "pts": [dict(p) for p in case["pts"]]}
    raw = {"cmd": o, "rc": r.returncode, "err": r.stderr[-300:]}
    if rec["rc0"] and rec["wrote"]:
        v, a, dims = stlib.read(d + "/o.nc")
        ch = "ZNE" if q["zne"] else "ZRT"
        want = {"north", "east", *ch} | ({x.lower() + y for x in ch for y in ch} if q["upar"] else set())
        if q["layout"] == "points": want |= {"depth", "rcv_va", "rcv_vb", "rcv_rho"}
        lay = a.get("layout", b"").decode()
        rec["vars"] = set(v) == want and int(a["calc_upar"]) == int(q["upar"]) and int(a["rot2ZNE"]) == int(q["zne"]) and \
            lay == ("points" if q["layout"] == "points" else "grid") and a["computeType"].decode()[:2] == q["src"]["type"] and \
            abs(float(a["depsrc"]) - u * (q["ds"] if q["hasds"] else case["lib"]["ds"][0])) < 1e-9
        if lay == "points":
            nn, ee, dd = v["north"], v["east"], v["depth"]
        else:
            nn = np.repeat(v["north"], len(v["east"])); ee = np.tile(v["east"], len(v["north"])); dd = np.full(nn.shape, float(a["deprcv"]))
        U = [v[c].ravel() for c in ch]; D = [[v[x.lower() + y].ravel() for y in ch] for x in ch] if q["upar"] else None
        rec["npts"] = int(U[0].size); raw["u"] = [x.tolist() for x in U]
        L = 2000000000
        for i, p in enumerate(rec["pts"]):
            if i >= U[0].size: break
            try:
                dn = dens(case["lib"], q, p) if case["lib"]["rs"][0] <= p["r"] <= case["lib"]["rs"][-1] else {"u": 1000, "d": 1000}
            except ValueError:
                dn = {"u": 1000, "d": 1000}
            p.update(dens=dn, on=Q(nn[i] / u, 1000), oe=Q(ee[i] / u, 1000), od=Q(dd[i] / u, 1000),
                     u=[Q(float(x[i]), dn["u"], L) for x in U], dd=[[Q(float(x[i]) * 1e5 * u, dn["d"], L) for x in row] for row in D] if D else [])
    import shutil; shutil.rmtree(d, True)
    return rec, raw

def run(chk):
    r = chk.tlc("StaticSynMC", "StaticSynMCDeep.cfg" if chk.thorough else "StaticSynMC.cfg")
    lib = [j["lib"] for j in r.json if "lib" in j][0]
    vecs = [j for j in r.json if "q" in j]
    assert len(vecs) > 500
    if not chk.thorough: vecs = chk.rng.sample(vecs, 900)
    def vec(v):
        case = dict(N0=[0], E0=lib["rs"], lib=lib, q=v["q"], pts=[v["p"]], ax=None, unit=1.0, order=0)
        rec, raw = observe(chk, case)
        if v["refused"]: return (not rec["rc0"] and not rec["wrote"]), raw
        if not (rec["rc0"] and rec["vars"] and rec["npts"] == 1): return False, raw
        p = rec["pts"][0]
        if v["beyond"]: return p["u"] == [0, 0, 0] and rec["warned"], raw
        ok = p["dens"] == v["dens"] and all(abs(a - b) <= 1 + abs(b) * 1e-5 for a, b in zip(p["u"], v["u"]))
        if v["q"]["upar"]:
            ok = ok and all(abs(a - b) <= 1 + p["dens"]["d"] * 1e-5 + abs(b) * 1e-5 for x, y in zip(p["dd"], v["d"]) for a, b in zip(x, y))
        return ok, dict(raw, rec=p)
    res = chk.pmap(vec, vecs); chk.traces += len(vecs)
    n = 0
    for (ok, raw), v in zip(res, vecs):
        if not ok and n < 10:
            n += 1
            ok2, raw = vec(v)
            if not ok2: chk.violate("spec vector not reproduced: " + json.dumps({"q": v["q"], "p": v["p"]}), {"vector": v, "raw": raw})
    cases = [make(chk.rng) for _ in range(6000 if chk.thorough else 1500)]
    def corrupt(t):
        for p in t["pts"]:
            if "u" in p and max(map(abs, p["u"])) > 100:
                p["u"] = [-x for x in p["u"]]; return t
        return None
    recs, _ = chk.judge("StaticSynTrace", cases, lambda c: observe(chk, c), lambda c: json.dumps({"q": c["q"], "pts": c["pts"], "N0": c["N0"], "E0": c["E0"], "unit": c["unit"]}), corrupt=corrupt)
    chk.notes["refused_cases"] = sum(not r.get("rc0", True) for r in recs)
    chk.notes["layouts"] = {k: sum(c["q"]["layout"] == k for c in cases) for k in ("points", "grid", "native")}
    chk.assumptions += ["library values are independent integers per node, so any wrong node or weight shows", "distances and azimuths are Pythagorean"]

vp.main(run, "C09")
