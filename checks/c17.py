"""C17: Okada solutions (spec: Okada, OkadaMC, OkadaPts, OkadaTrace)"""
import json, math, os, random, shutil
from fractions import Fraction as Fr
import numpy as np
import vp, phys, models, stlib
DEN = 125

def ang(a): return math.degrees(math.atan2(a["s"], a["c"]))
def q(x, unit, n=100000):
    """integers with unit = n, cut off far outside what can be right"""
    lim = max(20 * n, 10 ** 7) if n <= 10 ** 6 else 5 * 10 ** 8
    y = np.nan_to_num(np.asarray(x, float) / unit * n, nan=lim, posinf=lim, neginf=-lim)
    return [int(v) for v in np.rint(np.clip(y, -lim, lim)).ravel()]
def qq(x, unit, n=100000):
    x = np.asarray(x, float)
    if x.ndim == 1: return q(x, unit, n)
    return [qq(y, unit, n) for y in x]

def faultfile(path, F, S, rng):
    """F: spec faults; S km per cell"""
    rows = []
    kinds = [100 if f["slip"][2] == 0 else 200 if f["slip"][1] == 0 else 300 for f in F]
    inr = all(k == 100 for k in kinds) and rng.random() < .4
    path += ".inr" if inr else ".inp"
    for f, k in zip(F, kinds):
        s, dp = f["st"], f["dip"]; n0, e0, d0 = [v / DEN * S for v in f["p"]]
        L, Wd = f["L"] * S, f["W"] * S; rl, rev, ten = f["slip"]
        v = (rl, rev) if k == 100 else (rl, ten) if k == 200 else (ten, rev)
        if inr: v = (math.degrees(math.atan2(rev, -rl)), math.hypot(rl, rev))
        rows.append([e0, n0, e0 + L * s["s"] / s["h"], n0 + L * s["c"] / s["h"], k, v[0], v[1], ang(dp), d0, d0 + Wd * dp["s"] / dp["h"]])
    with open(path, "w") as o:
        o.write("  #   X-start    Y-start     X-fin      Y-fin   Kode   rt.lat    reverse   dip angle     top      bot\nxxx xxxxxxxxxx xxxxxxxxxx\n")
        for i, r in enumerate(rows): o.write("%d %s\n" % (i + 1, " ".join(repr(x) for x in r)))
    return path

class Runs:
    def __init__(s, chk): s.chk = chk; s.W = chk.dirnew(); s.raw = []; s.n = 0
    def okada(s, src, rcv=None, grid=None, zne=True, med=(6.0, 3.5, 2.7), omp="1"):
        """rcv: list of (n,e,d) km, or grid=(X option, Y option, depth)"""
        s.n += 1; out = "%s/o%d.nc" % (s.W, s.n)
        a = ["okada", "-I%r/%r/%r" % tuple(med), *src, "-e", "-s", "-O" + out] + (["-N"] if zne else [])
        if rcv is not None:
            p = "%s/r%d" % (s.W, s.n)
            open(p, "w").write("".join("%r %r %r\n" % tuple(float(t) for t in x) for x in rcv)); a.append("-Q" + p)
        else: a += ["-X" + grid[0], "-Y" + grid[1], "-Dr" + grid[2]]
        s.go(a, omp)
        return s.read(out, zne)
    def go(s, a, omp="1"):
        r = s.chk.grt(a, omp=omp, cwd=s.W); s.raw.append({"args": a, "rc": r.returncode, "err": r.stderr[-300:]})
        if r.returncode: raise phys.Failed("exit %s: %s %s" % (r.returncode, a, r.stderr[-200:]))
    def read(s, path, zne):
        v, at, _ = stlib.read(path); ch = "ZNE" if zne else "ZRT"
        u = np.stack([v[c].ravel() for c in ch], 1); d = np.stack([np.stack([v[a.lower() + b].ravel() for b in ch], 1) for a in ch], 1)
        s.last = v, at, path
        return u, d
    def close(s): shutil.rmtree(s.W, True)

def medium(rng):
    vp_ = rng.choice([6.0, 5.5, 3.0]); return [vp_, round(vp_ / rng.choice([1.5, 1.732, 2.0, 2.5]), 3), rng.choice([2.7, 2.0, 3.3])]
def lame(m): return m[2] * (m[0] ** 2 - 2 * m[1] ** 2), m[2] * m[1] ** 2
def km(v, S): return [float(Fr(v[0]) / DEN) * S, float(Fr(v[1]) / DEN) * S, float(Fr(v[2]) / DEN) * S]
def move(m, v): return [Fr(m["a"][0] * v[0] + m["a"][1] * v[1], m["h"]) + m["t"][0], Fr(m["a"][2] * v[0] + m["a"][3] * v[1], m["h"]) + m["t"][1], Fr(v[2])]

def dist_to(F, pts, S):
    """distance of the points (km) from the cells' corners and centres, roughly"""
    P = []
    for f in F:
        s, dp = f["st"], f["dip"]
        for l in np.linspace(0, f["L"], 2 * f["L"] + 1):
            for w in np.linspace(0, f["W"], 2 * f["W"] + 1):
                P.append([f["p"][0] / DEN + l * s["c"] / s["h"] - w * dp["c"] / dp["h"] * s["s"] / s["h"], f["p"][1] / DEN + l * s["s"] / s["h"] + w * dp["c"] / dp["h"] * s["c"] / s["h"], f["p"][2] / DEN + w * dp["s"] / dp["h"]])
    P = np.array(P) * S
    return np.array([np.min(np.linalg.norm(P - np.asarray(x, float), axis=1)) for x in pts])

def pair(c, R, rng):
    S = rng.choice([0.5, 1.0, 0.37, 3.0]); med = medium(rng); m = c["plan"]["m"]; F0, F = c["plan"]["f0"], c["plan"]["f"]
    pts = [[rng.randint(-900, 900) + .5, rng.randint(-900, 900) + .25, rng.choice([0, 0, rng.randint(0, 900) + .5])] for _ in range(8)]
    a = faultfile(R.W + "/a", F0, S, rng); b = faultfile(R.W + "/b", F, S, rng)
    if all(x["slip"] == [0, 0, 0] for x in F0): raise vp.Infra("empty plan")
    fp = [[Fr(t) for t in p] for p in pts]
    u1, d1 = R.okada(["-C" + a], [km(p, S) for p in fp], med=med); u2, d2 = R.okada(["-C" + b], [km(move(m, p), S) for p in fp], med=med, omp=rng.choice(["1", "3"]))
    U, D = np.abs(u1).max(), np.abs(d1).max()
    return [{"ok": True, "kind": "pair", "f0": F0, "f": F, "m": m, "u1": qq(u1, U), "u2": qq(u2, U), "d1": qq(d1, D), "d2": qq(d2, D), "tol": 3, "tag": "pair"}]

def interior(f, rng, inside):
    for _ in range(100):
        l, w = rng.uniform(-1, f["L"] + 1), rng.uniform(-1, f["W"] + 1)
        isin = .15 < l < f["L"] - .15 and .15 < w < f["W"] - .15
        far = l < -.2 or l > f["L"] + .2 or w < -.2 or w > f["W"] + .2
        s, dp = f["st"], f["dip"]
        p = [f["p"][0] / DEN + l * s["c"] / s["h"] - w * dp["c"] / dp["h"] * s["s"] / s["h"], f["p"][1] / DEN + l * s["s"] / s["h"] + w * dp["c"] / dp["h"] * s["c"] / s["h"], f["p"][2] / DEN + w * dp["s"] / dp["h"]]
        if p[2] > 0.05 and (isin if inside else far): return p
def jump(c, R, rng):
    S = rng.choice([0.5, 1.0, 2.0]); med = medium(rng); out = []
    F = [f for f in c["plan"]["f"] if f["slip"] != [0, 0, 0]][:1]; f = F[0]
    s, dp = f["st"], f["dip"]; n = np.array([-dp["s"] * s["s"] / s["h"] / dp["h"], dp["s"] * s["c"] / s["h"] / dp["h"], -dp["c"] / dp["h"]])
    a = faultfile(R.W + "/a", F, S, rng)
    for inside in (True, False):
        p = interior(f, rng, inside)
        if p is None: continue
        p = np.array(p) * S; e = 1e-5 * S
        u, d = R.okada(["-C" + a], [p + e * n, p - e * n], med=med)
        j = u[0] - u[1]; j = np.array([j[1], j[2], -j[0]]) / 100      # north, east, down in metres
        out.append({"ok": True, "kind": "jump", "fault": f, "inside": inside, "jump": q(j, 1.0, 10000), "unit": 10000, "tol": 10, "tag": "jump inside=%s" % inside})
    return out

def source(rng, c, R, S):
    """a random source: options, list of pseudo-faults for distances"""
    if rng.random() < .5:
        F = c["plan"]["f"]; return ["-C" + faultfile(R.W + "/s", F, S, rng)], F, "C"
    zs = rng.choice([0.6, 1.5, 4.0]) * S
    F = [{"p": [0, 0, zs / S * DEN], "L": 1, "W": 1, "st": {"c": 1, "s": 0, "h": 1}, "dip": {"c": 1, "s": 0, "h": 1}}]
    st, dp, rk = rng.choice([rng.uniform(0, 360), 0, 90, 270, 360]), rng.choice([rng.uniform(0, 90), 0, 90, 45]), rng.choice([rng.uniform(-180, 180), 0, 90, -90, 180])
    M = rng.choice([[], ["-M%r/%r" % (st, dp)], ["-M%r/%r/%r" % (st, dp, rk)], ["-M%r/%r/%r" % (st, dp, rk)]])
    return [*M, rng.choice(["-Su1e12", "-S1e24"]), "-Ds%r" % zs], F, "M"
def pseudo0(F): return F

STEN = [-2, -1, 1, 2]
def local(c, R, rng):
    """stencils, equilibrium, free surface at a receiver"""
    S = rng.choice([0.5, 1.0, 2.0]); med = medium(rng); src, F, k = source(rng, c, R, S)
    lam, mu = lame(med); out = []
    for _ in range(60):
        p = np.array([rng.uniform(-5, 5) * S, rng.uniform(-5, 5) * S, rng.choice([rng.uniform(0.2, 4)]) * S])
        dm = dist_to(F, [p], S)[0]
        if dm > 0.8 * S: break
    h = 0.01 * min(dm, p[2]); ax = [np.array([0, 0, -1.0]), np.array([1.0, 0, 0]), np.array([0, 1.0, 0])]      # z up, north, east
    pts = [p] + [p + t * h * a for a in ax for t in STEN]
    free = [np.array([rng.uniform(-5, 5) * S, rng.uniform(-5, 5) * S, 0.0]) for _ in range(3)]
    free = [x for x in free if dist_to(F, [x], S)[0] > 0.8 * S]
    u, d = R.okada(src, pts + free, med=med)
    u0, w = u[0], np.array([[u[1 + 4 * i + t] - u[0] for t in range(4)] for i in range(3)])
    # h in km, displacement cm: derivative * h(cm)
    unit = max(np.abs(w).max(), 1e-300)
    out.append({"ok": True, "kind": "stencil", "w": qq(w, unit, 1000000), "d": qq(d[0] * h * 1e5, unit, 1000000), "tol": 150, "tag": "stencil %s" % src})
    s = np.array([(8 * (d[1 + 4 * i + 2] - d[1 + 4 * i + 1]) - (d[1 + 4 * i + 3] - d[1 + 4 * i])) / 12 for i in range(3)])
    a, b = int(round(lam / mu * 100)), 100
    out.append({"ok": True, "kind": "equil", "s": qq(s, np.abs(s).max(), 100000), "lam": a, "mu": b, "tol": 400 if abs(a - lam / mu * 100) > 1e-6 else 30, "tag": "equil %s" % src})
    for x in range(len(free)):
        dd = d[len(pts) + x]
        out.append({"ok": True, "kind": "free", "d": qq(dd, np.abs(dd).max(), 100000), "lam": a, "mu": b, "tol": 400, "tag": "free %s" % src})
    return out

AZ = [(3, 4, 5), (-3, 4, 5), (4, -3, 5), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (1, 0, 1), (-5, -12, 13), (8, 15, 17)]
def frame(c, R, rng):
    S = rng.choice([0.5, 1.0, 2.0]); med = medium(rng); src, F, k = source(rng, c, R, S); out = []
    pts, az = [], []
    for a in rng.sample(AZ, 5):
        r = rng.uniform(0.5, 6) * S; pts.append([r * a[0] / a[2], r * a[1] / a[2], rng.choice([0.0, 0.3 * S, 1.1 * S])]); az.append((a, r))
    pts.append([0.0, 0.0, rng.choice([0.0, 0.27 * S])]); az.append(((1, 0, 1), 0.0))
    u, d = R.okada(src, pts, med=med); v, e = R.okada(src, pts, zne=False, med=med)
    for i, (a, r) in enumerate(az):
        k = r * 1e5 if r else 1e5 * S
        unit = max(np.abs(u[i]).max(), np.abs(d[i]).max() * k)
        out.append({"ok": True, "kind": "frame", "un": q(u[i], unit), "dn": qq(d[i] * k, unit), "uz": q(v[i], unit), "dz": qq(e[i] * k, unit), "dist": 1 if r else 0, "az": {"c": a[0], "s": a[1], "h": a[2]}, "tol": 4,
                    "tag": "frame %s %s" % (src, pts[i])})
    return out

def post(c, R, rng):
    S = rng.choice([0.5, 1.0]); med = medium(rng); src, F, k = source(rng, c, R, S); zne = rng.random() < .5; grid = rng.random() < .5; out = []
    if grid: g = ("%g/%g/%g" % (0.3 * S, 2.3 * S, S), "%g/%g/%g" % (-1.1 * S, 1.9 * S, 1.5 * S), "%g" % rng.choice([0, 0.45 * S])); u, d = R.okada(src, grid=g, zne=zne, med=med)
    else: u, d = R.okada(src, [[rng.uniform(-4, 4) * S, rng.uniform(-4, 4) * S, rng.choice([0, .4 * S])] for _ in range(4)] + [[0.0, 0.0, 0.0]], zne=zne, med=med)
    v, at, path = R.last
    for x in ("strain", "rotation", "stress"): R.go(["static", x, path])
    v, at, _ = stlib.read(path); ch = "ZNE" if zne else "ZRT"
    if grid: r = np.hypot(v["north"][:, None], v["east"][None, :]).ravel()
    else: r = np.hypot(v["north"], v["east"]).ravel()
    names = [ch[i] + ch[j] for i in range(3) for j in range(i, 3)]; lam, mu = lame(med)
    E = np.stack([v["strain_" + n].ravel() for n in names], 1); O = np.stack([v["rotation_" + ch[i] + ch[j]].ravel() for i in range(3) for j in range(i + 1, 3)], 1); T = np.stack([v["stress_" + n].ravel() for n in names], 1)
    for i in range(len(r)):
        if r[i] == 0 and not zne: continue
        k = 1.0 if zne else r[i] * 1e5
        unit = max(np.abs(d[i]).max() * k, 0 if zne else np.abs(u[i]).max()); a = int(round(lam / mu * 100))
        out.append({"ok": True, "kind": "post", "u": q(u[i], unit) if not zne else [0, 0, 0], "d": qq(d[i] * k, unit), "zne": zne, "strain": q(E[i] * k, unit), "rotation": q(O[i] * k, unit), "stress": q(T[i] * k / (mu * 1e10), unit, 10000000), "lam": a, "mu": 100,
                    "tol": 600, "tag": "post %s zne=%s grid=%s" % (src, zne, grid)})
        out[-1]["tol"] = 8 + (600 if abs(a - lam / mu * 100) > 1e-6 else 0)
    return out

def absolute(c, R, rng):
    """a point source against the wavenumber integration in the same half-space"""
    med = medium(rng); zs = rng.choice([0.8, 2.0, 3.5]); zr = rng.choice(["0", "0", "0.3", "5"]); zne = rng.random() < .5
    if zr == "0.3": zs = max(zs, 2.0)
    x0, y0 = round(rng.uniform(-3, 3), 2), round(rng.uniform(-3, 3), 2); g = ("%g/%g/1.3" % (x0, x0 + 1.3), "%g/%g/0.9" % (y0, y0 + 1.8), zr)
    st, dp, rk = round(rng.uniform(0, 360), 2), rng.choice([round(rng.uniform(0, 90), 2), 0, 90]), round(rng.uniform(-180, 180), 2)
    M = c["M"]; S = rng.choice(["-S1e22", "-Su1e11"])
    o, y = {"EX": ([], []), "TS": (["-M%r/%r" % (st, dp)], ["-M%r/%r" % (st, dp)]), "DC": (["-M%r/%r/%r" % (st, dp, rk)],) * 2}[M]
    u, d = R.okada([*o, S, "-Ds%g" % zs], grid=g, zne=zne, med=med)
    open(R.W + "/m", "w").write("0 %r %r %r 1e8 1e8\n" % tuple(med))
    rm = math.hypot(max(abs(x0), abs(x0 + 1.3)), max(abs(y0), abs(y0 + 1.8)))
    R.go(["static", "greenfn", "-M" + R.W + "/m", "-D%g/%s" % (zs, zr), "-X" + g[0], "-Y" + g[1], "-e", "-O" + R.W + "/g.nc", "-L%.9g" % (600 * (rm + 5) / rm)] + (["-K+k20"] if zr != "0" else []))
    R.go(["static", "syn", "-G" + R.W + "/g.nc", S, "-e", *y, "-O" + R.W + "/s.nc"] + (["-N"] if zne else []))
    v, e = R.read(R.W + "/s.nc", zne); U, D = np.abs(u).max(), np.abs(d).max()
    return [{"ok": True, "kind": "same", "x": q(u, U), "y": q(v, U), "tol": 60, "tag": "absolute u %s %s zs=%s g=%s" % (y, S, zs, g)}, {"ok": True, "kind": "same", "x": q(d, D), "y": q(e, D), "tol": 250, "tag": "absolute d %s %s zs=%s g=%s" % (y, S, zs, g)}]

def conj(c, R, rng):
    """descriptions of one double couple; Kode 400 rows; -S and -Su; a small fault"""
    med = medium(rng); mu = lame(med)[1] * 1e10; lam = lame(med)[0] * 1e10; of = c["of"]; out = []; zs = rng.choice([1.0, 2.5])
    pts = [[rng.uniform(-4, 4), rng.uniform(-4, 4), rng.choice([0.0, 0.6, zs])] for _ in range(6)]
    M = lambda a: "-M%r/%r/%r" % (ang(a["st"]) % 360, ang(a["dip"]), ang(a["rk"]))
    base = R.okada([M(of), "-Su1e12", "-Ds%g" % zs], pts, med=med); U, D = np.abs(base[0]).max(), np.abs(base[1]).max()
    def cmp(x, tag, tol):
        for a, b, n, w in ((base[0], x[0], U, "u"), (base[1], x[1], D, "d")): out.append({"ok": True, "kind": "same", "x": q(a, n), "y": q(b, n), "tol": tol, "tag": "%s %s %s" % (M(of), tag, w)})
    for y in rng.sample(c["same"], min(2, len(c["same"]))): cmp(R.okada([M(y), "-Su1e12", "-Ds%g" % zs], pts, med=med), "= " + M(y), 2)
    cmp(R.okada([M(of), "-S%r" % (1e12 * mu), "-Ds%g" % zs], pts, med=med), "moment", 2)
    k = rng.choice([-2.0, 0.5]); x = R.okada([M(of), "-Su%r" % (k * 1e12), "-Ds%g" % zs], pts, med=med); cmp((x[0] / k, x[1] / k), "scaled", 2)
    if of["dip"]["s"]:
        st, dp, rk = [math.radians(ang(of[t])) for t in ("st", "dip", "rk")]
        def row(kode, v1, v2, L, Wd):
            n = np.array([0.0, 0.0]); sv = np.array([math.cos(st), math.sin(st)]); dv = np.array([-math.sin(st), math.cos(st)])
            top = zs - Wd / 2 * math.sin(dp); b = n - L / 2 * sv - Wd / 2 * math.cos(dp) * dv; e = b + L * sv
            p = "%s/k%d.inp" % (R.W, R.n)
            open(p, "w").write("h\nh\n1 %r %r %r %r %d %r %r %r %r %r\n" % (float(b[1]), float(b[0]), float(e[1]), float(e[0]), kode, v1, v2, math.degrees(dp), top, top + Wd * math.sin(dp))); return ["-C" + p]
        L, Wd = rng.choice([(0.5, 0.8), (2.0, 0.3), (1.0, 1.0)])
        if (ang(of["st"]) % 360) <= 360: cmp(R.okada(row(400, -1e6 * math.cos(rk), 1e6 * math.sin(rk), L, Wd), pts, med=med), "Kode 400", 2)
        L, Wd = 0.004, 0.006
        a = L * Wd * 1e10
        far = [p for p in pts]
        sl = 1e12 / a / 100
        if min(math.dist(p, (0, 0, zs)) for p in pts) > 0.5: cmp(R.okada(row(100, -sl * math.cos(rk), sl * math.sin(rk), L, Wd), pts, med=med), "small fault", 60)
        # tensile and inflation: Kode 500 against -M without rake and without -M
        t1, t2 = rng.choice([1, -2, 0]), rng.choice([0, 1])
        if t1 or t2:
            x = R.okada(row(500, t1 * 1e6, t2 * 1e6, 0.7, 0.9), pts, med=med)
            a = R.okada(["-M%r/%r" % (ang(of["st"]) % 360, ang(of["dip"])), rng.choice(["-Su%r" % (t1 * 1e12), "-S%r" % (t1 * 1e12 * mu)]), "-Ds%g" % zs], pts, med=med) if t1 else (0, 0)
            b = R.okada(["-Su%r" % (t2 * 1e12), "-Ds%g" % zs], pts, med=med) if t2 else (0, 0)
            y = a[0] + b[0], a[1] + b[1]
            for i, w in ((0, "u"), (1, "d")): n = np.abs(y[i]).max(); out.append({"ok": True, "kind": "same", "x": q(x[i], n), "y": q(y[i], n), "tol": 2, "tag": "Kode 500 %s %s" % ((t1, t2), w)})
            if t1 and min(math.dist(p, (0, 0, zs)) for p in pts) > 0.5:
                L, Wd = 0.004, 0.006; x = R.okada(row(200, 0.0, 1e12 / (L * Wd * 1e10) / 100, L, Wd), pts, med=med); y = a[0] / t1, a[1] / t1
                for i, w in ((0, "u"), (1, "d")): n = np.abs(y[i]).max(); out.append({"ok": True, "kind": "same", "x": q(x[i], n), "y": q(y[i], n), "tol": 60, "tag": "small opening %s" % w})
    return out

BASIS = ((0, 0), (90, 0), (45, 90), (0, 90))
def combo(c, R, rng):
    """every double couple is a combination of four, close to vertical and horizontal too (a 4 m fault loses digits above 89.9 degrees)"""
    med = medium(rng); out = []; zs = rng.choice([1.0, 2.5]); st = rng.choice([0.0, round(rng.uniform(0, 360), 2)]); n = 20000
    pts = [[rng.uniform(-4, 4), rng.uniform(-4, 4), rng.choice([0.0, 0.6, zs])] for _ in range(6)]
    pts = [p for p in pts if math.dist(p, (0, 0, zs)) > 0.7]
    if not pts: return []
    B = [R.okada(["-M%r/%r/%r" % (st, d, l), "-Su1e12", "-Ds%g" % zs], pts, med=med) for d, l in BASIS]
    for _ in range(3):
        dp = rng.choice([rng.uniform(89, 90), rng.uniform(89.8, 90), rng.uniform(0.01, 1), rng.uniform(0.01, 0.2), rng.uniform(5, 85)]); rk = rng.choice([rng.uniform(-180, 180), 0.0, 90.0])
        d, l = math.radians(dp), math.radians(rk)
        a = [math.cos(l) * math.cos(d), math.cos(l) * math.sin(d), math.sin(l) * math.sin(2 * d), math.sin(l) * math.cos(2 * d)]
        runs = [("point", 4, ["-M%r/%r/%r" % (st, dp, rk), "-Su1e12", "-Ds%g" % zs])]
        s, L, Wd = math.radians(st), 0.004, 0.006
        sv = np.array([math.cos(s), math.sin(s)]); dv = np.array([-math.sin(s), math.cos(s)]); b = -L / 2 * sv - Wd / 2 * math.cos(d) * dv; e = b + L * sv; top = zs - Wd / 2 * math.sin(d); sl = 1e12 / (L * Wd * 1e10) / 100
        p = "%s/q%d.inp" % (R.W, R.n)
        open(p, "w").write("h\nh\n1 %r %r %r %r 100 %r %r %r %r %r\n" % (float(b[1]), float(b[0]), float(e[1]), float(e[0]), -sl * math.cos(l), sl * math.sin(l), dp, top, top + Wd * math.sin(d)))
        if 1 < dp < 89.9: runs.append(("small fault", 14, ["-C" + p]))
        for t, tol, src in runs:
            x = R.okada(src, pts, med=med)
            for w in (0, 1):
                m = max(np.abs(y[w]).max() for y in B)
                out.append({"ok": True, "kind": "combo", "n": n, "a": [int(round(v * n)) for v in a], "b": [q(y[w], m, n) for y in B], "x": q(x[w], m, n), "tol": tol, "tag": "%s -M%r/%r/%r %s" % (t, st, dp, rk, "ud"[w])})
    return out

def grid(c, R, rng):
    """a grid is its points"""
    S = rng.choice([0.5, 1.0]); med = medium(rng); src, F, k = source(rng, c, R, S); zne = rng.random() < .5
    x = (round(rng.uniform(-3, 0), 2), rng.choice([0.5, 0.3]), rng.randint(1, 5)); y = (round(rng.uniform(-2, 1), 2), rng.choice([0.7, 0.4]), rng.randint(1, 4)); z = rng.choice(["0", "0.37"])
    g = ["%r/%r/%r" % (t[0], round(t[0] + t[1] * (t[2] - 1), 9), t[1]) for t in (x, y)]
    u, d = R.okada(src, grid=(g[0], g[1], z), zne=zne, med=med, omp=rng.choice(["1", "4"])); v, at, _ = R.last
    pts = [[v["north"][i], v["east"][j], float(z)] for i in range(x[2]) for j in range(y[2])]
    ok = len(v["north"]) == x[2] and len(v["east"]) == y[2] and abs(float(at["deprcv"]) - float(z)) < 1e-12
    w, e = R.okada(src, pts, zne=zne, med=med)
    ax = np.concatenate([v["north"] - (x[0] + x[1] * np.arange(x[2])), v["east"] - (y[0] + y[1] * np.arange(y[2]))]) if ok else np.ones(3)
    out = [{"ok": bool(ok), "kind": "same", "x": q(ax, 1e-3), "y": [0] * len(ax), "tol": 0, "tag": "axes %s" % g}]
    if ok:
        for a, b, t in ((u, w, "u"), (d, e, "d")): n = np.abs(a).max(); out.append({"ok": True, "kind": "same", "x": q(a, n, 1000000), "y": q(b, n, 1000000), "tol": 0, "tag": "grid %s %s %s" % (src, g, t)})
    return out

FN = {"pair": pair, "jump": jump, "local": local, "frame": frame, "post": post, "abs": absolute, "conj": conj, "grid": grid, "combo": combo}

def run(chk):
    t = chk.thorough; rng = chk.rng
    plans = chk.tlc("OkadaMC", "OkadaMCDeep.cfg" if t else None).json
    pts = [p for p in chk.tlc("OkadaPts").json]
    nz = [p for p in plans if any(f["slip"] != [0, 0, 0] for f in p["f"])]
    N = 5 if t else 1
    cases = [{"fn": "pair", "plan": p, "seed": rng.randrange(1 << 30)} for p in rng.sample(nz, min(len(nz), 1500 if t else 220))]
    for k, n in (("jump", 40), ("local", 60), ("frame", 40), ("post", 30), ("grid", 24), ("combo", 30)): cases += [{"fn": k, "plan": rng.choice(nz), "seed": rng.randrange(1 << 30)} for _ in range(n * N)]
    cases += [{"fn": "abs", "M": m, "seed": rng.randrange(1 << 30)} for m in ("EX", "TS", "DC", "DC") for _ in range(6 * N)]
    cases += [{"fn": "conj", "of": p["of"], "same": p["same"], "seed": rng.randrange(1 << 30)} for p in rng.sample(pts, 40 * N)]
    def obs(c):
        R = Runs(chk)
        try: return FN[c["fn"]](c, R, random.Random(c["seed"])), R.raw
        except phys.Failed as e: return [{"ok": False, "kind": "same", "x": [], "y": [], "tol": 0, "tag": str(e)[:300]}], R.raw
        finally: R.close()
    res = chk.pmap(obs, cases)
    recs = [r for x in res for r in x[0]]; own = [c for c, x in zip(cases, res) for _ in x[0]]
    bad = [i for i, _ in chk.tlc_trace("OkadaTrace", recs)]
    for i in dict.fromkeys(id(own[j]) for j in bad):
        c = next(x for x in own if id(x) == i); again, raw = obs(c); b2 = [j for j, _ in chk.tlc_trace("OkadaTrace", again)]
        if b2: chk.violate("okada %s: %s" % (c["fn"], "; ".join(again[j]["tag"] for j in b2[:3])), {"records": [again[j] for j in b2[:2]], "case": c, "commands": raw})
        if len(chk.violations) > 5: break
    from collections import Counter
    chk.notes["records"] = dict(Counter(r["kind"] for r in recs))
    chk.sample(json.dumps(recs[0])[:500])
    for k, f in (("pair", "u2"), ("jump", "jump"), ("stencil", "d"), ("equil", "s"), ("free", "d"), ("frame", "uz"), ("post", "stress"), ("same", "y"), ("combo", "x")):
        g = next((r for i, r in enumerate(recs) if i not in set(bad) and r["kind"] == k and r["ok"] and r.get("inside", True)), None)
        if g is None: continue
        g = json.loads(json.dumps(g)); x = g[f]
        while isinstance(x[0], list): x = x[0]
        x[0] += 3 * g["tol"] + 1000 if k != "post" else 10 ** 6
        if k == "equil": g["s"][1][0][0] += 5000
        if k == "free": g["d"][1][0] += 5000
        if not chk.tlc_trace("OkadaTrace", [g]): raise vp.Infra("corrupted %s record accepted" % k)

vp.main(run, "C17")
