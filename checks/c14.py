"""C14: first arrivals (spec: Ray, RayMC, RayTrace)"""
import os, json, random, shutil
import vp, sac
from vp import q as Q
U = 46000                      # slowness unit: 1/46000 s/km; lengths in 10 m; time unit 1/4.6e6 s

def table(out):
    w = {}
    for l in out.splitlines():
        p = l.split()
        if len(p) == 3:
            try: w[float(p[0])] = [float(p[1]), float(p[2])]
            except ValueError: pass
    return w

def observe(chk, c):
    W = chk.dirnew(); p = W + "/m"
    n = len(c["h"])
    with open(p, "w") as f:
        for k in range(n):
            f.write("%r %r %r 2.5 600 300\n" % (c["h"][k] / 100 if k < n - 1 else c["last"], U / c["up"][k], U / c["us"][k] if c["us"][k] else 0.0))
    xs = ["%.2f" % (x / 100) for x in c["x"]]; zs, zr = c["zs"] / 100, c["zr"] / 100
    rec = dict(c, ok=False, ms=U * 100 // 1000, hdr=[[], []], tab=[[], []], swp=[[], []], one=[[], []]); rec.pop("last")
    runs = {"tab": chk.grt(["travt", "-M" + p, f"-D{zs}/{zr}", "-R" + ",".join(xs)]), "swp": chk.grt(["travt", "-M" + p, f"-D{zr}/{zs}", "-R" + ",".join(xs)])}
    ok = all(r.returncode == 0 for r in runs.values())
    for key, r in runs.items():
        t = table(r.stdout)
        for x in xs:
            for w in (0, 1): rec[key][w].append(Q(t[float(x)][w], 1000) if float(x) in t else -99999)
    for x in xs:
        t = table(chk.grt(["travt", "-M" + p, f"-D{zs}/{zr}", "-R" + x]).stdout)
        for w in (0, 1): rec["one"][w].append(Q(t[float(x)][w], 1000) if float(x) in t else -99999)
    r = chk.grt(["greenfn", "-M" + p, f"-D{zs}/{zr}", "-R" + ",".join(xs), "-N2/0.5", "-Ge", "-s", "-O" + W + "/g"])
    ok = ok and r.returncode == 0
    got = {}
    for d, _, fs in os.walk(W + "/g"):
        for f in fs:
            if f == "EXZ.sac": got[d.rsplit("_", 1)[1]] = sac.read(d + "/" + f)[0]
    for x in xs:
        h = got.get(x)
        for w in (0, 1):
            t = h["t%d" % w] if h else -9.0
            rec["hdr"][w].append(Q(t, U * 100, 2000000000) if t >= 0 else -1)
    rec["ok"] = ok
    shutil.rmtree(W, True)
    return rec, {"travt": runs["tab"].stdout[-600:], "rc": r.returncode, "err": r.stderr[-300:]}

def rand_case(rng):
    n = rng.choice([1, 2, 3, 4, 5, 6]); style = rng.choice(["inc", "inc", "any", "lvz", "close"])
    up = []
    for k in range(n):
        if style == "inc": u = (up[-1] - rng.randrange(50, 4000)) if up else rng.randrange(14000, 30000)
        elif style == "close": u = (up[-1] - rng.choice([20, 40, 60, 300, -40, 4000])) if up else rng.randrange(12000, 26000)
        else: u = rng.randrange(5800, 30000)
        up.append(max(5200, u))
    us = [min(45900, int(u * rng.uniform(1.5, 1.85))) for u in up]
    if rng.random() < .25:
        k = rng.randrange(n); us[k] = 0
    h = [rng.choice([10, 50, 100, 250, rng.randrange(1, 500), 1]) for _ in range(n)]
    tops = [0]
    for x in h[:-1]: tops.append(tops[-1] + x)
    def dep():
        u = rng.random()
        if u < .35: return rng.choice(tops)
        if u < .45: return rng.choice(tops) + 1
        return rng.randrange(0, tops[-1] + 300)
    zs, zr = dep(), dep()
    if rng.random() < .15: zr = zs
    if rng.random() < .35: zr = 0
    x = sorted(set(rng.choice([0, 1, 20, 100, 500, 1000, 2000, 5000, 12000, 20000, rng.randrange(0, 3000)]) for _ in range(rng.choice([2, 3, 4]))))
    return {"h": h, "up": up, "us": us, "zs": zs, "zr": zr, "x": x, "last": rng.choice([0.0, 3.0]) if n > 1 else 3.0}

def refused(c):
    """on (or level inside) a liquid: refused by the program, see C01"""
    if 0 not in c["us"]: return False
    k = c["us"].index(0); t = sum(c["h"][:k]); b = t + c["h"][k] if k < len(c["h"]) - 1 else 10**9
    for z in (c["zs"], c["zr"]):
        if (z == t and t > 0) or z == b: return True
    return c["zs"] == c["zr"] and t <= c["zs"] <= b

def run(chk):
    chk.tlc("RayMC", "RayMCDeep.cfg" if chk.thorough else "RayMC.cfg", timeout=850)
    cases = [c for c in (rand_case(chk.rng) for _ in range(6000 if chk.thorough else 420)) if not refused(c)]
    A = lambda h, up, zs, zr, x: {"h": h, "up": up, "us": [int(u * 1.7) for u in up], "zs": zs, "zr": zr, "x": x, "last": 0.0}
    cases += [A([100, 100, 100, 0], [15333, 9200, 9180, 5750], 150, 0, [1000, 2000, 6000]),      # a barely faster layer on the way to a fast one
              A([100, 0], [15333, 7667], 101, 0, [9700, 10000]), A([100, 0], [7667, 15333], 200, 100, [0, 500, 10000]),
              A([100, 100, 0], [7667, 15333, 12000], 250, 150, [100, 5000])]
    def corrupt(t):
        t["hdr"][0] = [x + 40000 for x in t["hdr"][0]]; return t
    chk.judge("RayTrace", cases, lambda c: observe(chk, c), lambda c: json.dumps(c), corrupt=corrupt)

vp.main(run, "C14")
