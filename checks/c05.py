"""C05: syn is the exact source-weighted sum of Green's functions (spec: Syn, SynMC, SynTrace)"""
import os, math, json
import vp, sac, gf
from vp import q

def scale_arg(src, k, mu=None):
    if mu is not None:   # -Su: strength = S*mu with mu = rho*vb^2 (1e10 dyne/cm^2)
        return "-Su%s" % gf.fmt(k / mu * 1e10) if src["type"] != "SF" else "-Su%s" % gf.fmt(k / mu * 1e5)
    return "-S%s" % gf.fmt(k * (1e15 if src["type"] == "SF" else 1e20))

def observe(chk, gdir, c, npts, mu=None, tag="", order=0, unit=1.0, length=1.0):
    """unit scales the source strength, length every distance and (to keep derivatives fixed) displacement: both are divided out of the observation"""
    out = chk.dirnew() + "/o"
    opts = ["-G" + gdir, "-A" + gf.fmt(gf.adeg(c["az"])), scale_arg(c["src"], c["k"] * unit, mu), "-O" + out, *gf.src_args(c["src"])]
    if c["zne"]: opts.append("-N")
    if c["upar"]: opts.append("-e")
    opts = opts[order % len(opts):] + opts[:order % len(opts)]
    r = chk.grt(["syn", *opts])
    chs = "ZNE" if c["zne"] else "ZRT"
    obs = {"rc": r.returncode, "cmd": opts}
    try:
        if r.returncode == 0:
            exp = {ch + ".sac" for ch in chs}
            if c["upar"]: exp |= {a.lower() + b + ".sac" for a in chs for b in chs}
            obs["files_ok"] = set(os.listdir(out)) == exp
            U = [sac.read(f"{out}/{ch}.sac") for ch in chs]
            obs["u"] = [[float(U[j][1][n]) / (unit * length) for j in range(3)] for n in range(npts)]
            az = U[0][0]["az"]; baz = U[0][0]["baz"]
            want = 0.0 if c["dist"] == 0 else gf.adeg(c["az"])
            mod = lambda x: abs((x + 180) % 360 - 180)
            obs["hdr_ok"] = all(abs(u[0]["az"] - want) < 1e-3 and mod(u[0]["baz"] - want - 180) < 1e-3 and abs(u[0]["dist"] - c["dist"] * length) <= 1e-6 * c["dist"] * length
                                and u[0]["delta"] == U[0][0]["delta"] for u in U)
            obs["hdr"] = [az, baz]
            if c["upar"]:
                Dv = [[sac.read(f"{out}/{a.lower()}{b}.sac") for b in chs] for a in chs]
                obs["d"] = [[[float(Dv[i][j][1][n]) / unit for j in range(3)] for i in range(3)] for n in range(npts)]
            else:
                obs["d"] = [[] for n in range(npts)]
    except Exception as e:
        obs["error"] = repr(e)
    return obs

def good(obs):
    return obs["rc"] == 0 and "error" not in obs and obs.get("files_ok") and obs.get("hdr_ok")

def near(o, e, rel, abst):
    return abs(o - e) <= abst + rel * abs(e)

def run(chk):
    # ---- 1. the specification itself, every finished run emitted as a vector
    r = chk.tlc("SynMC", "SynMCDeep.cfg" if chk.thorough else "SynMC.cfg")
    vecs = r.json
    assert len(vecs) > 1000
    # ---- 2. specification -> code
    dirs = {}
    def leaf(v):
        c = v["c"]; vr = tuple(c["src"].get("vr", [4, 1]))
        key = (c["dist"], vr)
        if key not in dirs:
            p = chk.dirnew("gf_%d_%d_%d" % (c["dist"], *vr))
            gf.write_leaf(p, c["dist"], [v["g"]], [v["gz"]], [v["gr"]], src=(math.sqrt(vr[0] / vr[1]) * 2.0, 2.0, 3.0))
            dirs[key] = p
        return dirs[key]
    for v in vecs: leaf(v)
    if not chk.thorough and len(vecs) > 3200:
        vecs = chk.rng.sample(vecs, 3200)
    def replay(v):
        c = v["c"]
        mu = 12.0 if sum(map(ord, json.dumps(c, sort_keys=True))) % 3 == 0 else None
        o = observe(chk, leaf(v), c, 1, mu, order=sum(map(ord, json.dumps(c, sort_keys=True))))
        ok = good(o)
        if ok:
            d = v["dens"]
            m = max([abs(x) for x in v["u"]] + [1])
            ok = all(near(a * d["u"], b, 3e-6, 3e-6 * m + 1e-3 * d["u"] / 1000) for a, b in zip(o["u"][0], v["u"]))
            if c["upar"]:
                flat_e = [x for row in v["d"] for x in row]; flat_o = [x for row in o["d"][0] for x in row]
                m = max([abs(x) for x in flat_e] + [d["zr"]])
                ok = ok and len(flat_o) == 9 and all(near(a * 1e5 * d["zr"], b, 3e-6, 1e-5 * m) for a, b in zip(flat_o, flat_e))
        return ok, o
    res = chk.pmap(replay, vecs)
    chk.traces += len(vecs)
    nbad = 0
    for (ok, o), v in zip(res, vecs):
        if not ok and nbad < 12:
            nbad += 1
            ok2, o2 = replay(v)
            if not ok2: chk.violate("spec vector not reproduced: %s" % json.dumps(v["c"]), {"vector": v, "obs": o2})
    for v in vecs[:3]: chk.sample(json.dumps(v["c"]))
    # ---- 3. code -> specification: random Green's functions, angles, scales
    rng = chk.rng
    N = 6000 if chk.thorough else 1600
    allang = gf.angles(13); a5 = gf.angles(5)
    dips = [a for a in allang if a[0] >= 0 and a[1] >= 0]
    cases = []
    for i in range(N):
        t = rng.choice(["EX", "SF", "DC", "DC", "TS", "MT", "MT"])
        A = lambda l: gf.adict(rng.choice(l))
        vr = rng.choice([[4, 1], [3, 1], [9, 4]])
        if t == "EX": src = {"type": t}
        elif t == "SF": src = {"type": t, "f": [rng.randint(-5, 5) for _ in range(3)]}
        elif t == "MT": src = {"type": t, "m": [rng.randint(-5, 5) for _ in range(6)]}
        elif t == "TS":
            vr = rng.choice([[4, 1], [3, 1]])
            src = {"type": t, "strike": A(a5), "dip": A(dips), "vr": vr}
        else: src = {"type": t, "strike": A(allang), "dip": A(dips), "rake": A(a5)}
        heavy = t in ("DC", "TS") and (src["strike"]["h"] * src["dip"]["h"] > 25)
        az = A([a for a in allang if a[2] <= (1 if heavy else 13 if t in ("EX", "SF", "MT") else 5)])
        c = {"src": src, "az": az, "dist": rng.choice([0, 1, 2, 3, 3, 2]) if not heavy else rng.choice([0, 1]), "k": rng.choice([1, 1, 2, -1]),
             "zne": rng.random() < .5, "upar": rng.random() < .6}
        npts = rng.choice([2, 3])
        lim = 3 if t in ("DC", "TS") else 6
        G = lambda: [[[rng.randint(-lim, lim) for _ in range(3)] for _ in range(6)] for _ in range(npts)]
        cases.append((c, vr, npts, G(), G(), G(), rng.choice([None, None, 12.0, 5.0]), rng.randint(0, 7), rng.choice([1, 1, 1e-20, 1e-8, 1e6]), rng.choice([1, 1, 1e-4, 0.01, 300.0])))
    def one(case):
        c, vr, npts, g, gz, gr, mu, order, unit, ln = case
        p = chk.dirnew()
        vb = 2.0; rho = (mu or 12.0) / 4.0
        # only the families the source needs are stored in half of the cases
        gf.write_leaf(p, c["dist"] * ln, [[[x * ln for x in fam] for fam in smp] for smp in g], gz if c["upar"] else None, gr if c["upar"] else None, src=(math.sqrt(vr[0] / vr[1]) * vb, vb, rho), delta=0.25)
        o = observe(chk, p, c, npts, mu, order=order, unit=unit, length=ln)
        D = gf.weights_den(c["src"], gf.adict((1, 0, 1)) if c["dist"] == 0 else c["az"])
        h = 1 if c["dist"] == 0 else c["az"]["h"]
        dist = max(c["dist"], 1)
        dens = {"u": D * (h if c["zne"] else 1), "zr": D * dist * (h * h if c["zne"] else 1)}
        rec = {"ok": bool(good(o)), "c": c, "g": g, "gz": gz, "gr": gr, "dens": dens, "obs": []}
        if rec["ok"]:
            L = 2000000000
            rec["obs"] = [{"u": [q(x, dens["u"], L) for x in o["u"][n]],
                           "d": [[q(x * 1e5, dens["zr"], L) for x in row] for row in o["d"][n]]} for n in range(npts)]
        import shutil; shutil.rmtree(p, True)
        return rec, o
    def corrupt(t):
        j = max(range(3), key=lambda k: abs(t["obs"][0]["u"][k]))
        if abs(t["obs"][0]["u"][j]) < 50: return None
        t["obs"][0]["u"][j] *= -1
        return t
    chk.judge("SynTrace", cases, one, lambda c: json.dumps(c[0]), corrupt=corrupt)
    chk.notes["configurations"] = {"vectors": len(vecs), "random": N}
    chk.assumptions += ["angles are restricted to those with rational sine and cosine (all quadrants); other angles go through the same libm calls",
                        "float32 storage: relative tolerance 3e-6 to 2e-4"]

vp.main(run, "C05")
