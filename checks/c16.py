"""C16: source-receiver reciprocity (spec: Recip, RecipMC, RecipTrace)"""
import math, os, random, shutil
import numpy as np
import vp, phys, models, sac, stlib
NAMES = ["VFZ", "VFR", "HFZ", "HFR", "HFT", "EXZ", "EXR", "DDZ", "DDR", "DSZ", "DSR", "DST", "SSZ", "SSR", "SST"]
B5 = NAMES[:5]
ENT = {"VFZ": "u0", "VFR": "u2", "HFZ": "u1", "HFR": "u3", "HFT": "u4", "EXZ": "r1 o1 z0", "DDZ": "r1 o1 z0", "DSZ": "z1 r0", "SSZ": "o1 r1", "EXR": "o4 o3 r3 z2", "DDR": "r3 o3 o4 z2",
       "DSR": "z3 r2", "SSR": "o3 o4 r3", "DST": "z4 o2", "SST": "o4 o3 r4"}       # only used to choose the unit of a record

def rel_records(f, g, R, tol, tag, perpoint=False):
    """f forward, g reversed {name: array}; R distance(s)"""
    F = {"u": [g[k] for k in B5], "z": [g["z" + k] for k in B5], "r": [g["r" + k] for k in B5]}
    F["o"] = [x / R for x in F["u"]]
    out = []
    axis = 0 if perpoint else None
    scale = [np.max(np.abs(np.array([f[n] for n in NAMES if (n in B5) == own])), axis=axis) for own in (True, False)]   # a component that vanishes by symmetry has only rounding noise
    for n in NAMES:
        terms = [f[n]] + [F[t[0]][int(t[1])] for t in ENT[n].split()]
        if perpoint:
            ref = np.max(np.abs(np.array(terms)), axis=0)
        else: ref = max(float(np.abs(t).max()) for t in terms)
        ref = np.maximum(ref, 1e-3 * scale[0 if n in B5 else 1])
        qq = lambda v: [int(x) for x in np.where(np.isfinite(v / ref), np.rint(np.clip(np.nan_to_num(v / ref, nan=200), -200, 200) * 1e5), 2e7)]
        out.append({"ok": True, "kind": "rel", "name": n, "tol": tol, "x": qq(f[n]), "u": [qq(v) for v in F["u"]] if n in B5 else [[0] * len(f[n])] * 5,
                    "o": [qq(v) for v in F["o"]] if n not in B5 else [[0] * len(f[n])] * 5, "z": [qq(v) for v in F["z"]] if n not in B5 else [[0] * len(f[n])] * 5,
                    "r": [qq(v) for v in F["r"]] if n not in B5 else [[0] * len(f[n])] * 5, "tag": tag})
    return out

def setup(rng, static=False):
    n = rng.choice([1, 2, 3, 4]); depths = [rng.choice([0.8, 1.0, 1.5]), rng.choice([0.7, 1.2, 2.0]), rng.choice([0.9, 1.3])]
    mod = models.rows(rng, n, depths=depths)
    q = rng.choice([[500.0, 250.0], [60.0, 30.0], [1e8, 1e8]])
    for m in mod: m[4:] = q
    edge = "%g" % depths[0] if n > 1 else "1.1"
    a, b = rng.choice([("2.3", "0.7"), ("0.6", "2.9"), ("3.4", "0"), ("1.37", "1.05"), (edge, "2.5"), ("0.35", edge), ("1.25", "1.25"), ("2.1", "1.9"), ("4.2", "0.15"), ("0.4", "0.9")])
    if rng.random() < .3: a = "%g" % round(float(a) + rng.uniform(0.01, 0.3), 3)
    if rng.random() < .5: a, b = b, a
    if rng.random() < .15 and a != b and not static and n > 1:
        k = rng.randrange(n); h = 0.0
        top = sum(r[0] for r in mod[:k]); bot = top + mod[k][0] if k < n - 1 else 1e9
        if all(not (top <= float(z) <= bot) for z in (a, b)): mod[k][1:4] = [1.5, 0.0, 1.0]      # a liquid layer away from both
    return mod, a, b

def dyn(chk, c):
    rng = random.Random(c["seed"]); mod, a, b = setup(rng)
    rs = ["%g" % round(rng.uniform(0.8, 4), 2), "%g" % round(rng.uniform(5, 12), 2)]
    bc = rng.choice([[], [], [], ["-Bh"], ["-Br"], ["-BfH"], ["-BfR"], ["-BfF"]]) if c["bc"] else []
    if "-Br" in bc and "0" in (a, b): bc = []
    if bc and bc[0] in ("-BfR", "-BfF") and max(float(a), float(b)) >= sum(r[0] for r in mod[:-1]): bc = ["-BfH"]
    o = ["-N%d/%g" % (rng.choice([24, 30, 37]), rng.choice([0.1, 0.2, 0.3])), "-L%d" % rng.choice([15, 20, 25]), "-e", *bc]
    raw = []
    F = phys.greenfn(chk, mod, [a], [b], rs, o, raw=raw); G = phys.greenfn(chk, mod, [b], [a], rs, o, raw=raw)
    out = []
    for x in rs:
        f = {k: v[1].astype(float) for k, v in F[(a, b, x)].items()}; g = {k: v[1].astype(float) for k, v in G[(b, a, x)].items()}
        out += rel_records(f, g, float(x), c["tol"], "%s %s/%s %s" % (" ".join(o), a, b, x))
    return out, raw

def sta(chk, c):
    rng = random.Random(c["seed"]); mod, a, b = setup(rng, True)
    x0, y0 = round(rng.uniform(0.3, 3), 2), round(rng.uniform(-4, 2), 2)
    X, Y = "%g/%g/%g" % (x0, x0 + 2, 1), "%g/%g/%g" % (y0, y0 + 3, 1.5)
    bc = rng.choice([[], [], [], ["-Bh"], ["-Br"]]) if c["bc"] else []
    if "-Br" in bc and "0" in (a, b): bc = []
    # the wavenumber step follows the width of the spectrum unless it is small enough for both directions
    L = rng.choice([["-L%.9g" % (4000 / math.hypot(x0 + 2, max(abs(y0), abs(y0 + 3))))], ["-K+f"], []])
    o = ["-e", *bc, *L] + rng.choice([[], [], ["-Cd"], ["-Cp"] if abs(float(a) - float(b)) > 0.5 else []]); raw = []
    tol = 5000 if not L else 100 if a == b or "-Cp" in o else 30
    F = phys.static(chk, mod, a, b, X, Y, o, raw=raw); G = phys.static(chk, mod, b, a, X, Y, o, raw=raw)
    R = np.hypot(F["north"][:, None], F["east"][None, :]).ravel()
    fl = lambda S: {k: np.asarray(v, float).ravel() for k, v in S.items() if k[-3:] in NAMES}
    return rel_records(fl(F), fl(G), R, tol, "static %s %s/%s %s %s" % (" ".join(o), a, b, X, Y), perpoint=True), raw

def num(rng, n): return [rng.choice([-3, -2, -1, 0, 1, 2, 3]) for _ in range(n)]
def sl(v): return "/".join("%d" % x for x in v)

def syn(chk, c):
    """the same through syn and strain, arbitrary azimuth"""
    rng = random.Random(c["seed"]); mod, a, b = setup(rng)
    R = round(rng.uniform(1, 8), 2); az = round(rng.uniform(0, 360), 3); bz = (az + 180) % 360
    m, f, f0 = num(rng, 6), num(rng, 3), num(rng, 3)
    if not any(m): m[2] = 1
    if not any(f): f[1] = 1
    if not any(f0): f0[2] = 1
    W = chk.dirnew(); p = models.write(W + "/m", mod); raw = []
    def run(*x):
        r = chk.grt(list(x), cwd=W)
        raw.append({"args": x, "rc": r.returncode, "err": r.stderr[-300:]})
        if r.returncode: raise phys.Failed("exit %s: %s %s" % (r.returncode, x, r.stderr[-200:]))
    o = ["-N%d/%g" % (rng.choice([24, 31]), rng.choice([0.1, 0.2])), "-L20", "-R%g" % R, "-s"]
    run("greenfn", "-Mm", "-D%s/%s" % (a, b), "-OF", *o); run("greenfn", "-Mm", "-D%s/%s" % (b, a), "-OG", "-e", *o)
    run("syn", "-GF", "-A%r" % az, "-S1e20", "-T" + sl(m), "-Ou", "-N"); run("syn", "-GF", "-A%r" % az, "-S1e15", "-F" + sl(f0), "-Ov", "-N")
    run("syn", "-GG", "-A%r" % bz, "-S1e15", "-F" + sl(f), "-Ow", "-N", "-e"); run("strain", "w")
    rd = lambda d, n: sac.read(W + "/" + d + "/" + n + ".sac")[1].astype(float)
    u = [rd("u", k) for k in "ZNE"]; v = [rd("v", k) for k in "ZNE"]; w = [rd("w", k) for k in "ZNE"]
    e = [rd("w", "strain_" + k if os.path.exists(W + "/w/strain_" + k + ".sac") else k) * 1e5 for k in ("ZZ", "ZN", "ZE", "NN", "NE", "EE")]
    shutil.rmtree(W, True)
    ref = max(np.abs(u).max(), np.abs(e).max()); rf = max(np.abs(v).max(), np.abs(w).max()); s = lambda z, k: [phys.quant(t, k, 20000) for t in z]
    tag = "syn %s/%s R%g A%g" % (a, b, R, az)
    base = {"ok": True, "tol": 60 + 8 * sum(map(abs, m)), "f": f, "f0": f0, "m": m, "tag": tag}
    return [dict(base, kind="synM", u=s(u, ref), w=s(e, ref)), dict(base, kind="synF", u=s(v, rf), w=s(w, rf))], raw

def ssyn(chk, c):
    rng = random.Random(c["seed"]); mod, a, b = setup(rng, True)
    m, f, f0 = num(rng, 6), num(rng, 3), num(rng, 3)
    if not any(m): m[2] = 1
    if not any(f): f[1] = 1
    if not any(f0): f0[2] = 1
    x, y = round(rng.uniform(-3, 2), 2), round(rng.uniform(-3, 3), 2); W = chk.dirnew(); models.write(W + "/m", mod); raw = []
    def run(*z):
        r = chk.grt(list(z), cwd=W)
        raw.append({"args": z, "rc": r.returncode, "err": r.stderr[-300:]})
        if r.returncode: raise phys.Failed("exit %s: %s %s" % (r.returncode, z, r.stderr[-200:]))
    L = ["-L%.9g" % (4000 / math.hypot(max(abs(x), abs(x + 0.7)), max(abs(y), abs(y + 1.1))))]
    dx, dy = 0.7, 1.1; fwd = ["-X%g/%g/%g" % (x, x + dx, dx), "-Y%g/%g/%g" % (y, y + dy, dy)]; bwd = ["-X%g/%g/%g" % (-x - dx, -x, dx), "-Y%g/%g/%g" % (-y - dy, -y, dy)]
    run("static", "greenfn", "-Mm", "-D%s/%s" % (a, b), "-OF.nc", *L, *fwd); run("static", "greenfn", "-Mm", "-D%s/%s" % (b, a), "-OG.nc", "-e", *L, *bwd)
    run("static", "syn", "-GF.nc", "-S1e20", "-T" + sl(m), "-Ou.nc", "-N"); run("static", "syn", "-GF.nc", "-S1e15", "-F" + sl(f0), "-Ov.nc", "-N")
    run("static", "syn", "-GG.nc", "-S1e15", "-F" + sl(f), "-Ow.nc", "-N", "-e"); run("static", "strain", "w.nc")
    U, V, Wv = [stlib.read(W + "/%s.nc" % k)[0] for k in "uvw"]
    rev = lambda z: np.asarray(z, float).reshape(2, 2)[::-1, ::-1].ravel(); fw = lambda z: np.asarray(z, float).ravel()
    u = [fw(U[k]) for k in "ZNE"]; v = [fw(V[k]) for k in "ZNE"]; w = [rev(Wv[k]) for k in "ZNE"]; e = [rev(Wv["strain_" + k]) * 1e5 for k in ("ZZ", "ZN", "ZE", "NN", "NE", "EE")]
    shutil.rmtree(W, True)
    ref = max(np.abs(u).max(), np.abs(e).max()); rf = max(np.abs(v).max(), np.abs(w).max()); s = lambda z, k: [phys.quant(t, k, 100000) for t in z]
    base = {"ok": True, "tol": 40, "f": f, "f0": f0, "m": m, "tag": "static syn %s/%s %s" % (a, b, fwd)}
    if a == b: base["tol"] = 200
    return [dict(base, kind="synM", u=s(u, ref), w=s(e, ref)), dict(base, kind="synF", u=s(v, rf), w=s(w, rf))], raw

FN = {"dyn": dyn, "sta": sta, "syn": syn, "ssyn": ssyn}

def run(chk):
    t = chk.thorough; rng = chk.rng
    chk.tlc("RecipMC", "RecipMCDeep.cfg" if t else None)
    cases = [{"fn": k, "seed": rng.randrange(1 << 30), "bc": i % 2, "tol": 300} for k, n in (("dyn", 120 if t else 24), ("sta", 160 if t else 30), ("syn", 60 if t else 14), ("ssyn", 60 if t else 14)) for i in range(n)]
    def obs(c):
        try: return FN[c["fn"]](chk, c)
        except phys.Failed as e: return [{"ok": False, "kind": "rel", "tag": str(e)[:300]}], []
    res = chk.pmap(obs, cases)
    recs = [r for x in res for r in x[0]]; own = [c for c, x in zip(cases, res) for _ in x[0]]
    bad = [i for i, _ in chk.tlc_trace("RecipTrace", recs)]
    for i in dict.fromkeys(id(own[j]) for j in bad):
        c = next(x for x in own if id(x) == i)
        again, raw = obs(c); b2 = [j for j, _ in chk.tlc_trace("RecipTrace", again)]
        if b2: chk.violate("reciprocity fails (%s): %s" % (c["fn"], ", ".join("%s %s" % (again[j].get("name", again[j]["kind"]), again[j]["tag"]) for j in b2[:4])), {"case": c, "records": [again[j] for j in b2[:3]], "commands": raw})
        if len(chk.violations) > 5: break
    chk.sample(str(recs[0])[:500])
    good = [r for i, r in enumerate(recs) if i not in set(bad) and r["ok"]]
    for k in ("rel", "synM"):
        g = next((r for r in good if r["kind"] == k), None)
        if g:
            g = dict(g); w = "x" if k == "rel" else None
            if w: g["x"] = [v + 2 * g["tol"] for v in g["x"]]
            else: g["u"] = [[v + 2 * g["tol"] + 5 for v in z] for z in g["u"]]; g["f"] = [1, 1, -1]
            if not chk.tlc_trace("RecipTrace", [g]): raise vp.Infra("corrupted record accepted")
    return recs

vp.main(run, "C16")
