"""C19: mode and frequency selection is a pure filter (spec: Modes, ModesMC, ModesTrace)"""
import hashlib, os, random, shutil
import numpy as np
from scipy.io import netcdf_file
import vp, sac, models, modal, phys
from vp import q as Q
NICE = [50, 100, 125, 200, 250, 400, 500, 625, 800, 1000, 1250, 1600, 2000, 2500, 4000, 5000]
ONE = 1000000

def num(k): return ("%.3f" % (k / 1000)).rstrip("0").rstrip(".")

def sel(rng, fs, ms):
    """a random selection in the spec's terms"""
    k = rng.random(); mx = max(ms)
    if k < .15: sn = dict(k="zero", a=0, b=0, d=1)
    elif k < .35: sn = dict(k="all", a=0, b=0, d=1)
    else:
        a = rng.randint(0, mx + 1); b = rng.choice([a, rng.randint(a, mx + 3)]); sn = dict(k="list", a=a, b=b, d=rng.choice([1, 1, 2, 3]))
    k = rng.random(); per = rng.random() < .4; x = sorted(ONE // f for f in fs) if per else fs
    if k < .25: sf = dict(k="all", p=False, a=0, b=0, d=1)
    elif k < .6:
        a, b = sorted([rng.choice(x), rng.choice(x)]); off = rng.choice([0, 0, 1, -1])
        a = rng.choice([a, max(0, a + off), 0]); b = max(a, b + rng.choice([0, 0, 1, -1]), 1); sf = dict(k="range", p=per, a=a, b=b, d=1)
    elif k < .75: a = rng.choice(x + [x[0] + 1]); sf = dict(k="list", p=per, a=a, b=a, d=1)
    else:
        a = rng.choice([0, rng.choice(x)]); d = rng.choice([50, 100, 250, 300, 1000, x[0]]); b = max(rng.choice(x), a + rng.choice([0, d]), d); sf = dict(k="list", p=per, a=a, b=b, d=d)
    return sn, sf

def opts(rng, sn, sf):
    o = []
    if sn["k"] == "all": o.append("-N")
    elif sn["k"] == "zero": o += rng.choice([[], ["-N0"]])
    elif sn["a"] == sn["b"] and rng.random() < .7: o.append("-N%d" % sn["a"])
    elif sn["d"] == 1 and rng.random() < .6: o.append("-N%d/%d" % (sn["a"], sn["b"]))
    else: o.append("-N%d/%d/%d" % (sn["a"], sn["b"], sn["d"]))
    if sf["k"] == "range": o.append("-F%s/%s" % (num(sf["a"]), num(sf["b"])))
    elif sf["k"] == "list": o.append("-F" + num(sf["a"]) if sf["a"] == sf["b"] and sf["a"] and rng.random() < .7 else "-F%s/%s/%s" % (num(sf["a"]), num(sf["b"]), num(sf["d"])))
    if sf["k"] != "all" and sf["p"]: o[-1] += "+p"
    rng.shuffle(o)
    return o

def H(*xs): return hashlib.sha1(b"|".join(np.ascontiguousarray(x, "<f8").tobytes() for x in xs)).hexdigest()[:16]

def synth(rng, p, group):
    fs = sorted(rng.sample(NICE, rng.choice([1, 2, 5, 9]))); nm = rng.choice([1, 2, 4, 6]); ms = sorted(rng.sample(range(nm + 3), nm)) if group else list(range(nm))
    n = [rng.randint(0, nm) for _ in fs]; n[rng.randrange(len(fs))] = nm
    c = np.array([[rng.uniform(.5, 6) for _ in ms] for _ in fs]); u = np.array([[rng.uniform(-1, 6) for _ in ms] for _ in fs]); ci = np.array([[rng.randrange(5) for _ in ms] for _ in fs])
    f = netcdf_file(p, "w"); f.createDimension("freq", len(fs)); f.createDimension("mode", nm)
    for nme, t, d, v in [("freq", "d", ("freq",), [int(x) / 1000 for x in fs]), ("mode", "i", ("mode",), ms), ("cnum", "i", ("freq",), n), ("c", "d", ("freq", "mode"), c),
                         ("u", "d", ("freq", "mode"), u) if group else ("ciref", "i", ("freq", "mode"), ci)]:
        f.createVariable(nme, t, d)[:] = v
    f.isRayl = np.int32(1)
    if not group: f.model = "mod"
    f.close()
    v = [["%.8e %s" % (c[i, j], "%.8e" % u[i, j] if group else ci[i, j]) for j in range(nm)] for i in range(len(fs))]
    return {"f": [int(x) for x in fs], "m": ms, "n": n, "v": v}

def disp(chk, case):
    rng = random.Random(case["seed"]); W = chk.dirnew(); group = case["group"]; p = W + "/d.nc"
    F = synth(rng, p, group); sn, sf = sel(rng, F["f"], F["m"])
    r = chk.grt(["disp2asc", ("-U" if group else "-C") + p, *opts(rng, sn, sf)]); got = []
    for l in r.stdout.splitlines():
        w = l.split()
        got.append([int(round(float(w[0]) * 1000)), int(w[1]), w[2] + " " + w[3]] if len(w) == 4 else [-1, -1, l])
    shutil.rmtree(W, True)
    return {"kind": "rows", "file": F, "sn": sn, "sf": sf, "exit": r.returncode, "wrote": False, "got": got}, [r.args, r.stdout[:300], r.stderr[-200:]]

def outrows(W, sfall):
    """what eigenfn wrote, one value per frequency and mode"""
    fs = [W + "/u.nc", W + "/w.nc", W + "/c.nc", W + "/x.nc", W + "/us.nc"]
    if not all(os.path.exists(f) for f in fs): return None
    V = [modal.read(f)[0] for f in fs]; rows = []
    for v in V[1:]:
        if not all(np.array_equal(v[k], V[0][k]) for k in ("freq", "mode", "cnum")): return None
    F = {"f": [int(round(x * 1000)) for x in V[0]["freq"]], "m": [int(x) for x in V[0]["mode"]], "n": [int(x) for x in V[0]["cnum"]], "v": []}
    for i in range(len(F["f"])):
        F["v"].append([H(V[0]["c"][i, j], V[0]["u"][i, j], V[1]["c"][i, j], V[1]["eigfn"][i, j], V[2]["c"][i, j], V[2]["csens"][i, j], V[3]["c"][i, j], V[3]["egyint"][i, j], V[4]["u"][i, j],
                         *([V[4]["usens"][i, j]] if sfall else []), V[1]["z"], V[2]["z"]) for j in range(len(F["m"]))])
    return F

def base(chk, seed):
    """a real dispersion file over nice frequencies"""
    rng = random.Random(seed); W = chk.dirnew()
    for k in range(6):
        mod = modal.guided(models.rows(rng, rng.choice([2, 3, 4]), depths=[rng.choice([0.5, 0.8]), rng.choice([1.0, 1.7]), 2.0])); wave = rng.choice("RL")
        F = rng.choice(["0.2/2/0.2", "0.5/2.5/0.5", "0.25/2/0.25", "0.1/1.2/0.1"]); p = models.write(W + "/m%d" % k, mod)
        try: modal.eigenv(chk, p, wave, F, ["-N"], out=W + "/e.nc"); break
        except phys.Failed: continue
    else: raise phys.Failed("no dispersion")
    return {"W": W, "e": W + "/e.nc", "mod": p, "wave": wave, "F": F}

def eigenfn(chk, b, o, rng, seed):
    W = chk.dirnew(); z = b["z"]
    r = chk.grt(["eigenfn", "-C" + b["e"], "-U" + W + "/u.nc", "-W" + W + "/w.nc" + z, "-K+c" + W + "/c.nc+x" + W + "/x.nc+u" + W + "/us.nc" + b["kz"], *o], omp=rng.choice(["1", "3"]))
    return r, W

def fn(chk, case):
    b = case["base"]; rng = random.Random(case["seed"]); F0 = b["files"][0]
    sn, sf = sel(rng, [f for f in F0["f"]], F0["m"]); sfall = sf["k"] == "all"
    if sf["p"]:
        ok = [f for f in F0["f"] if ONE % f == 0]; sf["p"] = bool(ok) and sf["k"] != "all" and all(ONE % f == 0 for f in F0["f"])
    r, W = eigenfn(chk, b, opts(rng, sn, sf), rng, case["seed"]); G = outrows(W, sfall); got = []
    wrote = bool(os.listdir(W))
    if r.returncode == 0 and G is None: got = [[-1, -1, "outputs missing or inconsistent"]]
    elif G: got = [[G["f"][i], G["m"][j], G["v"][i][j]] for i in range(len(G["f"])) for j in range(G["n"][i])]
    shutil.rmtree(W, True)
    return {"kind": "rows", "file": b["files"][1 if sfall else 0], "sn": sn, "sf": sf, "exit": r.returncode, "wrote": wrote, "got": got}, [r.args, r.stderr[-300:]]

def synthesis(chk, case):
    """modsum over a selection against the sum over its parts"""
    rng = random.Random(case["seed"]); b = case["base"]; F = b["files"][0]; nm = len(F["m"]); W = chk.dirnew(); nf = len(F["f"])
    com = ["-C" + b["e"], "-D%s/%s" % (rng.choice(["0.3", "1.2", "2.1"]), rng.choice(["0", "0.4"])), "-R" + rng.choice(["7", "23.5"]), *rng.choice([[], ["-e"]]), *rng.choice([[], ["-W2"], ["-E0.5"]])]
    def one(o):
        d = chk.dirnew(); r = chk.grt(["modsum", *com, *o, "-O" + d + "/g"], omp=rng.choice(["1", "4"])); out = {}
        if r.returncode: shutil.rmtree(d, True); raise phys.Failed("%s %s" % (r.args, r.stderr[-200:]))
        for x, _, fs in os.walk(d):
            for f in sorted(fs):
                if f.endswith(".sac"): out[f] = sac.read(x + "/" + f)[1]
        shutil.rmtree(d, True)
        return out
    if case["by"] == "mode":
        a, z, s = rng.choice([(0, nm - 1, 1), (0, nm - 1, 1), (1, nm - 1, 1), (0, nm - 1, 2)]) if nm > 1 else (0, 0, 1)
        whole = one(["-N"] if (a, s) == (0, 1) and rng.random() < .5 else ["-N%d/%d/%d" % (a, z, s)]); parts = [one(["-N%d" % m]) for m in range(a, z + 1, s)]
    else:
        N = rng.choice([["-N"], [], ["-N0/1"]]); j = rng.randint(2, nf - 2)
        whole = one(N); parts = [one(N + ["-F%s/%s" % (num(F["f"][0]), num(F["f"][j - 1]))]), one(N + ["-F%s/%s" % (num(F["f"][j]), num(F["f"][-1]))])]
    shutil.rmtree(W, True); recs = []
    ks = sorted(whole)
    if any(sorted(p) != ks for p in parts): return [({"ok": False, "err": 1, "kind": "sum"}, ["different files", com])]
    for f in ks:
        sc = max([np.abs(x[f]).max() for x in [whole] + parts])
        if sc == 0: continue
        idx = np.linspace(0, len(whole[f]) - 1, 12).astype(int)
        idx = np.unique(np.append(idx, np.argmax(np.abs(whole[f]))))
        recs.append(({"ok": True, "kind": "sum", "whole": [Q(whole[f][i], 1e6 / sc) for i in idx], "parts": [[Q(p[f][i], 1e6 / sc) for i in idx] for p in parts], "tol": 4}, [f, com, case["by"]]))
    return recs

def run(chk):
    chk.tlc("ModesMC", "ModesMCDeep.cfg" if chk.thorough else "ModesMC.cfg")
    if chk.tlc("ModesMC", "ModesMCNeg.cfg", expect_ok=False).rc == 0: raise vp.Infra("ModesMC: selection by mode number was accepted")
    n = 8 if chk.thorough else 1
    S = lambda k, i: "%s/%d/%s/%d" % (chk.pid, chk.seed, k, i)
    def corrupt(r):
        if r["kind"] != "rows" or len(r["got"]) < 2: return None
        r["got"] = r["got"][:-1]; return r
    chk.judge("ModesTrace", [{"seed": S("disp", i), "group": i % 2 == 1} for i in range(500 * n)], lambda c: disp(chk, c), lambda c: "disp2asc %s" % c["seed"], corrupt=corrupt)
    def full(i):
        rng = random.Random(S("full", i))
        b = base(chk, S("base", i)); b["z"] = rng.choice(["", "+z0/3/0.5", "+z0.7"]); b["kz"] = rng.choice(["", "+z0.3"]); b["files"] = []
        for sfall in (False, True):
            r, W = eigenfn(chk, b, ["-N"], rng, 0); G = outrows(W, sfall); shutil.rmtree(W, True)
            if r.returncode or G is None: raise phys.Failed("eigenfn: %s %s" % (r.args, r.stderr[-300:]))
            b["files"].append(G)
        return b
    def sfull(i):
        try: return full(i)
        except phys.Failed as e: return e
    bs = chk.pmap(sfull, range(6 * n)); bases = [b for b in bs if isinstance(b, dict)]
    for e in bs:
        if not isinstance(e, dict): chk.violate("unselected run failed: %s" % e)
    chk.judge("ModesTrace", [{"base": b, "seed": S("fn%d" % i, j)} for i, b in enumerate(bases) for j in range(12)], lambda c: fn(chk, c), lambda c: "eigenfn %s" % c["seed"], corrupt=corrupt)
    sb = []
    for i in range(5 * n):
        rng = random.Random(S("sum", i)); b = {"W": chk.dirnew()}
        mod = modal.guided(models.rows(rng, 3, depths=[0.6, 1.5])); p = models.write(b["W"] + "/m", mod); b["e"] = b["W"] + "/e.nc"
        try: v = modal.eigenv(chk, p, "RL"[i % 2], "0/%s/%s" % rng.choice([("2", "0.1"), ("3", "0.2"), ("1.5", "0.125")]), ["-N"], out=b["e"])
        except phys.Failed: continue
        b["files"] = [{"f": [int(round(x * 1000)) for x in v["freq"]], "m": [int(x) for x in v["mode"]]}]
        sb += [{"base": b, "by": by, "seed": S("s%d" % i, j)} for by in ("mode", "freq") for j in range(2)]
    def ssum(c):
        try: return synthesis(chk, c)
        except phys.Failed as e: return [({"ok": False, "err": 1, "kind": "sum"}, [str(e)])]
    rs = [o for x in chk.pmap(ssum, sb) for o in x]
    def corrupt2(r): r["parts"] = r["parts"][:-1]; return r if len(r["parts"]) and any(abs(x) > 100 for x in r["whole"]) and r["parts"] != [r["whole"]] else None
    if len(rs) < 20: chk.violate("modal synthesis gave almost no traces")
    chk.judge("ModesTrace", rs, lambda o: o, lambda o: "sum %s" % o[1], corrupt=None)
    chk.assumptions += ["group-velocity sensitivity is a difference between neighbouring selected frequencies, so it is compared only when every frequency is kept",
                        "frequencies and periods are taken from numbers exact in 1/1000"]
if __name__ == "__main__": vp.main(run, "C19")
