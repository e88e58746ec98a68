"""C13: Green's functions do not depend on threads, batching or order (spec: Batch, BatchMC, BatchReq, Pure, PureTrace)"""
import hashlib, json, os, random, shutil
import numpy as np
import vp, phys, models, sac
TYP = {"e": ["EX"], "v": ["VF"], "h": ["HF"], "s": ["DD", "DS", "SS"]}
def comps(t, der):
    out = []
    for x in t:
        for s in TYP[x]:
            for c in ("ZR" if s in ("EX", "VF", "DD") else "ZRT"):
                for p in (["", "z", "r"] if der else [""]): out.append(p + s + c)
    return out

def bundle(chk, b):
    """run every request of the bundle; -> {key: [observation]}, {key: number of requests}, problems"""
    rng = random.Random(b["seed"])
    n = rng.choice([2, 3, 4])
    liquid = b["liquid"]
    mod = models.rows(rng, n, depths=[1.5, 2.0, 1.0])
    if liquid: mod[0] = [1.5, 1.5, 0.0, 1.0, 500.0, 250.0]
    S = {1: "1" if liquid else rng.choice(["0.7", "1.5"]), 2: rng.choice(["2.2", "3.1", "3.5"])}
    Rv = {1: rng.choice(["0", "0.4"]), 2: rng.choice(["1", "2.2", "4"]) if not liquid else rng.choice(["2", "2.2", "4"])}
    d0 = rng.choice(["0", "0.8", "2"]); D = {1: d0, 2: "%g" % round(rng.uniform(2.5, 6), 2), 3: "%g" % round(rng.uniform(6.5, 14), 2)}
    L = rng.choice([12, 15, 20]) * float(D[3])
    nt = rng.choice([20, 27, 32]); win = ["-N%d/%g" % (nt, rng.choice([0.1, 0.2])) + rng.choice(["", "+n2", "+a"])]
    sch = rng.choice([[], [], [], ["-Cn"], ["-Cd"], ["-Cp"], ["-K+f"], ["-K+s1.3"]]); E = rng.choice([[], ["-E0.3"], ["-E-0.5/6"]]); B = rng.choice([[], [], [], ["-BrH"], ["-Bh"]]) if not liquid else []
    if B == ["-BrH"] and Rv[1] == "0": Rv[1] = "0.4"      # nothing moves at a rigid surface: only rounding noise to compare
    table, want, bad = {}, {}, []
    def one(q):
        W = chk.dirnew(); p = models.write(W + "/m", mod)
        zs = [S[i] for i in sorted(q["src"])]; zr = [Rv[i] for i in sorted(q["rcv"])]; rs = [D[i] for i in sorted(q["dist"])]
        if len(zs) == len(zr) == 1 and q["short"]: dep = ["-D%s/%s" % (zs[0], zr[0])]
        else: dep = ["-Ds" + ",".join(zs), "-Dr" + ",".join(zr)]
        rmax = max(float(rs[-1]), 1e-9)
        a = ["greenfn", "-M" + p, *dep, "-R" + ",".join(rs), "-O" + W + "/g", *win, *sch, *E, *B, "-L%.15g" % (L / rmax), "-P%d" % q["thr"], *([] if q["verbose"] else ["-s"])]
        if len(q["typ"]) < 4 or q["short"]: a.append("-G" + "".join(q["typ"]))
        if q["der"]: a.append("-e")
        if q["stats"] and len(zs) == len(zr) == 1: a.append("-S")
        r = chk.grt(a, omp=str(q["thr"]), timeout=200)
        out = {}; found = set()
        if r.returncode == 0:
            for s in zs:
                for t in zr:
                    for x in rs:
                        d = "%s/g/m_%s_%s_%s" % (W, s, t, x)
                        for f in (os.listdir(d) if os.path.isdir(d) else []):
                            if f.endswith(".sac"): out[(s, t, x, f[:-4])] = sac.read(d + "/" + f)
            for f in os.listdir(W + "/g"):
                if os.path.isdir(W + "/g/" + f): found.add(f)
        exp = {(s, t, x, c) for s in zs for t in zr for x in rs for c in comps(["e"] if liquid and s == S[1] else q["typ"], q["der"]) if not (liquid and s == S[1] and "e" not in q["typ"])}
        shutil.rmtree(W, True)
        dirs = {"m_%s_%s_%s" % (s, t, x) for s in zs for t in zr for x in rs}
        return a, r, out, exp, rs[-1], found - dirs
    if d0 == "0":       # zero distance alone has no wavenumber step of its own
        for q in b["reqs"]:
            if q["dist"] == [1]: q["dist"] = [1, 3]
    res = [one(q) for q in b["reqs"]]
    for a, r, out, exp, rmax, extra in res:
        if r.returncode: bad.append("exit %s: %s %s" % (r.returncode, " ".join(a), r.stderr[-200:])); continue
        if set(out) != exp or extra: bad.append("files %s instead of those requested: %s" % (sorted(set(out) ^ exp)[:4] + sorted(extra)[:3], " ".join(a))); continue
        for k in exp:
            h, x = out[k]
            table.setdefault(k, []).append((rmax, h, x))
    recs = []
    for k, obs in table.items():
        ref = max(float(np.abs(x).max()) for _, _, x in obs)
        hq = lambda h: [vp.q(h[y], 1e4) for y in ("b", "delta", "dist", "evdp", "stel", "t0", "t1", "user0", "user1", "user2", "user3", "user6", "user7", "user8")] + [int(h["npts"])]
        recs.append({"ok": True, "key": str(k), "obs": [phys.quant(x, ref, 100000) + hq(h) for _, h, x in obs], "tol": 60, "rel": 1000000000, "n": len(obs)})
        # same largest distance: the same wavenumber grid to the last bit, so identical samples
        for m in {o[0] for o in obs}:
            same = [x for r_, _, x in obs if r_ == m]
            if len(same) > 1:
                recs.append({"ok": True, "key": "bits " + str(k), "obs": [[int(v) for v in np.frombuffer(hashlib.md5(np.asarray(x, "<f4").tobytes()).digest(), "<u4") >> 2] for x in same], "tol": 0, "rel": 2147483647, "n": len(same)})
    return recs, bad, mod

def modal(chk, b):
    rng = random.Random(b["seed"]); W = chk.dirnew()
    mod = models.rows(rng, rng.choice([2, 3]), depths=[1.5, 2.0]); v = sorted(r[1:] for r in mod); mod = [[r[0]] + list(x) for r, x in zip(mod, v)]; mod[-1][1] *= 1.2; mod[-1][2] *= 1.2
    p = models.write(W + "/m", mod); wave = rng.choice("RL")
    r = chk.grt(["eigenv", "-M" + p, "-C" + W + "/e.nc", "-S" + wave, "-F0/1/0.1", "-N2", "-s"])
    if r.returncode: return [], ["eigenv " + r.stderr[-200:]], mod
    S = {1: "0.7", 2: "2.2"}; Rv = {1: "0", 2: "1"}; D = {1: "1.5", 2: "4.25", 3: "20"}
    table = {}; bad = []
    modes = rng.choice([[], ["-N"], ["-N0/1"]])
    for q in b["reqs"]:
        o = chk.dirnew(); zs = [S[i] for i in sorted(q["src"])]; zr = [Rv[i] for i in sorted(q["rcv"])]; rs = [D[i] for i in sorted(q["dist"])]
        a = ["modsum", "-C" + W + "/e.nc", "-Ds" + ",".join(zs), "-Dr" + ",".join(zr), "-R" + ",".join(rs), "-O" + o + "/g", "-P%d" % q["thr"], "-G" + "".join(q["typ"]), *modes, *(["-e"] if q["der"] else [])]
        r = chk.grt(a, omp=str(q["thr"]))
        if r.returncode: bad.append("exit %s: %s %s" % (r.returncode, " ".join(a), r.stderr[-200:])); continue
        got = set()
        for s in zs:
            for t in zr:
                for x in rs:
                    d = "%s/g/m_%s_%s_%s" % (o, s, t, x)
                    for f in (os.listdir(d) if os.path.isdir(d) else []):
                        if f.endswith(".sac"):
                            got.add((s, t, x, f[:-4])); table.setdefault((s, t, x, f[:-4]), []).append(sac.read(d + "/" + f)[1])
        exp = {(s, t, x, c) for s in zs for t in zr for x in rs for c in comps(q["typ"], q["der"]) if (c[-1] == "T") == (wave == "L")}
        if got != exp: bad.append("files %s: %s" % (sorted(got ^ exp)[:4], " ".join(a)))
        shutil.rmtree(o, True)
    recs = []
    for k, obs in table.items():
        ref = max(float(np.abs(x).max()) for x in obs)
        recs.append({"ok": True, "key": "modal " + str(k), "obs": [phys.quant(x, ref, 100000) for x in obs], "tol": 4, "rel": 1000000000, "n": len(obs)})
    return recs, bad, mod

def run(chk):
    rng = chk.rng
    chk.tlc("BatchMC", "BatchMCDeep.cfg" if chk.thorough else None)
    if "violated" not in chk.tlc("BatchMC", "BatchMCNeg.cfg", expect_ok=False).out: raise vp.Infra("shared integration record passes the model")
    reqs = chk.tlc("BatchReq", workers=1).json
    if "Error" not in chk.tlc("BatchReq", "BatchReqNeg.cfg", expect_ok=False).out: raise vp.Infra("unrestored source types pass the model")
    assert len(reqs) == 3780, len(reqs)
    full = {"src": [1, 2], "rcv": [1, 2], "dist": [1, 2, 3], "typ": list("ehsv"), "der": True, "thr": 3}
    bundles = []
    for n in range(60 if chk.thorough else 14):
        rq = [dict(full, thr=rng.choice([1, 2, 3, 8])), dict(full, thr=8)] + [dict(x, thr=rng.choice([1, 2, 5, x["thr"]])) for x in rng.sample(reqs, 7)]
        # one result alone
        rq.append({"src": [rng.choice([1, 2])], "rcv": [rng.choice([1, 2])], "dist": [rng.choice([1, 2, 3])], "typ": [rng.choice("evhs")], "der": rng.random() < .5, "thr": 1})
        for q in rq: q["short"] = rng.random() < .6; q["stats"] = rng.random() < .2; q["verbose"] = rng.random() < .2
        rng.shuffle(rq)
        bundles.append({"kind": "dyn", "seed": rng.randrange(1 << 30), "reqs": rq, "liquid": n % 4 == 3})
    for n in range(16 if chk.thorough else 4):
        rq = [full] + [dict(x) for x in rng.sample(reqs, 5)]; rng.shuffle(rq)
        bundles.append({"kind": "modal", "seed": rng.randrange(1 << 30), "reqs": rq})
    go = lambda b: (modal if b["kind"] == "modal" else bundle)(chk, b)
    res = chk.pmap(go, bundles)
    recs, own = [], []
    again = []
    for b, (rs, bad, mod) in zip(bundles, res):
        for r in rs: recs.append(r); own.append(b)
        if bad: again.append(b)
    rej = {id(own[i]): own[i] for i, _ in chk.tlc_trace("PureTrace", recs)}
    for b in again: rej[id(b)] = b
    for b in list(rej.values())[:6]:
        rs, bad, mod = go(b)
        # schedule-dependent failures need not repeat in the same record: repeat the bundle a few times
        for _ in range(6):
            br = chk.tlc_trace("PureTrace", rs) if rs else []
            if bad or br: break
            rs, bad, mod = go(b)
        if bad: chk.violate("request refused or not the requested files: " + bad[0], {"model": mod, "bundle": b})
        elif br: chk.violate("one result, different values: %s" % rs[br[0][0]]["key"], {"model": mod, "bundle": b, "record": rs[br[0][0]]})
    chk.notes["keys"] = len(recs)
    for r in recs[:3]: chk.sample(json.dumps(r)[:400])
    t = json.loads(json.dumps(next(r for r in recs if r["n"] > 1))); t["obs"][-1][2] += 999
    if not chk.tlc_trace("PureTrace", [t]): raise vp.Infra("corrupted trace accepted")
    chk.assumptions += ["requests compared share window, model and wavenumber step (-L scaled by the largest distance); with the same largest distance samples must be bit-identical, otherwise equal to 6e-4 of the peak"]

vp.main(run, "C13")
