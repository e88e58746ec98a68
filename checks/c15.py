"""C15: equivalent descriptions of a medium give the same results (spec: Rewrite, RewriteMC, RewriteTrace)"""
import json, os, random, shutil
import numpy as np
import vp, phys, models, modal, sac

def materials(rng):
    m = {}
    v = rng.uniform(3.5, 4.5)
    for k in (1, 3, 2):          # 2 is the fastest; 3 shares parameters with 1 or 2 at times
        vs = v / rng.uniform(1.65, 1.9)
        m[k] = [round(v, 3), round(vs, 3), round(1.7 + 0.2 * v, 3), 400.0, 200.0]; v += rng.uniform(0.4, 1.0)
    s = rng.randrange(6)
    if s == 0: m[3][0] = m[2][0]; m[3][1] = round(m[2][1] * .9, 3)     # same Vp only
    elif s == 1: m[3][1] = m[1][1]                                        # same Vs only
    elif s == 2: m[3][2] = m[1][2]
    elif s == 3: m[3][:2] = m[1][:2]                                      # same velocities, other density
    m[0] = [1.5, 0.0, 1.03, 400.0, 200.0]
    return m

def write(path, d, mats, unit, rng, blank=True):
    lay = d["lay"]; rows = [(h * unit, mats[m]) for h, m in lay] + [(0.0, mats[d["half"]])]
    if d["form"] == "dep":
        z = 0.0; out = []
        for h, m in rows: out.append((z, m)); z += h
        rows = out
    with open(path, "w") as f:
        if d["deco"] == 1: f.write("# a model\n\n")
        for n, (h, m) in enumerate(rows):
            w = ["%.12g" % x for x in (h, *m)]
            if d["deco"] == 2: f.write("  " + "\t ".join(w) + "   \r\n" if n % 2 else "\t" + "    ".join(w) + "\n# layer %d\n" % n)
            else: f.write(" ".join(w) + "\n")
    return path

def results(chk, path, cfg):
    """all quantities computed from one description: {name: vector}"""
    out = {}
    if "dyn" in cfg:
        zs, zr, rs, o = cfg["dyn"]
        g = phys.greenfn(chk, path, zs, zr, rs, o)
        for k in g:
            for f, (h, x) in g[k].items():
                out["dyn %s %s" % (k, f)] = (x, float(np.abs(x).max()))
            h = g[k][next(iter(g[k]))][0]
            out["hdr %s" % (k,)] = (np.array([h[y] for y in ("t0", "t1", "user1", "user2", "user3", "user4", "user5", "user6", "user7", "user8")]), 100.0)
    if "stat" in cfg:
        zs, zr, xs, ys, o = cfg["stat"]
        v = phys.static(chk, path, zs, zr, xs, ys, o)
        for n in v:
            if len(n) >= 3 and n[-1] in "ZRT" and n.strip("zr")[:2] in ("EX", "VF", "HF", "DD", "DS", "SS"):
                out["stat " + n] = (v[n].ravel(), float(np.abs(v[n]).max()))
        for n in ("src_va", "src_vb", "src_rho", "rcv_va", "rcv_vb", "rcv_rho"): out["stat " + n] = (v[n], 10.0)
    if "modal" in cfg:
        for w in cfg["modal"][1]:
            v = modal.eigenv(chk, path, w, cfg["modal"][0], ["-N2"])
            c = [v["c"][i, :n] for i, n in enumerate(v["cnum"])]
            out["modal " + w] = (np.concatenate([np.asarray(v["cnum"], float)] + c), 10.0)
    if "modsum" in cfg:
        W = chk.dirnew(); fr, w, zs, zr, rs = cfg["modsum"]
        modal.eigenv(chk, path, w, fr, ["-N1"], out=W + "/e.nc")
        r = chk.grt(["modsum", "-C" + W + "/e.nc", "-D%s/%s" % (zs, zr), "-R" + ",".join(rs), "-O" + W + "/g", "-N", "-e"])
        if r.returncode: raise phys.Failed("modsum " + r.stderr[-300:])
        for x in rs:
            d = "%s/g/%s_%s_%s_%s" % (W, os.path.basename(path), zs, zr, x)
            for f in sorted(os.listdir(d)):
                h, y = sac.read(d + "/" + f); out["modsum %s %s" % (x, f)] = (y, float(np.abs(y).max()))
        shutil.rmtree(W, True)
    return out

def bundle(chk, b):
    rng = random.Random(b["seed"])
    mats = materials(rng); unit = rng.choice([0.5, 0.5, 0.7, 0.35]); liquid = b["descs"][0]["lay"][0][1] == 0
    lo = 2.0 if liquid else 0.0             # thickness of the water in units
    zz = lambda: "%g" % round((lo + rng.choice([0.5, 1, 1.5, 2, 3, 3.3, 4, 5, 6.2])) * unit, 6)
    zs, zr = zz(), rng.choice([zz(), "0" if not liquid else "%g" % (0.4 * unit)])
    far = max(float(zs), float(zr))
    rs = ["%g" % round(rng.uniform(1, 4), 2), "%g" % round(rng.uniform(5, 10), 2)]
    cfg = {}
    for n in b["what"]:
        if n == "dyn": cfg[n] = ([zs], [zr], rs, ["-N24/%g" % rng.choice([0.1, 0.2]), "-L%d" % rng.choice([12, 15])] + rng.choice([[], ["-e"]]) + rng.choice([[], [], ["-Cn"], ["-Cd"]]))
        elif n == "stat": cfg[n] = (zs, "%g" % (float(zr) if not liquid or float(zr) > 2 * unit else 2.5 * unit), "-1/2/1.5", "0.5/6.5/3", rng.choice([[], ["-e"]]))
        elif n == "modal": cfg[n] = ("0.1/1/0.15", "R" if liquid else "RL")
        elif n == "modsum": cfg[n] = ("0/0.8/0.1", "R" if liquid else rng.choice("RL"), zs, zr, rs)
    W = chk.dirnew(); obs = {}; errs = []
    def one(i, d, mt):
        D = "%s/%s" % (W, i); os.makedirs(D)
        return results(chk, write(D + "/mod", d, mt, unit, rng), cfg)
    try:
        for i, d in enumerate(b["descs"]):
            for k, v in one(i, d, mats).items(): obs.setdefault(k, []).append(v)
        # the same description with one parameter of one layer changed
        m2 = {k: list(v) for k, v in mats.items()}; which = next(m for h, m in b["descs"][-1]["lay"] if m); par = rng.choice([1, 2] if cfg.get("modsum", [0, ""])[1] == "L" else [0, 1, 2])
        m2[which][par] = round(m2[which][par] * (1.06 if par == 0 else 0.94), 4)
        alt = one("alt", b["descs"][-1], m2)
        # one material of a pair of layers that differ in few parameters replaced by the other
        m3 = {k: list(v) for k, v in mats.items()}; m3[3] = list(m3[1]); mixed = any(m == 3 for h, m in b["descs"][0]["lay"][1:])
        alt3 = one("alt3", b["descs"][-1], m3) if mixed and mats[3] != mats[1] and not (cfg.get("modsum", [0, ""])[1] == "L" and mats[3][1:3] == mats[1][1:3]) else None
    except phys.Failed as e:
        return [{"ok": False, "kind": "same", "obs": [], "n": 1, "tol": 0, "rel": 1, "what": str(e)[:300]}]
    shutil.rmtree(W, True)
    recs = []
    for k, o in obs.items():
        lens = {len(x) for x, _ in o}
        ref = max(r for _, r in o)
        recs.append({"ok": True, "kind": "same", "key": k, "obs": [phys.quant(x, ref) for x, _ in o], "tol": 2 if k.startswith("modal") else 12, "rel": 1000000000, "n": len(b["descs"])})
    for a in (alt, alt3):
        if a is None: continue
        for what in b["what"]:
            ks = [k for k in obs if k.startswith(what)]
            x = sum([phys.quant(obs[k][-1][0], obs[k][-1][1]) for k in ks], []); y = sum([phys.quant(a[k][0], obs[k][-1][1]) for k in ks], [])
            recs.append({"ok": True, "kind": "differ", "key": what, "obs": [x, y], "tol": {"modal": 3, "modsum": 30}.get(what, 100), "rel": 1, "n": 2})
    return recs

def run(chk):
    rng = chk.rng
    ds = chk.tlc("RewriteMC", "RewriteMCDeep.cfg" if chk.thorough else None).json
    by = {}
    for d in ds: by.setdefault(json.dumps(d["start"]), []).append(d["to"])
    assert len(by) == 5 and len(ds) > 10000
    cases = []
    for _ in range(160 if chk.thorough else 48):
        s = rng.choice(sorted(by)); st = json.loads(s); homog = st["lay"][0][1] == st["half"]; liquid = st["lay"][0][1] == 0
        what = ["dyn", "stat", "modal", "modsum", "dyn", "stat"][_ % 6]
        while liquid and what == "stat" or (homog or st["half"] != 2) and what.startswith("mod"):      # static: solids only; modes: the half-space is the fastest
            s = rng.choice(sorted(by)); st = json.loads(s); homog = st["lay"][0][1] == st["half"]; liquid = st["lay"][0][1] == 0
        what = [what]
        pick = rng.sample(by[s], 7)
        pick.append(max(rng.sample(by[s], 30), key=lambda d: len(d["lay"])))
        cases.append({"seed": rng.randrange(1 << 30), "descs": [st] + pick, "what": what})
    def safe(c): return bundle(chk, c)
    res = chk.pmap(safe, cases)
    recs, own = [], []
    for c, rs in zip(cases, res):
        for r in rs: recs.append(r); own.append(c)
    rej = {id(own[i]): own[i] for i, _ in chk.tlc_trace("RewriteTrace", recs)}
    for c in list(rej.values())[:6]:
        rs = bundle(chk, c); b2 = chk.tlc_trace("RewriteTrace", rs)
        if b2:
            r = rs[b2[0][0]]
            chk.violate("%s: descriptions of one medium (%s): %s" % (r["kind"], c["what"], r.get("key", r.get("what"))), {"case": c, "record": r, "rejected": len(b2)})
    for r in recs[:2]: chk.sample(json.dumps(r)[:400])
    chk.notes["kinds"] = {k: sum(1 for r in recs if r["kind"] == k) for k in ("same", "differ")}
    for k in ("same", "differ"):
        t = json.loads(json.dumps(next(r for r in recs if r["kind"] == k and r["ok"] and len(r["obs"]) > 1)))
        if k == "same": t["obs"][-1][0] += 400
        else: t["obs"][1] = t["obs"][0]
        if not chk.tlc_trace("RewriteTrace", [t]): raise vp.Infra("corrupted trace accepted")
    chk.assumptions += ["equality to 1.2e-4 of the peak of each component (velocities: 4e-3 m/s in 10 km/s), change of one parameter by 6 % must show at 1e-3 somewhere"]

vp.main(run, "C15")
