"""C21: every adequate integration scheme gives the same Green's functions (spec: Quad, QuadMC, Schemes, QuadTrace)"""
import glob, math, os, random, shutil
import numpy as np
import vp, phys, models
CONV = {"auto": [], "n": ["-Cn"], "d": ["-Cd"], "p": ["-Cp"]}
K = {"auto": [], "f": ["-K+f"], "k80": ["-K+k80"], "s4": ["-K+s4"], "v": ["-K+v0.5"], "e": ["-K+e1e-6"], "kf": ["-K+k70+s3+f"]}
KWIDTH = 1 + 2 * (3 * 6 - 3)      # doubles per record of a K file: k and the complex kernels; EX, VF, DD have no v kernel

def opts(s, L):
    L = L * s["len"]; t = "-L%.10g" % L
    if s["quad"] == "F": t += "+l80" if s["off"] != "all" else "+l1"
    if s["quad"] == "A": t += "+a1e-4"
    if s["off"] == "some": t += "+o60"
    if s["off"] == "all": t += "+o1000000"
    return [t, *CONV[s["conv"]], *K[s["k"]]]

def fam(n): return n[:-3] + "|" + n[-3:-1]
def grp(n): return n[:-3] + ("|f" if n[-3:-1] in ("VF", "HF") else "|m")

def records(ref, got, tol, tag):
    sf, sg = {}, {}
    for n, x in ref.items():
        m = float(np.abs(x).max()); sf[fam(n)] = max(sf.get(fam(n), 0), m); sg[grp(n)] = max(sg.get(grp(n), 0), m)
    out = [{"ok": True, "kind": "fin", "bad": int(sum((~np.isfinite(x)).sum() for x in got.values())) + len(set(ref) ^ set(got)), "tag": tag}]
    for n in sorted(set(ref) & set(got)):
        sc = max(sf[fam(n)], 1e-2 * sg[grp(n)])
        out.append({"ok": True, "kind": "val", "name": n, "x": phys.quant(ref[n], sc, 1000000), "y": phys.quant(got[n], sc, 1000000), "tol": tol[n[0] == "z" and n[-3:-1] not in ("VF", "HF")], "tag": tag})
    return out

def group(chk, c):
    rng = random.Random(c["seed"]); dom, geom = c["dom"], c["geom"]
    n = rng.choice([1, 2, 3, 4]); mod = models.rows(rng, n, depths=[rng.choice([0.8, 1.0, 1.5]), rng.choice([1.2, 2.0]), 1.3])
    for m in mod: m[4:] = rng.choice([[500.0, 250.0], [80.0, 40.0]])
    if geom == "level":       # close to an interface its reflections need more wavenumbers than the automatic limit allows
        tops = list(np.cumsum([0] + [m[0] for m in mod[:-1]]))
        while True:
            z = round(rng.uniform(0.3, 3), 2)
            if all(abs(z - t) >= 0.25 for t in tops): break
        a = b = "%g" % z
    else:
        a = rng.uniform(1.5, 3.5); b = max(0.0, a - rng.uniform(1.0, 2.5))
        if b < 0.1: b = 0.0
        a, b = ("%g" % round(a, 2), "%g" % round(b, 2))
        if rng.random() < .5: a, b = b, a
    raw = []
    if dom == "dyn":
        far = geom == "far"
        rs = sorted({"%g" % round(rng.uniform(60, 160), 1) for _ in range(2)}, key=float) if far else ["%g" % round(rng.uniform(1, 3), 2), "%g" % round(rng.uniform(3.5, 7), 2)]
        base = ["-e"] + (["-N128/0.5", "-H0.4/-1"] if far else ["-N%d/%g" % (rng.choice([24, 31]), rng.choice([0.1, 0.2]))])
        L0 = 60 if far else 30
        def go(o):
            F = phys.greenfn(chk, mod, [a], [b], rs, base + o, raw=raw)
            return {k + "" + "": v for k, v in ((n, np.array([F[(a, b, r)][n][1] for r in rs], float)) for n in F[(a, b, rs[0])])}
        split = [(lambda A, i=i: {n: x[i] for n, x in A.items()}) for i in range(len(rs))]
    else:
        x0, y0 = round(rng.uniform(0.8, 3), 2), round(rng.uniform(-3, 2), 2)
        X, Y = "%g/%g/%g" % (x0, x0 + 2, 2), "%g/%g/%g" % (y0, y0 + 1.5, 1.5)
        L0 = 300
        def go(o):
            F = phys.static(chk, mod, a, b, X, Y, ["-e"] + o, raw=raw)
            return {k: np.asarray(v, float).ravel() for k, v in F.items() if k[-3:] in phys.COMPS}
        split = [(lambda A, i=i: {n: x[i:i + 1] for n, x in A.items()}) for i in range(4)]
    ref = go(["-L%d" % L0]); out = []
    for s, tol in c["schemes"]:
        o = opts(s, L0); g = go(o)
        for f in split:
            if set(ref) == set(g): out += records(f(ref), f(g), tol, "%s %s %s/%s %s" % (dom, geom, a, b, " ".join(o)))
        if set(ref) != set(g): out += [{"ok": False, "kind": "fin", "bad": 1, "tag": "files differ " + " ".join(o)}]
    return out, raw

def finite(chk, c):
    """every combination the command accepts gives numbers"""
    rng = random.Random(c["seed"]); mod = models.rows(rng, rng.choice([1, 2, 3])); out, raw = [], []
    a = "%g" % round(rng.uniform(0.3, 3), 2); b = a if c["geom"] == "level" else "%g" % round(rng.uniform(0.2, 4), 2)
    for s in c["schemes"]:
        o = [x.replace("a1e-4", "a1e-2").replace("-K+f", "-K+k10+f") for x in opts(s, 15)] + ["-e"]; tag = "%s %s/%s %s" % (s["dom"], a, b, " ".join(o))
        if s["dom"] == "dyn":
            F = phys.greenfn(chk, mod, [a], [b], ["3", "20"], o + ["-N12/0.3"], raw=raw)
            v = [x[1] for d in F.values() for x in d.values()]
        else: v = [np.asarray(x, float) for k, x in phys.static(chk, mod, a, b, "2/5/3", "1/4/3", o, raw=raw).items() if k[-3:] in phys.COMPS]
        out.append({"ok": True, "kind": "fin", "bad": int(sum((~np.isfinite(x)).sum() for x in v)) + (len(v) == 0), "tag": tag})
    return out, raw

def plan(chk, c):
    rng = random.Random(c["seed"]); mod = models.rows(rng, rng.choice([1, 2, 3])); W = chk.dirnew(); p = models.write(W + "/m", mod)
    a = round(rng.uniform(0.2, 1.5), 2); b = round(a + rng.uniform(1.1, 3), 2)
    if rng.random() < .5: a, b = b, a
    r = round(rng.uniform(2, 9), 2); L = rng.choice([15, 22.5, 31, 40]); k0 = rng.choice([20, 35, 50, 77.7]); sa = rng.choice([1.15, 2, 3.3]); v = rng.choice([0.5, 1.3, 2.4])
    mode = c["mode"]; dk = 2 * math.pi / (L * r); off = 0.0; fd = None; q = ""
    if mode == "F": fl = rng.choice([3, 10, 33]); fd = 2 * math.pi / (fl * r); q = "+l%g" % fl
    if mode == "A": q = "+a%g" % rng.choice([1e-1, 1e-2, 1e-3])
    if mode != "D" and rng.random() < .6: off = rng.choice([1.7, 5, 40, 90, 3000]); q += "+o%g" % off
    conv = rng.choice([["-Cn"], ["-Cd"]]); out = []      # without -C the plan may end early, when the sum has converged
    if c["dom"] == "dyn":
        args = ["greenfn", "-M" + p, "-D%g/%g" % (a, b), "-R%g" % r, "-O" + W + "/g", "-N%d/%g" % (rng.choice([10, 13]), 0.3), "-L%g%s" % (L, q), "-K+k%g+s%g+v%g+f" % (k0, sa, v), "-S", "-s", *conv]
    else: args = ["static", "greenfn", "-M" + p, "-D%g/%g" % (a, b), "-X%g/%g/1" % (r, r), "-Y0/0/1", "-O" + W + "/g.nc", "-L%g%s" % (L, q), "-K+k%g+f" % k0, "-S", *conv]
    if rng.random() < .4: args.append("-e")
    x = chk.grt(args, cwd=W); raw = [{"args": args, "rc": x.returncode, "err": x.stderr[-300:]}]
    if x.returncode: raise phys.Failed("exit %s: %s %s" % (x.returncode, args, x.stderr[-200:]))
    files = sorted(glob.glob(W + "/**/K*", recursive=True))
    for f in files:
        d = np.fromfile(f, "<f8"); n = KWIDTH
        if d.size == 0 or d.size % n: out.append({"ok": False, "kind": "plan", "tag": "size " + f}); continue
        k = d.reshape(-1, n)[:, 0]
        fr = float(f.rsplit("_", 1)[1]) if c["dom"] == "dyn" else 0.0
        if c["dom"] == "dyn": fr = round(fr * 0.3 * int(args[5][2:].split("/")[0])) / (0.3 * int(args[5][2:].split("/")[0]))
        kmax = math.hypot(k0 * math.pi / abs(a - b), sa * 2 * math.pi * fr / v) if c["dom"] == "dyn" else k0 * math.pi / abs(a - b)
        kc = kmax if mode == "D" else min(off / r, kmax)
        i = lambda z: int(min(2e9, round(z)))
        rec = {"ok": True, "kind": "plan", "mode": mode, "kmax": i(kmax / dk * 1e4), "kcut": i(kc / dk * 1e4) if mode != "D" else 0, "d": [], "f": [], "a": [], "fmax": 0, "tag": " ".join(args) + " " + os.path.basename(f)}
        if mode == "D": rec["d"] = [i(z / dk * 1e4) for z in k]
        else:
            nd = 0
            while kc > 0 and nd < len(k) and abs(k[nd] - (nd + 1) * dk) < 1e-5 * dk * (nd + 2) and (nd == 0 or k[nd - 1] <= kc * (1 + 1e-12)): nd += 1
            kk = nd * dk; rec["d"] = [i(z / dk * 1e4) for z in k[:nd]]
            if mode == "F":
                if nd: kk += 0.5 * dk - fd         # the first sample is at the end of the last interval of the first part
                rec["f"] = [i((z - kk) / fd * 1e4) for z in k[nd:]]; rec["fmax"] = i((kmax - kk) / fd * 1e4)
            else:
                lo = kk + (0.5 if nd else 1.0) * dk; rec["a"] = [i((z - lo) / (kmax - lo) * 2 ** 26) for z in k[nd:]]
        out.append(rec)
    shutil.rmtree(W, True)
    if not files: out.append({"ok": False, "kind": "plan", "tag": "no files"})
    return out, raw

FN = {"group": group, "finite": finite, "plan": plan}
def key(s): return tuple(sorted(s.items()))

def run(chk):
    t = chk.thorough; rng = chk.rng
    for m in ["QuadMC", "QuadMCWide"] + (["QuadMCDeep"] if t else []): chk.tlc("QuadMC", m + ".cfg")
    if "violated" not in chk.tlc("QuadMC", "QuadMCNeg.cfg", expect_ok=False).out: raise vp.Infra("right half first passes the model")
    if "NoGap is violated" not in chk.tlc("QuadMC", "QuadMCGap.cfg", expect_ok=False).out: raise vp.Infra("a gap at kcut passes the model")
    sch = {key(j["s"]): (j["s"], j["tol"]) for j in chk.tlc("Schemes").json}
    byg = {}
    for s, tol in sorted(sch.values(), key=lambda x: key(x[0])): byg.setdefault((s["dom"], s["geom"]), []).append((s, tol))
    cases = []
    for (dom, geom), lst in sorted(byg.items()):
        single = [x for x in lst if sum(x[0][k] != v for k, v in (("conv", "auto"), ("k", "auto"), ("len", 1), ("quad", "D"))) <= 1]
        for n in range((24 if t else 6) if geom != "far" else (8 if t else 3)):
            pick = (single if n % 2 == 0 and geom != "far" else rng.sample(lst, min(len(lst), 8 if geom != "far" else 5)))
            cases.append({"fn": "group", "seed": rng.randrange(1 << 30), "dom": dom, "geom": geom, "schemes": pick})
    every = [{"dom": d, "geom": "", "conv": cv, "k": kk, "len": 1, "quad": q, "off": o} for d in ("dyn", "sta") for cv in CONV for kk in ("auto", "f") for q in "DFA" for o in (("none",) if q == "D" else ("none", "some", "all"))]
    for n in range(24 if t else 8):
        cases.append({"fn": "finite", "seed": rng.randrange(1 << 30), "geom": "level" if n % 2 else "", "schemes": rng.sample(every, 7)})
    for n in range(120 if t else 40):
        cases.append({"fn": "plan", "seed": rng.randrange(1 << 30), "dom": rng.choice(["dyn", "sta"]), "mode": "DFA"[n % 3]})
    def obs(c):
        try: return FN[c["fn"]](chk, c)
        except phys.Failed as e: return [{"ok": False, "kind": "fin", "bad": 1, "tag": str(e)[:300]}], []
    order = sorted(range(len(cases)), key=lambda i: cases[i].get("geom") != "far")
    res = [None] * len(cases)
    for i, x in zip(order, chk.pmap(lambda i: obs(cases[i]), order)): res[i] = x
    recs = [r for x in res for r in x[0]]; own = [c for c, x in zip(cases, res) for _ in x[0]]
    bad = [i for i, _ in chk.tlc_trace("QuadTrace", recs)]
    for i in dict.fromkeys(id(own[j]) for j in bad):
        c = next(x for x in own if id(x) == i)
        again, raw = obs(c); b2 = [j for j, _ in chk.tlc_trace("QuadTrace", again)]
        if b2: chk.violate("schemes disagree (%s): %s" % (c["fn"], ", ".join("%s %s" % (again[j].get("name", again[j]["kind"]), again[j]["tag"]) for j in b2[:4])), {"case": {k: v for k, v in c.items()}, "n": len(b2), "records": [again[j] for j in b2[:6]], "commands": raw})
        if len(chk.violations) > 5: break
    for k in ("val", "plan"): chk.sample(str(next((r for r in recs if r["kind"] == k), ""))[:400])
    good = [r for i, r in enumerate(recs) if i not in set(bad) and r["ok"]]
    for k in ("val", "plan"):
        g = next((r for r in good if r["kind"] == k and (k == "val" or r["mode"] == "A" and len(r["a"]) > 8)), None)
        if g:
            g = dict(g)
            if k == "val": g["y"] = [v + 2 * g["tol"] + 10 for v in g["y"]]
            else: g["a"] = g["a"][:3] + g["a"][7:]
            if not chk.tlc_trace("QuadTrace", [g]): raise vp.Infra("corrupted record accepted")
    return recs

if __name__ == "__main__": vp.main(run, "C21")
