"""C20: window, sampling interval and band only choose what is shown of one motion (spec: Window, WindowMC, WindowTrace)"""
import itertools, math, json, os, random, shutil
import numpy as np
import vp, phys, models, sac

def model(rng, elastic=False):
    m = models.rows(rng, rng.choice([2, 3, 4]), depths=rng.choice([None, [1.0, 1.5, 2.0], [0.8, 2.2, 1.0]]))
    if elastic:
        for r in m: r[4] = r[5] = 1e8
    return m

def travt(chk, mod, zs, zr, r):
    p = models.write(chk.dirnew() + "/m", mod)
    o = chk.grt(["travt", "-M" + p, "-D%s/%s" % (zs, zr), "-R" + r]).stdout
    for l in o.splitlines():
        w = l.split()
        if len(w) == 3 and not l.startswith("#"):
            try: return [float(w[1]), float(w[2])]
            except ValueError: pass
    raise phys.Failed("travt: " + o)

class Modal:
    """runs modsum on one dispersion file; same interface as greenfn"""
    def __init__(s, chk, mod, wave, fmax, df):
        s.chk = chk; s.d = chk.dirnew(); s.m = models.write(s.d + "/m", mod); s.ok = True
        r = chk.grt(["eigenv", "-M" + s.m, "-C" + s.d + "/e.nc", "-S" + wave, "-F0/%g/%g" % (fmax, df), "-N2", "-s"])
        if r.returncode: raise phys.Failed("eigenv %s" % r.stderr[-300:])
    def run(s, zs, zr, rs, opts):
        """zs, zr: one depth or a list"""
        o = s.chk.dirnew(); zs, zr = ([zs], [zr]) if isinstance(zs, str) else (zs, zr); one = len(zs) == len(zr) == 1
        a = ["modsum", "-C" + s.d + "/e.nc", *(["-D%s/%s" % (zs[0], zr[0])] if one else ["-Ds" + ",".join(zs), "-Dr" + ",".join(zr)]), "-R" + ",".join(rs), "-O" + o + "/g", *opts]
        r = s.chk.grt(a)
        if r.returncode: raise phys.Failed("modsum %s %s" % (a, r.stderr[-300:]))
        out = {}
        for a, b, x in itertools.product(zs, zr, rs):
            d = "%s/g/m_%s_%s_%s" % (o, a, b, x)
            out[(a, b, x)] = {f[:-4]: sac.read(d + "/" + f) for f in sorted(os.listdir(d)) if f.endswith(".sac")}
        shutil.rmtree(o, True)
        return out

def runs_record(rs, P, F, key, comp, tick):
    """rs: list of (b, d, n, (hdr, samples)) with b, d in ticks"""
    ref = max(float(np.abs(x[3][1]).max()) for x in rs)
    return {"ok": True, "kind": "win", "P": P, "F": F, "tol": 4, "comp": comp,
            "runs": [{"b": b, "d": d, "n": n, "hb": vp.q(t[0]["b"], 100 / tick), "hd": vp.q(t[0]["delta"], 100 / tick), "hn": int(t[0]["npts"]), "x": phys.quant(t[1], ref)} for b, d, n, t in rs]}

def case(chk, c):
    rng = random.Random(c["seed"]); out = []
    mod = model(rng, c["kind"] == "band")
    if c["kind"] == "modal":        # guided modes need the half-space to be the fastest
        v = sorted(r[1:] for r in mod); mod = [[r[0]] + x for r, x in zip(mod, v)]; k = 1.2; mod[-1][1] = round(mod[-1][1] * k, 3); mod[-1][2] = round(mod[-1][2] * k, 3)
    zs, zr = rng.choice([("3", "0.5"), ("1", "2.5"), ("0.4", "0"), ("2", "2.6")]); R = ["%g" % round(rng.uniform(1, 5), 2), "%g" % round(rng.uniform(5, 12), 2)]
    L = rng.choice([15, 20, 25]); zeta = rng.choice([0.6, 0.8, 1.0]); extra = rng.choice([[], ["-e"]]); dt = rng.choice([0.05, 0.1, 0.125, 0.2])
    tick = dt / 12
    pick = lambda g: rng.sample(sorted(g), min(len(g), c["ncomp"]))
    if c["kind"] == "win":
        nt = c["nt"]
        def go(q):
            e = ["-E%.9g" % (q["b"] * tick)] if q["b"] or rng.random() < .5 else []
            return phys.greenfn(chk, mod, [zs], [zr], R, ["-N%d/%g+w%g%s" % (nt, dt, zeta, "+n%d" % q["up"] if q["up"] > 1 or rng.random() < .3 else ""), "-L%d" % L, *extra, *e])
        res = [(q, go(q)) for q in c["reqs"]]
        for k in res[0][1]:
            for f in pick(res[0][1][k]):
                out.append(runs_record([(q["b"], 12 // q["up"], nt * q["up"], g[k][f]) for q, g in res], 12 * nt, int(round(1000 * math.exp(zeta * math.pi))), "%s" % (k,), f, tick))
    elif c["kind"] == "modal":
        fmax, df = rng.choice([(1.0, 0.05), (0.8, 0.04), (1.2, 0.1)]); nt = int(round(2 * fmax / df)); tick = 0.5 / fmax / 12
        M = Modal(chk, mod, c["wave"], fmax, df)
        def go(q):
            e = ["-E%.9g" % (q["b"] * tick)] if q["b"] else []
            return M.run(zs, zr, R, ([] if q["up"] == 1 else ["-W%d" % q["up"]]) + extra + e)
        res = [(q, go(q)) for q in [dict(q, b=(q["s"] * nt) + q.get("o", 0)) for q in c["reqs"]]]
        for k in res[0][1]:
            for f in pick(res[0][1][k]):
                out.append(runs_record([(q["b"], 12 // q["up"], nt * q["up"], g[k][f]) for q, g in res], 12 * nt, 1000, "%s" % (k,), f, tick))
        off = lambda z: all(abs(sum(r[0] for r in mod[:j]) - float(z)) > 1e-3 for j in range(1, len(mod)))
        add = lambda z, more: sorted({z, next(x for x in more if off(x))}, key=float)
        for p in (True, False):
            t0 = -round(rng.uniform(0.5, 3), 3); v0 = round(rng.uniform(2, 8), 2); ZS, ZR = (add(zs, ["1.7", "3.3"]), [zr]) if p else ([zs], add(zr, rng.choice([["2.2", "4"], ["4.1", "0.9"]])))
            g = M.run(ZS, ZR, R, ["-Ep%g" % t0 if p else "-E%g/%g" % (t0, v0)])
            if len(g) != len(ZS) * len(ZR) * len(R): raise phys.Failed("modsum depths")
            for k in g:
                T = travt(chk, mod, *k); b = t0 + (T[0] if p else math.hypot(float(k[2]), float(k[0]) - float(k[1])) / v0)
                for f in g[k]:
                    h = g[k][f][0]
                    out.append({"ok": True, "kind": "hdr", "tol": 2, "got": [vp.q(h[x], 1000) for x in ("b", "t0", "t1", "dist", "evdp")] + [vp.q(h["stel"], 1)],
                                "want": [vp.q(b, 1000), *[vp.q(x, 1000) for x in T], vp.q(float(k[2]), 1000), vp.q(float(k[0]), 1000), vp.q(-1000 * float(k[1]), 1)]})
    elif c["kind"] == "fold":
        n = rng.choice([32, 40, 48]); e = rng.choice([[], ["-E%g" % (3 * dt)], ["-E-0.37"]])
        A = phys.greenfn(chk, mod, [zs], [zr], R, ["-N%d/%g+w%g" % (n, dt, zeta), "-L%d" % L, *extra, *e])
        B = phys.greenfn(chk, mod, [zs], [zr], R, ["-N%d/%g+w%g" % (2 * n, dt, 2 * zeta), "-L%d" % L, *extra, *e])
        for k in A:
            for f in pick(A[k]):
                ref = float(max(np.abs(A[k][f][1]).max(), np.abs(B[k][f][1]).max()))
                out.append({"ok": True, "kind": "fold", "tol": 4, "E": int(round(1e5 * math.exp(-zeta * math.pi))), "x": phys.quant(A[k][f][1], ref), "y": phys.quant(B[k][f][1], ref), "comp": f})
    elif c["kind"] == "band":
        n = rng.choice([32, 37, 48]); df = 1 / (n * dt); nb = rng.choice([2, 3]); cuts = sorted(rng.sample(range(3, n // 2 - 2), nb - 1))
        fr = ["-1"] + ["%.6g" % ((x + .5) * df) for x in cuts] + ["-1"]
        o = lambda h: ["-N%d/%g+w%g%s" % (n, dt, zeta, c["plus"]), "-L%d" % L, *extra, *h]
        A = phys.greenfn(chk, mod, [zs], [zr], R, o([]))
        P = [phys.greenfn(chk, mod, [zs], [zr], R, o(["-H%s/%s" % (fr[i], fr[i + 1])])) for i in range(nb)]
        for k in A:
            for f in pick(A[k]):
                ref = float(np.abs(A[k][f][1]).max())
                out.append({"ok": True, "kind": "sum", "tol": 6, "x": phys.quant(A[k][f][1], ref), "parts": [phys.quant(p[k][f][1], ref) for p in P], "comp": f})
    elif c["kind"] == "hdr":
        n = rng.choice([24, 31]); up = rng.choice([1, 2, 3]); zr_, zs_ = zr, zs
        t0 = round(rng.uniform(-3, 3), 3); v0 = rng.choice([None, None, round(rng.uniform(2, 8), 2)]); p = rng.random() < .4
        if p: t0 = -abs(t0) - 0.01; e = "-Ep%g" % t0
        else: e = "-E%g%s" % (t0, "/%g" % v0 if v0 else "")
        ZS, ZR = rng.choice([([zs], [zr]), (sorted({zs, "1.7"}, key=float), [zr]), ([zs], sorted({zr, "4.1"}, key=float))])
        A = phys.greenfn(chk, mod, ZS, ZR, R, ["-N%d/%g+w%g+n%d" % (n, dt, zeta, up), "-L%d" % L, e])
        T = {k: travt(chk, mod, *k) for k in A}
        for k in A:
            zs, zr = k[:2]; x = float(k[2]); b = t0 + (T[k][0] if p else math.hypot(x, float(zs) - float(zr)) / v0 if v0 else 0)
            B = None
            for f in A[k]:
                h = A[k][f][0]
                out.append({"ok": True, "kind": "hdr", "tol": 2, "got": [vp.q(h[y], 1000) for y in ("b", "t0", "t1", "dist", "evdp", "o")] + [vp.q(h["stel"], 1), int(h["npts"]), vp.q(h["delta"], 1e6)] + [vp.q(h["user0"], 1e5)],
                            "want": [vp.q(b, 1000), *[vp.q(y, 1000) for y in T[k]], vp.q(x, 1000), vp.q(float(zs), 1000), 0, vp.q(-1000 * float(zr), 1), n * up, vp.q(dt / up, 1e6), vp.q(zeta * math.pi / (n * dt), 1e5)]})
            bb = A[k]["EXZ"][0]["b"]
            B = phys.greenfn(chk, mod, [zs], [zr], [k[2]], ["-N%d/%g+w%g+n%d" % (n, dt, zeta, up), "-L%.10g" % (L * float(R[1]) / x), "-E%.9g" % bb])
            B = B[k]
            for f in pick(A[k]):
                ref = float(np.abs(A[k][f][1]).max())
                out.append({"ok": True, "kind": "sum", "tol": 4, "x": phys.quant(A[k][f][1], ref), "parts": [phys.quant(B[f][1], ref)], "comp": f})
    return out

def run(chk):
    rng = chk.rng
    reqs = chk.tlc("WindowMC").json
    neg = chk.tlc("WindowMC", "WindowMCNeg.cfg", expect_ok=False)
    if "OneMotion is violated" not in neg.out: raise vp.Infra("the defective transform passes the model")
    cases = []
    t = chk.thorough
    byN = {}
    for r in reqs: byN.setdefault(r["N"], []).append(r)
    for _ in range(90 if t else 22):
        N = rng.choice(sorted(byN)); qm = {1: [33, 45], 2: [17, 24], 3: [11, 15], 4: [9, 12], 6: [5, 8], 12: [3, 4]}[N]; nt = N * rng.choice(qm)
        sel = [{"s": 0, "up": 1, "o": 0}] + [dict(x, o=0) for x in rng.sample(byN[N], 3)]
        for _ in range(2): sel.append({"s": 0, "up": rng.choice([1, 1, 2, 3, 4]), "o": 12 * rng.randint(-nt // 2, nt // 2)})
        sel.append({"s": 0, "up": rng.choice([1, 3]), "o": 4 * rng.randint(1, nt)})
        cases.append({"kind": "win", "nt": nt, "reqs": [dict(x, b=x["s"] * nt + x["o"]) for x in sel], "ncomp": 5})
    for w in "RL" * (6 if t else 2):
        cases.append({"kind": "modal", "wave": w, "reqs": [{"s": 0, "up": 1}] + [dict(x) for x in rng.sample(byN[12] + byN[4], 2)] + [{"s": 0, "up": 2}, {"s": 0, "up": 3, "o": 12 * rng.randint(1, 9)}], "ncomp": 5})
    cases += [{"kind": "fold", "ncomp": 6} for _ in range(30 if t else 8)]
    cases += [{"kind": "band", "ncomp": 6, "plus": rng.choice(["", "+n2", "+n3", "+a"])} for _ in range(30 if t else 8)]
    cases += [{"kind": "hdr", "ncomp": 6} for _ in range(40 if t else 10)]
    for c in cases: c["seed"] = rng.randrange(1 << 30)
    def observe(c):
        try: return case(chk, c)
        except phys.Failed as e: return [{"ok": False, "kind": "hdr", "what": str(e)[:300]}]
    res = chk.pmap(observe, cases)
    recs, own = [], []
    for c, rs in zip(cases, res):
        for r in rs: recs.append(r); own.append(c)
    bad = [i for i, _ in chk.tlc_trace("WindowTrace", recs)]
    seen = set()
    for i in bad:
        c = own[i]
        if id(c) in seen or len(seen) > 5: continue
        seen.add(id(c))
        again = observe(c)
        b2 = chk.tlc_trace("WindowTrace", again)
        if b2: chk.violate("runs disagree about the motion: %s" % json.dumps(c)[:400], {"case": c, "records": [again[j] for j, _ in b2[:2]]})
    for r in recs[:2]: chk.sample(json.dumps(r)[:400])
    chk.notes["kinds"] = {k: sum(1 for r in recs if r["kind"] == k) for k in ("win", "fold", "sum", "hdr")}
    for k in ("win", "fold", "sum", "hdr"):
        g = next((r for r in recs if r["kind"] == k and r["ok"]), None)
        if g is None: raise vp.Infra("no record of kind " + k)
        g = json.loads(json.dumps(g))
        if k == "win": g["runs"][0]["x"] = g["runs"][0]["x"][1:] + [99999]
        elif k == "hdr": g["got"][0] += 5
        else: g["x"][3] += 60
        if not chk.tlc_trace("WindowTrace", [g]): raise vp.Infra("corrupted trace accepted: " + k)
    chk.assumptions += ["runs share the wavenumber step (-L times largest distance) so only the window differs", "lengthening compared at equal imaginary frequency (zeta doubled), -H bands in elastic media (the reference frequency of Q is the highest computed one)"]

vp.main(run, "C20")
