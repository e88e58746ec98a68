"""C18: dispersion curves are complete, ordered and stable (spec: Disp, DispMC, DispTrace)"""
import math, os, random, shutil
import numpy as np
import vp, models, modal, phys, ww

def model(rng):
    rows = model0(rng)
    if rng.random() < .35:        # a layer described in two parts
        i = rng.randrange(len(rows) - 1); h = rows[i][0]; a = round(h * rng.uniform(.3, .7), 2)
        rows[i:i + 1] = [[a] + rows[i][1:], [round(h - a, 2)] + rows[i][1:]]
    return rows
def model0(rng):
    if rng.random() < .25:        # a fast lid, or a fast sea floor, over a slow layer
        sea = rng.random() < .5; a = rng.uniform(1, 2); b = a * rng.uniform(.45, .85); c = max(a, 1.8) * rng.uniform(1.2, 1.8)
        rows = [[round(rng.uniform(.3, 1), 2), a], [round(rng.uniform(1, 4), 2), b], [round(rng.uniform(.5, 2), 2), b * 1.2], [0, c]]
        if rng.random() < .5: del rows[2]
        rows = [[h, round(v * rng.uniform(1.6, 2), 3), round(v, 3), round(rng.uniform(1.8, 3), 2), 500, 250] for h, v in rows]
        return ([[round(rng.uniform(.3, 2), 2), round(rng.uniform(1.3, 1.7), 3), 0, 1.03, 1000, 1000]] if sea else []) + rows
    if rng.random() < .1:         # the sea-bottom wave close to 1 km/s
        v = rng.uniform(1.15, 1.35)
        return [[round(rng.uniform(1, 3), 2), round(rng.uniform(1.3, 1.6), 3), 0, 1.03, 1000, 1000], [round(rng.uniform(2, 5), 2), round(v * 1.8, 3), round(v, 3), round(rng.uniform(1.7, 2.2), 2), 500, 250], [0, 5.4, 3, 2.4, 500, 250]]
    n = rng.choice([2, 2, 3, 3, 4, 5, 6]); vs = rng.uniform(.5, 2.5); rows = []
    for i in range(n):
        v = vs * (1 if i == n - 1 else rng.choice([1, 1, 1, .8, .6]))
        rows.append([round(rng.uniform(.3, 4), 2) if i < n - 1 else 0, round(v * rng.uniform(1.6, 2), 3), round(v, 3), round(rng.uniform(1.8, 3), 2), 500, 250]); vs *= rng.uniform(1.05, 1.6)
    if rng.random() < .3:         # a sea; the half-space keeps the fastest velocity
        k = max(1, 1.9 / rows[-1][2])
        for r in rows: r[2] = round(r[2] * k, 3); r[1] = round(r[1] * k, 3)
        rows.insert(0, [round(rng.uniform(.3, 4), 2), round(rng.uniform(1.3, 1.7), 3), 0, 1.03, 1000, 1000])
    return rows

def shadows(rows, f, wave, top, rel=1e-4):
    """[(velocity, number of modes within its blind zone)]"""
    out = []
    for v in sorted({x for r in rows for x in ((r[1], r[2]) if wave == "R" else (r[2],)) if 0 < x < top}):
        n = ww.count(rows, f, min(v * (1 + rel), top), wave) - ww.count(rows, f, v * (1 - rel), wave)
        if n: out.append((v, n))
    return out

def q(c): return [int(round(x * 1e8)) for x in c]

def curves(v):
    """{frequency: [c]} of what eigenv wrote"""
    return {float(f): [float(x) for x in v["c"][i, :int(v["cnum"][i])]] for i, f in enumerate(v["freq"])}

def case(chk, seed):
    rng = random.Random(seed); rows = model(rng); out = []; W = chk.dirnew(); m = models.write(W + "/m", rows)
    H = sum(r[0] for r in rows); vmin = min(r[2] or r[1] for r in rows); vmax = rows[-1][2]; desc = " | ".join(" ".join("%g" % x for x in r[:4]) for r in rows)
    for wave in "LR":
        f2 = round(rng.choice([rng.uniform(.6, 3), rng.uniform(2, 6)]) * vmin / H, 3); nf = rng.choice([3, 5, 7]); df = max(.001, round(f2 / nf, 3)); F = "%r/%r/%r" % (df, round(df * nf, 3), df)
        def go(F=F, opts=(), omp="1", name="e"):
            r = chk.grt(["eigenv", "-M" + m, "-C%s/%s.nc" % (W, name), "-S" + wave, "-F" + F, "-s", *opts], omp=omp, timeout=200)
            if r.returncode: raise phys.Failed("eigenv exit %s: %s %s" % (r.returncode, r.args, r.stderr[-200:]))
            return curves(modal.read("%s/%s.nc" % (W, name))[0])
        def add(kind, what, **k): out.append((dict(kind=kind, ok=True, **k), {"model": desc, "wave": wave, "F": F, "what": what, "f": k.get("f", "")}))
        try:
            P0 = rng.choice(["1", "8"]); B = go(opts=["-N"], omp=P0)
            if len(B) != nf: out.append(({"kind": "list", "ok": False, "a": [], "b": []}, {"model": desc, "wave": wave, "F": F, "what": "frequencies %s" % sorted(B)}))
            fs = sorted(B)
            for f in fs:
                c = B[f]; top = vmax * (1 - 1e-9); sh = shadows(rows, f, wave, top)
                add("curve", "exact mode count", c=q(c), lo=[ww.count(rows, f, x * (1 - 1e-5), wave) for x in c], hi=[ww.count(rows, f, min(x * (1 + 1e-5), top), wave) for x in c],
                    sh=[sum(n for v, n in sh if v * (1 - 1e-4) <= x) for x in c], shall=sum(n for _, n in sh), all=[ww.count(rows, f, vmax * (1 - 1e-4), wave), ww.count(rows, f, top, wave)],
                    cap=-1, vmax=int(round(vmax * 1e8)), f="%g" % f)
            # the first k modes, other thread numbers, other frequencies, a file already there
            N = max(len(c) for c in B.values()); alt = []
            for n in sorted({0, rng.randint(0, max(0, N - 1)), rng.randint(0, N + 1)}): alt.append(("-N%d" % n, n + 1, go(opts=["-N%d" % n] if n or rng.random() < .5 else [], omp=rng.choice(["1", "8"])), fs))
            alt.append(("-P1", -1, go(opts=["-N", "-P1"], omp="8"), fs)); alt.append(("-P8", -1, go(opts=["-N", "-P8"], omp="1"), fs))
            f1 = rng.choice(fs); alt.append(("-F%r" % f1, -1, go(F="%r" % f1, opts=["-N"], name=rng.choice(["e", "new"])), [f1]))
            k0 = rng.randrange(nf); k1 = rng.randint(k0, nf - 1)
            if k1 > k0: alt.append(("sub-band", -1, go(F="%r/%r/%r" % (fs[k0], fs[k1], df), opts=["-N"], omp="8"), fs[k0:k1 + 1]))
            if not any(r[2] == 0 for r in rows) and rng.random() < .6:
                alt.append(("-T+t4", -1, go(opts=["-N", "-T+t4"]), fs))
            for what, cap, A, want in alt:
                ks = sorted(A)
                if len(ks) != len(want): out.append(({"kind": "list", "ok": False, "a": [], "b": []}, {"model": desc, "wave": wave, "F": F, "what": "%s: frequencies %s" % (what, ks)})); continue
                for f, g in zip(want, ks):
                    near = bool(shadows(rows, f, wave, vmax * (1 - 1e-9))) and what == "-T+t4"
                    if abs(f - g) > 1e-9 or not near: add("same", what, a=q(B[f]), b=q(A[g]), cap=cap, tol=50, f="%g" % f)
            go(opts=["-N"]); d = chk.grt(["disp2asc", "-C%s/e.nc" % W, "-N"])
            rowsd = sorted([l.split() for l in d.stdout.splitlines() if l.strip() and l[0] != "#"], key=lambda w: (float(w[0]), int(w[1])))
            add("list", "disp2asc", a=[["%.5e" % float(w[0]), w[1], "%.8e" % float(w[2])] for w in rowsd], b=[["%.5e" % f, str(j), "%.8e" % x] for f in fs for j, x in enumerate(B[f])])
        except phys.Failed as e:
            out.append(({"kind": "list", "ok": False, "a": [], "b": []}, {"model": desc, "wave": wave, "F": F, "what": str(e)[:300]}))
    shutil.rmtree(W, True)
    return out

def run(chk):
    chk.tlc("DispMC", "DispMC.cfg")
    if chk.thorough: chk.tlc("DispMC", "DispMCDeep.cfg")
    for k in (1, 2, 3):
        if chk.tlc("DispMC", "DispMCNeg%d.cfg" % k, expect_ok=False).rc == 0: raise vp.Infra("DispMC: a defective search was accepted")
    obs = [x for y in chk.pmap(lambda k: case(chk, "%s/%d/%d" % (chk.pid, chk.seed, k)), range(1200 if chk.thorough else 80)) for x in y]
    cu = [o for o in obs if o[0]["kind"] == "curve"]
    chk.notes["curves"] = len(cu); chk.notes["modes"] = sum(len(o[0]["c"]) for o in cu); chk.notes["modes in a blind zone"] = sum(o[0]["shall"] for o in cu)
    def corrupt(r):
        if r["kind"] == "curve" and len(r["c"]) > 1 and r["shall"] == 0:
            for k in ("c", "lo", "hi", "sh"): r[k] = r[k][1:]
            return r
    chk.judge("DispTrace", obs, lambda o: o, lambda o: "%s wave, model %s, f=%s (%s): %s" % (o[1]["wave"], o[1]["model"], o[1]["f"], o[1]["F"], o[1]["what"]), corrupt=corrupt)
    chk.assumptions += ["modes within 1e-4 of a layer velocity may be missing (the search's blind zone)", "mode counts assume elastic layers; the half-space is the fastest layer"]
if __name__ == "__main__": vp.main(run, "C18")
