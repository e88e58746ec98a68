"""C25: eigenfunctions, group velocities and sensitivities belong to the dispersion they came from (spec: Surf, SurfMC, SurfTrace)"""
import math, os, random, shutil
import numpy as np
import vp, models, modal, phys

def model(rng):
    n = rng.choice([2, 2, 3, 3, 4]); vs = rng.uniform(.8, 2.2); rows = []
    for i in range(n):
        v = vs * (1 if i == n - 1 else rng.choice([1, 1, 1, .75]))
        rows.append([round(rng.uniform(.5, 3), 2) if i < n - 1 else 0, round(v * rng.uniform(1.6, 2), 3), round(v, 3), round(rng.uniform(1.8, 3), 2)]); vs *= rng.uniform(1.15, 1.6)
    if rng.random() < .25:        # a sea
        k = max(1, 2.1 / rows[-1][2])
        for r in rows: r[2] = round(r[2] * k, 3); r[1] = round(r[1] * k, 3)
        rows.insert(0, [round(rng.uniform(.3, 2), 2), round(rng.uniform(1.4, 1.6), 3), 0, 1.03])
    return rows

class Run:
    """eigenv + eigenfn over a few close frequencies, all modes"""
    def __init__(s, chk, rows, wave, F, z=None, dz=None, omp="1", N="-N"):
        W = chk.dirnew(); models_write(W + "/m", rows)
        r = chk.grt(["eigenv", "-M" + W + "/m", "-C" + W + "/e.nc", "-S" + wave, "-F" + F, "-s", N], omp=omp, timeout=200)
        if r.returncode: shutil.rmtree(W, True); raise phys.Failed("eigenv %s: %s" % (r.args, r.stderr[-200:]))
        o = ["-K+c%s/c.nc+x%s/x.nc+u%s/s.nc%s" % (W, W, W, "+z%r" % dz if dz else "")]
        if z: o.append("-W%s/w.nc+z%s" % (W, z))
        r = chk.grt(["eigenfn", "-C" + W + "/e.nc", N, "-U" + W + "/u.nc", *o], omp=omp, timeout=200)
        if r.returncode: shutil.rmtree(W, True); raise phys.Failed("eigenfn %s: %s" % (r.args, r.stderr[-200:]))
        s.e = modal.read(W + "/e.nc")[0]; s.u = modal.read(W + "/u.nc")[0]; s.cs = modal.read(W + "/c.nc")[0]; s.x = modal.read(W + "/x.nc")[0]; s.us = modal.read(W + "/s.nc")[0]
        s.w = modal.read(W + "/w.nc")[0] if z else None
        shutil.rmtree(W, True)
        s.f = s.e["freq"]; s.n = [int(x) for x in s.e["cnum"]]

def models_write(p, rows):
    with open(p, "w") as f:
        for r in rows: f.write(" ".join("%.12g" % x for x in r) + "\n")

def I(x, ref, n=1000000): return [int(v) for v in np.rint(np.clip(np.asarray(x, float) / ref * n, -2e8, 2e8))]

def pert(rows, l, col, h):
    r = [list(x) for x in rows]; r[l][col] *= 1 + h; return r

def case(chk, seed):
    rng = random.Random(seed); rows = model(rng); wave = rng.choice("RL"); out = []
    desc = " | ".join(" ".join("%g" % x for x in r) for r in rows)
    H = sum(r[0] for r in rows); vmin = min(r[2] or r[1] for r in rows); f0 = round(rng.uniform(.4, 2.2) * vmin / H, 3); df = round(f0 * .003, 5); fs = [round(f0 - df, 6), f0, round(f0 + df, 6)]; F = "%r/%r/%r" % (fs[0], round(fs[2] + df / 10, 7), df)
    nl = len(rows); sea = rows[0][2] == 0; par = np.array([r[1:4] for r in rows])          # a, b, rho per layer
    def add(kind, what, **k): out.append((dict(kind=kind, ok=True, **k), {"what": what, "model": desc, "wave": wave, "F": F}))
    def bad(what): out.append(({"kind": "flat", "ok": False, "x": [1], "tol": 0}, {"what": what, "model": desc, "wave": wave, "F": F}))
    try:
        zmax = round(H + 3, 2); dz = round(min(.02, vmin / f0 / 100), 4); B = Run(chk, rows, wave, F, z="0/%r/%r" % (zmax, dz), omp=rng.choice(["1", "8"]))
        if len(B.f) != 3: bad("frequencies %s" % list(B.f)); return out
        if min(B.n) == 0: return out
        f1 = round(f0 / 1.003, 6); nm = min(B.n)
        i = 1; om = 2 * math.pi * f0
        # ---- group velocity against chords of c
        ks = [[2 * math.pi * B.f[j] / B.e["c"][j, m] for m in range(nm)] for j in range(3)]
        half = modal.eigenv(chk, _file(chk, rows), wave, "%r/%r/%r" % (round(f0 - df / 2, 7), round(f0 + df / 2 + df / 20, 7), df), ["-N"]); hn = min(int(x) for x in half["cnum"])
        if len(half["freq"]) == 2:
            for m in range(min(nm, hn)):
                c = [B.e["c"][j, m] for j in range(3)]
                hk = [2 * math.pi * half["freq"][j] / half["c"][j, m] for j in range(2)]
                U = B.u["u"][i, m]; s1 = 4 * math.pi * df / (ks[2][m] - ks[0][m]); s2 = 2 * math.pi * df / (hk[1] - hk[0])
                add("chord", "group velocity of mode %d" % m, x=I([U], c[1]), s1=I([s1], c[1]), s2=I([s2], c[1]), tol=400)
        for m in range(nm):
            c, U, k = B.e["c"][i, m], B.u["u"][i, m], om / B.e["c"][i, m]; cs = B.cs["csens"][i, m]
            # ---- sums over layers
            add("euler", "phase sensitivities of mode %d" % m, rho=I(cs[:, 2] * par[:, 2], c), vel=I(np.r_[cs[:, 0] * par[:, 0], cs[:, 1] * par[:, 1]], c), want=I([c / U], 1)[0], tol=60 + 4 * nl)
            add("euler", "group sensitivities of mode %d" % m, rho=I(B.us["usens"][i, m][:, 2] * par[:, 2], c), vel=[0], want=0, tol=3000)
            # ---- energy balance and the group velocity as a quotient of energies
            e = B.x["egyint"][i, m]; I1, I2, I3, I4 = e[0], e[2], e[4], e[6]; T = om * om * I1
            sc = max(T, k * k * abs(I2), abs(k * I3), abs(I4))
            add("flat", "energy balance of mode %d" % m, x=I([T - k * k * I2 + k * I3 - I4], sc), tol=20)
            add("same", "group velocity of mode %d as quotient of energies" % m, x=I([U], c), y=I([(I2 - I3 / 2 / k) / (c * I1)], c), tol=20)
            # ---- eigenfunctions
            W = B.w["eigfn"][i, m]; z = B.w["z"]
            d = np.r_[[0], np.cumsum([r[0] for r in rows[:-1]])]; lay = np.searchsorted(d, z + 1e-9, side="right") - 1
            P = par[lay]; mu = P[:, 2] * P[:, 1] ** 2; la = P[:, 2] * P[:, 0] ** 2 - 2 * mu; rho = P[:, 2]
            if wave == "R": u = [W[:, 0], W[:, 2]]; t = [W[:, 4], W[:, 6]]     # q, w; sigma, tau
            else: u = [W[:, 0]]; t = [W[:, 2]]
            um = max(np.abs(x).max() for x in u); tm = max(np.abs(x).max() for x in t) or 1
            # interior: five-point stencils inside one layer
            j = np.array([a for a in range(2, len(z) - 2) if lay[a - 2] == lay[a + 2] and z[a - 2] > d[lay[a]] + 1e-9])
            if not len(j): continue
            D = lambda y: (8 * (y[j + 1] - y[j - 1]) - (y[j + 2] - y[j - 2])) / (12 * dz)
            liq = P[j, 1] == 0; res = []
            if wave == "R":
                q, w = u; sg, ta = t
                r1 = sg[j] - ((la + 2 * mu)[j] * D(w) - la[j] * k * q[j]); r2 = ta[j] - np.where(liq, 0, mu[j] * (D(q) + k * w[j]))
                zeta = (4 * mu * (la + mu) / np.where(la + 2 * mu > 0, la + 2 * mu, 1))[j]
                r3 = D(sg) + rho[j] * om ** 2 * w[j] - k * ta[j]
                r4 = np.where(liq, 0, D(ta) + rho[j] * om ** 2 * q[j] - k * k * zeta * q[j] + k * la[j] / (la + 2 * mu)[j] * sg[j])
                fsc = max(rho.max() * om ** 2 * um, k * tm)
                res = [("normal stress", r1, tm), ("shear stress", r2, tm), ("vertical motion", r3, fsc), ("horizontal motion", r4, fsc)]
            else:
                v, ta = u[0], t[0]
                res = [("shear stress", np.where(liq, 0, ta[j] - mu[j] * D(v)), tm), ("motion", np.where(liq, 0, D(ta) + (rho[j] * om ** 2 - mu[j] * k * k) * v[j]), max(rho.max() * om ** 2 * um, 1e-30))]
            for nme, r_, s_ in res:
                a = int(np.argmax(np.abs(r_))); add("flat", "%s of mode %d at depth %g" % (nme, m, z[j[a]]), x=I([r_[a]], s_), tol=1500)
            if not (sea and wave == "L"): add("flat", "free surface of mode %d" % m, x=I([x[0] for x in t], tm), tol=300)
            # continuity at the interfaces: extrapolated from both sides
            for l in range(1, nl):
                a = np.searchsorted(z, d[l] - 1e-9)
                if a < 6 or a + 6 > len(z) or lay[a - 5] != l - 1 or lay[a + 5] != l or (z[a - 4] <= d[l - 1]): continue
                ex = lambda y, s: float(np.polyval(np.polyfit(z[s] - d[l], y[s], 4), 0))
                lo, hi = np.arange(a - 5, a), np.arange(a + 1, a + 6)
                fluid = P[lo[0], 1] == 0 or P[hi[0], 1] == 0
                if wave == "L":
                    if not fluid: add("same", "continuity of mode %d at %g" % (m, d[l]), x=I([ex(u[0], lo)], um) + I([ex(t[0], lo)], tm), y=I([ex(u[0], hi)], um) + I([ex(t[0], hi)], tm), tol=800)
                else:
                    g = [(u[1], um), (t[0], tm), (t[1], tm)] + ([] if fluid else [(u[0], um)])
                    add("same", "continuity of mode %d at %g" % (m, d[l]), x=[I([ex(y, lo)], s_)[0] for y, s_ in g], y=[I([ex(y, hi)], s_)[0] for y, s_ in g], tol=800)
        # ---- chords of c and U over one value of the model
        m = rng.randrange(nm); l = rng.randrange(nl); col = rng.choice([0, 1, 2] if wave == "R" else [1, 2])
        if not (par[l][1] == 0 and (col == 1 or wave == "L")):
            D = {}
            for h in (2e-3, 1e-3):
                for s_ in (1, -1):
                    R = Run(chk, pert(rows, l, col + 1, s_ * h), wave, F); D[h, s_] = (R.e["c"][1, m], R.u["u"][1, m]) if R.n[1] > m and len(R.f) == 3 else None
            if all(D.values()):
                c = B.e["c"][i, m]; p = par[l][col]
                ch = lambda h, a: (D[h, 1][a] - D[h, -1][a]) / (2 * h)
                add("chord", "dc/d%s of layer %d, mode %d" % (["vp", "vs", "rho"][col], l, m), x=I([B.cs["csens"][i, m][l, col] * p], c), s1=I([ch(2e-3, 0)], c), s2=I([ch(1e-3, 0)], c), tol=400)
                # the derivative over frequency is a difference of neighbours: first and middle frequency bracket it
                add("chord", "dU/d%s of layer %d, mode %d" % (["vp", "vs", "rho"][col], l, m), x=I([B.us["usens"][i, m][l, col] * p], c), s1=I([ch(2e-3, 1)], c), s2=I([ch(1e-3, 1)], c), tol=2000 + _curv(B, m, l, col, p, c))
        # ---- the group sensitivities at the last frequency
        for j in (0, 2):
            sc = B.e["c"][i, 0]
            add("same", "group sensitivities at frequency %d of 3" % (j + 1), x=I((B.us["usens"][j, 0] * par).ravel(), sc), y=I((B.us["usens"][1, 0] * par).ravel(), sc), tol=20000 + int(4 * max(_curv(B, 0, a, b, par[a][b], sc) for a in range(nl) for b in range(3))))
        # ---- the same medium in other units
        g = [rng.choice([-1, 0, 1, 2]), rng.choice([0, 1]), rng.choice([-1, 0, 1])]
        r2 = [[r[0] * 2. ** g[0], r[1] * 2. ** g[1], r[2] * 2. ** g[1], r[3] * 2. ** g[2]] for r in rows]; s_ = 2. ** (g[1] - g[0])
        if not (sea and r2[-1][2] < 1.6):
            Q = Run(chk, r2, wave, "%r/%r/%r" % (fs[0] * s_, (fs[2] + df / 10) * s_, df * s_))
            if Q.n[1] != B.n[1]: bad("in other units %d modes, not %d" % (Q.n[1], B.n[1]))
            else:
                for m in range(nm):
                    c = B.e["c"][i, m]
                    for q_, X, Y, ref in (("c", B.e["c"][i, m:m + 1], Q.e["c"][i, m:m + 1], 1), ("U", B.u["u"][i, m:m + 1], Q.u["u"][i, m:m + 1], 1), ("ca", B.cs["csens"][i, m][:, 0], Q.cs["csens"][i, m][:, 0], 1), ("cb", B.cs["csens"][i, m][:, 1], Q.cs["csens"][i, m][:, 1], 1), ("cr", B.cs["csens"][i, m][:, 2], Q.cs["csens"][i, m][:, 2], 1)):
                        add("scale", "%s of mode %d in units 2^%s" % (q_, m, g), q=q_, g=g, x=I(X, ref), y=I(Y, ref), tol=100)
        # ---- finer sensitivities add up
        S = Run(chk, rows, wave, F, dz=rng.choice([.1, .25, .13]))
        zs = S.cs["z"]; lay = np.searchsorted(d_of(rows), zs + 1e-6, side="right") - 1
        for m in range(min(nm, S.n[1])):
            c = B.e["c"][i, m]
            for nme, A, Bq in (("phase", S.cs["csens"], B.cs["csens"]), ("group", S.us["usens"], B.us["usens"])):
                add("sum", "%s sensitivities of mode %d by sub-layers" % (nme, m), x=I((Bq[i, m] * par).ravel(), c), parts=[I(A[i, m][lay == l][:, col] * par[l][col], c) for l in range(nl) for col in range(3)], tol=60 + len(zs))
            add("same", "energies of mode %d by sub-layers" % m, x=I(S.x["egyint"][i, m][::2], B.x["egyint"][i, m][2]), y=I(B.x["egyint"][i, m][::2], B.x["egyint"][i, m][2]), tol=30)
        # ---- one depth at a time
        a = rng.randrange(1, len(B.w["z"])); V = Run(chk, rows, wave, F, z="%.10g" % B.w["z"][a]) if rng.random() < .5 else Run(chk, rows, wave, F, z="%.10g/%.10g/%.10g" % (B.w["z"][a], B.w["z"][a] + .5, .25))
        if V.n[1] == B.n[1]:
            for m in range(nm):
                X, Y = V.w["eigfn"][i, m][0], B.w["eigfn"][i, m][a]; Z = B.w["eigfn"][i, m]; h = len(Y) // 2; su, st = np.abs(Z[:, :h]).max(), np.abs(Z[:, h:]).max() or 1
                add("same", "eigenfunction of mode %d at %g alone" % (m, B.w["z"][a]), x=I(X[:h], su) + I(X[h:], st), y=I(Y[:h], su) + I(Y[h:], st), tol=20)
    except phys.Failed as e: bad(str(e)[:300])
    return out

def _file(chk, rows):
    p = chk.dirnew() + "/m"; models_write(p, rows); return p
def d_of(rows): return np.r_[[0], np.cumsum([r[0] for r in rows[:-1]])]
def _curv(B, m, l, col, p, c):
    """how much the one-sided difference over frequency may differ, from the three frequencies at hand"""
    k = B.cs["csens"][:, m, l, col] * p / c; r = B.u["u"][1, m] / B.e["c"][1, m]; df = B.f[1] - B.f[0]
    return int(1e6 * abs(k[2] - 2 * k[1] + k[0]) * B.f[1] / df * r * r * 2)

def alone(chk):
    """the group sensitivities of a single frequency, against those with neighbours"""
    rows = [[2, 5, 2.9, 2.5], [3, 5.5, 3.2, 2.6], [0, 6.5, 3.8, 2.8]]; par = np.array([r[1:4] for r in rows]); out = []
    for wave in "RL":
        A = Run(chk, rows, wave, "0.6"); B = Run(chk, rows, wave, "0.598/0.6021/0.002"); c = B.e["c"][1, 0]
        out.append(({"kind": "same", "ok": True, "x": I((A.us["usens"][0, 0] * par).ravel(), c), "y": I((B.us["usens"][1, 0] * par).ravel(), c), "tol": 20000},
                    {"what": "group sensitivities of a single frequency", "model": str(rows), "wave": wave, "F": "0.6", "key": "usens-single:" + wave}))
    return out

def run(chk):
    chk.tlc("SurfMC")
    if chk.thorough: chk.tlc("SurfMC", "SurfMCDeep.cfg")
    for k in (1, 2, 3):
        if chk.tlc("SurfMC", "SurfMCNeg%d.cfg" % k, expect_ok=False).rc == 0: raise vp.Infra("SurfMC: a defective formula was accepted")
    obs = [x for y in chk.pmap(lambda k: case(chk, "%s/%d/%d" % (chk.pid, chk.seed, k)), range(900 if chk.thorough else 200)) for x in y]
    obs += alone(chk)
    for o in obs: chk.notes[o[0]["kind"]] = chk.notes.get(o[0]["kind"], 0) + 1
    def corrupt(r):
        if r["kind"] == "euler" and r["want"]: r["want"] += 5000; return r
    chk.judge("SurfTrace", obs, lambda o: o, lambda o: "%s wave, model %s, -F%s: %s" % (o[1]["wave"], o[1]["model"], o[1]["F"], o[1]["what"]), corrupt=corrupt, key=lambda o: o[1].get("key"))
    chk.assumptions += ["elastic layers, the half-space is the fastest", "the group sensitivities use differences over neighbouring frequencies; they are checked with neighbours 0.3% apart"]
if __name__ == "__main__": vp.main(run, "C25")
