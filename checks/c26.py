"""C26: the closed-form Lamb solution is the surface response of a half-space (spec: Lamb, LambMC, LambTrace)"""
import math, random, shutil
import numpy as np
import vp, models, phys, sac, stlib
N, ONE = 40, 1000; UNIT = math.pi / (4 * N) / ONE
ANG = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1)] + [(sx * a, sy * b, h) for p, q, h in ((3, 4, 5), (5, 12, 13), (8, 15, 17)) for a, b in ((p, q), (q, p)) for sx in (1, -1) for sy in (1, -1)]

def lamb(chk, nu, T, az):
    r = chk.grt(["lamb1", "-P" + nu, "-T" + T, "-A" + az])
    if r.returncode: raise phys.Failed("lamb1 %s: %s" % (r.args, r.stderr[-200:]))
    return [[float(x) for x in l.split()] for l in r.stdout.splitlines() if l.strip() and l[0] != "#"]

def rayleigh(nu):
    """vs / c_R"""
    g = (1 - 2 * nu) / (2 * (1 - nu)); lo, hi = .5, 1 - 1e-12                       # x = (c / vs)^2
    f = lambda x: (2 - x) ** 2 - 4 * math.sqrt(1 - x) * math.sqrt(1 - g * x)
    for _ in range(200):
        m = (lo + hi) / 2
        if f(m) < 0: lo = m
        else: hi = m
    return 1 / math.sqrt(lo)

def U(v): return [int(max(-2.1e6, min(2.1e6, round(x / UNIT)))) if math.isfinite(x) else 2100000 for x in v]

def rows(chk, seed):
    rng = random.Random(seed); m = rng.randint(1, N // 2 - 1); nu = m / N; tp = math.sqrt((1 - 2 * nu) / (2 * (1 - nu))); tr = rayleigh(nu); out = []
    a = rng.choice(ANG); az = "%.13g" % (math.degrees(math.atan2(a[1], a[0])) % 360)
    t1 = rng.choice([0, round(rng.uniform(0, 1.3), 3)]); dt = rng.choice([.01, .013, .037, .11]); T = "%r/%r/%r" % (t1, round(t1 + dt * rng.randint(20, 120), 4), dt)
    if rng.random() < .2: T = "100/%d/25" % rng.choice([100, 200])
    D = "nu=%s -T%s -A%s" % (nu, T, az)
    try:
        A, Z = lamb(chk, "%r" % nu, T, az), lamb(chk, "%r" % nu, T, "0")
        if len(A) != len(Z) or not A: return [({"kind": "seq", "ok": False, "x": [], "y": [], "tol": 0}, D + ": %d and %d rows" % (len(A), len(Z)))]
        for x, z in zip(A, Z):
            t = x[0]
            if abs(t - tr) < 2e-3 or abs(t - tp) < 1e-6 or abs(t - 1) < 1e-6 or max(map(abs, z[1:])) > 18: continue
            out.append(({"kind": "row", "ok": True, "v": U(x[1:]), "zero": U(z[1:]), "a": dict(c=a[0], s=a[1], h=a[2]), "phase": "quiet" if t < tp else "still" if t > tr else "body", "m": m, "n": N, "one": ONE, "late": t >= 100, "latetol": 60, "tol": 6}, D + " t=%g" % t))
        k = rng.randrange(len(A)); t = A[k][0]; B = lamb(chk, "%r" % nu, "%.10g/%.10g/%r" % (t, t + .05, rng.choice([.05, .02])), az)[0]
        if abs(t - tr) > 2e-3 and max(map(abs, A[k][1:])) < 18: out.append(({"kind": "seq", "ok": True, "x": U(B), "y": U(A[k]), "tol": 6}, D + ": t=%g alone" % t))
        if m * 4 == N:
            s3 = math.sqrt(3)
            for z in Z:
                t = z[0]
                if abs(z[9]) > 18 or abs(t - tr) < 2e-3 or abs(t - 1) < 1e-6 or abs(t - tp) < 1e-3: continue
                f = 0 if t < tp else 6 / 16 if t > tr else (6 - math.sqrt(3 * s3 + 5) / math.sqrt(.75 + s3 / 4 - t * t)) / 16
                if tp < t < 1: f = (6 - s3 / math.sqrt(t * t - .25) - math.sqrt(3 * s3 + 5) / math.sqrt(.75 + s3 / 4 - t * t) + math.sqrt(3 * s3 - 5) / math.sqrt(t * t + s3 / 4 - .75)) / 32
                out.append(({"kind": "seq", "ok": True, "x": U([z[9]]), "y": U([math.pi * f]), "tol": 6}, D + ": Pekeris t=%g" % t))
    except phys.Failed as e: out.append(({"kind": "seq", "ok": False, "x": [], "y": [], "tol": 0}, str(e)[:300]))
    return out

COMP = (("VFZ", 9, -1), ("VFR", 3, 1), ("HFZ", 7, -1), ("HFR", 1, 1), ("HFT", 5, 1))     # lamb1's third axis points down, Z up; T = -e_phi for a force north in azimuth 90
def wave(chk, seed):
    """the half-space's Green's functions from wavenumber integration, smoothed, against the closed form"""
    rng = random.Random(seed); m = rng.randint(4, 17); nu = m / N; be = round(rng.uniform(.5, 4), 2); rho = round(rng.uniform(1.5, 3), 2); r = rng.choice([1, 2, 5, 0.4]); tr = rayleigh(nu)
    al = be * math.sqrt(2 * (1 - nu) / (1 - 2 * nu)); ts = r / be; nt = rng.choice([400, 512]); dt = .01 * ts; out = []; desc = "nu=%s vs=%s rho=%s r=%s" % (nu, be, rho, r)
    try:
        opts = ["-N%d/%.10g+a" % (nt, dt), *rng.choice([["-L80"], ["-L60"], ["-L60", "-Cp"]])]
        g = phys.greenfn(chk, [[0, float("%.10g" % al), be, rho, 1e6, 1e6]], ["0"], ["0"], ["%g" % r], opts)[("0", "0", "%g" % r)]
        de = tr / (math.floor(tr / (.01 / 40)) + .5)          # the Rayleigh arrival halfway between two samples
        L = np.array(lamb(chk, "%r" % nu, "0/%.12g/%.12g" % (nt * .01, de), "0")); t = np.arange(nt) * .01; sig = .1
        for cmp_, k, sg in COMP:
            y = np.asarray(g[cmp_][1], float) / sac_scale(be, rho, r) * ts; b = np.zeros(nt); a = np.zeros(nt)
            for i in range(nt): a[i] = np.sum(y * np.exp(-((t[i] - t) / sig) ** 2 / 2)) * .01
            d = t[:, None] - L[None, :, 0]; b = (np.exp(-(d / sig) ** 2 / 2) * (-d / sig ** 2)) @ L[:, k] * de
            w = slice(0, nt - 70); ref = np.abs(b[w]).max() or 1
            out.append(({"kind": "wave", "ok": True, "x": phys.quant(a[w] * sg, ref, 1000), "y": phys.quant(b[w], ref, 1000), "tol": 55}, desc + " %s %s" % (cmp_, opts)))
    except phys.Failed as e: out.append(({"kind": "seq", "ok": False, "x": [], "y": [], "tol": 0}, str(e)[:300]))
    return out
def sac_scale(be, rho, r): return 1 / (math.pi ** 2 * be * be * rho * r)

def static(chk, seed):
    rng = random.Random(seed); m = rng.randint(2, 18); nu = m / N; be = round(rng.uniform(.5, 4), 2); rho = round(rng.uniform(1.5, 3), 2); al = be * math.sqrt(2 * (1 - nu) / (1 - 2 * nu)); out = []; desc = "static nu=%s vs=%s rho=%s" % (nu, be, rho)
    W = chk.dirnew(); rs = rng.choice([["1"], ["1", "2", "7"], ["0.5", "3"]]); p = models.write(W + "/m", [[0, float("%.10g" % al), be, rho]])
    r = chk.grt(["static", "greenfn", "-M" + p, "-D0/0", "-R" + ",".join(rs), "-O" + W + "/s.nc"])
    if r.returncode: return [({"kind": "seq", "ok": False, "x": [], "y": [], "tol": 0}, "%s %s" % (r.args, r.stderr[-200:]))]
    v = stlib.read(W + "/s.nc")[0]; shutil.rmtree(W, True)
    for i, x in enumerate(rs):
        s = sac_scale(be, rho, float(x)); q = lambda k: v[k].ravel()[i] / s
        out.append(({"kind": "static", "ok": True, "x": U([q("HFR"), q("HFT"), -q("VFZ"), -q("VFR"), -q("HFZ")]), "m": m, "n": N, "one": ONE, "tol": 250}, desc + " r=" + x))
    return out

def run(chk):
    chk.tlc("LambMC")
    if chk.thorough: chk.tlc("LambMC", "LambMCDeep.cfg")
    if chk.tlc("LambMC", "LambMCNeg.cfg", expect_ok=False).rc == 0: raise vp.Infra("LambMC: a non-reciprocal tensor was accepted")
    k = 8 if chk.thorough else 1; S = lambda n, c: ["%s/%d/%s%d" % (chk.pid, chk.seed, c, i) for i in range(n)]
    obs = [x for f, n, c in ((rows, 160 * k, "r"), (wave, 24 * k, "w"), (static, 24 * k, "s")) for y in chk.pmap(lambda s: f(chk, s), S(n, c)) for x in y]
    for o in obs: chk.notes[o[0]["kind"]] = chk.notes.get(o[0]["kind"], 0) + 1
    def corrupt(r):
        if r["kind"] == "row" and r["phase"] == "still": r["v"][8] += 5000; r["zero"][8] += 5000; return r
    chk.judge("LambTrace", obs, lambda o: o, lambda o: o[1], corrupt=corrupt)
    chk.assumptions += ["the samples within 0.002 of the Rayleigh arrival are not judged", "the comparison with the dynamic Green's functions is band-limited (Gaussian of 0.1 S travel times) and allows 5.5% of the largest value"]
if __name__ == "__main__": vp.main(run, "C26")
