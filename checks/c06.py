"""C06: time functions, integration, differentiation (spec: TimeOps, TimeOpsMC, TimeTrace)"""
import os, math, json, shutil
import vp, sac, gf
from vp import q
from fractions import Fraction

def ceildiv(a, b): return 0 if a <= 0 else -(-a // b)
def legs(a1, a2, a3, m):
    n1 = ceildiv(a1, m); n2 = 0 if a1 == a2 else ceildiv(a2 - n1 * m, m); n3 = ceildiv(a3 - (n1 + n2) * m, m)
    return n1, n2, n3
def tfden(f):
    k = f["kind"]
    if k in ("none", "custom"): return 1
    if k == "parabola": return ceildiv(f["a"], f["m"]) ** 2
    if k == "trapezoid":
        n1, n2, n3 = legs(f["a1"], f["a2"], f["a3"], f["m"]); return max(n1, 1) * max(n3, 1)
    return 1000

def run(chk):
    chk.tlc("TimeOpsMC", "TimeOpsMCDeep.cfg" if chk.thorough else "TimeOpsMC.cfg")
    rng = chk.rng
    N = 6000 if chk.thorough else 1800
    cases = []
    for i in range(N):
        t = rng.choice(["EX", "SF", "SF", "MT"])
        if t == "EX": src = {"type": t}
        elif t == "SF": src = {"type": t, "f": [rng.randint(-2, 2) for _ in range(3)]}
        else: src = {"type": t, "m": [rng.randint(-2, 2) for _ in range(6)]}
        az = gf.adict(rng.choice(gf.angles(5 if t == "SF" else 1)))
        c = {"src": src, "az": az, "dist": rng.choice([0, 1, 1, 2]), "k": 1, "zne": rng.random() < .4, "upar": rng.random() < .35}
        kind = rng.choice(["none", "custom", "custom", "parabola", "trapezoid", "trapezoid", "ricker"])
        npts = rng.randint(3, 6)
        dtd = rng.choice([1, 2, 4])
        f = {"kind": kind}
        if kind == "custom":
            L = rng.choice([1, 2, 3, npts - 1, npts, npts + 1, 2 * npts + 1, 4 * npts + 3])
            f["h"] = [rng.randint(-3, 3) for _ in range(L)]
        elif kind == "parabola":
            f["m"] = rng.choice([1, 2, 4]); f["a"] = rng.randint(1, 6 * f["m"])
        elif kind == "trapezoid":
            m = f["m"] = rng.choice([1, 2, 4])
            a = sorted(rng.randint(0, 6 * m) for _ in range(2)); f["a1"], f["a2"] = a
            if rng.random() < .35: f["a2"] = f["a1"]
            f["a3"] = f["a2"] + rng.randint(1, 4 * m)
        elif kind == "ricker": f["m"] = rng.choice([1, 2, 3])
        ops = rng.choice([(0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (1, 1), (2, 1), (1, 2)])
        if kind in ("parabola", "ricker", "trapezoid"): ops = rng.choice([(0, 0), (0, 0), (1, 0), (0, 1)])
        if kind == "none" and ops == (0, 0): ops = (1, 0)
        damped = rng.random() < .7
        lim = 2
        G = lambda: [[[rng.randint(-lim, lim) for _ in range(3)] for _ in range(6)] for _ in range(npts)]
        cases.append((c, f, npts, dtd, ops, damped, G(), G(), G(), rng.randint(0, 9)))
    def one(case):
        c, f, npts, dtd, (ni, nd), damped, g, gz, gr, order = case
        dt = 1.0 / dtd
        p = chk.dirnew(); out = p + "/o"; gd = p + "/g"
        gf.write_leaf(gd, c["dist"], g, gz if c["upar"] else None, gr if c["upar"] else None, delta=dt, wI=(math.log(2) / dt if damped else 0.0))
        opts = ["-G" + gd, "-A" + gf.fmt(gf.adeg(c["az"])), "-S1e20" if c["src"]["type"] != "SF" else "-S1e15", "-O" + out, *gf.src_args(c["src"])]
        if c["zne"]: opts.append("-N")
        if c["upar"]: opts.append("-e")
        if ni: opts.append("-I%d" % ni)
        if nd: opts.append("-J%d" % nd)
        k = f["kind"]
        if k == "custom":
            with open(p + "/tf.txt", "w") as fh:
                for n, v in enumerate(f["h"]):
                    if n % 4 == 1: fh.write("# comment\n")
                    if n % 5 == 2: fh.write("\n")
                    fh.write("%g\n" % v)
            opts.append("-D0/%s/tf.txt" % p)
        elif k == "parabola": opts.append("-Dp/" + gf.fmt(f["a"] / f["m"] * dt))
        elif k == "trapezoid": opts.append("-Dt/" + "/".join(gf.fmt(f[x] / f["m"] * dt) for x in ("a1", "a2", "a3")))
        elif k == "ricker": opts.append("-Dr/" + gf.fmt(f["m"] / 8 / dt))
        opts = opts[order % len(opts):] + opts[:order % len(opts)]
        r = chk.grt(["syn", *opts])
        obs = {"rc": r.returncode, "cmd": opts, "case": {"c": c, "f": f, "npts": npts}}
        made = os.listdir(out) if os.path.isdir(out) else []
        rec = {"ok": False, "refused": r.returncode == 1 and not made, "c": c, "f": f, "ni": ni, "nd": nd, "damped": damped, "g": g, "gz": gz, "gr": gr}
        h = 1 if c["dist"] == 0 else c["az"]["h"]
        D = gf.weights_den(c["src"], gf.adict((1, 0, 1)) if c["dist"] == 0 else c["az"])
        dens = {"u": D * (h if c["zne"] else 1), "zr": D * max(c["dist"], 1) * (h * h if c["zne"] else 1)}
        sc = Fraction(1)
        if k != "none": sc *= (2 ** npts if damped else 1) * tfden(f) * dtd
        sc *= Fraction(2 * dtd) ** ni * Fraction(2, dtd) ** nd
        L = 2000000000
        try:
            if r.returncode == 0:
                chs = "ZNE" if c["zne"] else "ZRT"
                exp = {ch + ".sac" for ch in chs} | ({"sig.sac"} if k != "none" else set())
                if c["upar"]: exp |= {a.lower() + b + ".sac" for a in chs for b in chs}
                filesok = set(os.listdir(out)) == exp
                hdrok = True
                U = []
                for ch in chs:
                    hd, d = sac.read(f"{out}/{ch}.sac"); U.append([q(float(x), float(sc * dens["u"]), L) for x in d])
                    hdrok = hdrok and abs(hd["delta"] - dt) < 1e-6 and hd["npts"] == npts
                rec["u"] = U; rec["d"] = []
                if c["upar"]:
                    rec["d"] = [[[q(float(x) * 1e5, float(sc * dens["zr"]), L) for x in sac.read(f"{out}/{a.lower()}{b}.sac")[1]] for b in chs] for a in chs]
                rec["sigden"] = 1000000 if k == "ricker" else tfden(f)
                rec["sig"] = []
                if k != "none":
                    hd, s = sac.read(f"{out}/sig.sac")
                    rec["sig"] = [q(float(x), rec["sigden"], L) for x in s]
                    hdrok = hdrok and abs(hd["delta"] - dt) < 1e-6
                rec["dens"] = dens; rec["tfden"] = tfden(f)
                rec["ok"] = filesok and hdrok
                obs["filesok"] = filesok; obs["hdrok"] = hdrok
        except Exception as e:
            obs["error"] = repr(e); rec["ok"] = False
        shutil.rmtree(p, True)
        return rec, obs
    def corrupt(t):
        m = max(abs(x) for x in t["u"][0])
        if m < 200: return None
        j = [abs(x) for x in t["u"][0]].index(m)
        t["u"][0][j] += m // 10 + 50
        return t
    chk.judge("TimeTrace", cases, one, lambda c: json.dumps(c[:6]), corrupt=corrupt)
    chk.assumptions += ["damping per sample is 1/2 or 1 so that results are exact rationals", "Ricker values compared with a table at multiples of 1/8 period"]

vp.main(run, "C06")
