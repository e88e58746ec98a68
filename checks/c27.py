"""C27: modal summation is the sum of the modes' far fields, and carries the surface waves of the full wave field (spec: Residue, ResidueMC, ResidueTrace)"""
import math, os, random, shutil
import numpy as np
import sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp, models, modal, phys, sac
from c25 import models_write, model, d_of
COMPS = {"R": ["EXZ", "EXR", "VFZ", "VFR", "HFZ", "HFR", "DDZ", "DDR", "DSZ", "DSR", "SSZ", "SSR"], "L": ["HFT", "DST", "SST"]}
FULL = 1000000

def num(x): return "%.10g" % x

def setup(chk, rng):
    """a dispersion file over the frequencies of a trace"""
    while True:
        rows = model(rng)
        H = sum(r[0] for r in rows); vmin = min(r[2] or r[1] for r in rows); nt = rng.choice([32, 50, 64]); dt = round(vmin and H / vmin * rng.choice([.15, .3]), 2) or .05
        return rows, nt, dt

def read(d):
    out = {}
    for f in os.listdir(d):
        if f.endswith(".sac"): out[f[:-4]] = sac.read(d + "/" + f)
    return out

def case(chk, seed):
    rng = random.Random(seed); rows, nt, dt = setup(chk, rng); wave = rng.choice("RRL"); out = []
    d = d_of(rows); sea = rows[0][2] == 0; H = d[-1]; W = chk.dirnew(); T = nt * dt
    zs = round(rng.choice([rng.uniform(0, H), rng.uniform(0, H), rng.uniform(0, 1.3 * H), 0]), 2); zr = round(rng.choice([0, rng.uniform(0, 1.2 * H), d[1]]), 2); r = rng.choice([17.5, 40, 95])
    if sea: zr = round(max(zr, rows[0][0] + .2), 2); zs = zs if rng.random() < .4 else round(max(zs, rows[0][0] + .1), 2)
    if any(abs(zs - x) < .02 for x in d[1:]): zs = round(zs + .05, 2)             # the strain is one-sided on an interface
    rs = sorted({r, rng.choice([23, 61.25])}); up = rng.random() < .6
    desc = "%s waves, model %s, -D%s/%s -R%s nt=%d dt=%s" % (wave, " | ".join(" ".join("%g" % x for x in q) for q in rows), zs, zr, rs, nt, dt)
    def bad(what): out.append(({"kind": "none", "ok": False}, desc + ": " + what)); shutil.rmtree(W, True); return out
    with open(W + "/m", "w") as f:
        for q in rows: f.write(" ".join("%.12g" % x for x in q) + " 1e9 1e9\n")
    def go(a):
        x = chk.grt(a, omp=rng.choice(["1", "4"]), timeout=200)
        if x.returncode: raise phys.Failed("%s: %s" % (x.args, (x.stderr + x.stdout)[-200:]))
    N = rng.choice(["-N", "-N", "-N0", "-N1/2"])
    try:
        go(["eigenv", "-M" + W + "/m", "-S" + wave, "-F0/%s/%s" % (num(.5 / dt), num(1 / T)), "-N", "-C" + W + "/e.nc", "-s"])
        nm = int(modal.read(W + "/e.nc")[0]["cnum"].max())
        if nm == 0 or (N == "-N1/2" and nm < 3): shutil.rmtree(W, True); return out
        go(["modsum", "-C" + W + "/e.nc", *rng.choice([["-D%s/%s" % (zs, zr)], ["-Ds%s" % zs, "-Dr%s" % zr]]), "-R" + ",".join(num(x) for x in rs), "-O" + W + "/g", N, *(["-e"] if up else [])])
        Z = sorted({zs, zr}); go(["eigenfn", "-C" + W + "/e.nc", N, "-W%s/w.nc+z%s" % (W, "%s/%s/%s" % (num(Z[0]), num(Z[-1]), num(Z[-1] - Z[0])) if len(Z) > 1 else "%s/%s/1" % (num(Z[0]), num(Z[0] + 1))), "-U" + W + "/u.nc", "-K+x" + W + "/x.nc"])
    except phys.Failed as e: return bad(str(e)[:300])
    w = modal.read(W + "/w.nc")[0]; U = modal.read(W + "/u.nc")[0]; X = modal.read(W + "/x.nc")[0]; fr = w["freq"]
    if len(w["z"]) != max(2, len(Z)): return bad("depths %s" % w["z"])
    a, b = Z.index(zs), Z.index(zr); lay = lambda z: max(0, int(np.searchsorted(d, z + 1e-9, side="right")) - 1)
    ps, pr = rows[lay(zs)], rows[lay(zr)]
    lame = lambda p: (p[3] * p[1] ** 2 - 2 * p[3] * p[2] ** 2, p[3] * p[2] ** 2)
    (las, mus), (lar, mur) = lame(ps), lame(pr)
    dirs = {x: read("%s/g/m_%s_%s_%s" % (W, num(zs), num(zr), num(x))) if os.path.isdir("%s/g/m_%s_%s_%s" % (W, num(zs), num(zr), num(x))) else None for x in rs}
    if any(v is None for v in dirs.values()): return bad("directories %s" % os.listdir(W + "/g"))
    liqsrc = mus == 0
    for x in rs:
        spec = {c: np.fft.rfft(np.asarray(v[1], float)) * dt for c, v in dirs[x].items()}
        for pre in ([""] + (["r", "z"] if up and mur > 0 and zr not in d[1:] else [])):
            for c in COMPS[wave]:
                src, cm = c[:2], c[2]
                if liqsrc and src != "EX": continue
                key = pre + c
                if key not in spec:
                    if c in spec or not liqsrc: return bad("no file %s" % key)
                    continue
                js = [i for i in range(1, len(fr)) if 0 < fr[i] < .5 / dt - 1e-6]; js = rng.sample(js, min(len(js), 4)); rec = []
                for i in js:
                    om = 2 * math.pi * fr[i]; modes = []
                    for m in range(int(w["cnum"][i])):
                        cc = w["c"][i, m]; k = om / cc; e = X["egyint"][i, m]; e = e[0::2] + 1j * e[1::2]
                        S = w["eigfn"][i, m][a]; R = w["eigfn"][i, m][b]; S = S[0::2] + 1j * S[1::2]; R = R[0::2] + 1j * R[1::2]
                        dom = 4 * cc * U["u"][i, m] * e[0]; f = np.sqrt(2 / (math.pi * k * x)) * np.exp(-1j * (k * x + math.pi / 4)) / dom / 2
                        if wave == "R":
                            q, ww, sg, ta = S; dw = (sg + las * k * q) / (las + 2 * mus); bas = dict(w=ww, q=q, kq=k * q, dw=dw, g=ta / mus if mus else 0)
                            rq, rw, rsg, rta = R; v = {"Z": rw, "R": rq}[cm]
                            if pre == "z": v = {"Z": (rsg + lar * k * rq) / (lar + 2 * mur), "R": rta / mur - k * rw}[cm]
                        else:
                            v0, ta = S; bas = dict(v=v0, kv=k * v0, dv=ta / mus if mus else 0); v = R[0] if pre != "z" else R[1] / mur
                        if pre == "z": v = -v                                   # the vertical coordinate of derivatives points up
                        if pre == "r": v = v * (-1j * k)
                        modes.append({n: y * v * f for n, y in bas.items()})
                    rec.append((i, modes))
                # scale: the largest product of all modes at these frequencies
                for i, modes in rec:
                    sc = max([abs(y) for md in modes for y in md.values()] + [abs(spec[key][int(round(fr[i] * T))])]) or 1
                    pair = lambda y: [int(round(y.real / sc * FULL)), int(round(y.imag / sc * FULL))]
                    o = complex(spec[key][int(round(fr[i] * T))]); nz = lambda y: complex(y) if np.isfinite(complex(y)) else complex(9, 9) * sc
                    # float32 samples: noise relative to the whole trace
                    noise = 3e-7 * float(np.abs(np.asarray(dirs[x][key][1], float)).max()) * dt * math.sqrt(nt) / sc * FULL
                    if noise > .2 * FULL: continue                              # below the rounding of the trace
                    out.append(({"kind": "modes", "ok": True, "src": src, "comp": cm, "modes": [{n: pair(nz(y)) for n, y in md.items()} for md in modes], "obs": pair(nz(o)), "tol": int(30 + 4 * len(modes) + 4 * noise) + (300 if zr in d[1:] or zs in d[1:] else 0)}, "%s: %s at r=%s f=%g" % (desc, key, x, fr[i])))
    shutil.rmtree(W, True)
    return out

def surf(chk, seed):
    """the same source by wavenumber integration: surface waves at some distance"""
    rng = random.Random(seed); j = lambda x: round(x * rng.uniform(.93, 1.07), 3); out = []
    rows = [[j(2), j(3.5), j(2.0), j(2.3), 1e6, 1e6], [j(3), j(5), j(2.9), j(2.6), 1e6, 1e6], [0, j(7.5), j(4.3), j(3.0), 1e6, 1e6]]
    nt, dt = 512, .25; T = nt * dt; r = rng.choice([60, 75, 90]); zs = rng.choice([.5, 1, 1.6]); zr = rng.choice([0, 0.3]); W = chk.dirnew(); m = models.write(W + "/m", rows); desc = "model %s -D%s/%s -R%s" % (rows, zs, zr, r); got = {}
    try:
        full = phys.greenfn(chk, m, [num(zs)], [num(zr)], [num(r)], ["-N%d/%r+a" % (nt, dt)])[(num(zs), num(zr), num(r))]
        for S in "RL":
            for a in (["eigenv", "-M" + m, "-S" + S, "-F0/%s/%s" % (num(.5 / dt), num(1 / T)), "-N", "-C%s/%s.nc" % (W, S), "-s"], ["modsum", "-C%s/%s.nc" % (W, S), "-D%s/%s" % (num(zs), num(zr)), "-R" + num(r), "-O%s/g%s" % (W, S), "-N"]):
                x = chk.grt(a, timeout=200)
                if x.returncode: raise phys.Failed("%s %s" % (x.args, x.stderr[-200:]))
            got[S] = read("%s/g%s/m_%s_%s_%s" % (W, S, num(zs), num(zr), num(r)))
    except phys.Failed as e: return [({"kind": "none", "ok": False}, str(e)[:300])]
    f = np.fft.rfftfreq(nt, dt); w = np.exp(-((f - .25) / .1) ** 2 / 2)
    band = lambda y: np.fft.irfft(np.fft.rfft(y) * w)
    F = {}; M = {}
    for c in phys.COMPS:
        F[c] = band(np.asarray(full[c][1], float)); M[c] = band(sum((np.asarray(got[S][c][1], float)[:nt] for S in "RL" if c in got[S]), np.zeros(nt)))
    for g in ("EX", "VF", "HF", "DD", "DS", "SS"):
        cs = [c for c in F if c[:2] == g]; top = max(np.linalg.norm(F[c]) for c in cs)
        for c in cs:
            if np.linalg.norm(F[c]) < .6 * top: continue
            p = float(F[c] @ M[c] / max(M[c] @ M[c], 1e-300)); e = float(np.linalg.norm(F[c] - M[c]) / top)
            out.append(({"kind": "wave", "ok": True, "proj": int(round(max(-9, min(9, p)) * 1000)), "rest": int(round(min(e, 9) * 1000)), "tol": 150, "resttol": 550}, "%s: %s projection %.3f remainder %.3f" % (desc, c, p, e)))
    shutil.rmtree(W, True)
    return out

def run(chk):
    chk.tlc("ResidueMC")
    if chk.thorough: chk.tlc("ResidueMC", "ResidueMCDeep.cfg")
    for k in (1, 2):
        if chk.tlc("ResidueMC", "ResidueMCNeg%d.cfg" % k, expect_ok=False).rc == 0: raise vp.Infra("ResidueMC: a defective table was accepted")
    k = 10 if chk.thorough else 1
    obs = [x for f, n, c in ((case, 60 * k, "m"), (surf, 8 * k, "s")) for y in chk.pmap(lambda s: f(chk, s), ["%s/%d/%s%d" % (chk.pid, chk.seed, c, i) for i in range(n)]) for x in y]
    for o in obs: chk.notes[o[0]["kind"]] = chk.notes.get(o[0]["kind"], 0) + 1
    W = [o for o in obs if o[0]["kind"] == "wave"]; chk.notes["worst projection"] = max([abs(o[0]["proj"] - 1000) for o in W] or [0]); chk.notes["worst remainder"] = max([o[0]["rest"] for o in W] or [0])
    def corrupt(r):
        if r["kind"] == "modes" and r["src"] == "DD" and max(map(abs, r["obs"])) > 20 * r["tol"]: r["obs"] = [-x for x in r["obs"]]; return r
    chk.judge("ResidueTrace", obs, lambda o: o, lambda o: o[1], corrupt=corrupt)
    chk.assumptions += ["elastic layers; the comparison with wavenumber integration is band-limited and allows body waves 55% of the largest component", "double couples inside a liquid are not judged"]
if __name__ == "__main__": vp.main(run, "C27")
