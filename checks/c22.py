"""C22: ASCII exports are faithful (spec: Export, ExportTrace)"""
import math, os, re, shutil, struct
from fractions import Fraction
import numpy as np
from scipy.io import netcdf_file
import vp, sac, models
SRC = ["EX", "VF", "HF", "DD", "DS", "SS"]; M0 = ("EX", "VF", "DD")
KCOLS = [s + "_" + c for s in SRC for c in "qwv" if not (s in M0 and c == "v")]
PCOLS = ["sum_%s_%d" % (s, v) for s in SRC for v in range(4) if not (s in M0 and v not in (0, 2))]
NUM = re.compile(r"^[+-]?(\d*)\.?(\d*)(?:[eE][+-]?\d+)?$")

def digits(tok):
    m = NUM.match(tok)
    return len((m.group(1) + m.group(2)).lstrip("0")) or 99 if m and m.group(1) + m.group(2) else 0

def norm(tok, x):
    """the token, if it is x at the token's own number of digits; what it should be otherwise"""
    if isinstance(x, int): return tok if re.match(r"^\d+$", tok) and int(tok) == x else str(x)
    if math.isinf(x) or math.isnan(x): return tok if tok.lower().lstrip("-+") == ("inf" if math.isinf(x) else "nan") and (tok[0] == "-") == (x < 0) else repr(x)
    d = digits(tok)
    if d == 0: return "%.8e" % x
    try: g = float(tok)
    except ValueError: return "%.8e" % x
    if x == 0 or d == 99: return tok if g == x else "%.8e" % x
    w = "%.*e" % (d - 1, x)
    return tok if float(w) == g else w

def tokens(lines, rows):
    """-> got, rows as token strings, fewest digits"""
    got = [l.split() for l in lines]; dig = 99; want = []
    for k, r in enumerate(rows):
        g = got[k] if k < len(got) else []
        w = []
        for j, x in enumerate(r):
            t = g[j] if j < len(g) else "-"
            w.append(norm(t, x))
            if not isinstance(x, int) and w[-1] == t and x and math.isfinite(x): dig = min(dig, digits(t))
        want.append(" ".join(w))
    return [" ".join(g) for g in got], want, dig

def rec(chk, args, path, size, head, reclen, n, form, rows, mindig, wantnames=(), abscissa=None):
    r = chk.grt(args)
    lines = r.stdout.splitlines(); names = []
    if wantnames:
        if lines and lines[0].lstrip().startswith("#"): names = lines[0].replace("#", " ", 1).split()
        lines = lines[1:]
    t = []
    if abscissa is not None:                       # first column judged in float32 steps
        b, d = abscissa
        for k in range(min(len(rows), len(lines))):
            try: g = float(lines[k].split()[0])
            except (ValueError, IndexError): t.append(999999); continue
            e = Fraction(b) + Fraction(d) * k; m = max(abs(Fraction(b)), abs(Fraction(d) * k), abs(e))
            ulp = Fraction(2) ** (math.floor(math.log2(float(m))) - 23) if m else Fraction(1, 10 ** 9)
            ulp = max(ulp, abs(e) / 10 ** 7)       # seven printed decimals
            t.append(min(999999, int(abs(Fraction(g) - e) / ulp * 100)))
        if len(lines) and any(len(l.split()) != 2 for l in lines[:len(rows)]): t.append(999999)
        lines2 = [" ".join(l.split()[1:]) for l in lines]
    else: lines2 = lines
    got, want, dig = tokens(lines2, rows)
    return {"ok": True, "size": size, "head": head, "rec": reclen, "n": n, "form": bool(form), "exit": r.returncode, "msg": bool(r.stderr.strip()),
            "rows": want, "got": got, "dig": dig, "mindig": mindig, "names": names, "wantnames": list(wantnames) if r.returncode == 0 else names, "t": t}, [" ".join(map(str, args)), r.stdout[:300], r.stderr[:300]]

def rnd(rng):
    x = rng.random()
    if x < .05: return 0.0
    if x < .08: return rng.choice([float("inf"), -float("inf"), 1e-310, 1.7e308, -0.0])
    return rng.choice([1, -1]) * rng.uniform(1, 10) * 10.0 ** rng.randint(-40, 40)

def cut(rng, data, head, reclen):
    """a shortened or lengthened copy, and what was done"""
    k = rng.random(); n = len(data)
    if k < .5 or not data: return data
    if k < .65: return data[:rng.randrange(n + 1)]
    if k < .8: return data[:head + reclen * rng.randrange((n - head) // reclen + 1)]
    if k < .9: return data[:n - rng.choice([1, 7, 8, 9, 16, 24])]
    return data + bytes(rng.choice([1, 8, 16]))

def ker(chk, seed):
    rng = __import__("random").Random(seed); W = chk.dirnew(); kind = rng.choice(["K", "C", "PTAM"])
    nval = 1 + 2 * len(KCOLS) if kind != "PTAM" else 3 * len(PCOLS)
    recs = [[rnd(rng) for _ in range(nval)] for _ in range(rng.choice([0, 1, 2, 5, 17]))]
    data = cut(rng, b"".join(struct.pack("<%dd" % nval, *r) for r in recs), 0, 8 * nval)
    p = W + "/" + kind + rng.choice(["", "_0001_0.10000", "_x.y", "0"])
    open(p, "wb").write(data); whole = len(data) // (8 * nval)
    rows = [list(struct.unpack("<%dd" % nval, data[8 * nval * k:8 * nval * (k + 1)])) for k in range(whole)]
    names = [kind[0].lower() if kind != "PTAM" else ""] + KCOLS if kind != "PTAM" else [x for c in PCOLS for x in (c + "_k", c)]
    out = rec(chk, ["ker2asc", p], p, len(data), 0, 8 * nval, -1, True, rows, 7, names)
    shutil.rmtree(W, True); return out

def sacf(chk, seed):
    rng = __import__("random").Random(seed); W = chk.dirnew(); p = W + "/a.sac"
    n = rng.choice([1, 2, 3, 50, 400]); dt = rng.choice([1.0, 0.01, 0.025, 1e-3, 0.3, 7.5]); b = rng.choice([0.0, -3.7, 12.25, 1234.5, -0.013])
    x = [rnd(rng) if rng.random() < .3 else rng.gauss(0, 1) * 10 ** rng.randint(-8, 8) for _ in range(n)]
    x = np.array([v if abs(v) < 1e37 or math.isinf(v) else 1.0 for v in x], dtype="<f4")
    sac.write(p, {"delta": dt, "b": b, "npts": n}, x.astype(float)); raw = open(p, "rb").read(); form = True
    if rng.random() < .2: raw = b"".join(raw[i:i + 4][::-1] for i in range(0, 440, 4)) + raw[440:632] + b"".join(raw[i:i + 4][::-1] for i in range(632, len(raw), 4))
    data = cut(rng, raw, 632, 4)
    k = rng.random()
    if k < .08: data = bytes(rng.randrange(256) for _ in range(len(data))); form = False
    if len(data) < 632: form = False
    open(p, "wb").write(data)
    if k > .95: os.remove(p); form = False
    rows = [[float(v)] for v in x] if form else []
    b32, d32 = float(np.float32(b)), float(np.float32(dt))
    out = rec(chk, ["sac2asc", p], p, len(data), 632, 4, n, form, rows, 7, (), (b32, d32))
    shutil.rmtree(W, True); return out

def dispfile(rng, p, group, drop=None):
    nf, nm = rng.choice([1, 2, 6, 20]), rng.choice([1, 3, 7])
    fr = sorted({round(rng.uniform(0.01, 30), 6) for _ in range(nf)}); nf = len(fr)
    if group: modes = sorted(rng.sample(range(nm + 3), nm))
    else: modes = list(range(nm))
    cn = [rng.randint(0, nm) for _ in fr]; cn[0] = nm
    f = netcdf_file(p, "w"); f.createDimension("freq", nf); f.createDimension("mode", nm)
    def var(n, t, d, v):
        if n == drop: return
        w = f.createVariable(n, t, d); w[:] = v
    c = np.array([[rng.uniform(0.5, 6) for _ in modes] for _ in fr]); u = np.array([[rng.uniform(-1, 6) for _ in modes] for _ in fr])
    ci = np.array([[rng.randrange(5) for _ in modes] for _ in fr])
    var("freq", "d", ("freq",), fr); var("mode", "i", ("mode",), modes); var("cnum", "i", ("freq",), cn); var("c", "d", ("freq", "mode"), c)
    if group: var("u", "d", ("freq", "mode"), u)
    else: var("ciref", "i", ("freq", "mode"), ci)
    if drop != "isRayl": f.isRayl = np.int32(1)
    if not group and drop != "model": f.model = "mod"
    f.close()
    return [[fr[i], int(modes[j]), float(c[i, j]), float(u[i, j]) if group else int(ci[i, j])] for i in range(nf) for j in range(cn[i])]

def disp(chk, seed):
    rng = __import__("random").Random(seed); W = chk.dirnew(); p = W + "/d.nc"; group = rng.random() < .5; form = True; drop = None
    if rng.random() < .2: drop = rng.choice(["freq", "mode", "cnum", "c", "isRayl"] + ([] if group else ["ciref", "model"])); form = False
    rows = dispfile(rng, p, group, drop)
    k = rng.random()
    if k < .07: open(p, "wb").write(bytes(rng.randrange(256) for _ in range(300))); form = False
    elif k < .12: open(p, "wb").close(); form = False
    elif k < .16: os.remove(p); form = False
    out = rec(chk, ["disp2asc", ("-U" if group else "-C") + p, "-N"], p, 0, 0, 1, 0, form, rows if form else [], 6)
    shutil.rmtree(W, True); return out

def real(chk, seed):
    """files the package itself wrote, and what their columns mean: the v columns know nothing of P velocities"""
    rng = __import__("random").Random(seed); W = chk.dirnew(); mod = models.rows(rng, 3, depths=[1.0, 2.0]); outs = []
    cmd = rng.choice(["greenfn", "kernel"]); files = {}
    for k, f in ((0, 1.0), (1, 1.06)):
        m = models.write(W + "/m", [[a, b * f, c, d, e, g] for a, b, c, d, e, g in mod]); o = W + "/o%d" % k
        a = ["greenfn", "-M" + m, "-D3.7/0.3", "-R5", "-N8/0.3", "-Cp", "-L3", "-K+f", "-S", "-O" + o, "-s"] if cmd == "greenfn" else ["kernel", "-M" + m, "-D3.7/0.3", "-C1/4/0.5", "-F0.3/0.9/0.3", "-O" + o]
        r = chk.grt(a)
        for b in (o, o + "_grtstats"):
            for d, _, fs in os.walk(b):
                for x in fs:
                    if x[:2] in ("K_", "C_") or x.startswith("PTAM"): files.setdefault((os.path.relpath(d, b), x), []).append(d + "/" + x)
    for key in sorted(files):
        nm = key[1]; nval = 1 + 2 * len(KCOLS) if not nm.startswith("PTAM") else 3 * len(PCOLS)
        d = [open(p, "rb").read() for p in files[key]]
        rows = [[list(struct.unpack("<%dd" % nval, x[8 * nval * k:8 * nval * (k + 1)])) for k in range(len(x) // (8 * nval))] for x in d]
        names = [nm[0].lower()] + KCOLS if not nm.startswith("PTAM") else [x for c in PCOLS for x in (c + "_k", c)]
        o = rec(chk, ["ker2asc", files[key][0]], files[key][0], len(d[0]), 0, 8 * nval, -1, len(rows[0]) > 0, rows[0], 7, names)
        if "PTAM" not in "/".join(key) and len(rows) == 2 and o[0]["ok"]:
            same = {}
            for a, b in zip(*rows):
                for j, c in enumerate(KCOLS):
                    if a[0] == b[0] and a[0] > 0:
                        same.setdefault(c, []).append(all(abs(a[1 + 2 * j + z] - b[1 + 2 * j + z]) <= 1e-9 * abs(complex(*a[1 + 2 * j:3 + 2 * j])) for z in (0, 1)))
            o[0]["ok"] = bool(same) and all(all(v) if c.endswith("v") else not all(v) for c, v in same.items())
            if not o[0]["ok"]: o[0]["exit"] = -99
        outs.append(o)
    shutil.rmtree(W, True)
    return outs

def run(chk):
    chk.tlc("Export", "ExportMC.cfg")
    if chk.tlc("Export", "ExportMCNeg.cfg", expect_ok=False).rc == 0: raise vp.Infra("Export: the lenient reader was accepted")
    n = 12 if chk.thorough else 1
    cases = [(f, "%s/%d/%s/%d" % (chk.pid, chk.seed, f.__name__, k)) for f, m in ((ker, 150), (sacf, 150), (disp, 120)) for k in range(m * n)]
    def corrupt(r):
        if r["exit"] or len(r["rows"]) < 2: return None
        r["got"] = r["got"][:-1]; return r
    chk.judge("ExportTrace", cases, lambda c: c[0](chk, c[1]), lambda c: "%s %s" % (c[0].__name__, c[1]), corrupt=corrupt)
    rs = [o for x in chk.pmap(lambda k: real(chk, "%s/%d/real/%d" % (chk.pid, chk.seed, k)), range(8 * n)) for o in x]
    if not rs: chk.violate("no kernel files written by greenfn -S and kernel")
    else: chk.judge("ExportTrace", rs, lambda o: o, lambda o: "real file: %s" % o[1][0])
    chk.assumptions += ["times of sac2asc are single precision: two and a half steps of the larger of b and i*delta"]
if __name__ == "__main__": vp.main(run, "C22")
