"""C12: receiver files (spec: RcvFile, RcvFileMC, RcvFileTrace)"""
import os, json, shutil
import numpy as np
import vp, stlib
from vp import q as Q

ANG = [(30.5, 45, -90), (0, 10, 180), (200, 90, 0), (359, 1, 12.25)]

def num(rng, v):
    v = float(v)
    return rng.choice([repr(v), "%g" % v, "%+.3f" % v, "%.6e" % v, "%g" % v if v != int(v) else str(int(v)), "%E" % v])

def render(rng, line, i, strip6=False):
    k = line["k"]; ws = lambda: rng.choice([" ", "  ", "\t", " \t "])
    lead = rng.choice(["", "", " ", "\t"]); trail = rng.choice(["", "", " ", "\t"])
    if k == "note":
        return rng.choice(["", "   ", "\t", "# 1 2 3", "#", "  # comment", "#1 2 3 4 5 6"])
    vals = [num(rng, line["n"]), num(rng, line["e"]), num(rng, line["d"])]
    if k == "junk":
        j = rng.randrange(3); vals[j] = rng.choice(["abc", "nan", "inf", "1..2", "-", "x1", "1,5", "2;", "1e999"])
    if not strip6 and line["cols"] == 6: vals += [repr(float(x)) for x in ANG[i % 4]]
    elif line["cols"] != 6 or strip6:
        c = 3 if strip6 else line["cols"]
        vals = (vals + ["1", "2", "3", "4", "5"])[:c]
    s = lead + ws().join(vals) + trail
    if k == "data" and rng.random() < .15: s += rng.choice([" # note", "\t#x 9 9"])
    return s

def write(rng, path, lines, strip6=False):
    nl = rng.choice(["\n", "\n", "\r\n"])
    txt = nl.join(render(rng, l, i, strip6) for i, l in enumerate(lines))
    if rng.random() < .8: txt += nl
    with open(path, "w", newline="") as f: f.write(txt)
    return txt

def probe(chk):
    """a library whose explosion field is depth on Z and distance on R"""
    p = chk.scratch + "/probe.nc"
    rs = [0.0, 1.0, 2.0, 50.0]; dr = [0.0, 1.0, 40.0]
    g = [[[[[dr[b], rs[x], 0.0] if k == 0 else [0.0] * 3 for k in range(6)] for x in range(4)] for b in range(3)]]
    stlib.write(p, [5.0], dr, [0.0], rs, g)
    return p

def observe(chk, lib, lines, seed, zne=False):
    import random
    rng = random.Random(seed)
    d = chk.dirnew(); txt = write(rng, d + "/r.txt", lines)
    r = chk.grt(["static", "syn", "-G" + lib, "-S1e20", "-Q" + d + "/r.txt", "-O" + d + "/o.nc"])
    rec = {"file": lines, "rc0": r.returncode == 0, "wrote": os.path.exists(d + "/o.nc"), "pts": [], "zr": [], "angles": False, "same": True}
    raw = {"text": txt, "rc": r.returncode, "err": r.stderr[-300:]}
    if rec["rc0"] and rec["wrote"]:
        v, a, _ = stlib.read(d + "/o.nc")
        rec["pts"] = [[Q(v[k][i], 100) for k in ("north", "east", "depth")] for i in range(v["north"].size)]
        rec["zr"] = [[Q(v["Z"][i], 100), Q(v["R"][i], 100)] for i in range(v["Z"].size)]
        rec["angles"] = all(k in v for k in ("strike", "dip", "rake"))
        if rec["angles"]:
            want = [ANG[i % 4] for i, l in enumerate(lines) if l["k"] == "data"]
            rec["same"] = bool(len(want) == v["strike"].size and np.allclose(np.array(want), np.stack([v["strike"], v["dip"], v["rake"]], 1)))
            write(rng, d + "/r3.txt", lines, strip6=True)
            r2 = chk.grt(["static", "syn", "-G" + lib, "-S1e20", "-Q" + d + "/r3.txt", "-O" + d + "/o3.nc"])
            if r2.returncode: rec["same"] = False
            else:
                w = stlib.read(d + "/o3.nc")[0]
                rec["same"] = rec["same"] and all(np.array_equal(v[c], w[c]) for c in "ZRT")
        elif any(k in v for k in ("strike", "dip", "rake")): rec["same"] = False
    shutil.rmtree(d, True)
    return rec, raw

def run(chk):
    lib = probe(chk)
    r = chk.tlc("RcvFileMC", "RcvFileMCDeep.cfg" if chk.thorough else "RcvFileMC.cfg")
    files = [j for j in r.json if "file" in j]
    assert len(files) > 900
    cases = []
    seen = set()
    for f in files:
        cases.append((f["file"], chk.rng.random()))
    if chk.thorough and len(cases) > 6000: cases = chk.rng.sample(cases, 6000)
    # longer files
    def row(cols): return {"k": "data", "n": chk.rng.randint(-30, 30), "e": chk.rng.randint(-30, 30), "d": chk.rng.randint(0, 40), "cols": cols}
    for _ in range(2500 if chk.thorough else 500):
        cols = chk.rng.choice([3, 6]); n = chk.rng.choice([1, 5, 8, 17, 40])
        ls = [row(cols) if chk.rng.random() < .8 else {"k": "note", "n": 0, "e": 0, "d": 0, "cols": 0} for _ in range(n)]
        if chk.rng.random() < .25:
            bad = row(cols); m = chk.rng.choice(["cols", "junk", "neg", "mix"])
            if m == "cols": bad["cols"] = chk.rng.choice([1, 2, 4, 5, 7])
            elif m == "junk": bad["k"] = "junk"; bad["cols"] = 3
            elif m == "neg": bad["d"] = -chk.rng.randint(1, 5)
            else: bad["cols"] = 9 - cols
            ls.insert(chk.rng.randint(0, len(ls)), bad)
        cases.append((ls, chk.rng.random()))
    def corrupt(t):
        if len(t["pts"]) >= 2 and t["pts"][0] != t["pts"][1]:
            t["pts"][0], t["pts"][1] = t["pts"][1], t["pts"][0]; return t
        return None
    recs, _ = chk.judge("RcvFileTrace", cases, lambda c: observe(chk, lib, *c), lambda c: json.dumps(c[0]), corrupt=corrupt)
    # the emitted verdicts agree with what the program did (same data, the other direction)
    for f, rec in zip(files, recs):
        if not chk.thorough and "rc0" in rec and bool(f["ok"]) != rec["rc0"]:
            chk.violate("file %s: specification says %s" % (json.dumps(f["file"]), "accept" if f["ok"] else "refuse"), rec)
    chk.assumptions += ["one point at a time a row is only compared through position, depth, distance and the probe field"]

vp.main(run, "C12")
