"""C01: the medium a model file denotes (spec: ModelFile, ModelFileMC, ModelFileTrace)"""
import os, json, random, shutil
import vp, sac, stlib
from vp import q as Q

def num(rng, milli):
    """one of many ways of writing milli/1000 exactly"""
    s = "%d.%03d" % (abs(milli) // 1000, abs(milli) % 1000)
    v = rng.randrange(5)
    if v == 0: s = s.rstrip("0").rstrip(".")
    elif v == 1: s = s + "00"
    elif v == 2 and milli: s = "%de-3" % abs(milli)
    elif v == 3 and s.startswith("0.") and milli: s = s[1:]
    return ("-" if milli < 0 else rng.choice(["", "", "+"]) if rng.random() < .1 else "") + s

def text(rng, lines):
    eol = rng.choice(["\n", "\n", "\r\n"]); out = []
    for l in lines:
        if l["k"] == "skip":
            out.append(rng.choice(["", "   ", "\t", "# 1 2 3 4 5 6", "#", "## note", "# Thk Vp Vs Rho"])); continue
        cols = [num(rng, l["v"][j]) if j < 4 else (str(l["v"][j]) + rng.choice(["", ".0", ""])) for j in range(l["n"])]
        sep = rng.choice([" ", "  ", "\t", " \t "])
        out.append(rng.choice(["", "", " ", "\t"]) + sep.join(cols) + rng.choice(["", "", " ", "\t"]))
    return eol.join(out) + ("" if rng.random() < .15 else eol)

def observe(chk, c):
    rng = random.Random(c["seed"]); W = chk.dirnew(); p = W + "/mod"
    open(p, "w", newline="").write(text(rng, c["file"]))
    zs, zr = num(rng, c["zs"]).lstrip("+"), num(rng, c["zr"]).lstrip("+")
    rec = {"ok": True, "file": c["file"], "zs": c["zs"], "zr": c["zr"], "has": c["has"],
           "st": {"rc0": False, "out": False, "src": [0] * 3, "rcv": [0] * 3, "model": []},
           "dy": {"rc0": False, "out": False, "src": [0] * 3, "rcv": [0] * 3, "qinv": [0, 0], "tt": [0, 0]}, "tv": {"rc0": False, "tt": [0, 0]}}
    raw = {"text": open(p, newline="").read(), "zs": zs, "zr": zr}
    if c["has"] & 1:
        r = chk.grt(["static", "greenfn", "-M" + p, f"-D{zs}/{zr}", "-X3/4/1", "-Y0/1/1", "-O" + W + "/s.nc"], timeout=60)
        st = rec["st"]; st["rc0"] = r.returncode == 0; st["out"] = os.path.exists(W + "/s.nc"); raw["st"] = [r.returncode, r.stderr[-300:]]
        if st["rc0"]:
            v, a, d = stlib.read(W + "/s.nc")
            st["src"] = [Q(v["src_" + n][0], 1000) for n in ("va", "vb", "rho")]; st["rcv"] = [Q(v["rcv_" + n][0], 1000) for n in ("va", "vb", "rho")]
            st["model"] = [[Q(x, 1000 if j < 4 else 1) for j, x in enumerate(row)] for row in v["model"]]
    if c["has"] & 2:
        r = chk.grt(["greenfn", "-M" + p, f"-D{zs}/{zr}", "-R0", "-N4/0.5", "-Ge", "-s", "-O" + W + "/g"], timeout=60)
        dy = rec["dy"]; dy["rc0"] = r.returncode == 0; raw["dy"] = [r.returncode, r.stderr[-300:]]
        fs = [os.path.join(d, f) for d, _, ff in os.walk(W + "/g") for f in ff if f.endswith(".sac")]
        dy["out"] = len(fs) > 0
        if dy["rc0"] and fs:
            h, _ = sac.read(fs[0])
            dy["rcv"] = [Q(h["user%d" % j], 1000) for j in (1, 2, 3)]; dy["src"] = [Q(h["user%d" % j], 1000) for j in (6, 7, 8)]
            dy["qinv"] = [Q(h["user4"], 1e6), Q(h["user5"], 1e6)]; dy["tt"] = [Q(h["t0"], 1e5), Q(h["t1"], 1e5)]
        r = chk.grt(["travt", "-M" + p, f"-D{zs}/{zr}", "-R0"], timeout=60)
        tv = rec["tv"]; tv["rc0"] = r.returncode == 0; raw["tv"] = r.stdout[-300:]
        if tv["rc0"]:
            w = [l.split() for l in r.stdout.splitlines()]
            w = [[float(x) for x in l] for l in w if len(l) == 3 and all(x.replace(".", "").replace("-", "").replace("e", "").isdigit() for x in l)]
            tv["tt"] = [Q(w[-1][1], 1e5), Q(w[-1][2], 1e5)] if w else [-1, -1]
    shutil.rmtree(W, True)
    return rec, raw

def liquid_level(c):
    """source level with the receiver inside a liquid: declined by the program, left open by the specification"""
    if c["zs"] != c["zr"]: return False
    return any(l["k"] == "row" and l["v"][2] == 0 for l in c["file"])

def rand_case(rng):
    n = rng.choice([1, 2, 3, 4, 5, 7, 10]); six = rng.random() < .6; depth = rng.random() < .4
    liq = rng.random() < .25; lines = []; z = 0; tops = [0]
    for k in range(n):
        h = rng.choice([100, 200, 300, 600, 700, 70, 1100, 5, 1, 333, 2500, rng.randrange(1, 3000)])
        vp = rng.randrange(1500, 8000); vs = 0 if liq and rng.random() < .4 else int(vp / rng.uniform(1.5, 2.2)); rho = rng.randrange(1000, 3500)
        first = z if depth else (h if k < n - 1 else rng.choice([0 if n > 1 else h, h, -500 if n > 1 else h]))
        if k == 0 and not depth and first == 0: first = h
        lines.append({"k": "row", "n": 6 if six else 4, "v": [first, vp, vs, rho, rng.randrange(50, 1000) if six else 0, rng.randrange(50, 1000) if six else 0]})
        z += h; tops.append(z)
    if rng.random() < .2:
        l = rng.choice(lines); b = rng.randrange(8)
        if b == 0: l["n"] = 5
        elif b == 1: l["n"] = 3
        elif b == 2: l["v"][1] = rng.choice([0, -l["v"][1]])
        elif b == 3: l["v"][2] = -l["v"][2] - 1
        elif b == 4: l["v"][3] = rng.choice([0, -1])
        elif b == 5 and six: l["v"][rng.choice([4, 5])] = rng.choice([0, -5])
        elif b == 6: l["v"][0] = -l["v"][0]
        elif b == 7 and n > 2: k = rng.randrange(1, n - 1); lines[k]["v"][0] = lines[k - 1]["v"][0] if depth else 0
    for _ in range(rng.choice([0, 0, 1, 3])): lines.insert(rng.randrange(len(lines) + 1), {"k": "skip", "n": 0, "v": [0] * 6})
    def dep():
        u = rng.random()
        if u < .45: return rng.choice(tops[:-1] if n > 1 else [0])
        if u < .6: return rng.choice(tops) + rng.choice([1, 2, 50])
        if u < .7: return max(0, rng.choice(tops) - 1)
        return rng.randrange(0, min(19000, tops[-1] + 2000))
    zs, zr = dep(), dep()
    if rng.random() < .15: zr = zs
    return {"file": lines, "zs": zs, "zr": zr}

def run(chk):
    chk.tlc("ModelFileMC", "ModelFileMCDeep.cfg" if chk.thorough else "ModelFileMC.cfg", timeout=850)
    r = chk.tlc("ModelFileMC", "ModelFileEmit.cfg")
    vec = [j for j in r.json if "file" in j]
    assert len(vec) > 5000
    cases = []
    for j in chk.rng.sample(vec, 6000 if chk.thorough else 350):
        u = chk.rng.choice([100, 350, 700, 333, 50, 1000])
        f = [dict(l, v=[l["v"][0] * u] + [x * 1000 for x in l["v"][1:4]] + list(l["v"][4:])) for l in j["file"]]
        cases.append({"file": f, "zs": j["zs"] * u, "zr": j["zr"] * u})
    cases += [rand_case(chk.rng) for _ in range(8000 if chk.thorough else 450)]
    # the sums that binary arithmetic gets wrong: 0.1 + 0.7 < 0.8
    for hs, z in (([100, 700, 500], 800), ([100, 200, 500], 300), ([600, 100, 100, 500], 800), ([1100, 2200, 500], 3300)):
        rows = [{"k": "row", "n": 6, "v": [h, 4000 + 500 * k, 2200 + 300 * k, 2500 + 100 * k, 300 + k, 150 + k]} for k, h in enumerate(hs)]
        cases += [{"file": rows, "zs": z, "zr": 0}, {"file": rows, "zs": 0, "zr": z}, {"file": rows, "zs": z, "zr": z}]
    cases = [c for c in cases if not liquid_level(c)]
    for k, c in enumerate(cases): c["seed"] = chk.rng.random(); c["has"] = 3 if k % 3 == 0 or chk.thorough else chk.rng.choice([1, 2])
    def corrupt(t):
        if t["has"] & 1 and t["st"]["rc0"]: t["st"]["src"][0] += 500; return t
    chk.judge("ModelFileTrace", cases, lambda c: observe(chk, c), lambda c: json.dumps(c), corrupt=corrupt)

vp.main(run, "C01")
