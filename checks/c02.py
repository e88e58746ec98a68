"""C02: lists and ranges (spec: Ranges, RangesMC, RangesTrace)"""
import os, re, json, shutil, random
import vp, stlib, models, sac
from vp import q as Q
UNITS = [1.0, 0.1, 0.01, 0.25, 0.05, 0.3, 0.001, 2.5, 0.7]

def text(rng, k, u):
    """decimal text of k*u without float noise"""
    from fractions import Fraction
    from decimal import Decimal
    d = Decimal(k) * Decimal(repr(u))
    t = format(d.normalize(), "f") if d else "0"
    r = rng.random()
    if r < .15 and "." in t: t += "0"
    elif r < .25: t = "%sE0" % t if r < .2 else "%se-1" % format((d * 10).normalize(), "f")
    elif r < .3 and "." not in t: t += ".0"
    elif r < .33 and not t.startswith("-"): t = "+" + t
    return t

def spec_text(rng, case, d, plus=True):
    u = case["u"]; ts = [text(rng, k, u) for k in case["v"]]
    if not plus: ts = [t.replace("+", "").replace("E0", "") for t in ts]
    if case["kind"] == "range": return "/".join(ts)
    if case["kind"] == "list": return ",".join(ts)
    nl = rng.choice(["\n", "\r\n"])
    open(d + "/list.txt", "w", newline="").write(nl.join(rng.choice(["", " "]) + t + rng.choice(["", " ", "\t"]) for t in ts) + rng.choice(["", nl]))
    return d + "/list.txt"

MOD = "2 3 1.7 2.3 300 150\n3 5 2.9 2.5 300 150\n0 7 4 3 300 150\n"

def observe(chk, case):
    rng = random.Random(case["seed"]); d = chk.dirnew(); u = case["u"]; cmd = case["cmd"]
    m = d + "/m"; open(m, "w").write(MOD)
    t = spec_text(rng, case, d, plus=cmd not in ("eigenv", "kernelF", "eigenfnF", "disp2asc"))
    vals = []; wrote = False; o = d + "/o"
    def nc(k, p=None):
        return list(stlib.read(p or o)[0][k])
    try:
        if cmd == "travt":
            r = chk.grt(["travt", "-M" + m, "-D1/0", "-R" + t])
            for l in r.stdout.splitlines():
                w = l.split()
                if len(w) == 3 and re.match(r"^[-+0-9.eE]+$", w[0]): vals.append(float(w[0]))
            wrote = bool(vals)
        elif cmd in ("okadaX", "okadaY"):
            a, b = ("X", "Y") if cmd == "okadaX" else ("Y", "X")
            r = chk.grt(["okada", "-I6/3.4/2.7", "-S1e16", "-Ds5", "-Dr0", f"-{a}{t}", f"-{b}0/1/1", "-O" + o])
            if r.returncode == 0: vals = nc("north" if a == "X" else "east")
        elif cmd in ("ssynX", "ssynY"):
            a, b = ("X", "Y") if cmd == "ssynX" else ("Y", "X")
            r = chk.grt(["static", "syn", "-G" + chk.lib, "-S1e20", f"-{a}{t}", f"-{b}0/1/1", "-O" + o])
            if r.returncode == 0: vals = nc("north" if a == "X" else "east")
        elif cmd in ("sgrnX", "sgrnY", "sgrnR", "sgrnDs", "sgrnDr"):
            opt = {"X": "0/1/1", "Y": "0/1/1", "Ds": "4", "Dr": "0"}; k = cmd[4:]; opt[k] = t
            if k == "R": del opt["X"], opt["Y"]
            r = chk.grt(["static", "greenfn", "-M" + m, *["-%s%s" % x for x in opt.items()], "-O" + o])
            if r.returncode == 0: vals = nc({"X": "north", "Y": "east", "R": "east", "Ds": "depsrc", "Dr": "deprcv"}[k])
        elif cmd in ("grnR", "grnDs", "grnDr"):
            opt = {"R": "5", "Ds": "4", "Dr": "0.5"}; k = cmd[3:]; opt[k] = t
            r = chk.grt(["greenfn", "-M" + m, *["-%s%s" % x for x in opt.items()], "-N4/1", "-Ge", "-O" + o, "-s"])
            if r.returncode == 0:
                for n in os.listdir(o):
                    if os.path.isdir(o + "/" + n):
                        h = sac.read(o + "/" + n + "/EXZ.sac")[0]; nm = n.split("_")
                        v = {"R": h["dist"], "Ds": h["evdp"], "Dr": -h["stel"] / 1000}[k]; w = float(nm[{"R": 3, "Ds": 1, "Dr": 2}[k]])
                        vals.append(w if abs(v - w) < 1e-5 * (1 + abs(w)) else -999.0)
                vals.sort()
        elif cmd == "lamb":
            r = chk.grt(["lamb1", "-P0.25", "-T" + t, "-A30"])
            vals = [float(l.split()[0]) for l in r.stdout.splitlines() if l.strip() and not l.startswith("#") and len(l.split()) == 10]
            wrote = bool(vals)
        elif cmd in ("kernelF", "kernelC"):
            r = chk.grt(["kernel", "-M" + m, "-D1/0", "-C" + (t if cmd == "kernelC" else "2/3/0.5"), "-F" + (t if cmd == "kernelF" else "0.5/1/0.5"), "-O" + o, "-P1"])
            if r.returncode == 0:
                fs = sorted(os.listdir(o + "/m_1_0"))
                if cmd == "kernelF": vals = [float(f.split("_")[2]) for f in fs]
                else:
                    rr = chk.grt(["ker2asc", o + "/m_1_0/" + fs[0]])
                    vals = [float(l.split()[0]) for l in rr.stdout.splitlines() if l.strip() and not l.startswith("#")]
        elif cmd == "eigenv":
            r = chk.grt(["eigenv", "-M" + m, "-SR", "-F" + t + ("+p" if case["class"] == "per" else ""), "-C" + o, "-P1", "-s"])
            if r.returncode == 0:
                vals = nc("freq")
                if case["class"] == "per": vals = [1.0 / x for x in vals]
        wrote = wrote or os.path.exists(o)
        rec = {"class": case["class"], "kind": case["kind"], "v": case["v"], "rc0": r.returncode == 0, "wrote": wrote, "vals": [Q(float(x) / u, 1000) for x in vals]}
        raw = {"cmd": cmd, "text": t, "u": u, "rc": r.returncode, "err": r.stderr[-200:], "vals": [float(x) for x in vals][:50]}
    finally:
        shutil.rmtree(d, True)
    return rec, raw

CMDS = {"dist": ["travt", "travt", "sgrnR", "sgrnDs", "sgrnDr", "grnR", "grnDs", "grnDr"], "axis": ["okadaX", "okadaY", "ssynX", "ssynY", "sgrnX", "sgrnY"], "time": ["lamb"],
        "freq": ["eigenv"], "per": ["eigenv"], "freq2": ["kernelF"], "cvel": ["kernelC"]}

def run(chk):
    chk.lib = chk.scratch + "/lib.nc"
    stlib.write(chk.lib, [5.0], [0.0], [0.0], [0.0, 1e5], [[[[[0.0] * 3] * 6] * 2]])
    r = chk.tlc("RangesMC")
    vec = [j for j in r.json if "class" in j]
    assert len(vec) > 5000
    good = [v for v in vec if v["ok"]]; bad = [v for v in vec if not v["ok"]]
    if not chk.thorough:
        good = good if len(good) < 1100 else chk.rng.sample(good, 1100); bad = chk.rng.sample(bad, 1100)
    def unit(c): return chk.rng.choice([x for x in UNITS if not (c in ("freq", "per", "freq2") and x < 0.05) and not (c == "cvel" and x < .25)])
    cases = []
    for v in good + bad:
        cases.append({"class": v["class"], "kind": v["kind"], "v": v["v"], "u": unit(v["class"]), "cmd": chk.rng.choice(CMDS[v["class"]]), "seed": chk.rng.random()})
    # longer progressions on exact and inexact decimals
    for _ in range(3000 if chk.thorough else 600):
        c = chk.rng.choice(["dist", "axis", "time", "dist", "axis", "freq", "per"]); d = chk.rng.choice([1, 1, 2, 3, 7]); n = chk.rng.choice([2, 5, 9, 10, 30, 99] if c in ("axis", "time") else [2, 4, 9, 11])
        a = chk.rng.randint(-50, 50) if c == "axis" else chk.rng.randint(0, 60)
        b = a + n * d + (chk.rng.randint(0, d - 1) if chk.rng.random() < .5 else 0)
        cmd = chk.rng.choice(CMDS[c])
        if cmd in ("sgrnDs", "sgrnDr", "grnDs", "grnDr") and n > 5: cmd = "travt"
        cases.append({"class": c, "kind": "range", "v": [a, b, d], "u": unit(c), "cmd": cmd, "seed": chk.rng.random()})
    for _ in range(1000 if chk.thorough else 200):
        n = chk.rng.choice([1, 4, 9]); v = sorted(chk.rng.sample(range(0, 400), n))
        if chk.rng.random() < .25 and n > 1: k = chk.rng.randrange(1, n); v[k] = chk.rng.choice([v[k - 1], v[k - 1] - 1, -1])
        cases.append({"class": "dist", "kind": chk.rng.choice(["list", "file"]), "v": v, "u": unit("dist"), "cmd": chk.rng.choice(["travt", "sgrnR", "grnR", "sgrnDr"]), "seed": chk.rng.random()})
    def corrupt(t):
        if len(t["vals"]) > 1: t["vals"].pop(); return t
    chk.judge("RangesTrace", cases, lambda c: observe(chk, c), lambda c: json.dumps(c), corrupt=corrupt)

vp.main(run, "C02")
