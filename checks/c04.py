"""C04: which stored Green's function syn uses (spec: Select, SelectMC, SelectTrace)"""
import os, json, shutil, random
import numpy as np
import vp, gf, sac
from vp import q as Q
AX = [["1", "10", "100"], ["1", "1.001", "1.002"], ["1000.3", "1000.301", "1000.302"], ["0", "0.001", "0.002"], ["2.5", "25", "0.25"], ["3", "30", "0.3"],
      ["0.333", "0.334", "33.3"], ["7", "7.125", "17"], ["100.001", "100.002", "100"], ["650.25", "650.253", "65.025"]]

def text(rng, t):
    v = float(t)
    return rng.choice([t, t, repr(v), "%.6f" % v, "%.9g" % v, "+" + t, "%.8e" % v])

def observe(chk, case):
    rng = random.Random(case["seed"])
    st, sel, leaf = case["stored"], case["sel"], case["leaf"]
    ax = case["ax"]
    W = chk.dirnew(); root = W + "/" + rng.choice(["root", "r_1_2_3", "GRN"]); os.makedirs(root)
    names = []; fams = case["fams"]
    order = list(range(len(st))); rng.shuffle(order)
    for k in order:
        e = st[k]; t = [ax[a][e[a] - 1] for a in range(3)]
        nm = "m_%s_%s_%s" % tuple(t)
        while nm in names or os.path.exists(root + "/" + nm): nm += "0" if "." in nm.split("_")[-1] else ".0"
        names.append(nm)
        S = [[[0.0] * 3 for _ in range(6)] for n in range(4)]
        for n in range(4):
            for f in range(6): S[n][f] = [float((k + 1) * 8 + n)] * 3
        gf.write_leaf(root + "/" + nm, float(t[2]), S, depsrc=float(t[0]), deprcv=float(t[1]), fams=fams)
        if k == leaf - 1: target = root + "/" + nm
    if leaf == 0: target = root
    for d in case["decoy"]:
        if d == "hidden" and st: shutil.copytree(root + "/" + names[0], root + "/.old")
        if d == "nosac": os.makedirs(root + "/m_5_5_5"); open(root + "/m_5_5_5/x.txt", "w").write("1")
        if d == "file": open(root + "/m_77_77_77", "w").write("x"); open(root + "/command", "w").write("x")
        if d == "empty": os.makedirs(root + "/m_9_9_9")
    opts = ["-G" + target + rng.choice(["", "", "/"]), "-A0", "-S1e15" if fams == [1, 2] else "-S1e20", "-O" + W + "/out", "-s"]
    if fams == [1, 2]: opts.append("-F1/0/0")
    for a, o in enumerate(("-Ds", "-Dr", "-R")):
        if sel[a]: opts.append(o + text(rng, ax[a][sel[a][0] - 1]))
    rng.shuffle(opts)
    r = chk.grt(["syn"] + opts)
    rec = {"stored": [[Q(float(ax[a][e[a] - 1]), 1000) for a in range(3)] for e in st],
           "sel": [[Q(float(ax[a][s[0] - 1]), 1000)] if s else [] for a, s in enumerate(sel)], "leaf": leaf,
           "rc0": r.returncode == 0, "wrote": os.path.exists(W + "/out"), "picked": 0, "hdr": [0, 0, 0]}
    if r.returncode == 0:
        h, z = sac.read(W + "/out/Z.sac"); h2, y = sac.read(W + "/out/R.sac")
        ks = {int(round(abs(x) - n)) for X in (z, y) for n, x in enumerate(X)}
        k = ks.pop() if len(ks) == 1 else 0
        rec["picked"] = k // 8 if k % 8 == 0 else 0
        rec["hdr"] = [Q(h["evdp"], 1000), Q(h["stel"], -1), Q(h["dist"], 1000)]
    raw = {"opts": opts, "err": r.stderr[-300:], "names": names}
    shutil.rmtree(W, True)
    return rec, raw

def run(chk):
    r = chk.tlc("SelectMC")
    vec = [j for j in r.json if "stored" in j]
    assert len(vec) > 30000
    cases = []
    hit = [v for v in vec if v["ans"] != 0]; miss = [v for v in vec if v["ans"] == 0]
    n = (12000, 12000) if chk.thorough else (1500, 2000)
    pick = chk.rng.sample(hit, min(n[0], len(hit))) + chk.rng.sample(miss, min(n[1], len(miss)))
    for v in pick:
        cases.append({"stored": v["stored"], "sel": v["sel"], "leaf": v["leaf"], "ax": [chk.rng.choice(AX) for _ in range(3)], "seed": chk.rng.random(),
                      "decoy": [d for d in ("hidden", "nosac", "file", "empty") if chk.rng.random() < .2], "fams": chk.rng.choice([[0], [0], [0, 1, 3], [1, 2]]) })
    # larger libraries
    for _ in range(3000 if chk.thorough else 500):
        vals = [[a, b, c] for a in (1, 2, 3) for b in (1, 2, 3) for c in (1, 2, 3)]
        st = chk.rng.sample(vals, chk.rng.choice([1, 3, 9, 20, 27]))
        e = chk.rng.choice(st); sel = [[x] if chk.rng.random() < .8 else [] for x in e]
        if chk.rng.random() < .2: a = chk.rng.randrange(3); sel[a] = [chk.rng.choice([1, 2, 3])]
        cases.append({"stored": st, "sel": sel, "leaf": 0, "ax": [chk.rng.choice(AX) for _ in range(3)], "seed": chk.rng.random(), "decoy": [], "fams": [0]})
    def corrupt(t):
        if t["rc0"] and len(t["stored"]) > 1: t["picked"] = t["picked"] % len(t["stored"]) + 1; return t
    chk.judge("SelectTrace", cases, lambda c: observe(chk, c), lambda c: json.dumps(c), corrupt=corrupt)
    chk.assumptions.append("two values on an axis differ by at least 0.001 km; the numerical tolerance of the match itself is only probed by different spellings and float32 headers")

vp.main(run, "C04")
