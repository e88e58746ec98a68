"""C03: planned Green's-function files (spec: GrnRoot, GrnRootMC, GrnRootTrace)"""
import os, re, json, shutil, hashlib, random, math
import vp, sac
from vp import q as Q

MODEL = [[1.0, 1.5, 0.0, 1.03, 500, 250.0], [2.0, 3.2, 1.7, 2.3, 300, 150], [4.5, 5.4, 3.0, 2.6, 400, 200], [0.0, 6.6, 3.8, 2.9, 800, 400]]
MTXT = "\n".join(" ".join(repr(float(x)) for x in r) for r in MODEL) + "\n"
MREC = [[Q(x, 1000) for x in r[:4]] for r in MODEL]
DEP = {"0": 0, "0.001": 1, "0.5": 500, "0.999": 999, "1.001": 1001, "2": 2000, "3": 3000, "12": 12000, "7.123": 7123, "7.5": 7500, "0.25": 250}
DTX = {"2": ["2", "2.0", "2e0", "+2", "02"], "12": ["12", "12.00", "1.2e1"], "0.5": ["0.5", ".5", "5e-1", "0.50"], "0": ["0", "0.0", "0e0"]}
RV = {"1": 1000, "1.0": 1000, "10": 10000, "12": 12000, "0": 0, "0.5": 500, "5e0": 5000, "3.25": 3250, "1e1": 10000, "100": 100000}
ALLN = {p + f + ch for p in ("", "z", "r") for f, t in (("EX", 0), ("VF", 0), ("HF", 1), ("DD", 0), ("DS", 1), ("SS", 1)) for ch in ("ZRT" if t else "ZR")}

def snap(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds: out[os.path.relpath(os.path.join(d, x), root) + "/"] = ""
        for x in fs:
            p = os.path.join(d, x)
            out[os.path.relpath(p, root)] = hashlib.md5(open(p, "rb").read()).hexdigest() if os.path.isfile(p) else "?"
    return out

def drop(root, s):
    p = {"file": "notes.txt", "dir": "data", "hidden": ".keep", "badname": "m_2_0.5", "othermodel": "other_2_0.5_1"}[s]
    p = os.path.join(root, p)
    if s in ("file", "hidden"): open(p, "w").write("x\n")
    else: os.makedirs(p); open(p + "/a.txt", "w").write("x")
    return os.path.relpath(p, root)

def observe(chk, hist, seed):
    rng = random.Random(seed)
    W = chk.dirnew(); root = W + "/root"
    for m in ("m", "m_2"): open(f"{W}/{m}", "w").write(MTXT)
    steps = []; obs = []; raw = []; used = {}; stray = None; base = rng.choice([8, 9, 12])
    ok = True; before = {}
    for k, h in enumerate(hist, 1):
        st = {"a": h["a"], "q": h["q"], "s": h["s"], "npts": 0, "dt": 0, "b": 0, "wI": 0}
        o = {"rc0": True, "strayok": True, "same": True, "dirs": []}
        if h["a"] == "drop":
            os.makedirs(root, exist_ok=True); stray = drop(root, h["s"])
        else:
            q = h["q"]; nt = base + 3 * k; dt = rng.choice([0.5, 0.25, 0.3]); b = rng.choice([0.0, 0.0, 1.5, 0.75]); up = rng.choice([1, 1, 2])
            while nt * up in used.values(): nt += 1
            zeta = rng.choice([0.8, 0.8, 1.2])
            st.update(npts=nt * up, dt=Q(dt / up, 1000000), b=Q(b, 1000), wI=Q(zeta * math.pi / (nt * dt), 1000000))
            def txt(v): return rng.choice(DTX.get(v, [v]))
            ds = sorted(q["ds"], key=lambda x: DEP[x]); dr = sorted(q["dr"], key=lambda x: DEP[x]); rr = sorted(q["r"], key=lambda x: RV[x])
            inroot = os.path.isfile(root + "/" + q["model"]) and rng.random() < .4
            opts = ["-M%s/%s" % (root if inroot else W, q["model"]), "-O" + root + rng.choice(["", "/"]), "-R" + ",".join(rr),
                    "-N%d/%r%s%s" % (nt, dt, "+n%d" % up if up > 1 else "", "+w%r" % zeta if zeta != 0.8 else ""), "-s"]
            if len(ds) == 1 and len(dr) == 1 and rng.random() < .5: opts.append("-D%s/%s" % (txt(ds[0]), txt(dr[0])))
            else: opts += ["-Ds" + ",".join(map(txt, ds)), "-Dr" + ",".join(map(txt, dr))]
            sel = list(q["sel"]); rng.shuffle(sel)
            if len(sel) < 4 or rng.random() < .5: opts.append("-G" + "".join(sel))
            if q["upar"]: opts.append("-e")
            if b or rng.random() < .3: opts.append("-E%r" % b)
            rng.shuffle(opts)
            r = chk.grt(["greenfn"] + opts)
            o["rc0"] = r.returncode == 0
            raw.append({"opts": opts, "rc": r.returncode, "err": r.stderr[-300:]})
        after = snap(root) if os.path.isdir(root) else {}
        o["same"] = after == before
        if h["a"] == "run":
            asked = {"%s_%s_%s_%s" % (h["q"]["model"], a, b_, c) for a in h["q"]["ds"] for b_ in h["q"]["dr"] for c in h["q"]["r"]}
            kept = all(after.get(p) == v for p, v in before.items() if p not in ("command", h["q"]["model"]) and p.split("/")[0] not in asked)
            o["strayok"] = kept and (stray is None or any(p.split("/")[0] == stray.split("/")[0] for p in after))
            if o["rc0"]:
                cmd = open(root + "/command").read().splitlines()
                if open(root + "/" + h["q"]["model"]).read() != MTXT: o["strayok"] = False; raw.append("model copy differs")
                if not cmd or not all(x in cmd[-1].split() for x in opts): o["strayok"] = False; raw.append("command not recorded")
                used[k] = nt * up
        steps.append(st)
        for name in sorted(os.listdir(root)) if os.path.isdir(root) else []:
            p = root + "/" + name
            if not os.path.isdir(p) or (stray and name == stray.split("/")[0]): continue
            m = re.match(r"^(m|m_2)_([^_]+)_([^_]+)_([^_]+)$", name)
            if not m: o["strayok"] = False; continue
            groups = {}
            for f in sorted(os.listdir(p)):
                hd, x = sac.read(p + "/" + f)
                run = next((kk for kk, n in used.items() if n == hd["npts"]), 0)
                good = f.endswith(".sac") and f[:-4] in ALLN and hd["kcmpnm"] == f[:-4] and hd["_size"] == 632 + 4 * hd["npts"] and bool((x == x).all()) and hd["o"] == 0
                key = (run, good, Q(hd["evdp"], 1000), Q(hd["stel"], -1), Q(hd["dist"], 1000), hd["npts"], Q(hd["delta"], 1000000), Q(hd["b"], 1000),
                       Q(hd["user0"], 1000000), *(Q(hd["user%d" % j], 1000) for j in (6, 7, 8, 1, 2, 3)))
                groups.setdefault(key, []).append(f[:-4])
            o["dirs"].append({"model": m.group(1), "ds": m.group(2), "dr": m.group(3), "r": m.group(4), "groups": [
                {"files": fs, "run": g[0], "nameok": g[1] and g[0] > 0, "evdp": g[2], "rcv": g[3], "dist": g[4], "npts": g[5], "dt": g[6], "b": g[7], "wI": g[8],
                 "src": list(g[9:12]), "rcvm": list(g[12:15])} for g, fs in groups.items()]})
        obs.append(o); before = after
    shutil.rmtree(W, True)
    return {"ok": ok, "model": MREC, "dep": DEP, "rv": RV, "steps": steps, "obs": obs}, raw

def rand_hist(rng):
    h = []
    for k in range(rng.choice([1, 2, 3, 4])):
        if k and rng.random() < .08:
            if any(x["a"] == "drop" for x in h): continue
            h.append({"a": "drop", "s": rng.choice(["file", "dir", "hidden", "badname", "othermodel"]), "q": h[0]["q"]}); continue
        rs = {}
        for x in rng.sample(list(RV), rng.choice([1, 1, 2, 3])): rs[RV[x]] = x
        ds = rng.sample(list(DEP), rng.choice([1, 1, 2, 3]))
        # a receiver level with the source inside a liquid layer is refused by the program (see C01): not part of these histories
        dr = rng.sample([x for x in DEP if not (x in ds and DEP[x] < 1000)], rng.choice([1, 1, 2, 3]))
        h.append({"a": "run", "s": "", "q": {"model": "m" if rng.random() < .92 else "m_2", "ds": ds,
                  "dr": dr, "r": sorted(rs.values()),
                  "sel": sorted(rng.sample(["e", "v", "h", "s"], rng.choice([1, 2, 3, 4]))), "upar": rng.random() < .4}})
    return h

def run(chk):
    r = chk.tlc("GrnRootMC", "GrnRootMCDeep.cfg" if chk.thorough else "GrnRootMC.cfg")
    hs = [j["hist"] for j in r.json if "hist" in j]
    assert len(hs) > 100
    if chk.thorough and len(hs) > 900: hs = chk.rng.sample(hs, 900)
    hs += [rand_hist(chk.rng) for _ in range(900 if chk.thorough else 150)]
    cases = [(h, chk.rng.random()) for h in hs]
    def corrupt(t):
        for o in t["obs"]:
            if o["dirs"] and o["dirs"][0]["groups"]:
                o["dirs"][0]["groups"][0]["evdp"] += 700; return t
    chk.judge("GrnRootTrace", cases, lambda c: observe(chk, *c), lambda c: json.dumps(c[0]), corrupt=corrupt)

vp.main(run, "C03")
