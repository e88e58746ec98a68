"""C24: Python wrappers run exactly the documented command (spec: Wrapper, WrapperMC, WrapperTrace)"""
import json, os, re, shutil, stat, subprocess, glob as _glob
import numpy as np
import vp, sac, models
PY = "/opt/pygrt-venv/bin/python"
can = lambda x: "%.15g" % (float(x) + 0.0)
HEX = {"e": "EX", "v": "VF", "h": "HF", "s": "DC"}
B = {"f": "free", "r": "rigid", "h": "halfspace"}
NONE = ["none"]
EMPTYV = {"v": NONE, "neg": False, "zero": False, "asc": True, "bad": False}

def norm(k, v):
    """typed value -> the spec's argument record"""
    t = v[0]
    r = dict(EMPTYV)
    if t == "none": return r
    if t == "bool": r["v"] = ["val", v[1]]; return r
    if t == "str" and k in ("depsrc", "deprcv", "dists", "modelparams", "freqband"): r["v"] = ["val", v[1]]; r["bad"] = True; return r
    if t in ("str", "path"):
        s = v[1]
        if k == "converg_method": s = s.upper()
        elif k not in ("topbound", "botbound", "time_function"):
            s = os.path.normpath(s) if not s.startswith("./") else os.path.normpath(s)
        r["v"] = ["val", s]; r["bad"] = k == "modelpath" and not os.path.isfile(s)
        return r
    if t == "slist": r["v"] = ["val"] + sorted({x.upper() for x in v[1:]}); return r
    if t in ("int", "ilist"):
        r["v"] = ["val"] + [str(int(x)) for x in v[1:]] if t == "ilist" or k in INTS else ["val"] + [can(x) for x in v[1:]]
        r["neg"] = any(int(x) < 0 for x in v[1:]); r["zero"] = all(int(x) == 0 for x in v[1:]); return r
    xs = [float(x) for x in v[1:]]
    r["v"] = ["val"] + [can(x) for x in xs]
    r["neg"] = any(x < 0 for x in xs); r["zero"] = len(xs) > 0 and all(x == 0 for x in xs)
    r["asc"] = all(a < b for a, b in zip(xs, xs[1:])); r["bad"] = t == "nest" or (t in ("num", "np") and k in ("freqband", "modelparams"))
    return r

INTS = ("nt", "upsampling_n", "integrate_order", "differentiate_order")
F, T = ["bool", "F"], ["bool", "T"]
num = lambda x: ["num", repr(float(x))]
DEF = {
 "new": dict(grn=NONE, stgrn=NONE, modelpath=NONE, topbound=["str", "free"], botbound=["str", "halfspace"]),
 "compute_grn": dict(upsampling_n=["int", "1"], freqband=["tup", "-1", "-1"], zeta=num(.8), keepAllFreq=F, vmin_ref=num(0), keps=num(-1), ampk=num(2), k0=num(50), use_kmax_ref=F,
    Length=num(0), filonLength=num(0), safilonTol=num(0), filonCut=num(0), converg_method=["str", "AUTO"], delayT0=num(0), delayV0=num(0), ref_first_p=F, skipImagComps=F, calc_upar=F,
    gf_source=NONE, statsidxs=NONE, print_log=T),
 "compute_static_grn": dict(dists=NONE, norths=NONE, easts=NONE, keps=num(-1), k0=num(50), use_kmax_ref=F, Length=num(15), filonLength=num(0), safilonTol=num(0), filonCut=num(0),
    converg_method=["str", "AUTO"], calc_upar=F, stats=F),
 "compute_syn": dict(depsrc=NONE, deprcv=NONE, dist=NONE, scale_with_mu=F, strike=NONE, dip=NONE, rake=NONE, force=NONE, moment_tensor=NONE, time_function=NONE, integrate_order=NONE,
    differentiate_order=NONE, zne=F, calc_upar=F, return_result=F),
 "compute_static_syn": dict(depsrc=NONE, deprcv=NONE, norths=NONE, easts=NONE, recv_points=NONE, scale=NONE, scale_with_mu=F, strike=NONE, dip=NONE, rake=NONE, force=NONE, moment_tensor=NONE,
    finite_fault=NONE, subfault_size=NONE, zne=F, calc_upar=F, return_result=F),
 "compute_okada": dict(depsrc=NONE, deprcv=NONE, norths=NONE, easts=NONE, recv_points=NONE, scale=NONE, scale_with_mu=F, strike=NONE, dip=NONE, rake=NONE, finite_fault=NONE, zne=F, calc_upar=F, return_result=F),
 "compute_strain": dict(return_result=F), "compute_rotation": dict(return_result=F), "compute_stress": dict(return_result=F)}
MAND = {"compute_grn": ("depsrc", "deprcv", "dists", "nt", "dt"), "compute_static_grn": ("depsrc", "deprcv"), "compute_syn": ("azimuth", "output_path", "scale"), "compute_static_syn": ("output_path",),
        "compute_okada": ("modelparams", "output_path")}

# ------------------------------------------------------------------ reading a command line back
def nums(s, sep="/"): return [can(x) for x in s.split(sep)]
def mods(s):
    """'head+ax+b..' -> head, {a: 'x', b: ..}; a '+' inside an exponent is not a modifier"""
    p = re.split(r"(?<![0-9][eE])\+(?=[a-z])", s); return p[0], {x[0]: x[1:] for x in p[1:]}
def depth(o, req):
    if "D" in o: a, b = nums(o["D"]); return [a], [b]
    return (nums(o["Ds"], ",") if "Ds" in o else list(NONE)), (nums(o["Dr"], ",") if "Dr" in o else list(NONE))
def zeroed(m, k): return [can(m[k])] if k in m else ["0"]
def flag(o, k): return ["T"] if k in o else ["F"]
def source(o):
    for k in "FTM":
        if k in o: return [k] + nums(o[k])
    return ["EX"]
def scale(o): return ["u" if o["S"][0] == "u" else "1"] + nums(o["S"].lstrip("u"))
def grid(o):
    if "Q" in o: return ["Q", o["Q"]]
    if "X" in o or "Y" in o: return ["XY"] + nums(o["X"]) + nums(o["Y"])
    return list(NONE)
def request(argv):
    sub = [argv[0]] if argv[0] != "static" else argv[:2]
    name = " ".join(sub); rest = argv[len(sub):]
    if name.split()[-1] in ("strain", "rotation", "stress"):
        assert len(rest) == 1; return {"sub": sub, "path": [rest[0]]}
    o = {}
    for x in rest:
        assert x[0] == "-", x
        k = x[1:3] if x[1] == "D" and x[2:3] in ("s", "r") and x[3:4] != "/" else x[1]
        assert k not in o, "option twice: " + x
        o[k] = x[1 + len(k):]
    used = set()
    q = {"sub": sub}
    if name in ("greenfn", "static greenfn"):
        q["model"] = [o.pop("M")]; q["out"] = [o.pop("O")]
        b = o.pop("B"); q["bound"] = [B[[x for x in b if x.islower()][0]], B[[x for x in b if x.isupper()][0].lower()]]
        q["ds"], q["dr"] = depth(o, q); [o.pop(k, 0) for k in ("D", "Ds", "Dr")]
        h, m = mods(o.pop("L")); q["len"] = [can(h)]; q["fil"], q["saf"], q["cut"] = zeroed(m, "l"), zeroed(m, "a"), zeroed(m, "o"); assert not set(m) - set("lao")
        q["conv"] = [{"d": "DCM", "p": "PTAM", "n": "NONE"}[o.pop("C")] if "C" in o else "AUTO"]
        h, m = mods(o.pop("K")); assert h == ""
        q["k0"], q["keps"], q["kref"] = [can(m["k"])], [can(m["e"])], flag(m, "f")
        q["upar"] = flag(o, "e"); o.pop("e", 0)
        q["stats"] = (["all"] if o["S"] == "" else o["S"].split(",")) if "S" in o else list(NONE); o.pop("S", 0)
        if name == "greenfn":
            q["ampk"] = [can(m["s"])]; q["vmin"] = zeroed(m, "v"); assert not set(m) - set("kesfv")
            q["r"] = nums(o.pop("R"), ",")
            h, m = mods(o.pop("N")); q["nt"], q["dt"] = [h.split("/")[0]], [can(h.split("/")[1])]
            q["zeta"], q["ups"], q["all"], q["noimag"] = [can(m.get("w", "0.8"))], [m.get("n", "1")], flag(m, "a"), flag(m, "f"); assert not set(m) - set("wnaf")
            q["band"] = nums(o.pop("H", "-1/-1"))
            e = o.pop("E"); q["delay"] = ["p"] + nums(e[1:]) if e[0] == "p" else ["v"] + nums(e)
            q["src"] = sorted({HEX[x] for x in o.pop("G")}) if "G" in o else ["DC", "EX", "HF", "VF"]
            q["silent"] = flag(o, "s"); o.pop("s", 0)
        else:
            assert not set(m) - set("kef")
            q["place"] = ["R"] + nums(o.pop("R"), ",") if "R" in o else grid(o); [o.pop(k, 0) for k in "XY"]
        assert not o, o
        return q
    q["out"] = [o.pop("O")]; q["zne"] = flag(o, "N"); q["upar"] = flag(o, "e"); [o.pop(k, 0) for k in "Ne"]
    if name == "syn":
        q["lib"] = [o.pop("G")]; q["az"] = nums(o.pop("A")); q["scale"] = scale(o); q["source"] = source(o); q["r"] = nums(o["R"]) if "R" in o else list(NONE)
        q["tf"] = [o["D"]] if "D" in o else list(NONE); o.pop("D", 0)
        q["ds"], q["dr"] = depth(o, q); q["int"] = [o["I"]] if "I" in o else list(NONE); q["dif"] = [o["J"]] if "J" in o else list(NONE)
        [o.pop(k, 0) for k in ("S", "M", "F", "T", "R", "Ds", "Dr", "I", "J")]
    else:
        if name == "okada": q["model"] = nums(o.pop("I"))
        else: q["lib"] = [o.pop("G")]
        q["ds"], q["dr"] = depth(o, q); q["place"] = grid(o)
        if "C" in o:
            h, m = mods(o["C"]); q["source"] = ["C", h] + (nums(m["i"]) if "i" in m else []); assert not set(m) - set("i")
            assert "S" not in o and "M" not in o
        else: q["source"] = source(o) + scale(o)
        [o.pop(k, 0) for k in ("C", "S", "M", "F", "T", "Ds", "Dr", "Q", "X", "Y")]
    assert not o, o
    return q

# ------------------------------------------------------------------ random calls
class Gen:
    def __init__(s, rng, W): s.r = rng; s.W = W
    def x(s, lo=0.0, hi=100.0):
        v = s.r.choice([s.r.uniform(lo, hi), round(s.r.uniform(lo, hi), 3), s.r.uniform(lo, hi) * 10 ** s.r.randint(-3, 3) if lo >= 0 else s.r.uniform(lo, hi)])
        return repr(float("%.15g" % v))
    def num(s, lo=0.0, hi=100.0, p_neg=0.0):
        v = s.x(lo, hi)
        if p_neg and s.r.random() < p_neg: v = "-" + v
        return s.r.choice([["num", v], ["num", v], ["np", v], ["int", str(s.r.randint(int(lo) if lo >= 0 else int(lo), int(hi)))] if not p_neg else ["num", v]])
    def seq(s, n=None, lo=0.0, hi=100.0, asc=True, p_bad=0.04):
        n = s.r.choice([1, 2, 3, 5]) if n is None else n
        xs = sorted({float(s.x(lo, hi)) for _ in range(n)}) if asc else [float(s.x(lo, hi)) for _ in range(n)]
        if asc and len(xs) > 1 and s.r.random() < p_bad: xs = s.r.choice([xs[::-1], [xs[0]] + xs])
        if asc and s.r.random() < p_bad / 2: xs = [-abs(xs[0]) - .5] + xs[1:]
        if asc and s.r.random() < p_bad / 3: return s.r.choice([["seq"], ["str", "10.5"], ["nest", "1", "2"]])
        return [s.r.choice(["seq", "tup", "arr"])] + [repr(x) for x in xs]
    def depth(s): return s.num(0, 50, .03) if s.r.random() < .6 else s.seq(hi=50)
    def maybe(s, p, f): return f() if s.r.random() < p else None
    def flag(s): return s.r.choice([T, F])
    def rng3(s):
        n = 3 if s.r.random() < .96 else s.r.choice([2, 4])
        return [s.r.choice(["seq", "tup", "arr"])] + [s.x(-50, 50) for _ in range(n)]
    def path(s, name): return [s.r.choice(["str", "path"]), s.W + "/" + name]
    def src(s, a, okada=False):
        m = s.r.random()
        if m < .2: keys = []
        elif m < .35: keys = ["strike", "dip"]
        elif m < .6: keys = ["strike", "dip", "rake"]
        elif m < .72: keys = ["force"]
        elif m < .86: keys = ["moment_tensor"]
        else: keys = [k for k in ("strike", "dip", "rake", "force", "moment_tensor") if s.r.random() < .5]
        for k in keys:
            if okada and k in ("force", "moment_tensor"): continue
            a[k] = {"strike": lambda: s.num(0, 360), "dip": lambda: s.num(0, 90), "rake": lambda: s.num(-180, 180),
                    "force": lambda: s.seq(3 if s.r.random() < .95 else 2, -9, 9, False), "moment_tensor": lambda: s.seq(6 if s.r.random() < .95 else 5, -9, 9, False)}[k]()
    def put(s, a, k, p, f):
        if s.r.random() < p: a[k] = f()
        elif s.r.random() < .15 and k not in ("freqband", "converg_method"): a[k] = None
    def call(s, fn):
        a = {}; r = s.r
        pos = lambda: s.num(0.001, 30)
        if fn == "compute_grn":
            a.update(depsrc=s.depth(), deprcv=s.depth(), dists=s.depth(), nt=["int", str(r.choice([1, 7, 32, 500, 1024]) if r.random() < .97 else r.choice([0, -3]))],
                     dt=s.num(.001, 5) if r.random() < .97 else ["num", "0.0"])
            if a["dt"][0] == "int": a["dt"] = ["int", "2"]
            for k, f in dict(upsampling_n=lambda: ["int", str(r.randint(1, 8))], freqband=lambda: [r.choice(["seq", "tup", "arr"])] + [s.x(-1, 3) for _ in range(2 if r.random() < .95 else 3)],
                    zeta=pos, keepAllFreq=s.flag, vmin_ref=pos, keps=lambda: s.num(-1, 1), ampk=pos, k0=pos, use_kmax_ref=s.flag, Length=lambda: s.num(0, 40),
                    filonCut=pos, converg_method=lambda: ["str", r.choice(["AUTO", "DCM", "PTAM", "NONE", "ptam", "Dcm", "XYZ"] if r.random() < .3 else ["AUTO", "DCM", "PTAM", "NONE"])],
                    delayT0=lambda: s.num(-9, 9), delayV0=pos, ref_first_p=s.flag, skipImagComps=s.flag, calc_upar=s.flag, print_log=s.flag,
                    gf_source=lambda: ["slist"] + [x if r.random() < .8 else x.lower() for x in r.sample(["EX", "VF", "HF", "DC"], r.randint(1, 4))] + (["DD"] if r.random() < .05 else []),
                    statsidxs=lambda: ["ilist"] + [str(x) for x in sorted(r.sample(range(60), r.choice([0, 1, 3])))]).items():
                if r.random() < .35: a[k] = f()
            if r.random() < .4: a[r.choice(["filonLength", "safilonTol"])] = pos()
        elif fn == "compute_static_grn":
            a.update(depsrc=s.depth(), deprcv=s.depth())
            m = r.random()
            if m < .45: a["dists"] = s.depth()
            elif m < .9: a["norths"] = s.rng3(); a["easts"] = s.rng3()
            else:
                for k, f in dict(dists=s.depth, norths=s.rng3, easts=s.rng3).items():
                    if r.random() < .5: a[k] = f()
            for k, f in dict(keps=lambda: s.num(-1, 1), k0=pos, use_kmax_ref=s.flag, Length=lambda: s.num(0, 40), filonCut=pos, converg_method=lambda: ["str", r.choice(["AUTO", "DCM", "PTAM", "NONE", "dcm", "Q"])],
                    calc_upar=s.flag, stats=s.flag).items():
                if r.random() < .35: a[k] = f()
            if r.random() < .4: a[r.choice(["filonLength", "safilonTol"])] = pos()
        elif fn == "compute_syn":
            a.update(azimuth=s.num(0, 360), output_path=s.path("o%d" % r.randint(0, 3)), scale=["num", repr(float("%.15g" % (r.uniform(1, 9) * 10 ** r.randint(0, 26))))])
            s.src(a)
            for k, f in dict(depsrc=lambda: s.num(0, 50, .04), deprcv=lambda: s.num(0, 50, .04), dist=lambda: s.num(0, 50, .04), scale_with_mu=s.flag,
                    time_function=lambda: ["str", r.choice(["p/0.5", "t/0.1/0.3/0.6", "r/2.5", "0/my file.txt", "t/1/1/2"])], integrate_order=lambda: ["int", str(r.randint(1, 3))], differentiate_order=lambda: ["int", str(r.randint(1, 3))],
                    zne=s.flag, calc_upar=s.flag).items():
                s.put(a, k, .4, f)
        elif fn == "compute_static_syn":
            a["output_path"] = s.path("o%d.nc" % r.randint(0, 3))
            ff = r.random() < .3
            if ff:
                a["finite_fault"] = s.path("fault.inp")
                s.put(a, "subfault_size", .5, lambda: s.seq(2 if r.random() < .9 else 3, .1, 5, False))
            if not ff or r.random() < .08:
                if r.random() < .95: a["scale"] = ["num", repr(float("%.15g" % (r.uniform(1, 9) * 10 ** r.randint(0, 26))))]
                s.put(a, "scale_with_mu", .4, s.flag); s.src(a)
            if not ff and r.random() < .03: a["subfault_size"] = ["seq", "1.0", "2.0"]
            if (not ff and r.random() < .5) or r.random() < .04: a["depsrc"] = s.num(0, 50, .04)
            s.place(a)
            s.put(a, "zne", .4, s.flag); s.put(a, "calc_upar", .4, s.flag)
        elif fn == "compute_okada":
            a["output_path"] = s.path("ok%d.nc" % r.randint(0, 3))
            a["modelparams"] = s.seq(3 if r.random() < .95 else r.choice([2, 4]), 1, 9, False) if r.random() < .98 else ["str", "123"]
            ff = r.random() < .3
            if ff: a["finite_fault"] = s.path("fault.inp")
            if not ff or r.random() < .08:
                if r.random() < .95: a["scale"] = ["num", repr(float("%.15g" % (r.uniform(1, 9) * 10 ** r.randint(0, 26))))]
                if r.random() < .95: a["depsrc"] = s.num(0, 50, .04)
                s.put(a, "scale_with_mu", .4, s.flag); s.src(a, True)
            s.place(a, True)
            s.put(a, "zne", .4, s.flag); s.put(a, "calc_upar", .4, s.flag)
        else:
            a["path"] = s.r.choice([["str", s.W + "/lib"], ["path", s.W + "/file.nc"], ["str", s.W + "/lib/"], ["path", s.W + "/nothing"]])
        return {k: (NONE if v is None else v) for k, v in a.items() if not (v is None and k in MAND.get(fn, ()))}
    def place(s, a, okada=False):
        m = s.r.random()
        if m < .5: a["norths"] = s.rng3(); a["easts"] = s.rng3()
        elif m < .8: a["recv_points"] = s.path("pts.txt")
        elif m < .9 and not okada: pass
        else:
            for k, f in dict(norths=s.rng3, easts=s.rng3, recv_points=lambda: s.path("pts.txt")).items():
                if s.r.random() < .5: a[k] = f()
        if ("norths" in a and s.r.random() < .85) or s.r.random() < .05: a["deprcv"] = s.num(0, 50, .04)

FNS = ["compute_grn", "compute_static_grn", "compute_syn", "compute_static_syn", "compute_okada", "compute_strain", "compute_rotation", "compute_stress"]

def package(chk, name, real):
    """a copy of the Python package around a recording (or the real) executable"""
    d = chk.dirnew(name)
    if os.path.isdir(d + "/pygrt"): return d
    os.makedirs(d + "/pygrt/C_extension/bin"); os.makedirs(d + "/pygrt/C_extension/lib")
    for f in os.listdir(vp.REPO + "/pygrt"):
        if f.endswith(".py"): shutil.copy(vp.REPO + "/pygrt/" + f, d + "/pygrt/" + f)
    shutil.copy(chk.dir + "/lib/libgrt.so", d + "/pygrt/C_extension/lib/libgrt.so")
    g = d + "/pygrt/C_extension/bin/grt"
    if real: shutil.copy(chk.grt_bin, g)
    else:
        open(g, "w").write("""#!/bin/sh
{ printf '\\0%s' "$@"; printf '\\0\\n'; } >> "$VP_LOG"
read rc < "$VP_CTL"
echo "message of the command" >&2
case $rc in sig) kill -9 $$;; *) exit $rc;; esac
""")
    os.chmod(g, 0o755)
    return d

def drive(chk, pkg, W, sessions):
    job, out = W + "/job.json", W + "/out.json"
    json.dump(sessions, open(job, "w"))
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": W, "LANG": "C.UTF-8", "MPLBACKEND": "Agg", "MPLCONFIGDIR": chk.dirnew("mpl"), "PYTHONDONTWRITEBYTECODE": "1",
         "PYTHONNOUSERSITE": "1", "VP_LOG": W + "/log", "VP_CTL": W + "/ctl", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
    r = subprocess.run([PY, vp.VERIF + "/lib/wrapdrive.py", pkg, job, out], cwd=W, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    if r.returncode != 0 or not os.path.exists(out):
        raise RuntimeError("driver failed: " + r.stderr.decode("utf8", "replace")[-1500:])
    return json.load(open(out))

def sessions(chk, seed, n):
    W = chk.dirnew(); rng = __import__("random").Random(seed); g = Gen(rng, W)
    open(W + "/model", "w").write("0 6 3.5 2.7 100 100\n"); os.makedirs(W + "/lib"); open(W + "/file.nc", "w").write("")
    S = []
    for _ in range(n):
        s = []; objs = []
        for k in range(rng.randint(2, 9)):
            if not objs or rng.random() < .2:
                a = {}
                for key, p, v in (("grn", .85, g.path("g%d" % rng.randint(0, 5))), ("stgrn", .85, g.path("s%d.nc" % rng.randint(0, 5))), ("modelpath", .85, g.path("model" if rng.random() < .97 else "absent")),
                                  ("topbound", .5, ["str", rng.choice(["free", "rigid", "halfspace"] + ["Free"] * (rng.random() < .1))]), ("botbound", .5, ["str", rng.choice(["free", "rigid", "halfspace"] + ["x"] * (rng.random() < .1))])):
                    if rng.random() < p: a[key] = v
                objs.append({**DEF["new"], **a}); s.append({"fn": "new", "obj": len(objs) - 1, "args": a, "rc": 0, "o": len(objs) - 1})
                full = objs[-1]
                if full["topbound"][1] not in B.values() or full["botbound"][1] not in B.values() or (full["modelpath"] != NONE and not os.path.isfile(full["modelpath"][1])): objs[-1] = None
                if objs[-1] is None: break
                continue
            fn = rng.choice(FNS); o = rng.randrange(len(objs))
            if objs[o] is None: continue
            c = {"fn": fn, "args": g.call(fn), "rc": rng.choice([0, 0, 0, 0, 0, 1, 3, "sig"]), "o": o}
            if fn in ("compute_grn", "compute_static_grn", "compute_syn", "compute_static_syn"): c["obj"] = o
            s.append(c)
            if rng.random() < .15: s.append(json.loads(json.dumps(c)))      # the same call again
        S.append(s)
    res = drive(chk, package(chk, "fakepkg", False), W, S)
    out = []
    for s, rs in zip(S, res):
        objs = {}
        for c, o in zip(s, rs):
            fn = c["fn"]
            if fn == "new": objs[c["o"]] = {k: norm(k, v) for k, v in {**DEF["new"], **c["args"]}.items()}
            a = {k: norm(k, v) for k, v in {**DEF.get(fn, {}), **c["args"]}.items()}
            if fn == "new": a = objs[c["o"]]
            for k in MAND.get(fn, ()): a.setdefault(k, EMPTYV)
            rec = {"kind": "call", "fn": fn, "o": objs[c["o"]], "a": a, "runs": len(o["runs"]), "rc": 0 if c["rc"] == 0 else 1, "exc": o["exc"], "req": {}}
            if "path" in a:
                p = c["args"]["path"][1]; a["kind"] = "dir" if os.path.isdir(p) else "file"; a["path"] = dict(a["path"], bad=not os.path.exists(p), v=["val", os.path.normpath(p)])
            try:
                if o["runs"]: rec["req"] = request(o["runs"][0])
            except Exception as e: rec["req"] = {"unreadable": [repr(e)[:200]]}
            out.append((rec, {"call": c, "outcome": o}))
    shutil.rmtree(W, True)
    return out

# ------------------------------------------------------------------ real runs
def dig(x): return ["%.9g" % v for v in x]
def stream(tr): return ["%s %.7g %s" % (c, d, " ".join(dig(v))) for c, d, v in tr]
def filestream(paths):
    out = []
    for p in sorted(paths):
        h, d = sac.read(p); out.append("%s %.7g %s" % (h["kcmpnm"].strip().replace("-12345", ""), h["delta"], " ".join(dig([float(x) for x in d]))))
    return out

def real(chk, seed):
    """one session of real commands; every expected value is made with the command line beforehand"""
    import random
    from scipy.io import netcdf_file
    rng = random.Random(seed); W0 = W = chk.dirnew(); pkg = package(chk, "realpkg", True)
    if rng.random() < .4: W += "/a [b]"; os.makedirs(W)
    m = models.write(W + "/m", models.rows(rng, rng.randint(1, 3)))
    D = 3.1; R = [6.0, 11.0]; nt, dt = 24, .25
    S = []; want = []
    def add(call, what, get, exp, exc=""): S.append(call); want.append((what, get, exp, exc))
    new = {"fn": "new", "obj": 0, "args": {"grn": ["str", W + "/G"], "stgrn": ["str", W + "/S.nc"], "modelpath": ["str", m]}}
    none = lambda o: [o["ret"]["kind"]]
    sums = lambda d, pat="*": filestream(_glob.glob(_glob.escape(d) + "/%s.sac" % pat))
    st = lambda o: stream(o["ret"].get("traces", []))
    def cli(args): 
        r = chk.grt(args); return r.returncode == 0
    def ncsum(d):
        if d.get("kind") != "nc": return [d.get("kind", "?")]
        return sorted("%s(%s) %s" % (k, ",".join(d["shapes"][k]), " ".join(dig(v))) for k, v in d["vars"].items()) + sorted("%s=%d" % kv for kv in d["dims"].items()) + \
            sorted("@%s=%s" % (k, " ".join(dig(np.ravel(v).astype(float))) if not isinstance(v, str) else v) for k, v in d["atts"].items())
    def ncfile(p):
        with netcdf_file(p, mmap=False) as f:
            return ncsum({"kind": "nc", "vars": {k: [float(x) for x in np.ravel(v[:]).astype(float)] if v[:].dtype.kind in "fi" else [] for k, v in f.variables.items()}, "dims": {k: int(v) for k, v in f.dimensions.items()},
                          "shapes": {k: list(v.dimensions) for k, v in f.variables.items()},
                          "atts": {k: (v.decode() if isinstance(v, bytes) else np.asarray(v).tolist()) for k, v in f._attributes.items()}})
    nc = lambda o: ncsum(o["ret"])
    ok = cli(["greenfn", "-M" + m, "-D3.1/0", "-R6,11", "-N%d/%r" % (nt, dt), "-K+s2+k50+e-1", "-L0", "-E0/0", "-e", "-s", "-O" + W + "/G0"]) and \
        cli(["static", "greenfn", "-M" + m, "-D3.1/0", "-X-2/2/2", "-Y1/5/2", "-L15", "-e", "-O" + W + "/S0.nc"])
    if not ok: raise RuntimeError("reference Green's functions failed")
    g0 = [d for d in os.listdir(W + "/G0") if os.path.isdir(W + "/G0/" + d)]
    add(new, "new", none, ["none"])
    add({"fn": "compute_grn", "obj": 0, "args": {"depsrc": num(D), "deprcv": num(0), "dists": ["seq"] + [repr(x) for x in R], "nt": ["int", str(nt)], "dt": num(dt), "calc_upar": T, "print_log": F}}, "compute_grn",
        lambda o: none(o) + [x for d in sorted(os.listdir(W + "/G")) if os.path.isdir(W + "/G/" + d) for x in [d] + sums(W + "/G/" + d)], ["none"] + [x for d in sorted(g0) for x in [d] + sums(W + "/G0/" + d)])
    add({"fn": "compute_static_grn", "obj": 0, "args": {"depsrc": num(D), "deprcv": num(0), "norths": ["seq", "-2", "2", "2"], "easts": ["seq", "1", "5", "2"], "calc_upar": T}}, "compute_static_grn",
        lambda o: none(o) + ncfile(W + "/S.nc"), ["none"] + ncfile(W + "/S0.nc"))
    post = False
    for k in range(5):          # several syntheses into the same directory: what is returned is the last command's
        zne, upar, tf, dist = rng.random() < .5, rng.random() < .5, rng.random() < .4, rng.choice(R)
        a = {"azimuth": num(rng.choice([0, 33.5, 211.25])), "output_path": ["str", W + "/syn"], "scale": num(1e20 * rng.randint(1, 9)), "dist": num(dist), "return_result": T, "zne": T if zne else F, "calc_upar": T if upar else F}
        c = ["syn", "-G" + W + "/G0", "-A" + a["azimuth"][1], "-S" + a["scale"][1], "-R%r" % dist, "-O" + W + "/ref%d" % k]
        src = rng.choice(["ex", "dc", "sf", "mt"])
        if src == "dc": a.update(strike=num(30), dip=num(60), rake=num(-70)); c.append("-M30/60/-70")
        if src == "sf": a["force"] = ["tup", "1", "-2", "0.5"]; c.append("-F1/-2/0.5")
        if src == "mt": a["moment_tensor"] = ["seq", "1", "0.25", "-2", "0.5", "3", "-1"]; c.append("-T1/0.25/-2/0.5/3/-1")
        if tf: a["time_function"] = ["str", "t/0.5/1/1.75"]; c.append("-Dt/0.5/1/1.75")
        if zne: c.append("-N")
        if upar: c.append("-e")
        if rng.random() < .3: a["integrate_order"] = ["int", "1"]; c.append("-I1")
        if rng.random() < .3: a["differentiate_order"] = ["int", "2"]; c.append("-J2")
        add({"fn": "compute_syn", "obj": 0, "args": a}, "compute_syn #%d %s zne=%d upar=%d tf=%d" % (k, src, zne, upar, tf), st, sums(W + "/ref%d" % k) if cli(c) else ["reference failed"])
        if upar and not post:
            post = True; shutil.copytree(W + "/ref%d" % k, W + "/post")
            for t in rng.sample(["strain", "rotation", "stress"], 3):
                shutil.copytree(W + "/ref%d" % k, W + "/pr"); cli([t, W + "/pr"])
                add({"fn": "compute_" + t, "args": {"path": ["str", W + "/post"], "return_result": T}}, "compute_" + t, st, sums(W + "/pr", t + "_*"))
                shutil.rmtree(W + "/pr")
    for k in range(3):
        zne = rng.random() < .5
        a = {"output_path": ["str", W + "/st.nc"], "scale": num(1e22 * rng.randint(1, 9)), "strike": num(20), "dip": num(50), "return_result": T, "zne": T if zne else F, "calc_upar": T}
        c = ["-S" + a["scale"][1], "-O" + W + "/str.nc", "-e"] + (["-N"] if zne else [])
        if rng.random() < .5: a["rake"] = num(35); c.append("-M20/50/35")
        else: c.append("-M20/50")
        if k == 2:
            a.update(modelparams=["tup", "6", "3.5", "2.7"], depsrc=num(4), deprcv=num(1), norths=["seq", "-2", "2", "2"], easts=["tup", "1", "5", "2"]); call = {"fn": "compute_okada", "args": a}
            g = cli(["okada", "-I6/3.5/2.7", "-Ds4", "-Dr1", "-X-2/2/2", "-Y1/5/2"] + c)
        else:
            call = {"fn": "compute_static_syn", "obj": 0, "args": a}; g = cli(["static", "syn", "-G" + W + "/S0.nc"] + c)
        add(call, call["fn"] + " #%d" % k, nc, ncfile(W + "/str.nc") if g else ["reference failed"])
        t = ("strain", "rotation", "stress")[k]; g = cli(["static", t, W + "/str.nc"])
        add({"fn": "compute_" + t, "args": {"path": ["str", W + "/st.nc"], "return_result": T}}, "static compute_" + t, nc, ncfile(W + "/str.nc") if g else ["reference failed"])
    # travel times and time functions: the library calls agree with the commands
    ds = sorted({round(rng.uniform(.5, 90), 3) for _ in range(4)})
    single = rng.random() < .4; ds = ds[:1] if single else ds; zs, zr = round(rng.uniform(0, 9), 2), round(rng.uniform(0, 4), 2)
    g = chk.grt(["travt", "-M" + m, "-D%r/%r" % (zs, zr), "-R" + ",".join(repr(x) for x in ds)])
    rows = []
    for l in g.stdout.splitlines():
        try: rows.append([float(x) for x in l.split()])
        except ValueError: pass
    rows = [w for w in rows if len(w) >= 3]
    def tt(o):
        t = o["ret"]
        if t["kind"] != "tuple": return [t["kind"]]
        return [str(t["scalar"])] + [y for d, p, s in zip(ds, np.atleast_1d(t["vals"][0]), np.atleast_1d(t["vals"][1])) for y in ("%.2f" % (p if abs(p - q) > 2e-3 else q) for p, q in zip((p, s), near.get(round(d, 3), (-1, -1))))]
    near = {d: w[-2:] for d, w in zip([round(x, 3) for x in ds], rows)}
    add({"fn": "compute_travt1d", "obj": 0, "args": {"depsrc": num(zs), "deprcv": num(zr), "dists": num(ds[0]) if single else ["arr"] + [repr(x) for x in ds]}}, "compute_travt1d", tt,
        [str([single, single])] + ["%.2f" % x for w in rows for x in w[-2:]])
    t1, t2, t3 = sorted(round(rng.uniform(.3, 3), 2) for _ in range(3)); f0 = round(rng.uniform(.3, .9), 2); t0 = round(rng.uniform(1, 4), 2)
    for nm, args, tfs in (("gen_trap_wave", [t1, t2, t3, dt], "t/%r/%r/%r" % (t1, t2, t3)), ("gen_parabola_wave", [t0, dt], "p/%r" % t0), ("gen_ricker_wave", [f0, dt], "r/%r" % f0)):
        g = cli(["syn", "-G" + W + "/G0", "-A0", "-S1e20", "-R%r" % R[0], "-O" + W + "/tf_" + nm, "-D" + tfs])
        add({"fn": nm, "args": {str(j): num(x) for j, x in enumerate(args)}}, nm + " " + tfs, lambda o: [vp.q(x, 1e6) for x in o["ret"].get("vals", [])],
            [vp.q(float(x), 1e6) for x in sac.read(W + "/tf_" + nm + "/sig.sac")[1]] if g else [-77])
    add({"fn": "compute_syn", "obj": 0, "args": {"azimuth": num(400), "output_path": ["str", W + "/bad"], "scale": num(1), "dist": num(R[0]), "return_result": T}}, "failing command", none, ["none"], "RuntimeError")
    res = drive(chk, pkg, W, [S])[0]
    out = []
    for o, (what, get, exp, exc) in zip(res, want):
        try: got = get(o) if bool(o["exc"]) == bool(exc) else ["exception " + o["exc"]]
        except Exception as e: got = ["unreadable %r" % e]
        wave = bool(exp) and isinstance(exp[0], int)
        if wave and any(not isinstance(x, int) for x in got): got = []
        out.append(({"kind": "wave" if wave else "real", "exc": o["exc"] != "", "wantexc": exc != "", "got": got, "want": exp}, {"what": what, "msg": o["msg"], "dir": W}))
    shutil.rmtree(W0, True)
    return out

def run(chk):
    chk.tlc("WrapperMC", "WrapperMCDeep.cfg" if chk.thorough else "WrapperMC.cfg")
    for k in (1, 2):
        if chk.tlc("WrapperMC", "WrapperMCNeg%d.cfg" % k, expect_ok=False).rc == 0: raise vp.Infra("WrapperMC: a defective wrapper was accepted")
    n = 24 if chk.thorough else 1
    package(chk, "fakepkg", False); package(chk, "realpkg", True)
    rs = [x for y in chk.pmap(lambda k: sessions(chk, "%s/%d/s%d" % (chk.pid, chk.seed, k), 130), range(16 * n)) for x in y]
    for x in rs:
        f = x[0]["fn"]; key = "%s %s" % (f, "ran" if x[0]["runs"] else "refused"); chk.notes.setdefault("calls", {})[key] = chk.notes.get("calls", {}).get(key, 0) + 1
    def corrupt(r):
        if r["kind"] == "call" and "scale" in r["req"] and r["req"]["sub"] == ["syn"]: r["req"]["scale"][1] = can(float(r["req"]["scale"][1]) * (1 + 1e-9)); return r
    chk.judge("WrapperTrace", rs, lambda o: o, lambda o: "%s(%s)" % (o[1]["call"]["fn"], ", ".join("%s=%s" % (k, " ".join(v)) for k, v in o[1]["call"]["args"].items()))[:900], corrupt=corrupt)
    rs = [x for y in chk.pmap(lambda k: real(chk, "%s/%d/r%d" % (chk.pid, chk.seed, k)), range(6 * (4 if chk.thorough else 1))) for x in y]
    chk.judge("WrapperTrace", rs, lambda o: o, lambda o: o[1]["what"])
    chk.assumptions += ["numbers are given with at most 15 significant digits, which the wrappers' text form carries", "the command line's meaning (letters, modifiers) is read back as documented; order of options is free"]
if __name__ == "__main__": vp.main(run, "C24")
