"""C23: options (spec: Cli, CliMC, CliRows, CliTrace)"""
import hashlib, json, os, random, shutil
import numpy as np
from scipy.io import netcdf_file
import vp, gf, sac, models, stlib
STDOUT = ("disp2asc", "travt", "lamb1")

def inputs(chk):
    """one directory with everything a command line may name"""
    W = chk.dirnew()
    def ok(a):
        r = chk.grt(a, cwd=W)
        if r.returncode: raise vp.Infra("inputs: %s: %s" % (a, r.stderr[-300:]))
    open(W + "/mod", "w").write("4 5.0 2.9 2.5 500 250\n0 6.5 3.8 2.8 600 300\n")
    open(W + "/tf", "w").write("0.0\n1.0\n0.5\n0.0\n")
    open(W + "/pts", "w").write("3 4 0\n5 -2 0\n")
    open(W + "/flt", "w").write("h\nh\n1 0 0 0 4 100 1 2 60 1 4\n")
    ok(["greenfn", "-Mmod", "-D2/0", "-N16/0.5", "-R5", "-Oone", "-e", "-s"])
    S = [[[float(8 * f + n + i) for i in range(3)] for f in range(6)] for n in range(4)]
    os.makedirs(W + "/gf")
    d = [x for x in os.listdir(W + "/one") if os.path.isdir(W + "/one/" + x)]
    shutil.move(W + "/one/" + d[0], W + "/gf/" + d[0])
    ok(["static", "greenfn", "-Mmod", "-Ds1/4/1", "-Dr0", "-R0/20/2", "-Olib.nc", "-e"])
    ok(["eigenv", "-Mmod", "-SR", "-F0/3/0.1", "-N2", "-Cdisp.nc", "-s"])
    ok(["eigenfn", "-Cdisp.nc", "-N", "-Ugrp.nc"])
    shutil.rmtree(W + "/one")
    return W

def digest(f):
    b = open(f, "rb").read()
    if f.endswith(".nc") and b[:3] == b"CDF":          # the command line is kept as an attribute
        x = netcdf_file(f, "r", mmap=False)
        b = repr(sorted((k, v) for k, v in x._attributes.items() if k != "command")).encode() + b"".join(k.encode() + v.data.tobytes() for k, v in sorted(x.variables.items())); x.close()
    return hashlib.md5(b).hexdigest()

def tree(p):
    out = {}
    for d, dd, ff in os.walk(p):
        for x in dd: out[os.path.relpath(os.path.join(d, x), p)] = "dir"
        for x in ff:
            if x == "command": continue
            f = os.path.join(d, x); out[os.path.relpath(f, p)] = digest(f)
    return out

def argv(T, cmd, v, order):
    a = []
    for k in order:
        s = T[cmd][k]; t = s["good"][v[k] - 1] if v[k] > 0 else s["bad"][-v[k] - 1]
        if v[k] < 0 and t == "" and not s["opt"] in ("-Z",): a += [s["opt"], ""]     # an option whose value is empty
        else: a.append(s["opt"] + t)
    return cmd.split() + a

def observe(chk, T, IN, c):
    rng = random.Random(c["seed"]); cmd, v = c["cmd"], c["v"]
    used = [k for k in range(len(v)) if v[k]]
    def once(order, old):
        W = chk.dirnew()
        for x in os.listdir(IN): os.symlink(os.path.join(IN, x), os.path.join(W, x))
        if old:
            if cmd in ("greenfn", "modsum"): pass          # these insist on a directory of their own
            elif cmd in ("kernel", "syn"): os.makedirs(W + "/out"); open(W + "/out/keep", "w").write("x")
            else:
                for x in ("out.nc", "out2.nc", "out3.nc", "out4.nc", "out5.nc"): open(W + "/" + x, "w").write("old")
        before = tree(W); a = argv(T, cmd, v, order)
        r = chk.grt(a, cwd=W, timeout=60)
        after = tree(W); shutil.rmtree(W, True)
        return a, r, {k: x for k, x in after.items() if before.get(k) != x} | {k: "gone" for k in before if k not in after}
    o1 = list(used); rng.shuffle(o1)
    a, r, ch = once(o1, c["old"])
    rec = {"ok": True, "cmd": cmd, "v": v, "refused": r.returncode > 0, "crash": r.returncode < 0, "msg": len(r.stderr.strip()) > 0, "changed": len(ch) > 0,
           "wrote": len(r.stdout.strip()) > 0 if cmd in STDOUT or "-X0.2" in " ".join(a) else any(x != "dir" and x != "gone" for x in ch.values()), "same": True}
    raw = {"argv": a, "rc": r.returncode, "err": r.stderr[-300:], "changed": sorted(ch)[:6]}
    if r.returncode == 0 and c["twice"]:
        o2 = list(used); rng.shuffle(o2)
        a2, r2, ch2 = once(o2, c["old"])
        rec["same"] = r2.returncode == 0 and ch2 == ch and (cmd not in STDOUT or r2.stdout == r.stdout)
        raw["argv2"] = a2; raw["diff"] = [k for k in set(ch) | set(ch2) if ch.get(k) != ch2.get(k)][:5]
    return rec, raw

def run(chk):
    chk.tlc("CliMC")
    for cfg in ("CliMCNeg1", "CliMCNeg2"):
        if chk.tlc("CliMC", cfg, expect_ok=False).rc == 0: raise vp.Infra(cfg + " passed")
    r = chk.tlc("CliRows")
    T = {j["table"]: j["slots"] for j in r.json if "table" in j}
    rows = [j for j in r.json if "dev" in j]
    ones = [j for j in rows if j["dev"] < 2]; two = [j for j in rows if j["dev"] == 2]
    IN = inputs(chk)
    n = 9000 if chk.thorough else 1100
    cases = [{"cmd": j["cmd"], "v": j["v"], "seed": chk.rng.random(), "old": chk.rng.random() < .5, "twice": True} for j in ones + chk.rng.sample(two, min(n, len(two)))]
    def corrupt(t):
        if t["refused"]: t["changed"] = True; return t
    chk.judge("CliTrace", cases, lambda c: observe(chk, T, IN, c), lambda c: " ".join(argv(T, c["cmd"], c["v"], [k for k in range(len(c["v"])) if c["v"][k]])), corrupt=corrupt)
    chk.assumptions.append("values are refused by their leading part: text after a complete number is not judged; data-level refusals (no matching depth, no derivatives in the library) are not option errors")

vp.main(run, "C23")
