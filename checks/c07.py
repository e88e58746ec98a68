"""C07: dynamic strain, stress, rotation (spec: Tensor, TensorMC, TensorHist, TensorTrace)"""
import os, json, shutil, math
import vp, sac, gf
from vp import q

CMDS = ["strain", "stress", "rotation"]
P6 = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]; P3 = [(0, 1), (0, 2), (1, 2)]
def expect_files(cmd, chs):
    return {f"{cmd}_{chs[a]}{chs[b]}.sac" for a, b in (P3 if cmd == "rotation" else P6)}

def write_syn(d, chs, u, D, hdr):
    os.makedirs(d, exist_ok=True)
    for j, ch in enumerate(chs):
        sac.write(f"{d}/{ch}.sac", dict(hdr, kcmpnm=ch), [s[j] for s in u])
        for i, dh in enumerate(chs):
            sac.write(f"{d}/{dh.lower()}{ch}.sac", dict(hdr, kcmpnm=dh.lower() + ch), [s[i][j] * 1e-5 for s in D])

def snapshot(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d))} if os.path.isdir(d) else {}

def run(chk):
    chk.tlc("TensorMC", "TensorMCDeep.cfg" if chk.thorough else "TensorMC.cfg")
    rng = chk.rng
    # ---- values: random synthetics, judged by TensorTrace
    N = 4000 if chk.thorough else 1200
    cases = []
    for i in range(N):
        zne = rng.random() < .5
        dist = rng.choice([0, 1, 2, 5, 8])
        vb = rng.choice([0, 1, 2, 3]); va = vb + rng.choice([1, 2, 3]); rho = rng.choice([1, 2, 3])
        att = rng.random() < .3 and vb > 0
        qa, qb = (rng.choice([(1, 1), (0, 1), (1, 0)]) if att else (0, 0))
        if att:
            abc = lambda l: [2 * rng.randint(-l, l) for _ in range(3)]
            def comp():
                a, b, c = abc(2); return [a + c, b - c, -a + c, -b - c]
            U = [comp() for _ in range(3)]; DD = [[comp() for _ in range(3)] for _ in range(3)]
            if not zne and dist not in (0, 1, 2): dist = 1
            npts = 4
            u = [[U[j][n] for j in range(3)] for n in range(4)]
            D = [[[DD[a][b][n] for b in range(3)] for a in range(3)] for n in range(4)]
        else:
            npts = rng.randint(2, 7)
            u = [[rng.randint(-9, 9) for _ in range(3)] for _ in range(npts)]
            D = [[[rng.randint(-9, 9) for _ in range(3)] for _ in range(3)] for _ in range(npts)]
        order = CMDS[:]; rng.shuffle(order)
        order += [rng.choice(CMDS) for _ in range(rng.choice([0, 0, 1]))]
        cases.append(dict(zne=zne, dist=dist, va=va, vb=vb, rho=rho, qa=qa, qb=qb, u=u, d=D, order=order, dt=rng.choice([.5, .25, 1.0]), b=rng.choice([0.0, 1.5, -2.0]), amp=rng.choice([1, 1, 1e-15, 1e8]), ln=rng.choice([1, 1, 1e-4, 0.01, 300.0])))
    def one(c):
        d = chk.dirnew() + "/s"
        chs = "ZNE" if c["zne"] else "ZRT"
        A, ln = c["amp"], c["ln"]      # units of displacement gradient and length, divided out below
        hdr = dict(delta=c["dt"], b=c["b"], dist=c["dist"] * ln, user1=c["va"], user2=c["vb"], user3=c["rho"], user4=c["qa"], user5=c["qb"],
                   user6=9.0, user7=7.0, user8=5.0)      # source medium differs: must not be used
        write_syn(d, chs, [[x * A * ln for x in r] for r in c["u"]], [[[x * A for x in r] for r in m] for m in c["d"]], hdr)
        before = snapshot(d)
        raw = {"case": {k: c[k] for k in ("zne", "dist", "va", "vb", "rho", "qa", "qb", "order", "amp", "ln")}, "rc": []}
        ok = True
        for cmd in c["order"]:
            r = chk.grt([cmd, d]); raw["rc"].append(r.returncode); ok = ok and r.returncode == 0
        after = snapshot(d)
        want = set(before) | set().union(*[expect_files(k, chs) for k in CMDS])
        ok = ok and set(after) == want and all(after[f] == before[f] for f in before)
        rec = {k: c[k] for k in ("zne", "dist", "va", "vb", "rho", "qa", "qb", "u", "d")}
        n = len(c["u"]); sc = 1 if (c["zne"] or c["dist"] == 0) else c["dist"]
        try:
            for cmd, mult in (("strain", 2e5), ("rotation", 2e5), ("stress", 1e-5)):
                cols = []
                for a, b in (P3 if cmd == "rotation" else P6):
                    h, x = sac.read(f"{d}/{cmd}_{chs[a]}{chs[b]}.sac")
                    ok = ok and h["kcmpnm"].startswith(chs[a] + chs[b]) and h["npts"] == n and h["delta"] == c["dt"] and h["b"] == c["b"] and abs(h["dist"] - c["dist"] * ln) <= 1e-6 * c["dist"] * ln
                    cols.append([q(float(v) * mult / A, sc) for v in x])
                rec[cmd] = [[col[k] for col in cols] for k in range(n)]
        except Exception as e:
            ok = False; raw["error"] = repr(e)
        rec["ok"] = bool(ok); rec["stol"] = 2 if (c["qa"] or c["qb"]) else 0
        shutil.rmtree(os.path.dirname(d), True)
        return rec, raw
    def corrupt(t):
        t["strain"][0][4] += 3
        return t
    chk.judge("TensorTrace", cases, one, lambda c: json.dumps({k: c[k] for k in ("zne", "dist", "va", "vb", "rho", "qa", "qb", "order")}), corrupt=corrupt)
    # ---- histories: every command sequence of the model replayed in one directory
    r = chk.tlc("TensorHist", "TensorHistDeep.cfg" if chk.thorough else "TensorHist.cfg")
    H = [h for h in r.json if not h["stale"]]
    if chk.thorough: H = rng.sample(H, min(len(H), 1500))
    G = lambda lo: [[[rng.randint(-lo, lo) for _ in range(3)] for _ in range(6)] for _ in range(4)]
    leaf = chk.dirnew("leaf")
    gf.write_leaf(leaf, 2, G(5), G(5), G(5), rcv=(5., 3., 2., 0., 0.), delta=0.5)
    def synargs(a, ver, out):
        return ["syn", "-G" + leaf, "-A53.13010235415598", "-S%de15" % ver, "-F1/2/3", "-O" + out] + (["-N"] if a["zne"] else []) + (["-e"] if a["e"] else [])
    ref = {}
    def fresh(a, ver, cmd):
        key = (a["zne"], ver, cmd)
        if key not in ref:
            d = chk.dirnew("ref_%d_%d_%s" % (a["zne"], ver, cmd)) + "/o"
            chk.grt(synargs(a, ver, d)); chk.grt([cmd, d])
            ref[key] = {f: b for f, b in snapshot(d).items() if f.startswith(cmd)}
        return ref[key]
    for z in (False, True):
        for v in range(1, 6):
            for cmd in CMDS: fresh({"zne": z, "e": True}, v, cmd)
    def play(h):
        d = chk.dirnew() + "/o"; ver = 0; last = None; log = []
        good = True
        for a, want in zip(h["hist"], h["res"]):
            if a["op"] == "syn":
                ver += 1; last = a
                rc = chk.grt(synargs(a, ver, d)).returncode
                good = good and rc == 0; log.append((a, rc))
            else:
                pre = snapshot(d)
                rc = chk.grt([a["op"], d]).returncode; log.append((a["op"], rc))
                post = snapshot(d)
                if want == "ok":
                    mine = fresh(last, ver, a["op"])
                    good = good and rc == 0 and len(mine) == (3 if a["op"] == "rotation" else 6) and all(post.get(f) == b for f, b in mine.items()) \
                        and set(post) == set(pre) | set(mine) and all(post[f] == pre[f] for f in pre if f not in mine)
                else:
                    good = good and rc != 0 and post == pre
        shutil.rmtree(os.path.dirname(d), True)
        return good, log
    res = chk.pmap(play, H)
    chk.traces += len(H)
    for (g, log), h in zip(res, H):
        if not g:
            g2, log2 = play(h)
            if not g2: chk.violate("history not as specified: %s" % json.dumps(h), {"log": log2})
            if len(chk.violations) > 10: break
    # ---- the known finding: derivative files of an earlier synthesis are picked up
    S = lambda z, e: {"op": "syn", "zne": z, "e": e}
    for cmd in CMDS:
        for name, seq in (("N-e,e", [S(True, True), S(False, True)]), ("e,plain", [S(False, True), S(False, False)])):
            h = {"hist": seq + [{"op": cmd}], "res": ["ok", "ok", "ok" if seq[-1]["e"] else "refused"]}
            g, log = play(h)
            if not g: chk.violate("history not as specified: %s" % json.dumps(h), {"log": log}, key=f"stale:{name}:{cmd}")
    chk.notes["histories"] = len(H)
    chk.assumptions += ["attenuating stress is compared at the reference frequency and at half of it (four-sample traces), Q=1"]
vp.main(run, "C07")
