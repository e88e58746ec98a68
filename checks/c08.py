"""C08: a static library entry depends only on its own depths and distance (spec: Library, LibraryMC, Pure, PureTrace)"""
import os, json, math, random, shutil
import numpy as np
import vp, stlib, models
from vp import q as Q
COMP = [f + c for f, o in zip(stlib.FAM, stlib.ORD) for c in ("ZRT" if o else "ZR")]

def run_lib(chk, mod, req, e=False, omp="1", L=None, K=()):
    d = chk.dirnew(); o = d + "/l.nc"
    S = lambda v: ",".join(repr(float(x)) for x in v)
    if len(req["ds"]) == 1 and len(req["dr"]) == 1 and req.get("short"): dep = ["-D%r/%r" % (req["ds"][0], req["dr"][0])]
    else: dep = ["-Ds" + S(req["ds"]), "-Dr" + S(req["dr"])]
    if req["nn"] == [0] and min(req["ee"]) >= 0: g = ["-R" + S(req["ee"])]
    else:
        rg = lambda v: "%r/%r/%r" % (v[0], v[-1], (v[1] - v[0]) if len(v) > 1 else 1)
        g = ["-X" + rg(req["nn"]), "-Y" + rg(req["ee"])]
    a = ["static", "greenfn", "-M" + mod, *dep, *g, "-O" + o, *K]
    if e: a.append("-e")
    if L: a.append("-L%g" % L)
    r = chk.grt(a, cwd=d, omp=omp)
    out = None
    if r.returncode == 0 and os.path.exists(o):
        v, at, dm = stlib.read(o)
        ok = list(v["depsrc"]) == [float(x) for x in req["ds"]] and list(v["deprcv"]) == [float(x) for x in req["dr"]] and \
            list(v["north"]) == [float(x) for x in req["nn"]] and list(v["east"]) == [float(x) for x in req["ee"]] and int(at["calc_upar"]) == int(e)
        want = set(COMP) | ({p + c for p in "zr" for c in COMP} if e else set())
        ok = ok and want <= set(v) and not any((p + c in v) for p in "zr" for c in COMP if not e)
        out = (ok, v)
    shutil.rmtree(d, True)
    return out, a, r

def collect(req, v, e, table, tag):
    rmax = max(math.hypot(n, x) for n in req["nn"] for x in req["ee"])
    for i, s in enumerate(req["ds"]):
        table.setdefault(("src", s), []).append((tag, [float(v["src_" + k][i]) for k in ("va", "vb", "rho")]))
        for j, t in enumerate(req["dr"]):
            if i == 0: table.setdefault(("rcv", t), []).append((tag, [float(v["rcv_" + k][j]) for k in ("va", "vb", "rho")]))
            for a, n in enumerate(req["nn"]):
                for b, x in enumerate(req["ee"]):
                    r = math.hypot(n, x)
                    table.setdefault(("u", s, t, r, rmax), []).append((tag, [float(v[c][i, j, a, b]) for c in COMP]))
                    if e: table.setdefault(("d", s, t, r, rmax), []).append((tag, [float(v[p + c][i, j, a, b]) for p in "zr" for c in COMP]))

def records(table, tol, rel, per_comp=True):
    out = []
    for k, obs in table.items():
        A = np.array([o[1] for o in obs])
        m = np.abs(A).max(0) if per_comp else np.full(A.shape[1], np.abs(A).max())
        m = np.where((m == 0) | ~np.isfinite(m), 1.0, m)
        out.append({"ok": bool(np.isfinite(A).all()), "key": str(k), "obs": [[Q(x, 1e8 / y, 2000000000) for x, y in zip(row, m)] for row in A.tolist()], "tol": tol, "rel": rel, "n": len(obs)})
    return out

def run(chk):
    rng = chk.rng
    reqs = []
    for cfg in (["LibraryDeep.cfg", "LibraryGrid.cfg"] if chk.thorough else ["Library.cfg", "LibraryGrid.cfg"]):
        reqs += chk.tlc("LibraryMC", cfg).json
    assert len(reqs) > 900
    nmod = 5 if chk.thorough else 3
    for im in range(nmod):
        # interfaces at requested depths (2, 5) in some of the models
        rows = models.rows(rng, rng.choice([2, 3, 4]), depths=rng.choice([None, [2.0, 3.0], [2.0, 1.0, 2.0], [0.5, 1.5]]))
        mod = models.write(chk.scratch + f"/m{im}", rows)
        sample = rng.sample(reqs, 250 if chk.thorough else 110)
        jobs = [(dict(r, short=rng.random() < .5), rng.random() < .5, rng.choice(["1", "3"])) for r in sample]
        # every (pair, distance) alone
        for s in (0, 2, 3, 5):
            for t in (0, 2, 3, 5):
                for r in (0, 1, 6):
                    if rng.random() < .35: jobs.append(({"ds": [s], "dr": [t], "nn": [0], "ee": [r, 20], "short": True}, rng.random() < .5, "1"))
        for s in (0, 2, 5):
            for t in (0, 2, 5): jobs.append(({"ds": [s], "dr": [t], "nn": [0], "ee": [0, 15, 20, 25], "short": False}, True, "2"))
        # close or irregular values: the same entry alone, in small and in large company
        for _ in range(12 if chk.thorough else 5):
            r0 = round(rng.uniform(0.3, 12), 3); dl = rng.choice([1e-4, 1e-3, 0.01, 0.1])
            rr = sorted({r0, round(r0 + dl, 6), round(r0 + 2 * dl, 6), 20.0})
            s0 = round(rng.uniform(0.2, 4), 2); dd = sorted({s0, round(s0 + dl, 6), 4.5}); t0 = rng.choice([0.0, 1.25, s0 + 0.5])
            full = {"ds": dd, "dr": sorted({t0, round(t0 + dl, 6)}), "nn": [0], "ee": rr, "short": False}
            jobs.append((full, True, rng.choice(["1", "4"])))
            for r in rr[:-1]: jobs.append((dict(full, ds=[rng.choice(dd)], dr=[rng.choice(full["dr"])], ee=[r, 20.0]), rng.random() < .5, "1"))
        def once():
            res = chk.pmap(lambda j: run_lib(chk, mod, *j), jobs)
            table = {}; bad = []
            for n, (j, (o, a, r)) in enumerate(zip(jobs, res)):
                if o is None or not o[0]: bad.append((a, r.returncode, r.stderr[-300:])); continue
                collect(j[0], o[1], j[1], table, n)
            return table, bad
        table, bad = once()
        for a, rc, err in bad[:3]: chk.violate("library request failed or recorded other coordinates: %s" % a, {"rc": rc, "err": err, "model": rows})
        recs = records(table, 2, 1000000)
        rej = chk.tlc_trace("PureTrace", recs)
        if rej:
            recs2 = records(once()[0], 2, 1000000)
            for i, _ in chk.tlc_trace("PureTrace", recs2)[:5]:
                chk.violate("entry depends on the request: %s" % recs2[i]["key"], {"record": recs2[i], "model": rows})
        chk.notes.setdefault("keys", []).append(len(recs))
        if im == 0:
            for r in recs[:2]: chk.sample(json.dumps(r)[:300])
            t = next(r for r in recs if r["n"] > 1); t = json.loads(json.dumps(t)); t["obs"][-1] = [x + 50000 for x in t["obs"][-1]]
            if not chk.tlc_trace("PureTrace", [t]): raise vp.Infra("corrupted trace accepted")
        # requests with another largest distance: same entry within the accuracy of the integration
        jobs = []
        for _ in range(30 if chk.thorough else 10):
            s, t = rng.choice([0, 2, 5]), rng.choice([0, 2, 3]); r = rng.choice([1, 6, 10])
            if s == t: continue
            for ee in ([r], [r, 20], [0.5, r, 30]): jobs.append(({"ds": [s], "dr": [t], "nn": [0], "ee": ee, "short": True}, True, "1"))
        res = chk.pmap(lambda j: run_lib(chk, mod, *j, L=400 if j[0]["ee"] else None), jobs)
        table = {}
        for n, (j, (o, a, r)) in enumerate(zip(jobs, res)):
            if o is None or not o[0]: chk.violate("library request failed: %s" % a, {"rc": r.returncode}); continue
            tb = {}; collect(j[0], o[1], True, tb, n)
            for k, v in tb.items():
                if k[0] in "ud" and k[3] == [x for x in j[0]["ee"] if x in (1, 6, 10)][0]: table.setdefault(k[:4], []).extend(v)
        recs = records(table, 5000000, 1000000, per_comp=False)   # 5 % of the largest component
        for i, _ in chk.tlc_trace("PureTrace", recs)[:5]:
            chk.violate("entry changes with the largest requested distance: %s" % recs[i]["key"], {"record": recs[i], "model": rows})
        if os.environ.get("VP_DEBUG"):
            for k, v in table.items():
                A = np.array([x[1] for x in v]); print(k, np.abs(A - A[0]).max() / np.abs(A).max())
    chk.assumptions += ["requests that share the largest distance share the wavenumber step and are compared at 1e-6; others at 5 % of the largest component with a fine step"]

vp.main(run, "C08")
