"""run greenfn / static greenfn for the physics relations and hand back traces"""
import os, shutil
import numpy as np
import sac, stlib, models

COMPS = ["EXZ", "EXR", "VFZ", "VFR", "HFZ", "HFR", "HFT", "DDZ", "DDR", "DSZ", "DSR", "DST", "SSZ", "SSR", "SST"]

class Failed(Exception): pass

def greenfn(chk, model, zs, zr, rs, opts, omp="1", raw=None, timeout=200, md5=False):
    """model: rows or path; zs, zr, rs lists of strings -> {(zs,zr,r): {comp: (hdr, samples)}}; also the raw bytes when md5"""
    W = chk.dirnew()
    p = model if isinstance(model, str) else models.write(W + "/m", model)
    D = ["-D%s/%s" % (zs[0], zr[0])] if len(zs) == 1 and len(zr) == 1 else ["-Ds" + ",".join(zs), "-Dr" + ",".join(zr)]
    args = ["greenfn", "-M" + p, *D, "-R" + ",".join(rs), "-O" + W + "/g", "-s", *opts]
    r = chk.grt(args, omp=omp, timeout=timeout)
    if raw is not None: raw.append({"args": args, "rc": r.returncode, "err": r.stderr[-400:]})
    if r.returncode:
        shutil.rmtree(W, True)
        raise Failed("greenfn exit %s: %s %s" % (r.returncode, args, r.stderr[-300:]))
    out = {}
    name = os.path.basename(p)
    for a in zs:
        for b in zr:
            for x in rs:
                d = "%s/g/%s_%s_%s_%s" % (W, name, a, b, x)
                out[(a, b, x)] = {f[:-4]: (sac.read(d + "/" + f) + ((open(d + "/" + f, "rb").read(),) if md5 else ())) for f in sorted(os.listdir(d)) if f.endswith(".sac")} if os.path.isdir(d) else {}
    shutil.rmtree(W, True)
    return out

def static(chk, model, zs, zr, xs, ys, opts=(), omp="1", raw=None, timeout=200):
    """static library variables; zs,zr,xs,ys option strings"""
    W = chk.dirnew()
    p = model if isinstance(model, str) else models.write(W + "/m", model)
    D = ["-D%s/%s" % (zs, zr)] if "," not in zs + zr else ["-Ds" + zs, "-Dr" + zr]
    args = ["static", "greenfn", "-M" + p, *D, "-X" + xs, "-Y" + ys, "-O" + W + "/s.nc", *opts]
    r = chk.grt(args, omp=omp, timeout=timeout)
    if raw is not None: raw.append({"args": args, "rc": r.returncode, "err": r.stderr[-400:]})
    if r.returncode:
        shutil.rmtree(W, True)
        raise Failed("static greenfn exit %s: %s %s" % (r.returncode, args, r.stderr[-300:]))
    v, a, d = stlib.read(W + "/s.nc")
    shutil.rmtree(W, True)
    return v

def quant(x, ref, n=100000):
    """samples as integers with full scale (ref) = n"""
    x = np.asarray(x, float)
    if not (ref > 0): ref = 1.0
    y = x / ref * n
    y = np.where(np.isfinite(y), np.clip(y, -2e7, 2e7), 2e7)
    return [int(v) for v in np.rint(y)]
