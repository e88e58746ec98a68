"""run the surface-wave commands and read their files"""
import os, shutil
import numpy as np
from scipy.io import netcdf_file
import models, sac, phys

def read(path):
    f = netcdf_file(path, "r", mmap=False)
    v = {k: np.array(x[:]) for k, x in f.variables.items()}; a = dict(f._attributes); f.close()
    return v, a

def guided(rows, k=1.15):
    """reorder velocities so that the half-space is the fastest"""
    v = sorted(list(r[1:]) for r in rows); out = [[r[0]] + x for r, x in zip(rows, v)]
    out[-1][1] = round(out[-1][1] * k, 3); out[-1][2] = round(out[-1][2] * k, 3)
    return out

def eigenv(chk, model, wave, F, opts=(), omp="1", out=None):
    """-> {freq index: [c...]}, freqs; raises phys.Failed"""
    W = chk.dirnew(); p = model if isinstance(model, str) else models.write(W + "/m", model)
    e = out or W + "/e.nc"
    r = chk.grt(["eigenv", "-M" + p, "-C" + e, "-S" + wave, "-F" + F, "-s", *opts], omp=omp, timeout=200)
    if r.returncode: raise phys.Failed("eigenv exit %s: %s %s" % (r.returncode, r.args, r.stderr[-300:]))
    v, a = read(e)
    if not out: shutil.rmtree(W, True)
    return v
