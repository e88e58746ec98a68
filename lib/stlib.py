"""synthetic static Green's-function libraries and readers of static results (netCDF classic)"""
import os
import numpy as np
from scipy.io import netcdf_file
FAM = ["EX", "VF", "HF", "DD", "DS", "SS"]
ORD = [0, 0, 1, 0, 1, 2]

def write(path, depsrc, deprcv, north, east, g, gz=None, gr=None, src_med=None, rcv_med=None, model=None):
    """g[is][ir][ipt][k][c]; media are lists of (va,vb,rho); model rows of 6"""
    f = netcdf_file(path, "w")
    ns, nr, nn, ne = len(depsrc), len(deprcv), len(north), len(east)
    model = np.asarray(model if model is not None else [[0.0, 6.0, 3.0, 2.5, 0.0, 0.0]], float)
    if gz is not None: f.calc_upar = np.int32(1)
    else: f.calc_upar = np.int32(0)
    for d, n in (("depsrc", ns), ("deprcv", nr), ("north", nn), ("east", ne), ("layer", model.shape[0]), ("model_param", 6)):
        f.createDimension(d, n)
    def var(name, dims, val):
        v = f.createVariable(name, "d", dims); v[:] = np.asarray(val, float)
    var("model", ("layer", "model_param"), model)
    var("depsrc", ("depsrc",), depsrc); var("deprcv", ("deprcv",), deprcv)
    var("north", ("north",), north); var("east", ("east",), east)
    sm = np.asarray(src_med if src_med is not None else [(6.0, 3.0, 2.5)] * ns, float)
    rm = np.asarray(rcv_med if rcv_med is not None else [(6.0, 3.0, 2.5)] * nr, float)
    for j, nm in enumerate(("va", "vb", "rho")):
        var("src_" + nm, ("depsrc",), sm[:, j]); var("rcv_" + nm, ("deprcv",), rm[:, j])
    for pre, G in (("", g), ("z", gz), ("r", gr)):
        if G is None: continue
        G = np.asarray(G, float).reshape(ns, nr, nn, ne, 6, 3)
        for k in range(6):
            for c, ch in enumerate("ZRT"):
                if ORD[k] == 0 and ch == "T": continue
                var(f"{pre}{FAM[k]}{ch}", ("depsrc", "deprcv", "north", "east"), G[:, :, :, :, k, c])
    f.close()

def read(path):
    """-> dict(vars), dict(attrs), dict(dims per var)"""
    f = netcdf_file(path, "r", mmap=False)
    v = {k: np.array(x[:]) for k, x in f.variables.items()}
    a = dict(f._attributes)
    d = {k: tuple(x.dimensions) for k, x in f.variables.items()}
    f.close()
    return v, a, d
