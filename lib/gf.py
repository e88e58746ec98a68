"""synthetic Green's-function inputs and exact angles shared by several checks"""
import os, math
import sac
FAM = ["EX", "VF", "HF", "DD", "DS", "SS"]
ORD = [0, 0, 1, 0, 1, 2]

TRIPLES = [(1, 0, 1), (4, 3, 5), (3, 4, 5), (12, 5, 13), (5, 12, 13)]

def angles(hmax=13):
    out = []
    for c, s, h in TRIPLES:
        if h > hmax: continue
        for sc in (1, -1):
            for ss in (1, -1):
                out.append((sc * c, ss * s, h))
    out += [(0, 1, 1), (0, -1, 1)]
    return sorted(set(out))

def deg(a, lo=0.0):
    """degrees of exact angle a=(c,s,h) in [lo, lo+360)"""
    d = math.degrees(math.atan2(a[1], a[0]))
    while d < lo - 1e-9: d += 360.0
    while d >= lo + 360.0 - 1e-9: d -= 360.0
    return d + 0.0

def fmt(x):
    return repr(float(x))

def adict(a):
    return {"c": a[0], "s": a[1], "h": a[2]}

def adeg(d, lo=0.0):
    return deg((d["c"], d["s"], d["h"]), lo)

def write_leaf(path, dist, samples, samples_z=None, samples_r=None, delta=0.5, b=0.0, wI=0.0, depsrc=1.0, deprcv=0.0,
               rcv=(5.0, 3.0, 2.0, 0.0, 0.0), src=(4.0, 2.0, 3.0), fams=range(6), extra=None):
    """samples[n][k] = (Z,R,T) of family k at sample n"""
    os.makedirs(path, exist_ok=True)
    hdr = dict(delta=delta, b=b, dist=dist, evdp=depsrc, stel=-deprcv * 1000.0, user0=wI, user1=rcv[0], user2=rcv[1], user3=rcv[2],
               user4=rcv[3], user5=rcv[4], user6=src[0], user7=src[1], user8=src[2])
    if extra: hdr.update(extra)
    for pre, S in (("", samples), ("z", samples_z), ("r", samples_r)):
        if S is None: continue
        for k in fams:
            for j, ch in enumerate("ZRT"):
                if ORD[k] == 0 and ch == "T": continue
                sac.write(os.path.join(path, f"{pre}{FAM[k]}{ch}.sac"), dict(hdr, kcmpnm=f"{pre}{FAM[k]}{ch}"), [s[k][j] for s in S])

def src_args(src):
    """command-line options of a source record"""
    t = src["type"]
    if t == "EX": return []
    if t == "SF": return ["-F" + "/".join(fmt(x) for x in src["f"])]
    if t == "DC": return ["-M%s/%s/%s" % (fmt(adeg(src["strike"])), fmt(adeg(src["dip"], -180)), fmt(adeg(src["rake"], -180)))]
    if t == "TS": return ["-M%s/%s" % (fmt(adeg(src["strike"])), fmt(adeg(src["dip"], -180)))]
    if t == "MT": return ["-T" + "/".join(fmt(x) for x in src["m"])]
    raise ValueError(t)

def src_den(src):
    t = src["type"]
    if t in ("EX", "SF"): return 1
    if t == "MT": return 6
    d = 6 * src["dip"]["h"] ** 2 * src["strike"]["h"] ** 2
    return d * src["rake"]["h"] if t == "DC" else d * src["vr"][1]

def weights_den(src, az):
    t = src["type"]
    if t == "EX": return 1
    if t == "SF": return az["h"]
    return src_den(src) * az["h"] ** 2
