"""random layered models for the physics checks"""
def rows(rng, n, liquid=None, depths=None):
    """n layers incl. half-space: (thickness, vp, vs, rho, qp, qs), velocities mostly increasing"""
    out = []; vp = rng.uniform(3.0, 4.5)
    for i in range(n):
        vs = vp / rng.uniform(1.65, 1.9)
        h = depths[i] if depths and i < len(depths) else round(rng.uniform(0.5, 4.0), 2)
        out.append([h if i < n - 1 else 0.0, round(vp, 3), round(vs, 3), round(1.7 + 0.2 * vp, 3), 500.0, 250.0])
        vp += rng.uniform(0.2, 1.0) * (1 if rng.random() < .85 else -0.5)
    if liquid is not None:
        out[liquid][1] = 1.5; out[liquid][2] = 0.0; out[liquid][3] = 1.0
    return out

def write(path, rows, fmt="%r"):
    with open(path, "w") as f:
        for r in rows: f.write(" ".join(repr(float(x)) for x in r) + "\n")
    return path

def layer_at(rows, z):
    """index of the layer containing depth z (interface belongs to the layer above)"""
    t = 0.0
    for i, r in enumerate(rows[:-1]):
        t += r[0]
        if z <= t + 1e-9: return i
    return len(rows) - 1
