"""How many guided modes a layered elastic half-space has below a phase velocity: the Wittrick-Williams count
of the exact dynamic stiffness of the layers (an oracle independent of the code under test).
rows: [thickness, vp, vs, rho, ...], last row the half-space."""
import cmath, math
import numpy as np

def _psv(sols, mu, lam, k, faces):
    """displacements (U sin kx, W cos kx) and outward face forces of the solutions [(q, kind, value at each face)]"""
    n = len(sols); D = np.zeros((2 * len(faces), n), complex); T = np.zeros_like(D)
    for j, (q, kind, vals) in enumerate(sols):
        for i, sgn in enumerate(faces):
            e = vals[i]
            if kind == "P": d = (-k, q); t = (-2 * mu * k * q, -lam * k * k + (lam + 2 * mu) * q * q)
            else: d = (q, -k); t = (mu * (q * q + k * k), -2 * mu * k * q)
            D[2 * i:2 * i + 2, j] = np.array(d) * e; T[2 * i:2 * i + 2, j] = sgn * np.array(t) * e
    K = np.linalg.solve(D.T, T.T).T
    return 0.5 * (K + K.T).real

def layer(h, vp, vs, rho, w, k, wave):
    if wave == "L":
        mu = rho * vs * vs; s = cmath.sqrt(complex(k * k - (w / vs) ** 2))
        a = s * h
        if abs(a) < 1e-9: return mu / h * np.array([[1., -1.], [-1., 1.]])
        sh, ch = cmath.sinh(a), cmath.cosh(a)
        return (mu * s / sh * np.array([[ch, -1], [-1, ch]])).real
    mu = rho * vs * vs; lam = rho * vp * vp - 2 * mu
    p = cmath.sqrt(complex(k * k - (w / vp) ** 2)); s = cmath.sqrt(complex(k * k - (w / vs) ** 2))
    return _psv([(q, kd, (cmath.exp(-q * h), 1) if g > 0 else (1, cmath.exp(q * h))) for kd, q0 in (("P", p), ("S", s)) for g, q in ((1, q0), (-1, -q0))], mu, lam, k, (-1, 1))

def half(vp, vs, rho, w, k, wave):
    mu = rho * vs * vs; s = math.sqrt(k * k - (w / vs) ** 2)
    if wave == "L": return np.array([[mu * s]])
    p = math.sqrt(k * k - (w / vp) ** 2)
    return _psv([(-p, "P", (1,)), (-s, "S", (1,))], mu, rho * vp * vp - 2 * mu, k, (-1,))

def liquid(h, vp, rho, w, k):
    """acoustic layer in terms of the vertical displacement of its faces"""
    v = cmath.sqrt(complex(k * k - (w / vp) ** 2)); a = v * h
    if abs(a) < 1e-9: v = 1e-9 / h; a = v * h
    sh, ch = cmath.sinh(a), cmath.cosh(a)
    return (-rho * w * w / (v * sh) * np.array([[ch, -1], [-1, ch]])).real

def count(rows, freq, c, wave):
    """number of modes with phase velocity below c (c below the half-space's S velocity)"""
    w = 2 * math.pi * freq; k = w / c
    rows = [r for r in rows]
    if wave == "L":
        while rows and rows[0][2] == 0: rows = rows[1:]
    neg = 0; S = None
    def need(m):
        """the stiffness of everything above, on the m displacements of the face below it"""
        nonlocal S, neg
        if S is None: S = np.zeros((m, m))
        elif len(S) < m: S = np.array([[0., 0.], [0., S[0, 0]]])
        elif len(S) > m:
            neg += int(S[0, 0] < 0); S = np.array([[S[1, 1] - S[0, 1] ** 2 / S[0, 0]]])
    for r in rows[:-1]:
        h, vp, vs, rho = r[:4]; liq = vs == 0
        d = min(1.2 * (vp if liq else vs) / w, 1.5 / k)
        n = max(1, int(math.ceil(h / d))); m = 1 if liq or wave == "L" else 2
        for _ in range(n):
            if liq: K = liquid(h / n, vp, rho, w, k); neg += (1 if c > vp else 0) - 1     # its rigid-face mode at w = k vp, its zero-frequency mode
            else: K = layer(h / n, vp, vs, rho, w, k, wave)
            need(m)
            A = S + K[:m, :m]; B = K[:m, m:]; C = K[m:, m:]
            neg += int((np.linalg.eigvalsh(0.5 * (A + A.T)) < 0).sum())
            S = C - B.T @ np.linalg.solve(A, B)
    K = half(*rows[-1][1:4], w, k, wave); need(len(K))
    A = S + 0.5 * (K + K.T)
    return neg + int((np.linalg.eigvalsh(0.5 * (A + A.T)) < 0).sum())
