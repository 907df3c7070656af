"""Independent reference implementations (no freegs code is used here)."""
import numpy as np
from scipy.special import ellipk, ellipe

MU0 = 4e-7 * np.pi
BIG = 2000000000


def loop(Rc, Zc, R, Z):
    """psi (per radian), Br, Bz of a unit current loop; closed form expressions."""
    R = np.asarray(R, float)
    Z = np.asarray(Z, float)
    dz = Z - Zc
    a2 = (Rc + R) ** 2 + dz ** 2
    b2 = (Rc - R) ** 2 + dz ** 2
    m = 4 * Rc * R / a2
    K, E = ellipk(m), ellipe(m)
    a = np.sqrt(a2)
    # A_phi = mu0/(pi) sqrt(Rc/R)/k [(1-m/2)K - E];  psi = R A_phi
    psi = MU0 / (2 * np.pi) * a * ((1 - m / 2) * K - E)
    Bz = MU0 / (2 * np.pi) / a * (K + (Rc ** 2 - R ** 2 - dz ** 2) / b2 * E)
    Br = MU0 / (2 * np.pi) * dz / (R * a) * (-K + (Rc ** 2 + R ** 2 + dz ** 2) / b2 * E)
    return psi, Br, Bz


def loops(fils, R, Z):
    """fils: iterable of (Rc, Zc, weight)"""
    tot = [0.0, 0.0, 0.0]
    for rc, zc, w in fils:
        f = loop(rc, zc, R, Z)
        for i in range(3):
            tot[i] = tot[i] + w * f[i]
    return tot


def rect_quad(r0, r1, z0, z1, n=8):
    """Gauss-Legendre filaments averaging over a rectangle (weights sum to 1)."""
    x, w = np.polynomial.legendre.leggauss(n)
    out = []
    for xi, wi in zip(x, w):
        for xj, wj in zip(x, w):
            out.append((0.5 * (r0 + r1) + 0.5 * (r1 - r0) * xi,
                        0.5 * (z0 + z1) + 0.5 * (z1 - z0) * xj, wi * wj / 4))
    return out


def sint(x, scale=1.0):
    """Scaled integer projection of a real number; sentinel BIG for anything unusable."""
    try:
        v = float(np.asarray(x, float).reshape(-1)[0]) if np.size(x) == 1 else float(x)
    except Exception:
        return BIG
    v = v * scale
    if not np.isfinite(v) or abs(v) >= BIG:
        return BIG
    return int(round(v))


def ppm(err, ref=1.0):
    """|err/ref| in parts per million as a bounded integer."""
    try:
        e = np.max(np.abs(np.asarray(err, float))) / abs(float(ref))
    except Exception:
        return BIG
    if not np.isfinite(e):
        return BIG
    return int(min(BIG, np.ceil(e * 1e6)))
