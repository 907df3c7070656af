"""Smooth compact current distributions and their exact flux (Green's integral)."""
import functools
import numpy as np
from vlib.oracle import loop

# domain used by the plasma oracles, and the blobs inside it
SHAPES = {1: (1.05, 0.05, 0.32, 0.45), 2: (1.2, -0.12, 0.26, 0.36)}   # R0, Z0, a, b


def blob(s, R, Z):
    """current density, normalised to total current 1"""
    R0, Z0, a, b = SHAPES[s]
    r2 = ((R - R0) / a) ** 2 + ((Z - Z0) / b) ** 2
    # integral of (1-r2)^4 over the ellipse = pi a b / 5
    return np.where(r2 < 1, (1 - np.minimum(r2, 1)) ** 4, 0.0) * 5 / (np.pi * a * b)


@functools.lru_cache(None)
def nodes(s, nr=40, nt=48):
    R0, Z0, a, b = SHAPES[s]
    x, w = np.polynomial.legendre.leggauss(nr)
    rho, wr = 0.5 * (x + 1), 0.5 * w
    th = 2 * np.pi * (np.arange(nt) + 0.5) / nt
    RR, TT = np.meshgrid(rho, th, indexing="ij")
    W = (wr[:, None] * RR * (1 - RR ** 2) ** 4) * (2 * np.pi / nt) * 5 / np.pi
    return (R0 + a * RR * np.cos(TT)).ravel(), (Z0 + b * RR * np.sin(TT)).ravel(), W.ravel()


def flux(s, R, Z):
    """psi, Br, Bz of blob s with total current 1; exact away from the blob"""
    R, Z = np.asarray(R, float), np.asarray(Z, float)
    out = [np.zeros(R.shape) for _ in range(3)]
    for rc, zc, w in zip(*nodes(s)):
        f = loop(rc, zc, R, Z)
        for i in range(3):
            out[i] += w * f[i]
    return out


def outside(s, R, Z, f=1.15):
    R0, Z0, a, b = SHAPES[s]
    return ((R - R0) / a) ** 2 + ((Z - Z0) / b) ** 2 > f ** 2
