import numpy as np
from vlib import gen
from vlib.oracle import ppm, MU0
from checks import c14
from checks.c14 import TRACE, TRACE_CFG, models, DOM, FVAC, execute  # noqa: F401

RULE = ("every recorded sequence of solves and questions gives global quantities (volume, betas, inductances, energy) equal to "
        "their defining integrals over the core of the closed-form flux map, and satisfying the identities between them")
CLAUSES = ("C22",)
LIMIT = 240


def scenarios(tier, seed):
    n, d = (60, 4) if tier == "quick" else (800, 8)
    return c14.scen("integ", n, d, seed, "integ")


def ask_integ(r, h):
    e, f, s, pr, n = r.eq, r.f, r.sf, r.pr, h["n"]
    tp = 2 * np.pi
    V = s.integral(lambda R, Z, x: tp * R)
    ip = s.integral(lambda R, Z, x: tp * R * pr.p(x))
    ia = s.integral(lambda R, Z, x: pr.p(x))
    bp = s.integral(lambda R, Z, x: tp * R * f.bmag(R, Z) ** 2)
    bt = s.integral(lambda R, Z, x: tp * R * (pr.f(x) / R) ** 2)
    t, w = np.polynomial.legendre.leggauss(24)
    RR, ZZ = np.meshgrid(0.5 * (DOM[0] + DOM[1]) + 0.5 * (DOM[1] - DOM[0]) * t, 0.5 * (DOM[2] + DOM[3]) + 0.5 * (DOM[3] - DOM[2]) * t, indexing="ij")
    Ip = float(np.sum(np.outer(w, w) * r.jtor(RR, ZZ)) * 0.25 * (DOM[1] - DOM[0]) * (DOM[3] - DOM[2]))
    Rf, Zf, _, _ = s.points(1.0, 4000)

    def sampled(m, shift):
        """geometry of m boundary points equally spaced in angle, as separatrix() gives them"""
        th = np.pi / 2 - 2 * np.pi * (np.arange(m) + shift) / m
        rr = s.radius(1.0, th)
        R, Z = f.R0 + rr * np.cos(th), f.Z0 + rr * np.sin(th)
        a = 0.5 * (R.max() - R.min())
        return 0.5 * (R.max() + R.min()), 0.5 * (Z[np.argmax(R)] + Z[np.argmin(R)]), a, 0.5 * (Z.max() - Z.min()) / a
    shift = 0.5 if abs(np.ptp(e.separatrix(npoints=n)[:, 1]) / 2 / sampled(n, 0.5)[2] - sampled(n, 0.5)[3]) < abs(
        np.ptp(e.separatrix(npoints=n)[:, 1]) / 2 / sampled(n, 0)[2] - sampled(n, 0)[3]) else 0
    R0, Z0, a, kap = sampled(n, shift)
    keff = V / (tp * R0 * np.pi * a * a)
    btp, btt = 2 * MU0 * ip / bp, 2 * MU0 * ip / bt
    # core mask is decided cell by cell: relative width of the boundary layer
    nx, ny = r.R.shape
    h1 = max((DOM[1] - DOM[0]) / (nx - 1), (DOM[3] - DOM[2]) / (ny - 1))
    per = np.sum(np.hypot(np.diff(Rf), np.diff(Zf)))
    area = s.integral(lambda R, Z, x: 1.0 + 0 * R)
    lay = 0.25 * h1 * per / area
    tol = 1e6 * (0.008 + lay)
    li = 2 * bp / ((MU0 * Ip) ** 2 * R0)
    Btg = float(pr.f(s.norm(R0, Z0))) / R0

    def qc(sh):
        R, _, b, k = sampled(360, sh)
        return 0.5 * (1 + k ** 2) * tp * b * (b / R) * (pr.fs * FVAC / R) / (MU0 * Ip)

    def err(x, y):
        return ppm(float(x) - y, y)
    g = {"vol": err(e.plasmaVolume(), V), "bp": err(e.poloidalBeta(), btp), "bp2": err(e.poloidalBeta2(), 8 * np.pi / MU0 * ia / Ip ** 2),
         "bp3": err(e.poloidalBeta3(), 4 * ip / (MU0 * Ip ** 2 * R0)), "bt": err(e.toroidalBeta(), btt),
         "bn": err(e.betaN(npoints=n), 1e8 * btt * a * Btg / Ip), "li": err(e.internalInductance(npoints=n), li),
         "li1": err(e.internalInductance1(npoints=n), li * (1 + kap ** 2) / (2 * keff)), "li2": err(e.internalInductance2(), 2 * bp / ((MU0 * Ip) ** 2 * f.R0)),
         "li3": err(e.internalInductance3(npoints=n), li), "pav": err(e.pressure_ave(), ip / V), "wth": err(e.w_th(), 1.5 * ip),
         "qcyl": min(err(e.qcyl(), qc(0)), err(e.qcyl(), qc(0.5)))}
    g["tot"] = ppm(e.totalBeta() * (1 / e.poloidalBeta() + 1 / e.toroidalBeta()) - 1)
    g["keff"] = ppm(e.effectiveElongation(npoints=n) * 2 * np.pi ** 2 * e.Rgeometric(npoints=n) * e.minorRadius(npoints=n) ** 2 / e.plasmaVolume() - 1)
    g["wp"] = ppm(e.w_th() / (1.5 * e.pressure_ave() * e.plasmaVolume()) - 1)
    g["lili"] = ppm(e.internalInductance3(npoints=n) * e.Rgeometric(npoints=n) / (e.internalInductance2() * e.Rmagnetic()) - 1)
    g["tol"] = int(tol)
    g["tol2"] = int(1.5 * tol)
    return g


c14.ask_integ = ask_integ
