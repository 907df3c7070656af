"""Flux surfaces, line and volume integrals of the analytic maps (star-shaped about the axis)."""
import numpy as np


class Surf:
    """surfaces of map f, normalised to boundary flux b"""

    def __init__(self, f, b, rmax=3.0):
        self.f, self.b = f, float(b)
        self.ax = float(f.psi(f.R0, f.Z0))
        self.rmax = rmax

    def norm(self, R, Z):
        return (self.f.psi(R, Z) - self.ax) / (self.b - self.ax)

    def reach(self, th):
        """distance from the axis at which the ray leaves the monotonic box"""
        u, v = np.cos(th) * self.f.c + np.sin(th) * self.f.sn, -np.cos(th) * self.f.sn + np.sin(th) * self.f.c
        r = np.full(np.shape(th), self.rmax)
        with np.errstate(divide="ignore", invalid="ignore"):
            r = np.minimum(r, np.where(u > 0, self.f.u1 / u, np.where(u < 0, -self.f.u2 / u, np.inf)))
            r = np.minimum(r, np.where(v > 0, self.f.v1 / v, np.where(v < 0, -self.f.v2 / v, np.inf)))
        return r

    def radius(self, x, th):
        """distance of surface x from the axis at angle th (R axis = 0)"""
        th = np.asarray(th, float)
        lo, hi = np.zeros(np.broadcast(x, th).shape), np.broadcast_to(self.reach(th), np.broadcast(x, th).shape).copy()
        for _ in range(60):
            m = 0.5 * (lo + hi)
            inn = self.norm(self.f.R0 + m * np.cos(th), self.f.Z0 + m * np.sin(th)) < x
            lo, hi = np.where(inn, m, lo), np.where(inn, hi, m)
        return 0.5 * (lo + hi)

    def points(self, x, n=720):
        th = 2 * np.pi * (np.arange(n) + 0.5) / n
        r = self.radius(x, th)
        return self.f.R0 + r * np.cos(th), self.f.Z0 + r * np.sin(th), r, th

    def q(self, x, fpol, n=4000):
        """safety factor of surface x: f/(2 pi) times the integral of dl/(R |grad psi|)"""
        R, Z, r, th = self.points(x, n)
        gr, gz = self.f.grad(R, Z)
        d = np.abs(gr * np.cos(th) + gz * np.sin(th))
        return fpol * np.sum(r / (R * d)) / n

    def integral(self, g, x=1.0, nr=40, n=720):
        """integral of g(R, Z, psinorm) dR dZ inside surface x"""
        t, w = np.polynomial.legendre.leggauss(nr)
        t, w = 0.5 * (t + 1), 0.5 * w
        th = 2 * np.pi * (np.arange(n) + 0.5) / n
        rb = self.radius(x, th)
        rr = t[:, None] * rb[None, :]
        R, Z = self.f.R0 + rr * np.cos(th), self.f.Z0 + rr * np.sin(th)
        return float(np.sum(w[:, None] * rb[None, :] * rr * g(R, Z, self.norm(R, Z))) * 2 * np.pi / n)
