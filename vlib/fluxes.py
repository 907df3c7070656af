"""Analytic poloidal fluxes with known axis, X-points, values and core.

psi = s*A*(g(u) + h(v)),  g(u) = G(u; a, u1, u2),  h(v) = G(v; b, v1, v2)
G'(x) = -(2 x / a^2) (1 - x/x1)(1 + x/x2): a maximum at 0, minima at x1 > 0 and
-x2 < 0 (None: no such point).  (u, v) are (R, Z) relative to the axis, rotated."""
import numpy as np

INF = 1e30


class Flux:
    def __init__(self, R0, Z0, a, b, u1=None, u2=None, v1=None, v2=None, theta=0.0, A=1.0, s=1):
        self.R0, self.Z0, self.a, self.b = R0, Z0, a, b
        self.u1, self.u2, self.v1, self.v2 = u1 or INF, u2 or INF, v1 or INF, v2 or INF
        self.c, self.sn = np.cos(theta), np.sin(theta)
        self.A, self.s = A, s

    @staticmethod
    def G(x, a, x1, x2):
        return -(2 / a ** 2) * (x ** 2 / 2 + x ** 3 / 3 * (1 / x2 - 1 / x1) - x ** 4 / (4 * x1 * x2))

    @staticmethod
    def dG(x, a, x1, x2):
        return -(2 * x / a ** 2) * (1 - x / x1) * (1 + x / x2)

    def uv(self, R, Z):
        dr, dz = np.asarray(R, float) - self.R0, np.asarray(Z, float) - self.Z0
        return self.c * dr + self.sn * dz, -self.sn * dr + self.c * dz

    def rz(self, u, v):
        return self.R0 + self.c * u - self.sn * v, self.Z0 + self.sn * u + self.c * v

    def psi(self, R, Z):
        u, v = self.uv(R, Z)
        return self.s * self.A * (self.G(u, self.a, self.u1, self.u2) + self.G(v, self.b, self.v1, self.v2))

    def grad(self, R, Z):
        u, v = self.uv(R, Z)
        gu = self.s * self.A * self.dG(u, self.a, self.u1, self.u2)
        gv = self.s * self.A * self.dG(v, self.b, self.v1, self.v2)
        return self.c * gu - self.sn * gv, self.sn * gu + self.c * gv

    def critical(self):
        """[(R, Z, psi, kind)] of all critical points; kind 'O' or 'X'"""
        us = [(0.0, 1)] + [(x, -1) for x in (self.u1, -self.u2) if abs(x) < INF]
        vs = [(0.0, 1)] + [(x, -1) for x in (self.v1, -self.v2) if abs(x) < INF]
        out = []
        for u, tu in us:
            for v, tv in vs:
                R, Z = self.rz(u, v)
                out.append((R, Z, float(self.psi(R, Z)), "O" if tu == tv else "X"))
        return out

    def bmag(self, R, Z):
        gr, gz = self.grad(R, Z)
        return np.hypot(gr, gz) / R


class Snow:
    """psi = s*A*(v^3/3 - v u^2 + d^2 v - v^4/(4 L)): two X-points at u = -d, d and one O-point on v > 0"""

    def __init__(self, R0, Z0, d, L, theta=0.0, A=1.0, s=1):
        self.d, self.L, self.A, self.s = d, L, A, s
        # the O-point: v^2 + d^2 = v^3 / L
        self.v0 = float(max(np.roots([-1.0 / L, 1.0, 0.0, d * d]).real))
        self.c, self.sn = np.cos(theta), np.sin(theta)
        self.R0, self.Z0 = R0, Z0

    def uv(self, R, Z):
        dr, dz = np.asarray(R, float) - self.R0, np.asarray(Z, float) - self.Z0
        return self.c * dr + self.sn * dz, -self.sn * dr + self.c * dz + self.v0

    def rz(self, u, v):
        return self.R0 + self.c * u - self.sn * (v - self.v0), self.Z0 + self.sn * u + self.c * (v - self.v0)

    def psi(self, R, Z):
        u, v = self.uv(R, Z)
        return self.s * self.A * (v ** 3 / 3 - v * u ** 2 + self.d ** 2 * v - v ** 4 / (4 * self.L))

    def grad(self, R, Z):
        u, v = self.uv(R, Z)
        gu = self.s * self.A * (-2 * u * v)
        gv = self.s * self.A * (v ** 2 - u ** 2 + self.d ** 2 - v ** 3 / self.L)
        return self.c * gu - self.sn * gv, self.sn * gu + self.c * gv

    def critical(self):
        return [(*self.rz(u, v), float(self.psi(*self.rz(u, v))), t) for u, v, t in ((-self.d, 0, "X"), (self.d, 0, "X"), (0, self.v0, "O"))]

    def bmag(self, R, Z):
        gr, gz = self.grad(R, Z)
        return np.hypot(gr, gz) / R
