"""Reference continuation of the equilibrium path of an elastic structure."""
import numpy as np


class PathError(Exception):
    """the reference cannot follow the path here"""


class Tracer:
    """Traces r(u) = fconst + lam*f from a point in scaled coordinates y = x/w."""

    def __init__(self, ref, fconst, f, w):
        self.ref, self.w = ref, w
        self.fc = fconst.ravel()[ref.dof1]
        self.f = f.ravel()[ref.dof1]
        self.fscale = None

    def res(self, y):
        x = y * self.w
        r = self.ref.r_el(self.ref.full(x[:-1])).ravel()[self.ref.dof1]
        return r - self.fc - x[-1] * self.f

    def jac(self, y):
        x = y * self.w
        K = self.ref.Kred(self.ref.full(x[:-1]))
        return np.hstack([K, -self.f[:, None]]) * self.w[None, :]

    def tangent(self, y, t0):
        J = self.jac(y)
        rn = np.sqrt((J * J).sum(1))
        if not np.isfinite(rn).all() or (rn == 0).any():
            raise PathError
        u, s, vt = np.linalg.svd(J / rn[:, None])
        t = vt[-1]
        d = float(t @ t0)
        if d < 0:
            t, d = -t, -d
        return t, s[-1] / s[0], d

    def correct(self, y, t, dist=None):
        """Newton in the hyperplane through y normal to t"""
        y0 = y.copy()
        for _ in range(8):
            J = self.jac(y)
            rn = np.sqrt((J * J).sum(1))
            A = np.vstack([J / rn[:, None], t])
            b = -np.append(self.res(y) / rn, t @ (y - y0))
            try:
                d = np.linalg.solve(A, b)
            except np.linalg.LinAlgError:
                raise PathError
            y = y + d
            if np.abs(d).max() < 1e-11 * (1 + np.abs(y).max()):
                return y
        raise PathError

    def trace(self, x0, t0, stop, ds=0.12, maxlen=6.0):
        """points (scaled) from x0 in the direction of t0 until stop(y-y0) is
        true; returns points, smallest gap, smallest cosine to the first tangent"""
        y0 = x0 / self.w
        t, gap, _ = self.tangent(y0, t0)
        tstart = t
        pts, ts = [y0], [t]
        y, mingap, mincos, length = y0, gap, 1.0, 0.0
        while length < maxlen:
            yn = self.correct(y + ds * t, t)
            if np.linalg.norm(yn - y - ds * t) > 0.3 * ds:
                raise PathError  # the corrector left this branch
            tn, gap, d = self.tangent(yn, t)
            if d < 0.9:
                raise PathError
            mingap = min(mingap, gap)
            mincos = min(mincos, float(tn @ tstart))
            length += float(np.linalg.norm(yn - y))
            y, t = yn, tn
            pts.append(y)
            ts.append(t)
            if stop(y - y0):
                return np.array(pts), np.array(ts), mingap, mincos
        raise PathError


def distance(pts, ts, y):
    """distance of y from the traced curve (cubic Hermite between the points)"""
    best = np.inf
    k0 = int(np.argmin(np.linalg.norm(pts - y, axis=1)))
    for k in range(max(0, k0 - 2), min(len(pts) - 1, k0 + 2)):
        a, b = pts[k], pts[k + 1]
        h = np.linalg.norm(b - a)
        lo, hi = 0.0, 1.0
        for _ in range(6):
            s = np.linspace(lo, hi, 9)[:, None]
            p = (
                (2 * s**3 - 3 * s**2 + 1) * a
                + (s**3 - 2 * s**2 + s) * h * ts[k]
                + (-2 * s**3 + 3 * s**2) * b
                + (s**3 - s**2) * h * ts[k + 1]
            )
            d = np.linalg.norm(p - y, axis=1)
            i = int(np.argmin(d))
            best = min(best, float(d[i]))
            lo, hi = s[max(i - 1, 0), 0], s[min(i + 1, 8), 0]
    return best
