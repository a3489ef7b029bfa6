"""Independent reference model of the truss theory in docs/theory/*.rst.

Written from the documentation, vectorised over the elements, sharing no code
with trusspy.  Everything is expressed in "sorted node order": node k is the
k-th smallest node label, elements are in insertion order.
"""
import numpy as np


class Ref:
    def __init__(self, spec):
        nodes = sorted(spec["nodes"], key=lambda n: n[0])
        self.labels = [n[0] for n in nodes]
        self.idx = {l: i for i, l in enumerate(self.labels)}
        self.X = np.array([n[1:4] for n in nodes], dtype=float)
        self.elabels = [e["label"] for e in spec["elems"]]
        self.conn = np.array(
            [[self.idx[e["conn"][0]], self.idx[e["conn"][1]]] for e in spec["elems"]]
        )
        mats = [list(map(float, e["mat"])) + [0.0] * 3 for e in spec["elems"]]
        self.E = np.array([m[0] for m in mats])
        self.H = np.array([m[1] for m in mats])
        self.Sy = np.array([m[2] for m in mats])
        self.mtype = np.array([e["mtype"] for e in spec["elems"]])
        self.A = np.array([float(e["area"]) for e in spec["elems"]])
        self.nn, self.ne = len(self.labels), len(self.elabels)
        free = np.ones((self.nn, 3), dtype=int)
        for lab, b in spec["bounds"]:
            free[self.idx[lab]] = b
        self.free = free.astype(bool)
        self.dof1 = np.flatnonzero(self.free.ravel())
        self.dof0 = np.flatnonzero(~self.free.ravel())
        ns = spec["settings"].get("nsteps", 1)
        F = np.zeros((ns, self.nn, 3))
        for lab, f in spec["forces"]:
            F[:, self.idx[lab], :] = np.array(f, dtype=float)[: 3 * ns].reshape(ns, 3)
        self.F = F
        self.nsteps = ns
        d = self.X[self.conn[:, 1]] - self.X[self.conn[:, 0]]
        self.L = np.sqrt((d * d).sum(1))

    # --- kinematics -------------------------------------------------------
    def kin(self, U):
        x = self.X + np.asarray(U, dtype=float).reshape(self.nn, 3)
        d = x[self.conn[:, 1]] - x[self.conn[:, 0]]
        l = np.sqrt((d * d).sum(1))
        return l, d / l[:, None], l / self.L

    # --- constitution -----------------------------------------------------
    def state0(self):
        """(yield stress, plastic strain) per element."""
        return np.column_stack([self.Sy.copy(), np.zeros(self.ne)])

    def material(self, lam, state=None):
        """stress, dstress/dstrain, new state, signed distance to yield."""
        e = lam - 1.0
        s = self.E * e
        ds = self.E.copy()
        new = self.state0() if state is None else state.copy()
        dist = np.full(self.ne, np.inf)
        for k in np.flatnonzero(self.mtype == 2):
            E, H = self.E[k], self.H[k]
            sy, ep = new[k]
            tr = E * (e[k] - ep)
            f = abs(tr) - sy
            dist[k] = f
            if f <= 0:
                s[k] = tr
            else:
                g = f / (E + H)
                sg = 1.0 if tr > 0 else -1.0
                ep2 = ep + g * sg
                s[k] = E * (e[k] - ep2)
                ds[k] = E * H / (E + H)
                new[k] = (sy + H * g, ep2)
        return s, ds, new, dist

    # --- assembly ---------------------------------------------------------
    def internal(self, U, N):
        l, n, lam = self.kin(U)
        r = np.zeros((self.nn, 3))
        np.add.at(r, self.conn[:, 0], -N[:, None] * n)
        np.add.at(r, self.conn[:, 1], N[:, None] * n)
        return r

    def r_el(self, U):
        _, _, lam = self.kin(U)
        s = self.material(lam)[0]
        return self.internal(U, s * self.A)

    def tangent(self, U, N, ds):
        l, n, lam = self.kin(U)
        K = np.zeros((self.nn, 3, self.nn, 3))
        for k in range(self.ne):
            nn = np.outer(n[k], n[k])
            ke = ds[k] * self.A[k] / self.L[k] * nn + N[k] / l[k] * (np.eye(3) - nn)
            a, b = self.conn[k]
            K[a, :, a, :] += ke
            K[b, :, b, :] += ke
            K[a, :, b, :] -= ke
            K[b, :, a, :] -= ke
        return K.reshape(3 * self.nn, 3 * self.nn)

    def Kred(self, U, state=None):
        _, _, lam = self.kin(U)
        s, ds, _, _ = self.material(lam, state)
        K = self.tangent(U, s * self.A, ds)
        return K[np.ix_(self.dof1, self.dof1)]

    def full(self, ured):
        U = np.zeros(3 * self.nn)
        U[self.dof1] = ured
        return U.reshape(self.nn, 3)

    # --- equilibrium path of an elastic structure -------------------------
    def tangent_dir(self, U, f, w):
        """Unit tangent of the equilibrium path r(U) = const + lam*f at U in the
        metric scaled by the step limits w, and the singular value gap that says
        how far the point is from a bifurcation (second smallest singular value,
        relative to the biggest)."""
        K = self.Kred(U)
        fr = f.ravel()[self.dof1]
        M = np.hstack([K, -fr[:, None]]) * w[None, :]
        # rows scaled to unit norm: conditioning is about directions only
        rn = np.sqrt((M * M).sum(1))
        rn[rn == 0] = 1.0
        M = M / rn[:, None]
        u, s, vt = np.linalg.svd(M)
        t = vt[-1]
        gap = s[-1] / s[0] if len(s) else 1.0
        return t, gap

    def gap_at(self, U, f, w):
        return self.tangent_dir(U, f, w)[1]
