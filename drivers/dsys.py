"""Systems that can be told in any unit of length, and results as plain arrays. Used by the drivers of FUnits
and FDetail."""
import numpy as np
import freud
from freud.box import Box
import dclasses as D


def pts(r, box, n, spread):
    """points without equal distances among them"""
    p = np.round(box.wrap(box.make_absolute(r.random((n, 3)) * spread)).astype(float) * 2 ** 17) / 2 ** 17
    if box.is2D:
        p[:, 2] = 0
    return p.astype(np.float32)


class Sys:
    """a system told in units of 1/s; every random choice is made once, before any of the calls"""

    def __init__(self, r, kind):
        self.d = 2 if kind == "2" or (kind == "any" and r.random() < .5) else 3
        L = r.integers(24, 49, 3) / 4
        t = np.round(r.uniform(-.5, .5, 3) * 8) / 8 * (r.random() < .6)
        if kind == "cube":
            L[:], t = L[0], t * 0
        if kind == "ortho":
            t = t * 0
        self.L, self.t = L, t
        n = int(r.choice([5, 20, 60, 150]))
        b = self.box(1)
        self.p = pts(r, b, n, float(r.choice([1, 1, .3]))).astype(float)
        self.q = pts(r, b, max(2, n // 3), 1.0).astype(float)
        self.o = D.quats(r, n)
        self.qo = D.quats(r, len(self.q))
        self.a, self.qa = D.angles(r, n), D.angles(r, len(self.q))
        self.w = (r.integers(1, 9, n) / 4).astype(np.float32)
        self.qw = (r.integers(1, 9, len(self.q)) / 4).astype(np.float32)
        self.idx = np.concatenate([[0, 1], r.integers(0, 2, n - 2)]).astype(np.uint32)
        self.im = r.integers(-2, 3, (n, 3)).astype(np.int32)
        self.x = r.random(8)                     # for settings
        self.h = min(L[:self.d]) / 2 * .6
        if abs(t).any():
            self.h *= .7
        self.kind = int(r.integers(4))
        self.own = bool(r.random() < .5)

    def box(self, s):
        L, t = self.L * s, self.t
        return Box(L[0], L[1], 0, t[0], is2D=True) if self.d == 2 else Box(*L, *t)

    def f(self, x, s):
        return np.ascontiguousarray(x * s, dtype=np.float32)

    def sys(self, s, engine=True):
        b, p = self.box(s), self.f(self.p, s)
        k = self.kind
        if not engine or k == 0:
            return b, p
        if k == 1:
            return freud.locality.AABBQuery(b, p)
        if k == 2:
            return freud.locality.LinkCell(b, p)
        return freud.locality.LinkCell(b, p, cell_width=self.h / 1.7 * s)

    def qp(self, s):
        return None if self.own else self.f(self.q, s)

    def args(self, s, r=.9, k=6):
        """one of the ways of saying which bonds"""
        r, c = r * self.h * s, int(self.x[7] * 5)
        a = [dict(mode="ball", r_max=r), dict(r_max=r, r_min=.3 * r), dict(num_neighbors=k), dict(num_neighbors=k, r_guess=.5 * r),
             dict(num_neighbors=k, r_max=r)][c]
        if self.x[6] < .4:
            q = self.f(self.q, s) if not self.own else self.f(self.p, s)
            return freud.locality.AABBQuery(self.box(s), self.f(self.p, s)).query(q, dict(a, exclude_ii=bool(self.own))).toNeighborList()
        return a


def take(o, *names, **renamed):
    out = {}
    for n in names:
        v = getattr(o, n)
        if n in ("bin_edges", "bin_centers", "bounds"):
            v = [v] if isinstance(v, np.ndarray) or n == "bounds" and not isinstance(v[0], (tuple, list)) else v
            for i, x in enumerate(v):
                out[f"{n}.{i + 1}"] = np.asarray(x, float)
        else:
            out[n] = v
    for k, n in renamed.items():
        out[k] = getattr(o, n)
    return out


def nlres(nl, pre=""):
    o = np.lexsort((nl.point_indices, nl.query_point_indices))
    return {pre + "bonds": np.array(nl[:])[o], "vectors": nl.vectors[o], "distances": nl.distances[o], pre + "bond weights": nl.weights[o]}


HIST = ("bin_edges", "bin_centers", "bounds", "bin_counts")
