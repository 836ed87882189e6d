"""SANN and RAD filters over neighbour lists of every shape (F01, F02)."""
import numpy as np
import freud
from dlib import *

NL = freud.locality.NeighborList
SANN = PROP == "F01"


def rec(nl, u=1.0):
    v = np.asarray(nl.vectors, dtype=float).reshape(-1, 3)
    return dict(q=ints(nl.query_point_indices), p=ints(nl.point_indices), v=toint(v / u, tol=0.01), w=toint(nl.weights, 4),
                d2=toint((np.asarray(nl.distances, dtype=float) / u) ** 2, tol=0.03), nq=int(nl.num_query_points), np=int(nl.num_points))


def same(a, b):
    return bool(len(a) == len(b) and (a[:] == b[:]).all() and (a.vectors == b.vectors).all() and (a.weights == b.weights).all())


PYTH = [v for v in np.ndindex(13, 13, 13) if 0 < sum(x * x for x in v) <= 170 and int(round(sum(x * x for x in v) ** .5)) ** 2 == sum(x * x for x in v)]


def vectors(r, n, kind, hi=6):
    if kind == 0:                       # integer lengths: SANN is exact
        v = np.array([PYTH[i] for i in r.integers(0, len(PYTH), n)]).reshape(-1, 3)
        v = v[np.lexsort((r.random(n), (v ** 2).sum(1)))]
        return v * r.choice([-1, 1], (n, 3))
    if kind == 1:                       # axes: many ties
        v = np.zeros((n, 3), dtype=int)
        v[np.arange(n), r.integers(0, 3, n)] = r.choice([-3, -2, -1, 1, 2, 3], n)
        return v
    v = r.integers(-hi, hi + 1, (n, 3))
    v[(v == 0).all(1)] = [1, 0, 0]
    return v


def make(r, many=False):
    """many: so many query points that the pieces of a loop run in parallel have several (see vf.drive)"""
    dense = r.random() < .06 and not many
    nq, n_p = 500 if many else int(r.integers(1, 3 if dense else 7)), int(r.integers(1, 90 if dense else 30))
    q, p, v, w = [], [], [], []
    if many is None or not many and r.random() < .1:
        # shells that are all complete but for one, at most: nothing, or all there is, is near it
        v0 = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [9, 0, 0]] if SANN else [[1, 0, 0], [3, 0, 0], [0, 2, 0]]
        nq = int(r.integers(100, 400)) if many is None else nq
        n_p, odd, k = max(n_p, 8), int(r.integers(-1, nq)), int(r.integers(0, 2))
        for i in range(nq):
            n = k if i == odd else len(v0)
            q += [i] * n
            p += r.permutation(n_p)[:n].tolist()
            v += v0[:n]
            w += (r.integers(1, 9, n) / 4).tolist()
        return nq, n_p, np.array(q, dtype=int), np.array(p, dtype=int), np.array(v, dtype=int).reshape(-1, 3), np.array(w)
    for i in range(nq):
        n = int(r.choice([0, 1, 2, 3, 4, 5, 8, 14, 20], p=[.06, .06, .06, .1, .12, .1, .2, .2, .1]))
        n = n_p if dense else min(n, n_p, 6 if many else n_p)
        vv = vectors(r, n, int(r.integers(0, 3)))
        q += [i] * n
        p += r.permutation(n_p)[:n].tolist()
        v += vv.tolist()
        w += (r.integers(1, 9, n) / 4).tolist()
    return nq, n_p, np.array(q, dtype=int), np.array(p, dtype=int), np.array(v, dtype=int).reshape(-1, 3), np.array(w)


def dedupe(q, p, v, w):
    """no two bonds of one query point at the same distance (radii make tie order matter)"""
    keep, seen = [], set()
    for k in range(len(q)):
        key = (int(q[k]), int((v[k] ** 2).sum()))
        keep.append(key not in seen)
        seen.add(key)
    keep = np.array(keep, dtype=bool)
    return q[keep], p[keep], v[keep], w[keep]


def event(filt, allow, closed, u, radii, given, call):
    out, exc = attempt(call)
    if exc and exc != "RuntimeError":
        raise RuntimeError("unexpected " + exc)
    e = dict(cls="sann" if SANN else "rad", allow=allow, closed=closed, exc=exc, R=radii, given=given is not None, same=True)
    if exc:
        e["u"] = rec(given, u) if given is not None else None
        if e["u"] is None:
            return None
        e["f"] = dict(q=[], p=[], v=[], w=[], d2=[], nq=0, np=0)
    else:
        e["u"], e["f"] = rec(filt.unfiltered_nlist, u), rec(filt.filtered_nlist, u)
        e["same"] = given is None or same(given, filt.unfiltered_nlist)
    return e


def new(r, strict=False):
    allow = bool(r.random() < .8) and not strict
    closed = bool(r.random() < .5) or strict
    return allow, closed, freud.locality.FilterSANN(allow) if SANN else freud.locality.FilterRAD(allow, closed)


def run(t):
    for ei in range(Q(60, 600)):
        r = rng("filter", ei)
        strict = ei >= Q(45, 500)
        evs = []
        u = float(r.choice([1, .5, 2]))
        allow, closed, filt = new(r, strict)          # one filter object used repeatedly
        for k in range(6 if not strict else 1 + ei % 2):
            nq, n_p, q, p, v, w = make(r, None if strict else ei % 9 == 8 and k == 3)
            rad = None
            if not SANN and r.random() < .5:
                rad = r.integers(1, 4, n_p)
                q, p, v, w = dedupe(q, p, v, w)
            order = np.lexsort((r.random(len(q)), q))
            q, p, v, w = q[order], p[order], v[order], w[order]
            nl = NL.from_arrays(nq, n_p, q, p, v.astype(np.float32) * u, w)
            if r.random() < .3:
                nl.sort(by_distance=bool(r.integers(0, 2)))
            ib = IBox([64, 64, 64], u=u)
            P, Qp = r.integers(-30, 30, (n_p, 3)) * u, r.integers(-30, 30, (nq, 3)) * u
            t.doing(dict(u=u, nq=nq, np=n_p, q=ints(q), p=ints(p), v=ints(v), radii=None if rad is None else ints(rad), allow=allow, closed=closed))
            kw = {} if rad is None else dict(points_radii=rad / 2)
            if rad is not None and r.random() < .5:
                kw["query_points_radii"] = np.full(nq, 3.0)
            if not SANN and r.random() < .15:
                a = np.array(rad if rad is not None else np.ones(n_p), dtype=float)
                a[int(r.integers(0, n_p))] = bad = float(r.choice([0, -1, np.nan, np.inf, -np.inf]))
                _, exc = attempt(lambda: filt.compute((ib.freud(), P), nl, Qp, points_radii=a))
                evs.append(dict(cls="bad", exc=exc, why="a radius of %s" % bad))
            keep = nl.copy()
            e = event(filt, allow, closed, u, [1] * n_p if rad is None else ints(rad), keep,
                      lambda: filt.compute((ib.freud(), P), nl, Qp, **kw))
            evs.append(e)
        t.episode("lists/%d" % ei, evs)
    for ei in range(Q(14, 120)):              # systems: default all pairs, dicts, query points
        r = rng("fsys", ei)
        ib = random_ibox(r, pow2=True, Ls=[8, 16], per=[True] * 3, u=float(r.choice([1, .5])))
        big = ei % 7 == 0
        n, m = int(r.integers(1, 70 if big else 25)), int(r.integers(1, 8))
        P, Qp = r.integers(-8, 8, (n, 3)), r.integers(-8, 8, (m, 3))
        if ib.d == 2:
            P[:, 2] = Qp[:, 2] = 0
        P = np.unique(P, axis=0)
        n = len(P)
        allow, closed, filt = new(r)
        sep = bool(r.integers(0, 2)) and not big
        f = lambda a: (a * ib.u).astype(np.float32)
        nb = None if r.random() < .5 else dict(r_max=.49 * min(ib.planes()) * ib.u)
        if nb and r.random() < .5:
            nb = dict(num_neighbors=int(r.integers(1, n + 2)), r_max=nb["r_max"])
        sysm = (ib.freud(), f(P)) if r.random() < .5 else freud.locality.AABBQuery(ib.freud(), f(P))
        t.doing(dict(box=ib.rec(), P=ints(P), Q=ints(Qp) if sep else None, neighbors=nb, allow=allow, closed=closed))
        e = event(filt, allow, closed, ib.u, [1] * n, None,
                  lambda: filt.compute(sysm, neighbors=nb, query_points=f(Qp) if sep else None))
        if e:
            t.episode("system/%d" % ei, [e])


main(run)
