"""NeighborList histories chosen by the specification (L01-L03)."""
import json
import numpy as np
import freud
from dlib import *

NL = freud.locality.NeighborList


def dump(nl, u=1.0):
    q, p = np.asarray(nl.query_point_indices), np.asarray(nl.point_indices)
    a = np.asarray(nl[:])
    nq = int(nl.num_query_points)
    return dict(n=len(nl), q=ints(q), p=ints(p), v=toint(np.asarray(nl.vectors, dtype=float).reshape(-1, 3) / u, tol=0.01),
                w=toint(nl.weights), d2=toint(np.asarray(nl.distances, dtype=float) ** 2 / u ** 2, tol=0.02),
                nq=nq, np=int(nl.num_points), seg=ints(nl.segments), cnt=ints(nl.neighbor_counts),
                ffi=[int(nl.find_first_index(i)) for i in range(nq + 1)],
                colsOK=bool(a.shape == (len(nl), 2) and (a[:, 0] == q).all() and (a[:, 1] == p).all()))


def arrays(r):
    nq, n_p = int(r.integers(1, 9)), int(r.integers(1, 9))
    n = int(r.choice([0, 1, 3, 8, 20, 40]))
    q = np.sort(r.integers(0, nq, n))
    if r.random() < 0.4 and n:                     # leave gaps at both ends
        q = np.sort(r.choice([0, nq // 2, nq - 1], n))
    p = r.integers(0, n_p, n)
    v = r.integers(-4, 5, (n, 3))
    w = r.integers(1, 5, n)
    return nq, n_p, q, p, v, w


def form(r, a, dt):
    c = int(r.integers(0, 4))
    a = np.asarray(a)
    if c == 0:
        return a.tolist() if a.size else np.zeros(a.shape, dtype=dt)
    if c == 1:
        return a.astype(dt)
    if c == 2:
        return np.asfortranarray(a.astype(np.float64 if dt == np.float32 else np.int64))
    b = np.zeros((2 * a.shape[0],) + a.shape[1:], dtype=dt)
    b[::2] = a
    return b[::2]


def history(t, hi, hist, judge):
    r = rng("nlist", hi)
    ib = random_ibox(r, pow2=True, Ls=[8, 16], per=[True] * 3, u=float(r.choice([1, .5])))
    box = ib.freud()
    hs, evs = [], []
    desc = dict(history=hist, box=ib.rec())

    def rec(e, exc=""):
        e["exc"] = exc
        e["post"] = [dump(x, ib.u) for x in hs]
        evs.append(e)
    for c in hist:
        t.doing(dict(desc, command=c))
        if evs and evs[-1]["exc"] and not evs[-1]["op"].startswith("bad"):
            break                        # an unexpected exception: judged as such
        op = c["op"]
        i = c["i"]
        nl = hs[i - 1] if i else None
        if op == "arrays":
            nq, n_p, q, p, v, w = arrays(r)
            wts = None if r.random() < 0.3 else form(r, w, np.float32)
            x, exc = attempt(lambda: NL.from_arrays(nq, n_p, form(r, q, np.uint32), form(r, p, np.uint32),
                                                    np.asarray(v, dtype=np.float32) * ib.u, wts))
            if x is not None:
                hs.append(x)
            rec(dict(op=op, nq=nq, np=n_p, q=ints(q), p=ints(p), v=ints(v), w=[1] * len(q) if wts is None else ints(w)), exc)
        elif op in ("pairs", "query"):
            n, m = int(r.integers(1, 9)), int(r.integers(1, 9))
            P, Qp = r.integers(-4, 4, (n, 3)), r.integers(-4, 4, (m, 3))
            if r.random() < 0.2:
                n = 30
                P = r.integers(-4, 4, (n, 3))
            elif op == "pairs" and hi % 12 == 5 and not evs:        # so many that the pieces of a loop run in parallel have several (see vf.drive)
                m, P = 300, P[:2]
                Qp = r.integers(-4, 4, (m, 3))
            if ib.d == 2:
                P[:, 2] = Qp[:, 2] = 0
            sep = r.random() < 0.6
            excl = bool(r.integers(0, 2))
            f = lambda a: (a * ib.u).astype(np.float32)
            sysm = (box, f(P)) if r.random() < 0.5 else freud.locality.AABBQuery(box, f(P))
            if op == "pairs":
                x, exc = attempt(lambda: NL.all_pairs(sysm, f(Qp) if sep else None, exclude_ii=excl))
            else:
                x, exc = attempt(lambda: freud.locality.AABBQuery(box, f(P)).query(
                    f(Qp if sep else P), dict(r_max=min(1.9, 0.49 * min(ib.planes())) * ib.u, exclude_ii=excl)).toNeighborList(bool(r.integers(0, 2))))
            if x is not None:
                hs.append(x)
            rec(dict(op=op, qp=ints(Qp if sep else P), pp=ints(P), excl=excl), exc)
        elif op == "badnew":
            nq, n_p, q, p, v, w = arrays(r)
            q, p, v, w = (np.concatenate([a, a[:1]]) if len(a) else np.zeros((1,) + a.shape[1:], int) for a in (q, p, v, w))
            q.sort()
            k = int(r.integers(0, 9))
            why = ["unsorted", "query index too large", "point index too large", "short vectors", "vectors not 3D",
                   "short weights", "short point indices", "two-dimensional indices", "negative index"][k]
            q2, p2, v2, w2 = q.copy(), p.copy(), v.astype(np.float32), w.astype(np.float32)
            if k == 0:
                q2 = np.concatenate([q, [0]])
                q2[0 if len(q) == 1 else -2] = nq
                nq += 1
                p2, v2, w2 = np.concatenate([p, [0]]), np.concatenate([v2, v2[:1]]), np.concatenate([w2, [1]])
            elif k == 1:
                q2[-1] = nq + int(r.integers(0, 2))
            elif k == 2:
                p2[int(r.integers(0, len(p2)))] = n_p + int(r.integers(0, 2))
            elif k == 3:
                v2 = v2[:-1]
            elif k == 4:
                v2 = v2[:, :2]
            elif k == 5:
                w2 = np.concatenate([w2, [1]])
            elif k == 6:
                p2 = p2[:-1]
            elif k == 7:
                q2 = q2[:, None]
            else:
                p2 = p2.astype(np.int64)
                p2[-1] = -1
            _, exc = attempt(lambda: NL.from_arrays(nq, n_p, q2, p2, v2, w2))
            rec(dict(op=op, why=why), exc)
        elif op in ("filter", "filter0", "filter1"):
            m = r.random(len(nl)) < r.choice([0.2, 0.5, 0.9])
            if op == "filter0":
                m[:] = False
            if op == "filter1":
                m[:] = True
            c2 = int(r.integers(0, 4))
            arg = [m, m.tolist(), m.astype(np.int64) * 3, np.repeat(m, 2)[::2]][c2]
            x, exc = attempt(lambda: nl.filter(arg))
            rec(dict(op="filter", i=i, mask=[bool(b) for b in m], ret=x is nl), exc)
        elif op == "filterr":
            rmax = int(r.integers(1, 15))
            rmin = int(r.integers(0, rmax)) if r.random() < 0.6 else 0
            a = (rmax / 2 * ib.u,) + ((rmin / 2 * ib.u,) if rmin or r.random() < 0.5 else ())
            x, exc = attempt(lambda: nl.filter_r(*a))
            rec(dict(op=op, i=i, rmax=rmax, rmin=rmin, ret=x is nl), exc)
        elif op in ("sort", "sortd"):
            byd = op == "sortd"
            x, exc = attempt(lambda: nl.sort(by_distance=byd))
            rec(dict(op="sort", i=i, byd=byd, ret=x is nl), exc)
        elif op == "copy":
            x, exc = attempt(lambda: nl.copy())
            hs.append(x)
            rec(dict(op=op, i=i), exc)
        elif op == "copyinto":
            _, exc = attempt(lambda: hs[c["j"] - 1].copy(nl))
            rec(dict(op=op, i=i, j=c["j"]), exc)
        elif op == "badmask":
            n = len(nl)
            k = [n + 1, n - 1, n + 7, 0, 2 * n][int(r.integers(0, 5))]
            if k == n or k < 0:
                k = n + 1
            _, exc = attempt(lambda: nl.filter(np.ones(k, dtype=bool)))
            rec(dict(op=op, i=i, why="mask of length %d for %d bonds" % (k, n)), exc)
        elif op == "badr":
            a = [(0,), (-1.0,), (1.0, 1.0), (1.0, 2.0), (1.0, -0.5)][int(r.integers(0, 5))]
            _, exc = attempt(lambda: nl.filter_r(*a))
            rec(dict(op=op, i=i, why="filter_r%r" % (a,)), exc)
        elif op == "derive":
            _ = (nl.segments, nl.neighbor_counts, nl.find_first_index(1), nl[:], nl.distances)
            rec(dict(op="read"))
    if evs:
        t.episode("nlist/%d" % hi, evs, box=ib.rec(), judge=judge, strict=False)


def big(t, judge):
    """sizes beyond the parallel grain"""
    for k in range(Q(1, 4)):
        r = rng("big", k)
        ib = IBox([16, 16, 16])
        P = r.integers(-8, 8, (Q(60, 90), 3))
        x = NL.all_pairs((ib.freud(), P.astype(np.float32)), exclude_ii=bool(k % 2))
        e = dict(op="pairs", qp=ints(P), pp=ints(P), excl=bool(k % 2), exc="", post=[dump(x)])
        t.episode("big/%d" % k, [e], box=ib.rec(), judge=judge, strict=False)


def runs(t):
    """long lists (hundreds and tens of thousands of bonds of one point), told by the runs of equal indices"""
    for k in range(Q(6, 30)):
        r = rng("runs", k)
        nq, n_p = int(r.integers(1, 12)), int(r.integers(300, 2000))
        c = r.choice([0, 1, 2, 17, 255, 256, 257, 300, 511, 513, 1000], nq)
        if k % 4 < 2:
            c[int(r.integers(nq))] = [90001, 65536, 4097, 70001, 65535, 150000][k // 2 % 6]
        q = np.repeat(np.arange(nq), c)
        p = np.concatenate([np.sort(r.integers(0, n_p, x)) for x in c])
        v = r.integers(1, 9, (len(q), 3)).astype(np.float32)
        ev = []

        def rec(op, x):
            q = np.asarray(x.query_point_indices)
            e = np.flatnonzero(np.diff(q, prepend=-1, append=-1)) if len(q) else np.zeros(1, int)
            ev.append(dict(op="runs", what=op, exc="", post=[], runs=[[int(q[a]), int(b - a)] for a, b in zip(e[:-1], e[1:])], n=len(x), nq=int(x.num_query_points),
                           seg=ints(x.segments), cnt=ints(x.neighbor_counts), ffi=[int(x.find_first_index(i)) for i in range(nq + 1)]))
        if k % 2:
            x = NL.from_arrays(nq, n_p, q, p, v)
            rec("from_arrays", x)
            x.sort(by_distance=bool(k % 4 == 1))
            rec("sort", x)
            x.filter(r.random(len(x)) < .9)
            rec("filter", x)
            rec("copy", x.copy())
            x.filter_r(10, 3)
            rec("filter_r", x)
        else:
            b = freud.box.Box.cube(8)
            P = r.uniform(-4, 4, (n_p, 3)).astype(np.float32)
            rec("all_pairs", NL.all_pairs((b, P), P[:nq]))
            rec("ball", freud.locality.AABBQuery(b, P).query(P[:nq], dict(r_max=float(r.uniform(2.5, 3.9)))).toNeighborList(bool(k % 4)))
            rec("nearest", freud.locality.AABBQuery(b, P).query(P[:nq], dict(num_neighbors=int(r.choice([255, 256, 290])))).toNeighborList())
        t.episode("runs/%d" % k, ev, box=IBox([8, 8, 8]).rec(), judge="L01", strict=False)


def direction(t):
    """known finding: all_pairs vectors point from point to query point"""
    ib = IBox([16, 16, 16])
    Qp, P = np.array([[0, 0, 0]]), np.array([[1, 0, 0], [0, 2, 1]])
    x = NL.all_pairs((ib.freud(), P.astype(np.float32)), Qp.astype(np.float32), exclude_ii=False)
    e = dict(op="pairs", qp=ints(Qp), pp=ints(P), excl=False, exc="", post=[dump(x)])
    t.episode("direction", [e], box=ib.rec(), judge="L03", strict=True, known="allpairs-direction")


def run(t):
    for hi, hist in enumerate(json.load(open(ARGS["histories"]))):
        history(t, hi, hist, PROP)
    if PROP == "L01":
        runs(t)
    if PROP == "L03":
        big(t, PROP)
        direction(t)


main(run)
