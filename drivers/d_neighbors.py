"""Neighbour queries of the real engines (Q01-Q05)."""
import itertools, json, math
import numpy as np
import freud
from dlib import *

BAD2D = 1e-3


def closed_points(r, ib, n, kind):
    """Integer points inside or on the faces of the box (centred cell)."""
    V = ib.vectors()
    L = np.array(ib.L)
    if kind == "cluster":
        c = r.integers(-3, 4, (n, 3))
        p = c + np.array([0, 0, 0])
    elif kind == "line":
        p = np.zeros((n, 3), dtype=np.int64)
        p[:, int(r.integers(0, ib.d))] = r.integers(-50, 50, n)
    elif kind == "faces":           # half of them on a face if there are such points
        p = r.integers(-60, 61, (12 * n, 3))
        if ib.d == 2:
            p[:, 2] = 0
        f, den = frac(ib, p)
        on = np.any([f[:, i] % den[i] == 0 for i in range(ib.d)], axis=0)
        p = np.concatenate([p[on][:(n + 1) // 2], p[~on]])[:n]
    else:
        p = r.integers(-60, 61, (n, 3))
    if ib.d == 2:
        p[:, 2] = 0
    # exact integer wrap (bottom up)
    q = p.copy()
    for i in (2, 1, 0):                     # exact integer wrap, bottom up
        if ib.d == 2 and i == 2:
            continue
        f, den = frac(ib, q)
        q -= np.outer(f[:, i] // den[i], V[i])
    if kind == "faces":
        f, den = frac(ib, q)
        for i in range(ib.d):
            m = (f[:, i] == 0) & (r.random(len(q)) < 0.5)
            q[m] += V[i]
    return q


def frac(ib, v):
    """numerators and denominators of the fractional coordinates"""
    v = np.asarray(v, dtype=np.int64)
    Lx, Ly, Lz = ib.L
    bx, cx, cy = ib.b
    z = v[:, 2] if ib.d == 3 else 0 * v[:, 2]
    y0 = v[:, 1] * Lz - cy * z
    x0 = v[:, 0] * Ly * Lz - bx * y0 - cx * z * Ly
    return (np.stack([2 * x0 + Lx * Ly * Lz, 2 * y0 + Ly * Lz, 2 * z + Lz], axis=1),
            [2 * Lx * Ly * Lz, 2 * Ly * Lz, 2 * Lz])


def on_grid_boxes(r, k):
    """the boxes of episode k: exact / inexact, 2D / 3D, tilted or not"""
    pow2 = k % 3 != 2
    d = 2 if k % 2 else 3
    per = [True, True, True]
    Ls = [8, 16, 32] if pow2 else [7, 9, 10, 12, 15, 20]
    return random_ibox(r, d=d, pow2=pow2, tilt=(k % 4 >= 2), Ls=Ls, per=per)


def engines(ib, box, P, r, which=None, ball=False):
    """name, object for each engine that accepts this system."""
    out = [("AABB", freud.locality.AABBQuery(box, P)), ("raw", freud.locality.NeighborQuery.from_system((box, P)))]
    h = min(ib.planes()) * ib.u
    if which is None and ball:
        out.append(("CellQuery", freud.locality.CellQuery(box, P)))
    n = 3 if which is None else which
    ws = [h / 2 * (1 - 1e-5), h / 3.7, h / 7.3, h / 2 * float(r.uniform(0.3, 1)), max(ib.planes()) * ib.u / (18 if len(P) < 10 else 9)]
    ws = list(r.permutation(ws)[:n - 1])
    if not ib.ex and which is None:       # many cells: rounding can put a point in the wrong one
        ws[-1] = h / 6.3
    for w in ws:
        out.append(("LinkCell", freud.locality.LinkCell(box, P, cell_width=float(min(w, h / 2 * (1 - 1e-5))))))
    out.append(("LinkCell", freud.locality.LinkCell(box, P)))
    return out


def ladder(r, ib):
    """a cell width and an r_max (half units) of about that many widths, so that cells any thinner, or any
    search that stops any earlier, would miss pairs"""
    h, out = min(ib.planes()), []
    for ax in range(ib.d):
        for m in range(2, 10):
            for j in (1, 2, 3):
                L = ib.planes()[ax]
                for rm in range(1, math.ceil(h * (1 - 1e-6))):
                    if 2 * j * L / (m + 1) < rm <= 2 * j * L / (m + .5):
                        out.append((rm / 2 / j, rm))
    out = [(w, rm) for w, rm in out if 2 * w < h * (1 - 1e-5)]
    return out[int(r.integers(len(out)))] if out else None


def rows_it(it, u):
    a = list(it)
    return [[int(i) + 1, int(j) + 1, toint(float(d) ** 2 / u ** 2, tol=0.02)] for i, j, d in a]


def rec_nl(nl, u, srt):
    q, p = np.asarray(nl.query_point_indices), np.asarray(nl.point_indices)
    d2 = toint(np.asarray(nl.distances, dtype=np.float64) ** 2 / u ** 2, tol=0.02)
    return dict(rows=[[int(a) + 1, int(b) + 1, c] for a, b, c in zip(q, p, d2)],
                v=toint(np.asarray(nl.vectors, dtype=np.float64).reshape(-1, 3) / u, tol=0.01), w=toint(nl.weights),
                nq=int(nl.num_query_points), np=int(nl.num_points), sorted=bool(srt))


NONL = dict(rows=[], v=[], w=[], nq=0, np=0, sorted=False)


def ball_args(r, ib, frac_=None):
    h = min(ib.planes())
    top = math.ceil(h * (1 - 1e-6)) - 1
    rmax = top if r.random() < 0.3 else int(r.integers(1, top + 1))
    rmin = 0 if r.random() < 0.5 else int(r.integers(0, rmax))
    return rmax, rmin


def event(eng, q, mode, rmax, rmin, excl, k=0, far=0):
    return dict(a="query", eng=eng, q=q, mode=mode, args=dict(rmin=rmin, rmax=rmax, excl=excl, k=k),
                far=far, exc="", hasit=False, it=[], hasnl=False, nl=NONL)


def do(e, nq, qp, qa, u, it=True, nl=True, srt=False):
    def f():
        res = nq.query(qp, qa)
        if it:
            e["it"] = rows_it(res, u)
            e["hasit"] = True
        if nl:
            e["nl"] = rec_nl(res.toNeighborList(sort_by_distance=srt), u, srt)
            e["hasnl"] = True
    _, e["exc"] = attempt(f)
    return e


def rounding_system(r):
    """points on a face whose computed fractional coordinate rounds below zero, with company"""
    while True:
        ib = random_ibox(r, pow2=False, tilt=True, Ls=[9, 10, 12, 15, 20], per=[True] * 3, u=0.1)
        p = r.integers(-12, 13, (3000, 3))
        if ib.d == 2:
            p[:, 2] = 0
        f, den = frac(ib, p)
        ok = np.all([(f[:, i] >= 0) & (f[:, i] < den[i]) for i in range(ib.d)], axis=0)
        p = p[ok]
        neg = (ib.freud().make_fractional((p * ib.u).astype(np.float32))[:, :ib.d] < 0).any(axis=1)
        if neg.any():
            a = p[neg][:4]
            c = np.concatenate([a, a + r.integers(-1, 2, a.shape) * np.array([1, 1, ib.d == 3]), p[:10]])
            for i in (2, 1, 0):
                if ib.d == 3 or i < 2:
                    f, den = frac(ib, c)
                    c -= np.outer(f[:, i] // den[i], ib.vectors()[i])
            qs = [c[:5], c]
            f32 = lambda x: np.ascontiguousarray(x * ib.u, dtype=np.float32)
            return ib, c, qs, f32(c), [f32(q) for q in qs]


def system(r, k, size):
    ib, p, qs, P, QP = system_in_box(r, k, size)
    if r.random() < .4:             # other images of some of the points
        def moved(x):
            far = int(r.choice([1, 1, 2, 4]))
            m = r.integers(-far, far + 1, (len(x), 3)) * (r.random((len(x), 1)) < float(r.choice([.3, 1])))
            if ib.d == 2:
                m[:, 2] = 0
            return x + m @ ib.vectors()
        f32 = lambda a: np.ascontiguousarray(a * ib.u, dtype=np.float32)
        how = int(r.integers(3))
        if how != 1:
            p = moved(p)
        qs = [moved(qs[0]) if how else qs[0], moved(p) if how == 1 else p]
        P, QP = f32(p), [f32(q) for q in qs]
    return ib, p, qs, P, QP


def system_in_box(r, k, size):
    if k % 6 == 4:
        return rounding_system(r)
    ib = on_grid_boxes(r, k)
    n = {0: int(r.integers(1, 8)), 1: int(r.integers(8, 30)), 2: int(r.integers(40, 70))}[size]
    kind = ["any", "faces", "cluster", "line", "dup"][int(r.integers(0, 5))]
    p = closed_points(r, ib, n, kind)
    if kind == "dup":
        p[n // 2:] = p[:n - n // 2]
    m = int(r.integers(1, 8)) if size else int(r.integers(1, 5))
    if k % 18 == 15:        # so many that the pieces of a loop run in parallel have several (see vf.drive)
        m, p = 400, p[:3]
        kind = "any"
    qs = [closed_points(r, ib, m, "any" if m > 8 else "faces"), p]
    if kind in ("cluster", "dup") and n > 1:
        qs[0][0] = p[-1]
    f32 = lambda a: np.ascontiguousarray(a * ib.u, dtype=np.float32)
    return ib, p, qs, f32(p), [f32(q) for q in qs]


def queries(t, mode, forms):
    n = Q(60, 500) if mode == "ball" else Q(60, 500)
    for k in range(n):
        r = rng(PROP, mode, k)
        size = [0, 1, 1, 0, 1, 2][k % 6] if not (k % 12 == 11) else 2
        ib, p, qs, P, QP = system(r, k, size)
        box = ib.freud()
        desc = dict(box=ib.rec(), u=ib.u, p=p.tolist(), qs=[x.tolist() for x in qs])
        t.doing(dict(desc, what="build engines"))
        evs = []
        for name, nq in engines(ib, box, P, r, ball=mode == "ball"):
            for _ in range(2 if size < 2 else 1):
                qi = int(r.integers(0, 2))
                excl = bool(r.integers(0, 2)) if qi == 1 else (r.random() < 0.15)
                qa = dict(exclude_ii=excl)
                if mode == "ball" and r.random() < 0.2:
                    # at or beyond half the plane spacing: refused, or (LinkCell) every pair at its distance
                    h = min(ib.planes())
                    lo = round(h) if ib.ex and not any(ib.b) else math.ceil(h * (1 + 1e-6))
                    rmax = lo if r.random() < 0.5 else int(r.integers(lo, lo + 2 * max(ib.L)))
                    qa.update(r_max=rmax / 2 * ib.u)
                    t.doing(dict(desc, engine=name, query=qi, qa=qa))
                    if name != "LinkCell":
                        _, exc = attempt(lambda: list(nq.query(QP[qi], qa)))
                        evs.append(dict(a="error", why="r_max of half the plane spacing or more", exc=exc, engine=name, asked=repr(qa)))
                        continue
                    if any(ib.b):
                        continue
                    evs.append(dict(do(event("wrap", qi + 1, "ball", rmax, 0, excl), nq, QP[qi], qa, ib.u, nl=bool(r.integers(0, 2))), engine=name))
                    continue
                if mode == "ball":
                    rmax, rmin = ball_args(r, ib)
                    qa.update(r_max=rmax / 2 * ib.u)
                    if rmin or r.random() < 0.3:
                        qa.update(r_min=rmin / 2 * ib.u)
                    if r.random() < 0.5:
                        qa.update(mode="ball")
                    e = event("wrap", qi + 1, "ball", rmax, rmin, excl)
                else:
                    e, qa = nearest_args(r, ib, name, qi, excl, len(p), qa)
                t.doing(dict(desc, engine=name, query=qi, qa=qa))
                srt = r.random() < 0.4
                both = forms or r.random() < 0.4
                one = r.random() < 0.5
                evs.append(dict(do(e, nq, QP[qi], qa, ib.u, it=both or one, nl=both or not one, srt=srt),
                                engine=name))
        t.episode("%s/%d" % (mode, k), evs, box=ib.rec(), p=p.tolist(), qs=[x.tolist() for x in qs],
                  forms=forms)


def ladders(t):
    """columns of points in fine flat boxes of few cells"""
    for k in range(Q(16, 150)):
        r = rng(PROP, "ladder", k)
        ib = random_ibox(r, d=2, pow2=True, tilt=False, Ls=[64, 96, 100, 128], per=[True] * 3)
        n = 60
        p = np.zeros((n, 3), int)
        c = int(r.integers(2))
        for i in (0, 1):
            p[:, i] = r.integers(0, 3, n) if i == c else r.choice(ib.L[i] - 2, n, replace=n + 2 > ib.L[i]) - ib.L[i] // 2 + 1
        qs = [p[:9].copy(), p]
        P = np.ascontiguousarray(p * ib.u, dtype=np.float32)
        box, evs = ib.freud(), []
        for _ in range(4):
            w, rm = ladder(r, ib)
            w *= (1 if ib.ex and r.random() < .5 else 1 + 1e-4) * ib.u
            qa = dict(r_max=rm / 2 * ib.u, exclude_ii=False)
            t.doing(dict(box=ib.rec(), u=ib.u, p=p.tolist(), cell_width=w, qa=qa))
            nq = freud.locality.LinkCell(box, P, cell_width=w)
            evs.append(dict(do(event("wrap", 2, "ball", rm, 0, False), nq, P, qa, ib.u, it=False), engine="LinkCell %r" % w))
        t.episode("ladder/%d" % k, evs, box=ib.rec(), p=p.tolist(), qs=[x.tolist() for x in qs], forms=False)


def nearest_args(r, ib, name, qi, excl, n, qa):
    hm = min(ib.planes())
    k = int(r.choice([1, 2, 3, 6, 12, n, n + 3, max(1, n // 2)]))
    rmax, rmin = -1, 0
    qa = dict(qa, num_neighbors=k)
    c = r.random()
    if c < 0.35:
        rmax = int(r.integers(1, math.ceil(hm * (1 - 1e-6))))       # below half the plane spacing
    elif c < 0.55:
        rmax = int(r.integers(1, 3 * max(ib.L)))
    if rmax > 0:
        qa["r_max"] = rmax / 2 * ib.u
    if r.random() < 0.35:
        rmin = int(r.integers(0, rmax if rmax > 0 else max(2, int(hm))))
        qa["r_min"] = rmin / 2 * ib.u
    if r.random() < 0.5:
        qa["r_guess"] = float(r.choice([0.3, 1.0, 2.5, hm / 4, hm / 2, hm, 3 * hm, 10 * hm])) * ib.u
    if r.random() < 0.4:
        qa["scale"] = float(r.choice([1.05, 1.3, 2.0, 5.0, 50.0]))
    if r.random() < 0.5:
        qa["mode"] = "nearest"
    ortho = ib.b == [0, 0, 0]
    if ortho:
        return event("wrap", qi + 1, "nearest", rmax, rmin, excl, k), qa
    far = math.ceil(hm * hm * (1 - 1e-5))
    if not ib.ex:
        far = math.floor(hm * hm * (1 - 1e-5))
    return event("near", qi + 1, "nearest", rmax, rmin, excl, k, far), qa


# ---- Q03: interleavings chosen by the specification -------------------------
def interleave(t):
    H = json.load(open(ARGS["histories"]))
    for hi, hist in enumerate(H):
        r = rng("inter", hi)
        k = [0, 4, 1, 5, 2, 3, 8][hi % 7]
        ib = on_grid_boxes(r, k)
        n = int(r.integers(3, 14))
        p = closed_points(r, ib, n, "any")
        qs = [closed_points(r, ib, int(r.integers(1, 6)), "any"), p, closed_points(r, ib, 3, "cluster")]
        box = ib.freud()
        f32 = lambda a: np.ascontiguousarray(a * ib.u, dtype=np.float32)
        P, QP = f32(p), [f32(x) for x in qs]
        desc = dict(box=ib.rec(), u=ib.u, p=p.tolist(), qs=[x.tolist() for x in qs], history=hist)
        t.doing(dict(desc, what="build"))
        engs = engines(ib, box, P, r, which=2)
        if hi % 5 == 3:
            engs = [("CellQuery", freud.locality.CellQuery(box, P))]
        name, nq = engs[hi % len(engs)]
        hm = min(ib.planes())
        far = math.ceil(hm * hm * (1 - 1e-5)) if ib.ex else math.floor(hm * hm * (1 - 1e-5))
        ortho = ib.b == [0, 0, 0]
        top = math.ceil(hm * (1 - 1e-6)) - 1

        def mk(a):
            r2 = rng("args", hi, a)
            excl = bool(a % 2)
            if a <= 3:
                rmax = [top, max(1, top // 2), max(2, top - 2)][a - 1]
                rmin = min([0, 0, 2][a - 1], rmax - 1)
                return (lambda q: event("wrap", q, "ball", rmax, rmin, excl and q == 2),
                        lambda q: dict(r_max=rmax / 2 * ib.u, r_min=rmin / 2 * ib.u, exclude_ii=excl and q == 2))
            kk = [1, 4, n + 1][a - 4]
            eng = "wrap" if ortho else "near"
            return (lambda q: event(eng, q, "nearest", -1, 0, excl and q == 2, kk, far if eng == "near" else 0),
                    lambda q: dict(num_neighbors=kk, exclude_ii=excl and q == 2))
        evs, res = [], []
        for c in hist:
            t.doing(dict(desc, engine=name, command=c))
            op = c["op"]
            if name == "CellQuery":      # one result at a time (see the known finding)
                if op == "next":
                    op = "drain"
                if op == "restart":
                    continue
            if op == "open":
                E, A = mk(c["a"] if name != "CellQuery" else (c["a"] - 1) % 3 + 1)
                # the second set is the points themselves
                o, exc = attempt(lambda: nq.query(QP[c["q"] - 1], A(c["q"])))
                if exc:
                    evs.append(dict(E(c["q"]), exc=exc))
                    o = None
                res.append(dict(o=o, E=E, q=c["q"], it=None, rows=[]))
                continue
            if op == "compute":
                rdf = freud.density.RDF(4, top / 2 * ib.u)
                attempt(lambda: rdf.compute((nq.box, nq.points) if hi % 2 else nq, neighbors=None))
                continue
            if op == "bad":
                _, exc = attempt(lambda: list(nq.query(QP[0], dict(r_max=-1.5))))
                evs.append(dict(a="error", why="negative r_max", exc=exc))
                continue
            x = res[c["k"] - 1]
            if x["o"] is None:
                continue
            if op == "restart":
                x["it"], x["rows"] = iter(x["o"]), []
            elif op in ("next", "drain"):
                if x["it"] is None:
                    x["it"], x["rows"] = iter(x["o"]), []
                if op == "next":
                    x["rows"] += list(itertools.islice(x["it"], c["n"]))
                    e = dict(x["E"](x["q"]), a="part")
                    e["it"] = rows_it(x["rows"], ib.u)
                    if e["mode"] == "nearest":
                        continue            # judged when drained
                    evs.append(e)
                else:
                    x["rows"] += list(x["it"])
                    e = x["E"](x["q"])
                    e["it"], e["hasit"] = rows_it(x["rows"], ib.u), True
                    evs.append(e)
                    x["it"] = None
            elif op in ("list", "listd"):
                e = x["E"](x["q"])
                e["nl"], e["hasnl"] = rec_nl(x["o"].toNeighborList(sort_by_distance=op == "listd"), ib.u,
                                             op == "listd"), True
                evs.append(e)
            elif op == "drop":
                x["o"] = x["it"] = None
        if evs:
            t.episode("inter/%d" % hi, evs, box=ib.rec(), p=p.tolist(), qs=[x.tolist() for x in qs], forms=True)


def cellquery_interleaved(t):
    """the listed finding: two lazy results of one CellQuery consumed alternately"""
    ib = IBox([8, 8, 8])
    p = np.array([[-3, 0, 0], [0, 0, 0], [1, 1, 0], [3, -2, 1], [-2, 2, -2], [0, 3, 3]])
    P = p.astype(np.float32)
    nq = freud.locality.CellQuery(ib.freud(), P)
    a, b = iter(nq.query(P, dict(r_max=3.5))), nq.query(P, dict(r_max=1.0))
    rows = [next(a)]
    list(b)
    rows += list(a)
    e = event("wrap", 1, "ball", 7, 0, False)
    e["it"], e["hasit"] = rows_it(rows, 1.0), True
    t.episode("CellQuery interleaved", [e], box=ib.rec(), p=p.tolist(), qs=[p.tolist()], forms=False,
              known="cellquery-interleaved")


# ---- Q05: interpretation and rejection ---------------------------------------
def count_rdf(nq, qp, qa, R):
    return np.sum(freud.density.RDF(1, 2 * R).compute(nq, query_points=qp, neighbors=qa).bin_counts)


def count_cf(nq, qp, qa, R):
    n, m = len(nq.points), len(nq.points if qp is None else qp)
    c = freud.density.CorrelationFunction(1, 2 * R)
    c.compute(nq, np.ones(n, dtype=complex), query_points=qp,
              query_values=np.ones(m, dtype=complex), neighbors=qa)
    return np.sum(c.bin_counts)


def count_angular(nq, qp, qa, R):
    n, m = len(nq.points), len(nq.points if qp is None else qp)
    one = np.array([1., 0, 0, 0])
    a = freud.environment.AngularSeparationNeighbor()
    a.compute(nq, np.tile(one, (n, 1)), query_points=qp,
              query_orientations=np.tile(one, (m, 1)), equiv_orientations=[one], neighbors=qa)
    return len(a.nlist)


def count_projection(nq, qp, qa, R):
    a = freud.environment.LocalBondProjection()
    a.compute(nq, np.tile(np.array([1., 0, 0, 0]), (len(nq.points), 1)), [[0, 0, 1]], query_points=qp,
              equiv_orientations=[[1, 0, 0, 0]], neighbors=qa)
    return len(a.nlist)


COUNTS = [("RDF", count_rdf), ("CorrelationFunction", count_cf),
          ("AngularSeparationNeighbor", count_angular), ("LocalBondProjection", count_projection)]


def arguments(t):
    for k in range(Q(24, 160)):
        r = rng("args", k)
        ib = on_grid_boxes(r, k)
        n = int(r.integers(3, 12))
        p = closed_points(r, ib, n, "any")
        q2 = closed_points(r, ib, 4, "any")
        qs = [q2, p]
        box = ib.freud()
        u = ib.u
        f32 = lambda a: np.ascontiguousarray(a * u, dtype=np.float32)
        P, QP = f32(p), [f32(x) for x in qs]
        desc = dict(box=ib.rec(), u=u, p=p.tolist(), qs=[x.tolist() for x in qs])
        evs = []
        hm = min(ib.planes())
        top = math.ceil(hm * (1 - 1e-6)) - 1
        R = top / 2 * u
        t.doing(dict(desc, what="engines"))
        engs = engines(ib, box, P, r, which=2)
        for name, nq in engs:
            bad = [
                ("unknown key", dict(r_max=R, radius=1)), ("unknown mode", dict(mode="sphere", r_max=R)),
                ("unknown mode", dict(mode="Ball", r_max=R)),
                ("ball without r_max", dict(mode="ball")), ("nearest without num_neighbors", dict(mode="nearest", r_max=R)),
                ("nothing given", dict()), ("nothing given", dict(r_min=0.1, exclude_ii=True)),
                ("ball with num_neighbors", dict(mode="ball", r_max=R, num_neighbors=3)),
                ("r_max = 0", dict(r_max=0)), ("r_max < 0", dict(r_max=-2.0)),
                ("r_min = r_max", dict(r_max=R, r_min=R)), ("r_min > r_max", dict(r_max=R, r_min=1.5 * R)),
                ("nearest r_min > r_max", dict(num_neighbors=2, r_max=R, r_min=1.5 * R)),
                ("nearest r_max = 0", dict(num_neighbors=2, r_max=0)),
                ("unknown key", dict(num_neighbors=2, foo=None)),
                ("wrong type", dict(r_max="a lot")), ("wrong type", dict(num_neighbors=2.5)),
            ]
            if name != "LinkCell":
                bad += [("scale = 1", dict(num_neighbors=2, scale=1.0)), ("scale < 1", dict(num_neighbors=2, scale=0.5)),
                        ("r_max beyond half the box", dict(r_max=hm * u * 0.51)), ]
            for w in r.permutation(len(bad))[:9]:
                why, qa = bad[int(w)]
                t.doing(dict(desc, engine=name, qa=qa))
                lst = bool(r.integers(0, 2))
                _, exc = attempt(lambda: nq.query(QP[0], qa).toNeighborList() if lst else list(nq.query(QP[0], qa)))
                evs.append(dict(a="error", why=why, exc=exc, engine=name, asked=repr(qa)))
                if r.random() < 0.6:
                    evs.append(good(r, ib, name, nq, QP, n, R, top, u))
            for why, arr in [("mis-shaped query points", np.zeros((3, 2), np.float32)),
                             ("mis-shaped query points", np.zeros((2, 3, 3), np.float32)),
                             ("mis-shaped query points", np.zeros((4, 4), np.float32))]:
                _, exc = attempt(lambda: list(nq.query(arr, dict(r_max=R))))
                evs.append(dict(a="error", why=why, exc=exc, engine=name))
            evs.append(good(r, ib, name, nq, QP, n, R, top, u))
            # mode inference: same answer for every spelling
            for qa in (dict(r_max=R), dict(mode="ball", r_max=R), dict(mode="none", r_max=R), dict(mode=None, r_max=R, exclude_ii=False)):
                e = event("wrap", 2, "ball", top, 0, False)
                evs.append(do(e, nq, QP[1], qa, u, it=False))
            far = math.ceil(hm * hm * (1 - 1e-5)) if ib.ex else math.floor(hm * hm * (1 - 1e-5))
            for qa in (dict(num_neighbors=3), dict(mode="nearest", num_neighbors=3), dict(mode=None, num_neighbors=3)):
                evs.append(do(event("near", 2, "nearest", -1, 0, False, 3, far), nq, QP[1], qa, u, it=False))
            for qa in (dict(num_neighbors=3, r_max=R), dict(mode="nearest", num_neighbors=3, r_max=R, exclude_ii=False)):
                evs.append(do(event("near", 2, "nearest", top, 0, False, 3, far), nq, QP[1], qa, u, it=False))
            # computes: self bonds are left out exactly when no query points are given,
            # whatever the mode, however it is spelt and whichever compute asks
            for sep, ex in ((False, None), (True, None), (False, True), (False, False), (True, True), (True, False)):
                kk = int(r.integers(1, n + 3))
                for mode, qa in (("ball", dict(r_max=R)), ("ball", dict(mode="ball", r_max=R)),
                                 ("nearest", dict(num_neighbors=kk, r_max=R)),
                                 ("nearest", dict(mode="nearest", num_neighbors=kk, r_max=R))):
                    if r.random() < 0.4:
                        continue
                    if ex is not None:
                        qa["exclude_ii"] = ex
                    excl = (not sep) if ex is None else ex
                    qp = None if not sep else QP[1]
                    cname, count = COUNTS[int(r.integers(0, len(COUNTS)))]
                    t.doing(dict(desc, engine=name, compute=cname, qa=qa, sep=sep))
                    e = dict(event("wrap", 2, mode, top, 0, excl, kk, far), a="count", n=0, compute=cname)
                    orig = dict(qa)
                    v, e["exc"] = attempt(lambda: int(count(nq, qp, qa, R)))
                    e["n"] = -1 if v is None else v
                    evs.append(e)
                    if qa != orig:
                        evs.append(dict(a="error", why="changed the caller's query arguments", exc=""))
        z = np.array(P, copy=True)
        for cls in (freud.locality.AABBQuery, freud.locality.LinkCell, freud.locality.CellQuery):
            b2 = ib.freud()
            b2.periodic = [bool(x) for x in [(0, 1, 1), (1, 0, 1), (0, 0, 1), (1, 0, 0)][k % 4]]
            kw = dict(cell_width=R * 0.9) if cls is freud.locality.LinkCell else {}
            _, exc = attempt(lambda: cls(b2, P, **kw).query(QP[0], dict(r_max=R)).toNeighborList())
            evs.append(dict(a="error", why="box not periodic " + cls.__name__, exc=exc))
        cq = freud.locality.CellQuery(box, P)
        _, exc = attempt(lambda: list(cq.query(QP[0], dict(num_neighbors=2))))
        evs.append(dict(a="error", why="CellQuery nearest", exc=exc))
        for qa in (dict(r_max=R), dict(mode="ball", r_max=R)):
            evs.append(do(event("wrap", 2, "ball", top, 0, False), cq, QP[1], qa, u, it=False))
        for cls in (freud.locality.AABBQuery, freud.locality.LinkCell, lambda b, x: freud.locality.NeighborQuery.from_system((b, x))):
            bads = [("no points", np.zeros((0, 3), np.float32)), ("mis-shaped points", np.zeros((5, 2), np.float32)),
                    ("mis-shaped points", np.zeros((2, 5, 3), np.float32))]
            if ib.d == 2:
                z2 = z.copy()
                z2[-1, 2] = 0.5 * u
                bads.append(("point out of the plane", z2))
            for why, arr in bads:
                t.doing(dict(desc, what=why))
                _, exc = attempt(lambda: cls(box, arr))
                evs.append(dict(a="error", why=why, exc=exc))
        t.episode("args/%d" % k, evs, box=ib.rec(), p=p.tolist(), qs=[x.tolist() for x in qs], forms=False)


def good(r, ib, name, nq, QP, n, R, top, u):
    e = event("wrap", 1, "ball", top, 0, False)
    return do(e, nq, QP[0], dict(r_max=R), u, it=bool(r.integers(0, 2)))


def run(t):
    if PROP == "Q01":
        queries(t, "ball", False)
        ladders(t)
    elif PROP == "Q02":
        queries(t, "nearest", False)
    elif PROP == "Q04":
        queries(t, "ball", True)
        queries(t, "nearest", True)
    elif PROP == "Q03":
        interleave(t)
        cellquery_interleaved(t)
    elif PROP == "Q05":
        arguments(t)


main(run)
