"""Analyses asked for in less detail (W05): the driver computes one result in full and one with less asked
for, and only finds out which relations hold between them."""
import json
import numpy as np
import freud
from dlib import ARGS, main, rng
from dsys import HIST, Sys, nlres, take

D2 = dict(PMFTR12=1, PMFTXY=1, PMFTXYT=1)
D3 = dict(BondOrder=1, PMFTXYZ=1)
KIND = {**{c: "2" for c in D2}, **{c: "3" for c in D3}, "GaussianDensity": "ortho", "SphereVoxelization": "ortho"}


def dyadic(x):
    """a power of two times 3/4 or 1 that is not larger"""
    e = 2.0 ** np.floor(np.log2(x))
    return e * 1.5 if e * 1.5 <= x else e


def hist(y, a, less):
    cls, op, ax, k = a["cls"], a["op"], a["ax"] - 1, a["k"]
    n = [[8, 4, 4], [16, 8, 4], [4, 8, 8], [32, 4, 8]][k % 4]
    m = [1.0, 1.0, 1.0]
    if less:
        n = list(n)
        n[ax] //= 2
        if op == "range":
            m[ax] = .5
    r = dyadic(y.h)
    bonds = y.args(1)
    if cls == "RDF":
        lo = [0, .25, .125, .5][k // 2] * r
        o = freud.density.RDF(n[0], lo + (r - lo) * m[0], lo, ["exact", "finite_size"][k % 2])
        o.compute(y.sys(1), y.qp(1), bonds if k % 3 else None if op == "bins" else dict(r_max=y.h))
        return take(o, "bin_edges", "bin_centers", "bin_counts", "n_r", "rdf")
    if cls == "CorrelationFunction":
        o = freud.density.CorrelationFunction(n[0], r * m[0])
        o.compute(y.sys(1), y.w.astype(complex), y.qp(1), None if y.own else y.qw.astype(complex), dict(r_max=y.h) if k % 2 else bonds)
        return take(o, "bin_edges", "bin_centers", "bin_counts", "correlation")
    if cls == "BondOrder":
        o = freud.environment.BondOrder(tuple(n[:2]), ["bod", "lbod", "obcd", "oocd"][k // 2])
        o.compute(y.sys(1), y.o, y.qp(1), None if y.own else y.qo, bonds)
        return take(o, "bin_edges", "bin_centers", "bin_counts")
    q, qo = y.qp(1), None if y.own else y.qa
    bonds = dict(r_max=y.h) if k % 2 else bonds
    if cls == "PMFTR12":
        o = freud.pmft.PMFTR12(r * m[0], tuple(n))
        o.compute(y.sys(1), y.a, q, qo, bonds)
    elif cls == "PMFTXY":
        o = freud.pmft.PMFTXY(r * m[0] * .5, r * m[1], tuple(n[:2]))
        o.compute(y.sys(1), y.a if y.own else y.qa, q, bonds)
    elif cls == "PMFTXYT":
        o = freud.pmft.PMFTXYT(r * m[0], r * m[1] * .5, tuple(n))
        o.compute(y.sys(1), y.a, q, qo, bonds)
    else:
        o = freud.pmft.PMFTXYZ(r * m[0], r * m[1] * .5, r * m[2], tuple(n))
        eq = np.array([[1, 0, 0, 0], [0, 0, 0, 1], [0, 1, 0, 0]], dtype=np.float32)[:1 + k % 3]
        if op == "equivalents":
            o = freud.pmft.PMFTXYZ(r, r * .5, r, tuple([8, 4, 4]))
            eq = y.eq[:1] if less else y.eq[:3]
        o.compute(y.sys(1), y.o if y.own else y.qo, q, eq if k % 4 or op == "equivalents" else None, bonds)
    return take(o, "bin_edges", "bin_centers", "bin_counts", "pmft")


def neighbors(y, a, less, ctx):
    op, k = a["op"], a["k"]
    e = y.sys(1)
    e = freud.locality.AABBQuery(*e) if isinstance(e, tuple) else e
    r, n = y.h, len(y.p)
    kk, k1 = 4 + 2 * k, 1 + k
    r1, r0 = r * (.3 + .08 * k), r * (.05 + .05 * k)
    ctx.update(lo=0, hi=np.inf, k=10 ** 6)
    if op == "fewer":
        ctx.update(k=k1)
        q = dict(num_neighbors=k1 if less else kk)
    elif op == "shorter":
        ctx.update(hi=r1)
        q = dict(r_max=r1 if less else r)
    elif op == "longer r_min":
        ctx.update(lo=r0)
        q = dict(r_max=r, r_min=r0 if less else 0)
    elif op == "fewer and shorter":
        ctx.update(k=k1, hi=r1)
        q = dict(num_neighbors=k1, r_max=r1) if less else dict(num_neighbors=kk)
    else:
        ctx.update(hi=r1)
        q = dict(r_max=r1) if less else dict(num_neighbors=n)
    if "num_neighbors" in q and y.x[1] < .4:
        q["r_guess"] = r * (.1 + y.x[2])
    if y.x[3] < .5:
        q["exclude_ii"] = True
    nl = e.query(y.f(y.q, 1) if not y.own else y.f(y.p, 1), q).toNeighborList()
    return dict(bonds=nl)


def other(y, a, less, ctx):
    cls, op, k = a["cls"], a["op"], a["k"]
    r1 = y.h * (.3 + .08 * k)
    r = r1 if less else y.h
    ctx.update(lo=0, hi=r1)
    if cls == "Cluster":
        o = freud.cluster.Cluster().compute(y.sys(1), neighbors=dict(r_max=r * .6))
        return take(o, "num_clusters", "cluster_idx")
    if cls == "Interface":
        o = freud.interface.Interface().compute(y.sys(1), y.f(y.q, 1), dict(r_max=r))
        return take(o, "point_ids", "query_point_ids", "point_count", "query_point_count")
    if cls == "PeriodicBuffer":
        b = r if k % 2 else [r, y.h * y.x[0], r * .5]
        o = freud.locality.PeriodicBuffer().compute((y.box(1), y.f(y.p[:40], 1)), b, include_input_points=bool(y.x[1] < .5))
        return dict(images=np.column_stack([o.buffer_ids * 1000.0, np.array(o.buffer_points, float)]))
    if cls.startswith("Filter"):
        open_ = cls == "FilterRADOpen" and not (op == "closed" and less)
        f = freud.locality.FilterSANN(True) if cls == "FilterSANN" else freud.locality.FilterRAD(True, terminate_after_blocked=not open_)
        f.compute(y.sys(1), query_points=y.qp(1), neighbors=dict(r_max=y.h if op == "closed" else r))
        return dict(bonds=f.filtered_nlist)
    if cls == "SphereVoxelization":
        w = [(7, 6, 8), (9, 4, 5)][k % 2] if y.d == 3 else (9, 8)
        return dict(voxels=freud.density.SphereVoxelization(w, r).compute((y.box(1), y.f(y.p, 1))).voxels)
    if cls == "GaussianDensity":
        w = [(3, 2, 4), (4, 4, 4), (2, 5, 3)][k % 3]
        w = tuple(x if less else 3 * x for x in w)
        o = freud.density.GaussianDensity(w, y.h, y.h / 6)
        return dict(density=o.compute((y.box(1), y.f(y.p, 1)), values=y.w if y.x[0] < .5 else None).density)
    if cls == "Debye":
        n, lo = 4 + k, [0, .5, 1][k % 3]
        if op == "coarse":
            o = freud.diffraction.StaticStructureFactorDebye(n if less else 2 * n - 1, lo + 6, lo)
        else:
            o = freud.diffraction.StaticStructureFactorDebye(n if less else 2 * n - 1, lo + (3 if less else 6), lo)
        if y.own:
            o.compute(y.sys(1))
        else:
            o.compute(y.sys(1), y.f(y.p[:5], 1), N_total=len(y.p))
        return take(o, "S_k", "k_values")
    if cls == "MSD":
        n = min(len(y.p), 12)
        f = np.stack([np.roll(y.p, i, 0)[:n] for i in range(6)])
        im = np.stack([np.roll(y.im, i, 0)[:n] for i in range(6)]) * np.array([1, 1, y.d == 3])
        m = 1 + k % 5 if less else 6
        o = freud.msd.MSD(y.box(1), "direct").compute(y.f(f[:m], 1), im[:m] if y.x[0] < .6 else None)
        return take(o, "msd", "particle_msd")
    eq = y.eq[:1 if op == "equivalents" and less else 3]
    if cls == "LocalBondProjection":
        v = np.array([[1, 0, 0], [1, 2, 0], [0, -1, .5], [.1, .2, .3]])
        o = freud.environment.LocalBondProjection()
        o.compute(y.sys(1), y.o, v[:1 + k % 3] if op == "directions" and less else v, y.qp(1), eq if op == "equivalents" or k > 3 else eq[:1],
                  y.args(1))
        return dict(take(o, "projections", "normed_projections"), bonds=o.nlist)
    if cls == "AngularSeparationGlobal":
        g = y.qo
        o = freud.environment.AngularSeparationGlobal()
        o.compute(g[:1 + k % len(g)] if op == "directions" and less else g, y.o, eq if op == "equivalents" or k > 3 else eq[:1])
        return take(o, "angles")
    o = freud.environment.AngularSeparationNeighbor()
    o.compute(y.sys(1), y.o, y.qp(1), None if y.own else y.qo, eq, y.args(1))
    return dict(angles=o.angles, bonds=o.nlist)


def ask(y, a, less, ctx):
    if "RDF" == a["cls"] or a["cls"] in ("CorrelationFunction", "BondOrder") or a["cls"].startswith("PMFT"):
        return hist(y, a, less)
    return neighbors(y, a, less, ctx) if a["cls"] == "Neighbors" else other(y, a, less, ctx)


# ---- relations -------------------------------------------------------------
def close(x, y, rtol=1e-5):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "iub" and y.dtype.kind in "iub":
        return bool(np.array_equal(x, y))
    f = np.abs(x[np.isfinite(x)])
    return bool(np.allclose(x, y, rtol=rtol, atol=rtol * (float(f.max()) if f.size else 0), equal_nan=True))


def bonds(nl, lo=-1.0, hi=np.inf, k=10 ** 6):
    """rows (query point, point, distance, vector) of the k nearest within lo..hi, as {(i, j): ...}"""
    out, n = {}, {}
    o = np.argsort(nl.distances, kind="stable")
    for b in o:
        i, j, d = int(nl.query_point_indices[b]), int(nl.point_indices[b]), float(nl.distances[b])
        if lo <= d < hi and n.get(i, 0) < k:
            n[i] = n.get(i, 0) + 1
            out[i, j] = [d, *map(float, nl.vectors[b]), float(nl.weights[b])]
    return out


def same_bonds(x, y):
    return x.keys() == y.keys() and all(np.allclose(x[b], y[b], rtol=1e-5, atol=1e-5) for b in y)


def relations(n, X, Y, ctx):
    x, y = X[n], Y[n]
    out = []
    if isinstance(y, freud.locality.NeighborList):
        a, b = bonds(x), bonds(y)
        if len(b) != len(y) or len(a) != len(x):
            return ["twice"]
        lo, hi, k = ctx.get("lo", 0), ctx.get("hi", np.inf), ctx.get("k", 10 ** 6)
        out += ["same"] * same_bonds(a, b)
        out += ["subset"] * (b.keys() <= a.keys() and same_bonds({i: a[i] for i in b}, b))
        out += ["within"] * same_bonds(bonds(x, lo, hi), b)
        out += ["first"] * same_bonds(bonds(x, k=k), b)
        out += ["first within"] * same_bonds(bonds(x, lo, hi, k), b)
        return out
    x, y = np.asarray(x), np.asarray(y)
    if close(x, y):
        out.append("same")
    if x.ndim and y.ndim == x.ndim:
        for d in range(x.ndim):
            m, w = y.shape[d], x.shape[d]
            rest = x.shape[:d] + x.shape[d + 1:] == y.shape[:d] + y.shape[d + 1:]
            if not rest or m > w:
                continue
            if 2 * m == w and close(np.add.reduceat(x, np.arange(0, w, 2), axis=d), y):
                out.append("sum%d" % (d + 1))
            if close(np.take(x, range(m), axis=d), y):
                out.append("prefix%d" % (d + 1))
            if (w - m) % 2 == 0 and close(np.take(x, range((w - m) // 2, (w + m) // 2), axis=d), y):
                out.append("middle%d" % (d + 1))
        if x.ndim == 1:
            out += ["second"] * close(x[::2], y, 1e-4 if n == "S_k" else 1e-5) + ["last"] * close(x[1::2], y)
            if n == "correlation" and len(x) == 2 * len(y):
                c = np.asarray(X["bin_counts"], float)
                s, t = np.add.reduceat(np.where(c > 0, x, 0) * c, np.arange(0, len(x), 2)), np.add.reduceat(c, np.arange(0, len(x), 2))
                out += ["mean"] * close(np.where(t > 0, s / np.maximum(t, 1), 0), np.where(t > 0, y, 0))
            if n == "cluster_idx":
                out += ["refines"] * (len(x) == len(y) and len(set(zip(x.tolist(), y.tolist()))) == len(set(y.tolist())))
            if n.endswith("_ids"):
                out += ["subset"] * (set(y.tolist()) <= set(x.tolist()))
        if close(x[(slice(1, None, 3),) * x.ndim], y, 3e-4 if n == "density" else 1e-5):
            out.append("third")
        if n == "images" and x.shape[1] == y.shape[1]:
            out += ["subset"] * all(len(x) and np.abs(x - r).max(1).min() < 1e-4 for r in y)
    if x.shape == y.shape:
        t = 1e-5
        out += ["atmost"] * bool(np.all(y <= x + t)) + ["atleast"] * bool(np.all(y >= x - t))
    return out


def run(t):
    beh = json.load(open(ARGS["histories"]))
    for j, h in enumerate(beh):
        ev = []
        for i, a in enumerate(h):
            r = rng("detail", j, i)
            y = Sys(r, KIND.get(a["cls"], "any"))
            y.eq = np.concatenate([[[1, 0, 0, 0]], np.array([[0, 0, 0, 1], [.5, .5, .5, .5]])]).astype(np.float32)
            t.doing(dict(ask=a, episode=j, event=i))
            ctx = {}
            e = dict(a=a, exc="", r=[])
            try:
                X, Y = ask(y, a, False, ctx), ask(y, a, True, ctx)
                e["r"] = [dict(n=n, rel=relations(n, X, Y, ctx)) for n in sorted(Y)]
            except Exception as x:          # noqa: BLE001
                e["exc"] = type(x).__name__
                e["msg"] = str(x)[:200]
            ev.append(e)
        t.episode("detail/%d" % j, ev)


main(run)
