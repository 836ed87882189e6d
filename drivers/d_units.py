"""One system in several units of length (W04): every length handed over is multiplied by 2^k; the driver
only finds out which powers of the factor relate the results."""
import json
import numpy as np
import freud
from freud.box import Box
from dlib import ARGS, Q, main, rng
from dsys import HIST, Sys, nlres, take

CASES = []


def case(kind):
    def f(g):
        CASES.append((g.__name__, kind, g))
        return g
    return f


@case("any")
def Boxes(y, s):
    b = y.box(s)
    far = y.f(y.p * 3 + y.x[:3] * np.array([1, 1, y.d == 3]), s)
    p = y.f(y.p, s)
    qs = y.f(y.q, s)
    m = min(len(p), 20)
    out = {"box lengths": b.L, "box vectors": b.to_matrix(), "inverse lengths": b.L_inv if y.d == 3 else b.L_inv[:2], "volume": b.volume,
           "wrapped": b.wrap(far), "images": b.get_images(far), "unwrapped": b.unwrap(p, y.im * np.array([1, 1, y.d == 3])),
           "fractional": b.make_fractional(p), "absolute": b.make_absolute(b.make_fractional(p)),
           "distances": b.compute_distances(p[:m], p[::-1][:m]), "lengths": b.compute_all_distances(p[:30], qs[:30]),
           "contains": b.contains(far)}
    out["center_of_mass"] = b.center_of_mass(p)
    out["centered"] = b.center(p)
    out["tilts"] = np.array([b.xy, b.xz, b.yz])
    b2 = Box.from_matrix(b.to_matrix(), dimensions=b.dimensions)
    out["lengths again"] = np.array(b2 == b)
    out["tilts again"] = np.array([b2.xy, b2.xz, b2.yz])
    near = 6.0 * (1 + np.array([0, 1, -1]) * [0, 2e-6, 2e-4, 2e-3, 1e-2][int(y.x[3] * 5)]) * s
    out["cubic"] = np.array([b.cubic, Box(*near).cubic, Box(near[0], near[0], near[1]).cubic])
    out["equal"] = np.array([b == y.box(s), b == y.box(s * 2)])
    return out


@case("any")
def Queries(y, s):
    e = y.sys(s)
    if isinstance(e, tuple):
        e = freud.locality.NeighborQuery.from_system(e)
    q = y.f(y.q, s)
    return nlres(e.query(q, dict(r_max=y.h * s * y.x[0] + .01 * s, r_min=.005 * s * (y.x[1] < .3), exclude_ii=bool(y.x[2] < .3))).toNeighborList())


@case("any")
def Nearest(y, s):
    e = y.sys(s)
    if isinstance(e, tuple):
        e = freud.locality.AABBQuery(*e)
    a = dict(num_neighbors=1 + int(y.x[0] * 12))
    if y.x[1] < .4:
        a["r_guess"] = y.h * s * (.05 + y.x[2])
    if y.x[3] < .4:
        a["r_max"] = y.h * s
    nl = e.query(y.f(y.q, s), a).toNeighborList()
    d = nl.distances
    return {"distances": d, "counts": nl.neighbor_counts}


@case("any")
def AllPairs(y, s):
    return nlres(freud.locality.NeighborList.all_pairs((y.box(s), y.f(y.p[:30], s)), y.f(y.q[:20], s)))


@case("any")
def Filtered(y, s):
    nl = freud.locality.AABBQuery(y.box(s), y.f(y.p, s)).query(y.f(y.q, s), dict(r_max=y.h * s)).toNeighborList()
    nl.filter_r(.8 * y.h * s, .2 * y.h * s)
    return nlres(nl)


@case("any")
def RDF(y, s):
    o = freud.density.RDF(1 + int(y.x[0] * 20), y.h * s, y.h * s * y.x[1] * .5, ["exact", "finite_size"][int(y.x[2] * 2)])
    o.compute(y.sys(s), y.qp(s), y.args(s))
    return take(o, *HIST, "rdf", "n_r")


@case("any")
def CorrelationFunction(y, s):
    o = freud.density.CorrelationFunction(1 + int(y.x[0] * 20), y.h * s)
    o.compute(y.sys(s), y.w.astype(complex), y.qp(s), None if y.own else y.qw.astype(complex), y.args(s))
    return take(o, *HIST, "correlation")


@case("ortho")
def GaussianDensity(y, s):
    o = freud.density.GaussianDensity((7, 5, 9), y.h * s * .7, y.h * s * (.1 + .3 * y.x[0]))
    o.compute((y.box(s), y.f(y.p, s)), values=y.w if y.x[1] < .5 else None)
    return take(o, "density", "r_max", "sigma", "width")


@case("2")
def GaussianDensityFlat(y, s):
    y.t = y.t * 0
    y.p = y.box(1).wrap(y.p).astype(float)
    o = freud.density.GaussianDensity((7, 5), y.h * s * .7, y.h * s * (.1 + .3 * y.x[0]))
    o.compute((y.box(s), y.f(y.p, s)), values=y.w if y.x[1] < .5 else None)
    return take(o, "density", "r_max", "sigma", "width")


@case("ortho")
def SphereVoxelization(y, s):
    o = freud.density.SphereVoxelization((7, 6, 8), y.h * s * (.2 + .5 * y.x[0]))
    o.compute((y.box(s), y.f(y.p, s)))
    return take(o, "voxels", "r_max")


@case("any")
def LocalDensity(y, s):
    o = freud.density.LocalDensity(y.h * s * .7, y.h * s * (.1 + .4 * y.x[0]))
    o.compute(y.sys(s), y.qp(s), None if y.x[1] < .6 else y.args(s))
    return take(o, "num_neighbors", "density", "r_max", "diameter")


@case("any")
def StaticStructureFactorDebye(y, s):
    o = freud.diffraction.StaticStructureFactorDebye(5 + int(y.x[0] * 10), (4 + 8 * y.x[1]) / s, .5 * y.x[2] / s)
    if y.x[3] < .5:
        o.compute(y.sys(s))
    else:
        o.compute(y.sys(s), y.f(y.p[:3], s), N_total=len(y.p))
    return take(o, "S_k", "min_valid_k", "k_values", k_bounds="bounds")


@case("cube")
def DiffractionPattern(y, s):
    o = freud.diffraction.DiffractionPattern(32, 16)
    o.compute((y.box(s), y.f(y.p, s)), view_orientation=y.o[0], zoom=2 + 3 * y.x[0])
    return take(o, "k_values", "k_vectors", "N_points")


@case("any")
def Cluster(y, s):
    o = freud.cluster.Cluster()
    o.compute(y.sys(s), neighbors=dict(r_max=y.h * s * (.1 + .5 * y.x[0])))
    return dict(num_clusters=o.num_clusters, cluster_idx=o.cluster_idx)


@case("any")
def ClusterProperties(y, s):
    o = freud.cluster.ClusterProperties()
    o.compute(y.sys(s), y.idx, y.w if y.x[0] < .5 else None)
    return take(o, "centers", "centers_of_mass", "cluster_masses", "gyrations", "inertia_tensors", "radii_of_gyration", "sizes")


@case("2")
def PMFTR12(y, s):
    o = freud.pmft.PMFTR12(y.h * s, (4, 5, 3))
    o.compute(y.sys(s), y.a, y.qp(s), None if y.own else y.qa, y.args(s))
    return take(o, *HIST, "pmft")


@case("2")
def PMFTXY(y, s):
    o = freud.pmft.PMFTXY(y.h * s * .6, y.h * s * .7, (4, 5))
    o.compute(y.sys(s), y.a if y.own else y.qa, y.qp(s), y.args(s))
    return take(o, *HIST, "pmft")


@case("2")
def PMFTXYT(y, s):
    o = freud.pmft.PMFTXYT(y.h * s * .6, y.h * s * .7, (4, 5, 3))
    o.compute(y.sys(s), y.a, y.qp(s), None if y.own else y.qa, y.args(s))
    return take(o, *HIST, "pmft")


@case("3")
def PMFTXYZ(y, s):
    k = y.h * s
    o = freud.pmft.PMFTXYZ(k * .5, k * .6, k * .4, (4, 5, 3), shiftvec=[.1 * k * y.x[0], 0, .2 * k * y.x[1]])
    o.compute(y.sys(s), y.o if y.own else y.qo, y.qp(s), neighbors=y.args(s))
    return take(o, *HIST, "pmft")


@case("3")
def BondOrder(y, s):
    o = freud.environment.BondOrder((5, 4), ["bod", "lbod", "obcd", "oocd"][int(y.x[0] * 4)])
    o.compute(y.sys(s), y.o, y.qp(s), None if y.own else y.qo, y.args(s))
    return take(o, "bin_counts", "bond_order")


@case("any")
def AngularSeparationNeighbor(y, s):
    o = freud.environment.AngularSeparationNeighbor()
    o.compute(y.sys(s), y.o, y.qp(s), None if y.own else y.qo, neighbors=dict(num_neighbors=4) if y.x[0] < .5 else dict(r_max=y.h * s))
    return dict(bonds=o.nlist[:], vectors=o.nlist.vectors, angles=o.angles)


@case("any")
def LocalBondProjection(y, s):
    o = freud.environment.LocalBondProjection()
    v = np.array([[1, 0, 0], [1, 2, 0], [0, -1, .5]])
    o.compute(y.sys(s), y.o, v, y.qp(s), neighbors=dict(num_neighbors=4) if y.x[0] < .5 else dict(r_max=y.h * s))
    return dict(take(o, "projections", "normed_projections"), bonds=o.nlist[:], distances=o.nlist.distances)


@case("any")
def Interface(y, s):
    o = freud.interface.Interface()
    o.compute(y.sys(s), y.f(y.q, s), dict(r_max=y.h * s * y.x[0] + .01 * s))
    return take(o, "point_count", "point_ids", "query_point_count", "query_point_ids")


@case("any")
def PeriodicBuffer(y, s):
    o = freud.locality.PeriodicBuffer()
    im = y.x[0] < .3
    bf = 1 if im else y.h * s * y.x[1]
    if not im and y.x[4] < .4:
        bf = [y.h * s * y.x[1], y.h * s * y.x[2], y.h * s * y.x[3]]
    o.compute((y.box(s), y.f(y.p[:20], s)), bf, images=bool(im), include_input_points=bool(y.x[5] < .5))
    return {"buffer_points": o.buffer_points, "buffer_ids": o.buffer_ids, "box vectors": o.buffer_box.to_matrix()}


@case("any")
def Filters(y, s):
    f = freud.locality.FilterSANN(True) if y.x[0] < .4 else freud.locality.FilterRAD(True, bool(y.x[1] < .5))
    f.compute(y.sys(s), query_points=y.qp(s), neighbors=dict(r_max=y.h * s) if y.x[2] < .6 else dict(num_neighbors=9))
    return nlres(f.filtered_nlist)


@case("any")
def MSD(y, s):
    o = freud.msd.MSD(y.box(s), ["window", "direct"][int(y.x[0] * 2)])
    n = min(len(y.p), 20)
    f = y.f(np.stack([y.p[:n], y.p[::-1][:n], np.roll(y.p, 1, 0)[:n], np.roll(y.p, 2, 0)[:n]]), s)
    im = np.stack([y.im[:n], y.im[::-1][:n], y.im[:n], y.im[:n] * 0]) * np.array([1, 1, y.d == 3])
    o.compute(f, im if y.x[1] < .6 else None)
    return take(o, "msd", "particle_msd")


@case("2")
def Hexatic(y, s):
    o = freud.order.Hexatic(1 + int(y.x[0] * 8), bool(y.x[1] < .4))
    o.compute(y.sys(s), None if y.x[2] < .5 else dict(r_max=y.h * s))
    return take(o, "particle_order")


@case("any")
def UnitCell(y, s):
    c = freud.data.UnitCell
    g = [c.fcc, c.bcc, c.sc, c.square, c.hex][int(y.x[0] * 5)]()
    b, p = g.generate_system(1 + int(y.x[1] * 4), scale=y.h * s, sigma_noise=y.h * s * .02 * (y.x[2] < .5), seed=7)
    return {"box vectors": b.to_matrix(), "points": p}


@case("any")
def UnitCellOwn(y, s):
    b = y.box(s)
    c = freud.data.UnitCell(b, np.array([[0, 0, 0], [.5, .25, .125 * (y.d == 3)]]))
    bb, p = c.generate_system([2, 3, 1] if y.d == 2 else [2, 3, 2])
    return {"box vectors": bb.to_matrix(), "points": p, "lengths": c.lattice_vectors}


@case("any")
def RandomSystem(y, s):
    b, p = freud.data.make_random_system(y.L[0] * s, 40, is2D=y.d == 2, seed=int(y.x[0] * 100))
    return {"box vectors": b.to_matrix(), "points": p}


# ---- exponents -------------------------------------------------------------
def fits(x, y, k):
    out = []
    for e in range(-4, 5):
        f = 2.0 ** (k * e)
        if e and x.dtype.kind not in "fc":
            continue
        xs = x * f if e else x
        a, b = (np.asarray(v) for v in (xs, y))
        if a.shape == b.shape and (a.dtype.kind in "fc") == (b.dtype.kind in "fc"):
            if a.dtype.kind in "fc":
                a, b = a.astype(complex), b.astype(complex)
                fin = np.abs(a[np.isfinite(a)])
                top = float(fin.max()) if fin.size else 0.0
                ok = np.allclose(a, b, rtol=2e-5, atol=2e-5 * top, equal_nan=True)
            else:
                ok = np.array_equal(a, b)
            if ok:
                out.append(e)
    return out


def run(t):
    beh = json.load(open(ARGS["histories"]))
    for j, h in enumerate(beh):
        name, kind, g = CASES[j % len(CASES)]
        y = Sys(rng(name, j // len(CASES)), kind)
        t.doing(dict(cls=name, system=j, factor="2^0"))
        base = {n: np.array(v) for n, v in g(y, 1.0).items()}
        ev = []
        for k in h:
            t.doing(dict(cls=name, system=j, factor="2^%d" % k))
            e = dict(k=k, exc="", r=[])
            try:
                new = g(y, 2.0 ** k)
                e["r"] = [dict(n=n, fits=fits(base[n], np.array(new[n]), k)) for n in sorted(base)]
            except Exception as x:          # noqa: BLE001
                e["exc"] = type(x).__name__
                e["msg"] = str(x)[:200]
            ev.append(e)
        t.episode(f"{name}/{j // len(CASES)}", ev, cls=name, d=y.d)


main(run)
