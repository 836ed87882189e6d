"""W06: what different analyses say of the same bonds, points or turns, recorded side by side (spec: FAgree)."""
import json
import numpy as np
import freud
from dlib import ARGS, attempt, fix, ints, main, real, rng
from dsys import Sys, pts
import dclasses as D

ONE = np.array([[1, 0, 0, 0]], dtype=np.float32)
KIND = {"counts": "2", "angles of bonds": "2", "quadrants": "2", "free energy": "2", "weights": "2", "voxels": "ortho"}
TAU = 2 * np.pi


def query(y, p, q, r, a):
    """one of the ways of asking for all bonds within r"""
    own = q is None
    nl = freud.locality.AABBQuery(y.box(1), p).query(p if own else q, dict(r_max=r, exclude_ii=own)).toNeighborList()
    return nl, [dict(mode="ball", r_max=r), nl, dict(r_max=r)][a % 3]


def edge(y, p, q, r):
    """how many bonds are so near the length r that another way of asking may or may not find them"""
    n = [freud.locality.AABBQuery(y.box(1), p).query(p if q is None else q, dict(r_max=r * (1 + e))).toNeighborList() for e in (1e-5, -1e-5)]
    return len(n[0]) - len(n[1])


def frames(y, a, r):
    """(system, points, query points, bonds, how they are asked for) of every frame"""
    g = rng("frames", a["k"], len(y.p), y.h)
    for f in range(a["frames"]):
        p = y.f(y.p, 1) if f == 0 else pts(g, y.box(1), len(y.p), 1.0)
        q = y.qp(1) if f == 0 or y.own else pts(g, y.box(1), len(y.q), 1.0)
        nl, how = query(y, p, q, r, a["k"] + f)
        b = y.box(1)
        y.edge = edge(y, p, q, r) + (y.edge if f else 0)
        s = [(b, p), freud.locality.AABBQuery(b, p), freud.locality.LinkCell(b, p)][y.kind % 3]
        yield s, p, q, nl, how


def near(x, n):
    """how many of the angles are near an edge of n bins of a turn"""
    u = x / TAU * n
    return int((np.abs(u - np.round(u)) < 1e-4).sum())


def pair(y, a):
    n, k = a["pair"], a["k"]
    r = float(np.float32(.9 * y.h))
    b, p, P = y.box(1), y.f(y.p, 1), freud.pmft
    qo, qa = (y.o, y.a) if y.own else (y.qo, y.qa)
    if n in ("counts", "cumulative"):
        m = 4 + k
        rdf, cf = freud.density.RDF(m, r), freud.density.CorrelationFunction(m, r)
        r12 = P.PMFTR12(r, (m, 4, 2)) if y.d == 2 else None
        bonds = 0
        for i, (s, p, q, nl, how) in enumerate(frames(y, a, r)):
            rdf.compute(s, q, how, reset=False)
            cf.compute(s, np.ones(len(p), complex), q, None if q is None else np.ones(len(q), complex), how, reset=False)
            if r12 is not None:
                r12.compute(s, y.a, q, qa, how, reset=False)
            bonds += len(nl)
        out = dict(rdf=ints(rdf.bin_counts), cf=ints(cf.bin_counts), corr=fix(cf.correlation.real, 4096), bonds=bonds, edge=y.edge, run=fix(rdf.n_r, 4096),
                   frames=a["frames"], nq=len(p) if q is None else len(q), r12=[])
        if r12 is not None:
            out["r12"] = ints(r12.bin_counts.reshape(m, -1))
        return out
    if n in ("angles of bonds", "quadrants"):
        t = [4, 8, 6, 2][k % 4] if n != "quadrants" else 4
        xy, xyt, r12 = P.PMFTXY(r, r, (2, 2)), P.PMFTXYT(r, r, (2, 2, t)), P.PMFTR12(r, (1 + k % 3, t, t))
        bonds = grey = 0
        for s, p, q, nl, how in frames(y, a, r):
            xy.compute(s, qa, q, how, reset=False)
            xyt.compute(s, y.a, q, qa, how, reset=False)
            r12.compute(s, y.a, q, qa, how, reset=False)
            v = nl.vectors.astype(float)
            w = np.arctan2(v[:, 1], v[:, 0])
            grey += near(y.a[nl.point_indices] - w, t) + near(qa[nl.query_point_indices] - w, max(t, 4)) + near(qa[nl.query_point_indices] - w, 4)
            bonds += len(nl)
        return dict(xy=ints(xy.bin_counts), xyt=ints(xyt.bin_counts), r12=ints(r12.bin_counts.sum(0)), n=t, bonds=bonds, edge=y.edge, grey=grey + y.edge)
    if n == "octants":
        out = dict(modes=[], grey=0)
        nl, how = query(y, p, y.qp(1), r, k)
        nl = nl.copy().filter(np.arange(len(nl)) < 150)
        bo = freud.environment.BondOrder((4, 2), "lbod").compute(y.sys(1), y.o, y.qp(1), qo, nl)
        lb = freud.environment.LocalBondProjection()
        lb.compute((b, p), y.o, np.eye(3), y.qp(1), ONE, nl)
        out.update(counts=ints(bo.bin_counts), proj=fix(lb.normed_projections, 65536), bonds=len(nl))
        e = np.tile(ONE, (len(p), 1))
        for m in ("bod", "lbod", "obcd"):
            o = freud.environment.BondOrder((4 + k, 3), m)
            o.compute(y.sys(1), e, y.qp(1), e if y.own else np.tile(ONE, (len(y.q), 1)), nl)
            out["modes"].append(ints(o.bin_counts.ravel()))
        return out
    if n == "local density":
        q = y.f(y.q[:12], 1)
        d = .05 + .1 * k
        nl = freud.locality.AABBQuery(b, p).query(q, dict(r_max=r + d)).toNeighborList()
        o = freud.density.LocalDensity(r, d).compute(y.sys(1), q, nl if k % 2 else dict(r_max=r + d / 2))
        return dict(d=[fix(nl.distances[nl.query_point_indices == i], 65536) for i in range(len(q))], r=fix(r, 65536), dia=fix(d, 65536),
                    num=fix(o.num_neighbors, 65536), dim=y.d, real=dict(num=real(o.num_neighbors), dens=real(o.density), r=real([r])[0]))
    if n == "ends":
        q = y.f(y.q, 1)
        nl, how = query(y, p, q, r * (.2 + .1 * k), k)
        nl = nl.copy().filter(np.arange(len(nl)) % (1 + k) == 0)
        o = freud.interface.Interface().compute(y.sys(1), q, nl)
        return dict(p=ints(nl.point_indices), q=ints(nl.query_point_indices), pid=ints(o.point_ids), qid=ints(o.query_point_ids), np=int(o.point_count),
                    nq=int(o.query_point_count))
    if n in ("centre", "one cluster"):
        if n == "centre":
            idx = np.zeros(len(p), int)
        else:
            idx = freud.cluster.Cluster().compute(y.sys(1), neighbors=dict(r_max=r * .6)).cluster_idx
        m = y.w if k % 2 else None
        o = freud.cluster.ClusterProperties().compute(y.sys(1), idx, m)
        one = []
        for c in range(int(idx.max()) + 1):
            x, w = p[idx == c], y.w[idx == c].astype(float)
            f = np.exp(2j * np.pi * b.make_fractional(x).astype(float))
            ok = np.abs(f.mean(0)).min() > .05 and np.abs((f * w[:, None]).sum(0) / w.sum()).min() > .05
            if ok or y.d == 2 and (np.abs(f.mean(0))[:2].min() > .05 and np.abs((f * w[:, None]).sum(0) / w.sum())[:2].min() > .05):
                one.append(dict(n=int((idx == c).sum()), size=int(o.sizes[c]), mass=fix(o.cluster_masses[c], 256), w=fix(w if m is not None else w * 0 + 1, 256),
                                geo=fix(b.wrap(o.centers[c] - b.center_of_mass(x)), 256), com=fix(b.wrap(o.centers_of_mass[c] - b.center_of_mass(x, None if m is None else y.w[idx == c])), 256),
                                gyr=fix(o.gyrations[c], 256), inertia=fix(o.inertia_tensors[c], 256), rg=real([o.radii_of_gyration[c]])[0],
                                tr=real([np.trace(o.inertia_tensors[c])])[0], m=real([o.cluster_masses[c]])[0], plain=m is None))
        return dict(one=one)
    if n == "windows":
        N, T = min(len(p), 8), 4 + k % 3
        x = np.stack([np.roll(y.p, i, 0)[:N] for i in range(T)])
        im = None if k % 2 else np.stack([np.roll(y.im, i, 0)[:N] for i in range(T)]) * np.array([1, 1, y.d == 3])
        f = lambda m, j: freud.msd.MSD(b, m).compute(y.f(x[j:], 1), None if im is None else im[j:]).msd
        return dict(win=fix(f("window", 0), 1024), tails=[fix(f("direct", j), 1024) for j in range(T)])
    if n == "voxels":
        w = [(5, 6, 7), (4, 9, 3), (8, 2, 5)][k % 3][:y.d]
        c = np.stack(np.meshgrid(*[(np.arange(j) + .5) / j for j in w], indexing="ij"), -1).reshape(-1, len(w))
        c = b.make_absolute(np.column_stack([c, np.full((len(c), 3 - y.d), .5)]))
        if y.d == 2:
            c[:, 2] = 0
        d = np.full(len(c), 9999.)
        nl = freud.locality.AABBQuery(b, p).query(c, dict(num_neighbors=1)).toNeighborList()
        d[nl.query_point_indices] = nl.distances
        R = r * (.2 + .1 * k)
        v = freud.density.SphereVoxelization(w, R).compute(y.sys(1)).voxels
        g = freud.density.GaussianDensity(w, R, R / 2).compute(y.sys(1)).density
        return dict(d=fix(d, 65536), r=fix(R, 65536), vox=ints(v.ravel()), dens=ints(g.ravel() > 0))
    if n == "separations of orientations":
        nl, how = query(y, p, y.qp(1), r, k)
        nl = nl.copy().filter(np.arange(len(nl)) < 200)
        eq = np.concatenate([ONE, D.quats(rng("eq", k), 3)])[:1 + k % 4]
        s = freud.environment.AngularSeparationNeighbor()
        s.compute((b, p), y.o, y.qp(1), None if y.own else y.qo, eq, nl)
        g = freud.environment.AngularSeparationGlobal().compute(qo[:40], y.o[:40], eq)
        return dict(bonds=[[int(i), int(j)] for i, j in s.nlist[:]], angles=fix(s.angles, 4096), table=fix(g.angles, 4096))
    if n == "turns":
        ref = D.quats(rng("ref", k, len(p)), len(p))[:20]
        o = freud.order.RotationalAutocorrelation(2).compute(ref, y.o[:20])
        g = freud.environment.AngularSeparationGlobal().compute(ref, y.o[:20], ONE)
        return dict(order=fix(o.particle_order.real, 16384), imag=fix(o.particle_order.imag, 16384), angle=fix(np.diag(g.angles), 16384), mean=fix(o.order, 16384))
    if n == "projections":
        nl, how = query(y, p, y.qp(1), r, k)
        nl = nl.copy().filter(np.arange(len(nl)) < 150)
        o = freud.environment.LocalBondProjection()
        e = np.tile(ONE, (len(p), 1))
        o.compute(y.sys(1), e, np.eye(3)[[k % 3, (k + 1) % 3, (k + 2) % 3]], y.qp(1), ONE, nl)
        return dict(first=k % 3, proj=fix(o.projections, 8192), norm=fix(o.normed_projections, 8192), v=fix(nl.vectors, 8192))
    if n == "copies":
        h = np.array([np.linalg.norm(np.cross(m[1], m[2])) for m in [np.roll(b.to_matrix().T if y.d == 3 else np.diag([0, 0, 1.]) + b.to_matrix().T, -i, 0) for i in range(3)]])
        M = b.to_matrix().astype(float) + (np.diag([0, 0, 1.]) if y.d == 2 else 0)
        h = abs(np.linalg.det(M)) / h
        L = np.array([b.Lx, b.Ly, b.Lz if y.d == 3 else 1.])
        o = freud.locality.PeriodicBuffer().compute((b, p), list(r * L / h * 1.01))
        x = np.concatenate([p, o.buffer_points]).astype(float)
        q = y.f(y.q[:8], 1)
        nl = freud.locality.AABBQuery(b, p).query(q, dict(r_max=r)).toNeighborList(True)
        d = np.sort(np.linalg.norm(x[None] - q[:, None].astype(float), axis=2), axis=1)
        return dict(a=[fix(nl.distances[nl.query_point_indices == i], 16384) for i in range(len(q))], b=[fix(x[x < r * 1.01], 16384) for x in d], r=fix(r, 16384))
    if n == "distances":
        nl, how = query(y, p, y.qp(1), r, k)
        nl = nl.copy().filter(np.arange(len(nl)) < 150)
        q = (p if y.own else y.f(y.q, 1))
        Q, X = q[nl.query_point_indices], p[nl.point_indices]
        al = freud.locality.NeighborList.all_pairs((b, p[:20]), q[:9], exclude_ii=False)
        u = freud.locality.AABBQuery(b, p)
        return dict(nl=fix(nl.distances, 4096), box=fix(b.compute_distances(Q, X), 4096), v=fix(nl.vectors, 4096), w=fix(b.wrap(X - Q), 4096),
                    all=fix(al.distances, 4096), table=fix(b.compute_all_distances(q[:9], p[:20]).ravel(), 4096), own=[len(u.points), int(np.array_equal(u.points, p))])
    if n == "images":
        x = y.f(y.p[:40] + np.array([37.5, -20.25, 11 if y.d == 3 else 0]) * (k - 3), 1)
        w, im = b.wrap(x), b.get_images(x)
        return dict(x=fix(x, 1024), back=fix(b.unwrap(w, im), 1024), abs=fix(b.make_absolute(b.make_fractional(x)), 1024), w=fix(w, 1024), again=fix(b.wrap(b.unwrap(x, im * (k - 2))), 1024),
                    contains=ints(b.contains(w)), far=ints(np.abs(im).sum(1) > 0), containsx=ints(b.contains(x)), grey=ints(np.abs(b.make_fractional(w)[:, :y.d] - .5).max(1) > .4999))
    if n == "weights":
        nl, how = query(y, p, None, r, k)
        c = [.5, 1, 3, 1.25][k % 4]
        x = freud.locality.NeighborList.from_arrays(len(p), len(p), nl.query_point_indices, nl.point_indices, nl.vectors, np.full(len(nl), c, np.float32))
        f = lambda z, m: freud.order.Hexatic(k=2 + k % 5, weighted=m).compute((b, p), z).particle_order
        u, v, z = f(nl, False), f(x, True), f(x, False)
        m = np.bincount(nl.query_point_indices, minlength=len(p)) > 0
        rd = [ints(freud.density.RDF(5, r).compute((b, p), neighbors=z).bin_counts) for z in (nl, x)]
        return dict(parts=[[fix(s.real[m], 16384), fix(s.imag[m], 16384)] for s in (u, v, z)], rdf=rd)
    if n == "free energy":
        o = [P.PMFTXY(r, r, (3, 2 + k)), P.PMFTXYT(r, r * .8, (2, 3, 2))][k % 2]
        for s, p, q, nl, how in frames(y, a, r):
            o.compute(s, *([qa, q] if k % 2 == 0 else [y.a, q, qa]), how, reset=False)
        with np.errstate(all="ignore"):
            e = o.pmft.ravel()
        return dict(counts=ints(o.bin_counts.ravel()), pmft=fix(e, 2 ** 20))
    raise KeyError(n)


def run(t):
    beh = json.load(open(ARGS["histories"]))
    for j, h in enumerate(beh):
        ev = []
        for i, a in enumerate(h):
            y = Sys(rng("agree", j, i), KIND.get(a["pair"], "any"))
            t.doing(dict(ask=a, episode=j, event=i))
            try:
                ev.append(dict(a=a, exc="", d=pair(y, a)))
            except Exception as x:          # noqa: BLE001
                import traceback
                ev.append(dict(a=a, exc=type(x).__name__, msg=traceback.format_exc()[-600:], d={}))
        t.episode("agree/%d" % j, ev)


main(run)
