"""W07: more points, bonds, clusters, bins, neighbors and frames than small words can count (spec: FLarge)."""
import json
import numpy as np
import freud
from dlib import ARGS, ints, fix, main, rng, toint, Q

L = freud.locality
N2, N3, N8 = [270, 260, 1], [41, 41, 41], [20, 17, 1]
EDGES = [0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537]


def at(g, n, k=24):
    """items to look at: those next to the limits of small words, the last ones, and others"""
    s = [x for x in EDGES if x < n] + [n - 1, n - 2] + list(g.integers(0, n, k)) + ([int(x) for x in g.integers(65536, n, k)] if n > 65537 else [])
    return sorted({int(x) for x in s if x >= 0})


def lattice(n):
    k = np.arange(n[0] * n[1] * n[2])
    s = np.stack([k % n[0], (k // n[0]) % n[1], k // (n[0] * n[1])], 1)
    p = (s - np.array(n) // 2).astype(np.float32)
    if n[2] == 1:
        p[:, 2] = 0
    b = freud.box.Box(n[0], n[1], 0 if n[2] == 1 else n[2], is2D=n[2] == 1)
    return b, p


def engine(b, p, k):
    return [L.AABBQuery, L.LinkCell, lambda b, p: L.LinkCell(b, p, cell_width=1.0), lambda b, p: (b, p)][k % 4](b, p)


def bonds(q, j, v, nq, n, w=None):
    """NeighborList of the bonds q -> j with vectors v"""
    v = np.asarray(v, dtype=np.float32)
    return L.NeighborList.from_arrays(nq, n, np.asarray(q, np.uint32), np.asarray(j, np.uint32), v, np.ones(len(v), np.float32) if w is None else np.asarray(w, np.float32))


def big(n=70000):
    return freud.box.Box.cube(4096), np.zeros((n, 3), np.float32)


def rows(nl, s, n):
    """neighbors of the query points s, with squared distances"""
    q, j, d = (np.asarray(x) for x in (nl.query_point_indices, nl.point_indices, nl.distances))
    lo, hi = np.searchsorted(q, s), np.searchsorted(q, np.array(s) + 1)
    return [ints(j[a:b]) for a, b in zip(lo, hi)], [toint(d[a:b] ** 2) for a, b in zip(lo, hi)]


def ask(w, k, g):
    if w in ("query", "nearest"):
        n = [N3, N2, N8][k % 3]
        b, p = lattice(n)
        s = at(g, len(p))
        r2 = 1 + (k // 3) % 2 if w == "query" else 1
        z = 2 * (3 if n[2] > 1 else 2)
        a = dict(r_max=1.2 if r2 == 1 else 1.5) if w == "query" else dict(num_neighbors=z)
        e = engine(b, p, k // 3 if r2 == 1 or w == "nearest" else 2 * (k // 6))
        e = L.AABBQuery(b, p) if isinstance(e, tuple) else e
        part = isinstance(e, L.LinkCell)         # large numbers of cells take long
        nl = e.query(p[s] if part else p, dict(a, exclude_ii=not part, **(dict(num_neighbors=z + 1) if part and w == "nearest" else {}))).toNeighborList()
        u = list(range(len(s))) if part else s
        got, d2 = rows(nl, u, len(p))
        return dict(n=n, s=s, r2=r2, part=part, got=got, d2=d2, bonds=len(nl), seg=ints(nl.segments[u]), cnt=ints(nl.neighbor_counts[u]), first=[ints(nl.find_first_index(x)) for x in u])
    if w == "one":
        n = [N2, N8][k % 2]
        b, p = lattice(n)
        B = freud.box.Box.square(1024)
        e = [L.AABBQuery, L.LinkCell][(k // 2) % 2 if k % 2 else 0](B, p)      # cells take long with many points
        q = np.array([[-300.0, 0, 0], [0, 0, 0], [300, 300, 0]], np.float32)
        nl = e.query(q, dict(r_max=400.0)).toNeighborList()
        i = np.asarray(nl.point_indices)[np.asarray(nl.query_point_indices) == 1]
        s = at(g, len(p))
        ld = freud.density.LocalDensity(400, 0).compute(e, q[1:2], dict(r_max=400.0))
        far = np.asarray(nl.query_point_indices) == 0
        return dict(n=n, s=s, num=len(i), sorted=[int(x) for x in np.sort(i)[s]], count=int(nl.neighbor_counts[1]), first=int(nl.find_first_index(1)), before=int(far.sum()), dens=int(ld.num_neighbors[0]))
    if w == "nlist" or w == "filtered":
        n = [70000, 300][k % 2]
        m = 2 * n
        c = np.arange(m)
        d = (c * 5) % 1000
        nl = bonds(c // 2, (c * 7) % n, np.stack([d / 8, 0 * d, 0 * d], 1), n, n, c % 9)
        if w == "filtered":
            s = at(g, n)
            if k % 4 < 2:
                nl = nl.copy()
                nl.filter(c % 2 == 0)
                return dict(how="every other", n=n, s=s, num=len(nl), q=ints(nl.query_point_indices[s]), j=ints(nl.point_indices[s]), d=toint(nl.distances[s], 8), seg=ints(nl.segments[s]), cnt=ints(nl.neighbor_counts[s]))
            lo, hi = 10 + k, 100
            nl.filter_r(hi / 1.0, lo / 1.0)
            s = at(g, len(nl))
            q, j = nl.query_point_indices, nl.point_indices
            e = np.concatenate([[0], np.cumsum(np.asarray(nl.neighbor_counts))])
            bad = int((np.asarray(nl.segments) != e[:-1])[np.asarray(nl.neighbor_counts) > 0].sum())
            return dict(how="lengths", n=n, lo=lo * 8, hi=hi * 8, num=len(nl), s=s, q=ints(q[s]), j=ints(j[s]), d=toint(nl.distances[s], 8), bad=bad)
        s = at(g, m)
        t = at(g, n)
        return dict(n=n, s=s, num=len(nl), q=ints(nl.query_point_indices[s]), j=ints(nl.point_indices[s]), d=toint(nl.distances[s], 8), w=toint(nl.weights[s]), x=toint(nl.vectors[s][:, 0], 8), t=t,
                    seg=ints(nl.segments[t]), cnt=ints(nl.neighbor_counts[t]), first=[int(nl.find_first_index(x)) for x in t])
    if w == "pairs":
        n, m = [(300, 250), (70000, 2), (2, 70000), (20, 15)][k % 4]
        x = bool(k // 4 % 2)
        b = freud.box.Box.cube(1000)
        p, q = np.zeros((n, 3), np.float32), np.zeros((m, 3), np.float32)
        p[:, 0], q[:, 0] = np.arange(n) % 100, -1 - np.arange(m) % 100
        nl = L.NeighborList.all_pairs((b, p), q, exclude_ii=x)
        s = at(g, len(nl))
        return dict(n=n, m=m, x=x, num=len(nl), s=s, q=ints(nl.query_point_indices[s]), j=ints(nl.point_indices[s]), d=toint(nl.distances[s]))
    if w in ("clusters", "properties"):
        n = [140001, 601][k % 2]
        c = np.arange(n - 3)
        b, p = big(n)
        q = np.concatenate([c, [n - 3, n - 2, n - 2, n - 1]])
        j = np.concatenate([c ^ 1, [n - 2, n - 3, n - 1, n - 2]])
        cl = freud.cluster.Cluster().compute((b, p), neighbors=bonds(q, j, np.tile([[1.0, 0, 0]], (len(q), 1)), n, n))
        if w == "clusters":
            s = at(g, n)
            t = at(g, cl.num_clusters)
            return dict(n=n, num=cl.num_clusters, s=s, idx=ints(cl.cluster_idx[s]), t=t, keys=[ints(cl.cluster_keys[x]) for x in t], all=len(cl.cluster_keys))
        k_ = np.arange(n)
        p[:, 0], p[:, 1] = 2 * (k_ % 2), (k_ // 2) % 64
        p[-3:] = [[0, 0, 5], [0, 1, 5], [0, 2, 5]]
        o = freud.cluster.ClusterProperties().compute((b, p), cl.cluster_idx, (k_ % 5 + 1).astype(np.float32))
        t = at(g, cl.num_clusters)
        return dict(n=n, t=t, num=len(o.sizes), sizes=ints(o.sizes[t]), mass=toint(o.cluster_masses[t]), cen=toint(o.centers[t], 4, .2), com=fix(o.centers_of_mass[t][:, 0] , 840))
    if w in ("rdf", "correlation"):
        B = [70000, 400][k % 2]
        K = B + B // 3
        c = np.arange(K)
        x = (13 * c) % B
        b, p = big(K)
        nl = bonds(c, c, np.stack([(x + .5) / 64, 0 * x, 0 * x], 1), K, K)
        s = at(g, K)
        if w == "correlation":
            o = freud.density.CorrelationFunction(B, B / 64).compute((b, p), c % 7, p, np.ones(K), neighbors=nl) if k % 4 < 2 else \
                freud.density.CorrelationFunction(B, B / 64).compute((b, p), np.ones(K), p, c % 7, neighbors=nl)
            y = [fix(o.correlation.real[x[i]], 2) for i in s]
        else:
            b = freud.box.Box.cube(4096)
            o = freud.density.RDF(B, B / 64).compute((b, p), p, nl)
            y = ints(np.zeros(len(s)))
        return dict(B=B, K=K, s=s, num=ints(o.bin_counts.sum()), got=[int(o.bin_counts[x[i]]) for i in s], len=len(o.bin_counts), cen=toint(np.asarray(o.bin_centers)[x[s]], 128), edge=toint(np.asarray(o.bin_edges)[x[s]], 64), corr=y)
    if w == "pmft":
        n = [[48, 40, 37], [5, 4, 3], [300, 240, 1], [70000, 1, 2], [1, 40, 1700], [40, 43, 41]][k % 6]
        B = n[0] * n[1] * n[2]
        K = B + B // 3
        c = np.arange(K)
        x = (13 * c) % B
        m = np.stack([x // (n[1] * n[2]), (x // n[2]) % n[1], x % n[2]], 1)
        b, p = big(K)
        h = np.array(n) / 2
        v = (m + .5 - h) / 16
        q = np.tile([[1.0, 0, 0, 0]], (K, 1))
        if n[2] == 1:
            b = freud.box.Box.square(4096)
            o = freud.pmft.PMFTXY(h[0] / 16, h[1] / 16, (n[0], n[1])).compute((b, p), np.zeros(K), p, bonds(c, c, v * [1, 1, 0], K, K))
            y = o.bin_counts[:, :, None]
        else:
            o = freud.pmft.PMFTXYZ(*(h / 16), n).compute((b, p), q, p, neighbors=bonds(c, c, v, K, K))
            y = o.bin_counts
        s = at(g, K)
        return dict(n=n, B=B, K=K, s=s, shape=list(y.shape), num=ints(y.sum()), got=[int(y[tuple(m[i])]) for i in s])
    if w == "frames":
        F = [300, Q(300, 66000)][k == 5]
        P = freud.pmft
        b, p = freud.box.Box.cube(20), np.array([[0, 0, 0], [1.25, .5, .5], [-2, 1, .25]], np.float32)
        b2, p2 = freud.box.Box.square(20), p * [1, 1, 0]
        q, z = np.tile([[1.0, 0, 0, 0]], (3, 1)), np.zeros(3)
        nl = L.AABBQuery(b, p).query(p, dict(r_max=4, exclude_ii=True)).toNeighborList()
        n2 = L.AABBQuery(b2, p2).query(p2, dict(r_max=4, exclude_ii=True)).toNeighborList()
        one = [lambda: (freud.density.RDF(8, 4), ((b, p),), dict(neighbors=nl), "rdf"),
               lambda: (freud.density.CorrelationFunction(8, 4), ((b, p), np.arange(3)), dict(neighbors=nl), "correlation"),
               lambda: (P.PMFTXY(4, 4, 4), ((b2, p2), z), dict(neighbors=n2), "_pcf"),
               lambda: (P.PMFTXYZ(4, 4, 4, 4), ((b, p), q), dict(neighbors=nl), "_pcf"),
               lambda: (P.PMFTR12(4, 4), ((b2, p2), z), dict(neighbors=n2), "_pcf"),
               lambda: (freud.density.RDF(4, 5, normalization_mode="finite_size"), ((b, p),), dict(neighbors=nl), "rdf"),
               lambda: (P.PMFTXYT(4, 4, 4), ((b2, p2), z), dict(neighbors=n2), "_pcf"),
               lambda: (freud.environment.BondOrder(6), ((b, p), q), dict(neighbors=nl), "bond_order"),
               lambda: (freud.diffraction.StaticStructureFactorDebye(6, 3), ((b, p),), {}, "S_k"),
               lambda: (freud.diffraction.DiffractionPattern(16, 16), ((b, p),), dict(view_orientation=[1., 0, 0, 0]), "diffraction"),
               lambda: (freud.density.RDF(8, 4), ((b, p),), dict(neighbors=nl), "n_r"),
               lambda: (freud.environment.BondOrder(6, mode="obcd"), ((b, p), q), dict(neighbors=nl), "bond_order")][k]
        r = []
        for f in (1, F):
            o, a, kw, name = one()
            for i in range(f):
                o.compute(*a, **kw, reset=i == 0)
            y = np.exp(-np.asarray(o.pmft)) if name == "_pcf" else np.asarray(getattr(o, name))
            r.append((np.real(y).ravel().astype(float), ints(np.asarray(o.bin_counts).ravel()) if hasattr(o, "bin_counts") else []))
        y, c = zip(*r)
        big_ = np.abs(y[0]).max()
        return dict(F=F, cls=k, c1=c[0], cF=c[1], y1=fix(y[0] / big_, 2 ** 14), yF=fix(y[1] / big_, 2 ** 14))
    if w == "grid":
        n = [[300, 250], [9, 7]][k % 2]
        b = freud.box.Box(n[0], n[1], is2D=True)
        s, out = at(g, n[0] * n[1], 4), []
        s = [s[i] for i in g.integers(0, len(s), 4)] + [n[0] * n[1] - 1]
        for x in s:
            p = np.array([[x // n[1] + .5 - n[0] / 2, x % n[1] + .5 - n[1] / 2, 0]], np.float32)
            o = freud.density.GaussianDensity(n, 1.2, .5).compute((b, p)).density if k % 4 < 2 else freud.density.SphereVoxelization(n, 1.2).compute((b, p)).voxels
            i = np.argwhere(np.asarray(o) > 1e-6)
            out.append(dict(x=x, top=ints(np.unravel_index(np.argmax(o), o.shape)) if k % 4 < 2 else [x // n[1], x % n[1]], on=sorted(ints(i[:, 0] * n[1] + i[:, 1]))))
        return dict(n=n, got=out)
    if w in ("local", "psi", "ends"):
        n = [70000, 301][k % 2]
        b, p = big(n)
        c = np.arange(n)
        s = at(g, n)
        if w == "local":
            q = np.repeat(c, c % 7)
            nl = bonds(q, (q * 3) % n, np.tile([[.5, 0, 0]], (len(q), 1)), n, n)
            o = freud.density.LocalDensity(2, 1).compute((b, p), p, nl)
            return dict(n=n, s=s, num=toint(np.asarray(o.num_neighbors)[s]))
        if w == "psi":
            n = n - n % 4                       # round a square, again and again
            c, p = np.arange(n), p[:n]
            a = c % 4
            p[:, 0], p[:, 1] = np.array([0, 1, 1, 0])[a], np.array([0, 0, 1, 1])[a]
            v = np.stack([np.array([1, 0, -1, 0])[a], np.array([0, 1, 0, -1])[a], 0 * a], 1)
            b, s = freud.box.Box.square(4096), at(g, n)
            nl = bonds(c, (c + 1) % n, v, n, n)
            h = freud.order.Hexatic(k=1).compute((b, p), nl).particle_order[s]
            pr = freud.environment.LocalBondProjection().compute((freud.box.Box.cube(4096), p), np.tile([[1.0, 0, 0, 0]], (n, 1)), np.array([[1.0, 0, 0]]), neighbors=nl, equiv_orientations=np.array([[1.0, 0, 0, 0]]))
            return dict(n=n, s=s, re=fix(h.real, 1000), im=fix(h.imag, 1000), proj=fix(pr.projections[s][:, 0], 1000))
        q = c[c % 2 == 0]
        nl = bonds(q, (3 * q + 1) % n, np.tile([[.5, 0, 0]], (len(q), 1)), n, n)
        o = freud.interface.Interface().compute((b, p), p, nl)
        t = at(g, n // 2)
        P, I = np.asarray(o.point_ids), np.asarray(o.query_point_ids)
        return dict(n=n, t=t, num=[int(o.point_count), int(o.query_point_count), len(P), len(I)], q=ints(I[t]), p=ints(P[t]))
    if w == "msd":
        n, m = [(70000, 2), (2, 70000), (300, 3), (4, 300)][k % 4]       # frames, particles
        t, a = np.arange(n), np.arange(m)
        x = np.zeros((n, m, 3))
        x[:, :, 0] = (t[:, None] % 50) * (1 + a[None, :] % 3)
        o = freud.msd.MSD(freud.box.Box.cube(4096), "direct").compute(x)
        s, u = at(g, n), at(g, m)
        return dict(n=n, m=m, s=s, u=u, part=[[toint(o.particle_msd[i, j]) for j in u] for i in s], msd=fix(np.asarray(o.msd)[s] , 64), all=len(o.msd))
    if w == "rad":
        n = [N3, N2, [6, 5, 4]][k % 3]
        b, p = lattice(n)
        nl = L.AABBQuery(b, p).query(p, dict(r_max=1.5, exclude_ii=True)).toNeighborList()
        f = L.FilterRAD(allow_incomplete_shell=True).compute((b, p), nl).filtered_nlist
        s = at(g, len(p))
        got, d2 = rows(f, s, len(p))
        return dict(n=n, s=s, r2=1, part=False, got=got, d2=d2, bonds=len(f), seg=ints(f.segments[s]), cnt=ints(f.neighbor_counts[s]), first=[ints(f.find_first_index(x)) for x in s])
    if w == "wrap":
        n = [70000, 300][k % 2]
        b = freud.box.Box(64, 32, 16)
        c = np.arange(n)
        x = np.stack([c % 200 - 100.5, c % 77 - 38.5, c % 31 - 15.5], 1)
        s = at(g, n)
        y, im = b.wrap(x), b.get_images(x)
        u = b.unwrap(y, im)
        d = b.compute_distances(x, 0 * x + [.5, .5, .5])
        return dict(n=n, s=s, y=toint(y[s], 2), im=ints(im[s]), u=toint(u[s], 2), d2=toint(d[s] ** 2, 1, .05), f=fix(b.make_fractional(x)[s], 64 * 64))
    raise KeyError(w)


def run(t):
    for j, h in enumerate(json.load(open(ARGS["histories"]))):
        ev = []
        for i, a in enumerate(h):
            t.doing(dict(ask=a, episode=j, event=i))
            try:
                ev.append(dict(a=a, exc="", d=ask(a["what"], a["k"], rng("large", j, i))))
            except Exception as x:          # noqa: BLE001
                import traceback
                ev.append(dict(a=a, exc=type(x).__name__, msg=traceback.format_exc()[-600:], d={}))
        t.episode("large/%d" % j, ev)


main(run)
