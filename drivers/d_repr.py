"""G02: objects are made, changed and copied by evaluating their representation, as FRepr says."""
import json
import re
import numpy as np
import freud
from dlib import ARGS, attempt, fix, main, rng
import dclasses as D


def num(x):
    if isinstance(x, str):
        return [ord(c) for c in x]
    if isinstance(x, (bool, np.bool_)):
        return [int(x)]
    if x is None:
        return []
    return fix(np.asarray(x, dtype=float).ravel(), 1 << 14)


def maker(r, kind):
    """(object, what its settings must be, names that can be assigned, how to compute)"""
    F = freud
    u = lambda a, b: float(r.uniform(a, b))
    i = lambda a, b: int(r.integers(a, b))
    pick = lambda *a: a[i(0, len(a))]
    n = int(12)
    b = F.box.Box(9, 8, 0, is2D=True) if kind in ("PMFTR12", "PMFTXYT", "PMFTXY", "Hexatic") else F.box.Box(9, 8, 10)
    p = (r.uniform(-.5, .5, (n, 3)) * b.L).astype(np.float32)
    q = r.normal(size=(n, 4))
    q /= np.linalg.norm(q, axis=1, keepdims=True)
    s, a = (b, p), r.uniform(0, 6, n)
    if kind == "RDF":
        k = dict(bins=i(1, 20), r_max=u(1, 3.5), r_min=pick(0, u(.1, .9)), normalization_mode=pick("exact", "finite_size"))
        return F.density.RDF(**k), dict(nbins=k["bins"], bounds=[k["r_min"], k["r_max"]], mode=k["normalization_mode"]), dict(mode=["exact", "finite_size"]), lambda o: o.compute(s).rdf
    if kind == "CorrelationFunction":
        k = dict(bins=i(1, 20), r_max=u(1, 3.5))
        return F.density.CorrelationFunction(**k), dict(nbins=k["bins"], r_max=k["r_max"]), {}, lambda o: o.compute(s, a, p, a).correlation
    if kind in ("GaussianDensity", "SphereVoxelization"):
        w, rm, sg = pick(i(2, 9), (i(2, 9), i(2, 9), i(2, 9))), u(1, 3), u(.2, 2)
        full = dict(width=[w] * 3 if isinstance(w, int) else w, r_max=rm)
        if kind[0] == "S":
            return F.density.SphereVoxelization(w, rm), full, {}, lambda o: o.compute(s).voxels
        return F.density.GaussianDensity(w, rm, sg), dict(full, sigma=sg), {}, lambda o: o.compute(s).density
    if kind == "LocalDensity":
        k = dict(r_max=u(1, 3), diameter=u(.1, .9))
        return F.density.LocalDensity(**k), k, {}, lambda o: o.compute(s).density
    if kind.startswith("PMFT"):
        x, y, z = u(1, 2), u(1, 2), u(1, 2)
        m = [i(1, 7), i(1, 7), i(1, 7)]
        if kind == "PMFTR12":
            return F.pmft.PMFTR12(x, m), dict(nbins=m, bounds=[0, x, 0, 2 * np.pi, 0, 2 * np.pi]), {}, lambda o: o.compute(s, a).bin_counts
        if kind == "PMFTXYT":
            return F.pmft.PMFTXYT(x, y, m), dict(nbins=m, bounds=[-x, x, -y, y, 0, 2 * np.pi]), {}, lambda o: o.compute(s, a).bin_counts
        if kind == "PMFTXY":
            return F.pmft.PMFTXY(x, y, m[:2]), dict(nbins=m[:2], bounds=[-x, x, -y, y]), {}, lambda o: o.compute(s, a).bin_counts
        v = pick(None, [u(-1, 1) for _ in range(3)])
        return F.pmft.PMFTXYZ(x, y, z, m, v), dict(nbins=m, bounds=[-x, x, -y, y, -z, z], shiftvec=v or [0, 0, 0]), {}, lambda o: o.compute(s, q).bin_counts
    if kind == "BondOrder":
        m, mode = [i(2, 9), i(2, 9)], pick("bod", "lbod", "obcd", "oocd")
        return F.environment.BondOrder(m, mode), dict(nbins=m, mode=mode), {}, lambda o: o.compute(s, q, neighbors=dict(num_neighbors=3)).bin_counts
    if kind == "Hexatic":
        k = dict(k=i(2, 9), weighted=pick(True, False))
        return F.order.Hexatic(**k), k, {}, lambda o: o.compute(s, neighbors=F.locality.NeighborList.from_arrays(
            n, n, np.arange(n), (np.arange(n) + 1) % n, np.tile([1., 2, 0], (n, 1)), np.arange(n) / n + .1)).particle_order
    if kind == "Cubatic":
        k = dict(t_initial=u(1, 9), t_final=u(.001, .1), scale=u(.2, .8), n_replicates=i(1, 4), seed=i(0, 99))
        return F.order.Cubatic(**k), k, {}, lambda o: o.compute(q).global_tensor
    if kind == "RotationalAutocorrelation":
        k = dict(l=2 * i(0, 6))
        return F.order.RotationalAutocorrelation(**k), k, {}, lambda o: o.compute(q, q[::-1].copy()).particle_order
    if kind == "MSD":
        k = dict(box=pick(None, F.box.Box(5, 6, 7, u(-.5, .5), .25, 0)), mode=pick("window", "direct"))
        return F.msd.MSD(**k), dict(mode=k["mode"], box=None if k["box"] is None else box(k["box"])), {}, lambda o: o.compute(
            r_(3), images=np.ones((4, 5, 3), int) * np.arange(4)[:, None, None]).msd if k["box"] is not None else o.compute(r_(3)).msd
    if kind == "StaticStructureFactorDebye":
        k = dict(num_k_values=i(2, 20), k_max=u(3, 9), k_min=pick(0, u(.1, 2)))
        return F.diffraction.StaticStructureFactorDebye(**k), dict(num_k_values=k["num_k_values"], k_max=k["k_max"], k_min=k["k_min"]), {}, lambda o: o.compute(s).S_k
    if kind == "DiffractionPattern":
        k = dict(grid_size=i(4, 20), output_size=i(4, 20))
        return F.diffraction.DiffractionPattern(**k), k, {}, lambda o: o.compute((F.box.Box.cube(9), p), view_orientation=[1, 0, 0, 0]).diffraction
    if kind == "Box":
        if pick(0, 1):
            k = dict(Lx=u(1, 9), Ly=u(1, 9), Lz=0, xy=u(-1, 1), xz=0, yz=0, is2D=True)
        else:
            k = dict(Lx=u(1, 9), Ly=u(1, 9), Lz=u(1, 9), xy=u(-1, 1), xz=u(-1, 1), yz=u(-1, 1), is2D=False)
        o = F.box.Box(**k)
        return o, k, dict(Lx=[1.5, 7.25], Ly=[.5, 3]), lambda o: o.make_absolute([[.1, .2, 0], [.9, 1.5, 0]])
    o = dict(Cluster=F.cluster.Cluster, ClusterProperties=F.cluster.ClusterProperties, Interface=F.interface.Interface, PeriodicBuffer=F.locality.PeriodicBuffer,
             AngularSeparationGlobal=F.environment.AngularSeparationGlobal, AngularSeparationNeighbor=F.environment.AngularSeparationNeighbor,
             LocalBondProjection=F.environment.LocalBondProjection)[kind]()
    return o, {}, {}, {"Cluster": lambda o: o.compute(s, neighbors=dict(r_max=2.)).cluster_idx,
                       "ClusterProperties": lambda o: o.compute(s, np.arange(n) % 3).centers,
                       "Interface": lambda o: o.compute(s, p + np.float32(.5), neighbors=dict(r_max=2.)).point_ids,
                       "PeriodicBuffer": lambda o: o.compute(s, 1.5).buffer_points,
                       "AngularSeparationGlobal": lambda o: o.compute(q[:3].copy(), q, np.array([[1., 0, 0, 0]])).angles,
                       "AngularSeparationNeighbor": lambda o: o.compute(s, q, equiv_orientations=np.array([[1., 0, 0, 0]]), neighbors=dict(num_neighbors=3)).angles,
                       "LocalBondProjection": lambda o: o.compute(s, q, np.array([[0, 0, 1.]]), neighbors=dict(num_neighbors=3)).projections}[kind]


def alike(x, y):
    """one text with the same numbers: settings held in single precision may lose the last digits"""
    number = r"-?\d+\.\d+(?:e[-+]?\d+)?"
    u, v = re.findall(number, x), re.findall(number, y)
    return re.sub(number, "#", x) == re.sub(number, "#", y) and np.allclose(np.array(u, float), np.array(v, float), rtol=1e-5, atol=1e-6)


def r_(k):
    return np.random.default_rng(k).normal(size=(4, 5, 3))


def box(b):
    return [b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz]


def get(o, n):
    if n == "box" and isinstance(o, freud.msd.MSD):
        return None if o._box is None else box(o._box)
    return getattr(o, n)


def run(t):
    for j, h in enumerate(json.load(open(ARGS["histories"]))):
        r = rng("repr", j)
        ev = []
        o = want = None
        for c in h:
            t.doing(dict(episode=j, history=h, at=c))
            e = dict(op=c["what"], exc="", repr=True, results=True, got={})
            if o is None:
                (o, want, may, calc) = maker(r, c["what"])
                kind = c["what"]
                e["op"], e["want"] = "make", {k: num(v) for k, v in want.items()}
            elif c["what"] == "assign":
                if not may:
                    continue
                name = str(r.choice(sorted(may)))
                v = may[name][int(r.integers(len(may[name])))]
                setattr(o, name, v)
                e["name"], e["value"] = name, num(v)
            elif c["what"] == "compute":
                calc(o)
            else:
                new, e["exc"] = attempt(lambda: eval(repr(o), dict(freud=freud)))
                if e["exc"]:
                    e["text"] = repr(o)[:200]
                    ev.append(e)
                    break
                e["repr"] = type(new) is type(o) and alike(repr(o), repr(new)) and alike(str(o), str(new))
                e["results"] = bool(D.same(D.canon(calc(o)), D.canon(calc(new)), rtol=1e-3))
                o = new
            e["got"] = {k: num(get(o, k)) for k in want}
            ev.append(e)
        t.episode("%s/%d" % (kind, j), ev)


main(run)
