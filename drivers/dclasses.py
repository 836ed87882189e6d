"""The built analysis classes of freud as adapters: how to make one, its settings, its results,
valid inputs (canonical arrays) and calls that must be rejected. Used by the drivers of FCompute,
FParallel and FSystem."""
import copy
import numpy as np
import freud
from freud.box import Box
from freud.locality import AABBQuery, LinkCell, NeighborList


# ---- values ----------------------------------------------------------------
def canon(v):
    """Independent copy of a result as plain nested lists/arrays."""
    if isinstance(v, np.ndarray):
        return np.array(v, copy=True)
    if isinstance(v, NeighborList):
        return ["nlist", int(v.num_query_points), int(v.num_points)] + [
            np.array(x, copy=True) for x in (v.query_point_indices, v.point_indices, v.distances,
                                             v.vectors, v.weights, v.segments, v.neighbor_counts, v[:])]
    if isinstance(v, Box):
        return ["box", np.array(v.to_matrix()), np.array([v.Lx, v.Ly, v.Lz, v.xy, v.xz, v.yz]),
                [bool(x) for x in v.periodic], bool(v.is2D)]
    if isinstance(v, dict):
        return ["dict"] + [[k, canon(v[k])] for k in sorted(v)]
    if isinstance(v, (list, tuple)):
        return ["seq"] + [canon(x) for x in v]
    if isinstance(v, (AABBQuery, LinkCell)):
        return ["nq", canon(v.box), canon(v.points)]
    return v


def same(a, b, exact=False, rtol=2e-5):
    """Equality of canonical values: integers, shapes and structure exactly, floats up to rounding."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or \
                a.dtype.kind != b.dtype.kind:
            return False
        if a.dtype.kind not in "fc" or exact:
            return bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))
        f = a[np.isfinite(a)]
        scale = float(np.max(np.abs(f))) if f.size else 0.0
        return bool(np.allclose(a, b, rtol=rtol, atol=rtol * scale, equal_nan=True))
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and \
            all(same(x, y, exact, rtol) for x, y in zip(a, b))
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)) and not exact:
        return bool(np.isclose(a, b, rtol=rtol, atol=0, equal_nan=True))
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return bool(a == b or (a != a and b != b))
    return bool(a == b)


# ---- systems ---------------------------------------------------------------
def r_(*k):
    import zlib
    return np.random.default_rng([zlib.crc32(str(x).encode()) for x in k])


def pts(r, box, n, spread=1.0):
    f = r.random((n, 3)) * spread
    p = box.wrap(box.make_absolute(f))
    p = np.round(np.asarray(p, dtype=np.float64) * 64) / 64
    if box.is2D:
        p[:, 2] = 0
    return p.astype(np.float32)


def quats(r, n):
    q = r.standard_normal((n, 4))
    q /= np.linalg.norm(q, axis=1)[:, None]
    return q.astype(np.float32)


def angles(r, n):
    return (np.floor(r.random(n) * 6.28 * 256) / 256).astype(np.float32)


BOX3 = lambda: Box(8, 9, 10)
BOXT = lambda: Box(10, 9, 8, 0.25, -0.25, 0.125)
BOXC = lambda: Box.cube(8)
BOX2 = lambda: Box.square(9)
BOX2T = lambda: Box(8, 10, xy=0.25, is2D=True)


def nl(box, p, q, rmax, excl):
    return AABBQuery(box, p).query(q, dict(r_max=rmax, exclude_ii=excl)).toNeighborList()


SYSTEMS = dict(d3=[(BOX3, 30), (BOXT, 18), (BOX3, 30), (BOXC, 45)],
               d2=[(BOX2, 30), (BOX2T, 18), (BOX2, 30), (lambda: Box.square(7), 24)],
               any=[(BOX3, 30), (BOX2, 25), (BOX3, 30), (BOXT, 40)],
               cub=[(lambda: Box.cube(8), 30), (lambda: Box.cube(10), 18), (lambda: Box.cube(8), 30),
                    (lambda: Box.cube(9), 50)])


def systems(kind, name, big=0):
    out = []
    for i, (b, n) in enumerate(SYSTEMS[kind]):
        box = b()
        out.append((box, pts(r_(name, i, "p"), box, big or n), r_(name, i, "x")))
    return out


ARRAYS = ("points", "query_points", "orientations", "query_orientations", "equiv_orientations",
          "global_orientations", "ref_orientations", "values", "query_values", "keys", "cluster_idx",
          "masses", "proj_vecs", "view_orientation", "weights", "positions", "images",
          "points_radii", "query_points_radii", "vectors", "query_point_indices", "point_indices",
          "buffer")
INTS = ("keys", "cluster_idx", "query_point_indices", "point_indices", "images")


class Adapter:
    """name, make(), settings {name: value}, results [names], inputs [dict], bad [(label, change)]"""

    def __init__(self, name, make, inputs, results, settings=None, bad=(), dims="", pseudo=False):
        self.name, self.make, self.inputs, self.results = name, make, inputs, results
        self.settings, self.bad, self.pseudo = settings or {}, list(bad), pseudo

    def fresh_inputs(self, i):
        """Own copies of everything in input i (the canonical ones are never handed out)."""
        return {k: clone(v) for k, v in self.inputs[i].items()}

    def call(self, o, a, **extra):
        kw = {k: v for k, v in a.items() if k not in ("box", "points", "system")}
        kw.update(extra)
        if self.pseudo:
            return o.compute(**{k: v for k, v in a.items()})
        if "system" in a:
            return o.compute(a["system"], **kw)
        if "points" in a:
            return o.compute((a["box"], a["points"]), **kw)
        return o.compute(**kw)

    def read(self, o):
        """{result: (value object or None, exception name)}"""
        out = {}
        for n in self.results:
            try:
                out[n] = (getattr(o, n), "")
            except Exception as e:      # noqa: BLE001
                out[n] = (None, type(e).__name__)
        return out

    def settings_wrong(self, o):
        bad = []
        for n, want in self.settings.items():
            try:
                v = getattr(o, n)
            except Exception as e:      # noqa: BLE001
                bad.append(f"{n}: {type(e).__name__}")
                continue
            if not same(canon(v), canon(want)) and not (np.ndim(v) > 0 and np.shape(v) == np.shape(want)
                                                        and np.allclose(v, want)):
                bad.append(n)
        return bad


def clone(v):
    if isinstance(v, np.ndarray):
        return np.array(v, copy=True)
    if isinstance(v, Box):
        return Box(v.Lx, v.Ly, v.Lz, v.xy, v.xz, v.yz, v.is2D)
    if isinstance(v, NeighborList):
        return NeighborList.from_arrays(v.num_query_points, v.num_points, np.array(v.query_point_indices),
                                        np.array(v.point_indices), np.array(v.vectors), np.array(v.weights))
    if isinstance(v, AABBQuery):
        return AABBQuery(clone(v.box), np.array(v.points))
    return copy.deepcopy(v)


def _cut(key, n=-1):
    def f(a):
        if a.get(key) is None:
            raise KeyError(key)
        a[key] = a[key][:n] if n else a[key]
        return a
    return f


def _flat(key):
    def f(a):
        if a.get(key) is None:
            raise KeyError(key)
        a[key] = np.ravel(a[key])
        return a
    return f


def _set(key, v):
    def f(a):
        a[key] = v
        return a
    return f


BADPTS = ("points flattened", _flat("points"))
NOSYS = ("no points", lambda a: dict(a, points=np.zeros((0, 3), dtype=np.float32)))
FAR = ("r_max beyond the box", _set("neighbors", dict(r_max=1000.0)))
BOGUS = ("unknown query argument", _set("neighbors", dict(r_maxx=1.0)))
WRONGN = ("neighbors of a wrong type", _set("neighbors", 5))
MULTI = (BADPTS, NOSYS, FAR, BOGUS, WRONGN)


def ties(a):
    """Does some query point have two points at the same distance (within 4)?"""
    if "points" not in a:
        return False
    b, p = a["box"], a["points"]
    q = a.get("query_points", p)
    d = np.sum(b.wrap(np.asarray(q)[:, None, :].astype(float).repeat(len(p), 1).reshape(-1, 3)
                      - np.tile(p, (len(q), 1))).astype(float) ** 2, axis=1).reshape(len(q), len(p))
    d = np.sort(np.round(d * 4096), axis=1)
    return bool(np.any((np.diff(d, axis=1) == 0) & (d[:, 1:] < 16 * 4096)))


# ---- pseudo classes: objects built from inputs, judged as the others ---------
class _Holder:
    def compute(self, **kw):
        self.made(**kw)
        self.ok = True
        return self

    def __getattr__(self, n):
        raise AttributeError(n)


class QueryHolder(_Holder):
    cls = AABBQuery

    def made(self, box, points, query_points):
        if "ok" in self.__dict__:
            del self.__dict__["ok"]
        self.q = self.cls(box, points) if self.cls is AABBQuery else self.cls(box, points, 2.0)
        self.qp = np.array(query_points, dtype=np.float32)

    def _q(self, **args):
        if "ok" not in self.__dict__:
            raise AttributeError("not made")
        return self.q.query(self.qp, args).toNeighborList()

    @property
    def ball(self):
        return self._sorted(self._q(r_max=2.0))

    @property
    def ball_excluding(self):
        return self._sorted(self._q(r_max=1.75, r_min=0.25, exclude_ii=True))

    @property
    def nearest(self):
        return self._sorted(self._q(num_neighbors=5, exclude_ii=True))

    @property
    def box(self):
        if "ok" not in self.__dict__:
            raise AttributeError("not made")
        return self.q.box

    @property
    def points(self):
        if "ok" not in self.__dict__:
            raise AttributeError("not made")
        return self.q.points

    @staticmethod
    def _sorted(n):
        n.sort()
        return n


class AABBHolder(QueryHolder):
    cls = AABBQuery


class LinkHolder(QueryHolder):
    cls = LinkCell


class QueryResult(_Holder):
    """The bonds of a query whose inputs may change after toNeighborList / before the lazy call."""

    def made(self, box, points, query_points):
        self.q = AABBQuery(box, points)
        self.r = self.q.query(query_points, dict(num_neighbors=4, exclude_ii=True))
        self.nl = self.q.query(query_points, dict(r_max=2.0, exclude_ii=False)).toNeighborList()

    @property
    def lazy(self):
        if "ok" not in self.__dict__:
            raise AttributeError("not made")
        return self.r.toNeighborList()

    @property
    def kept_list(self):
        if "ok" not in self.__dict__:
            raise AttributeError("not made")
        return self.nl


class FromArrays(_Holder):
    def made(self, num_query_points, num_points, query_point_indices, point_indices, vectors, weights):
        self.nl = NeighborList.from_arrays(num_query_points, num_points, query_point_indices,
                                           point_indices, vectors, weights)

    @property
    def nlist(self):
        if "ok" not in self.__dict__:
            raise AttributeError("not made")
        return self.nl

    @property
    def copied(self):
        if "ok" not in self.__dict__:
            raise AttributeError("not made")
        return self.nl.copy()


class AllPairs(_Holder):
    def made(self, box, points, query_points):
        self.nl = NeighborList.all_pairs((box, points), query_points)

    @property
    def nlist(self):
        if "ok" not in self.__dict__:
            raise AttributeError("not made")
        return self.nl


class BoxOps(_Holder):
    """Box functions as results of an object made from arrays."""

    def made(self, box, points, query_points):
        m = min(len(points), len(query_points))
        far = points if isinstance(points, list) else np.asarray(points)
        self.v = dict(wrap=box.wrap(far), unwrap=box.unwrap(far, [1, -1, 0]), images=box.get_images(far),
                      frac=box.make_fractional(far), dist=box.compute_distances(far[:m], query_points[:m]),
                      alldist=box.compute_all_distances(far, query_points),
                      com=box.center_of_mass(far), mat=box.to_matrix())

    def __getattr__(self, n):
        d = self.__dict__.get("v")
        if d is None or n not in d:
            raise AttributeError(n)
        return d[n]


# ---- the classes -----------------------------------------------------------
def all_adapters(big=0):
    """big: number of points of every system instead of the small defaults"""
    A = []
    add = lambda *a, **k: A.append(Adapter(*a, **k))
    S = lambda kind, name: systems(kind, name, big)

    def with_qp(name, sy):
        """inputs alternating between own points, other query points, query arguments and lists"""
        out = []
        for i, (box, p, r) in enumerate(sy):
            q = pts(r, box, max(5, len(p) * 2 // 3))
            d = dict(box=box, points=p)
            rm = 2.0 if not big else 1.5
            if i == 0:
                d.update(neighbors=dict(r_max=rm))
            elif i == 1:
                d.update(query_points=q, neighbors=dict(num_neighbors=6))
            elif i == 2:
                d.update(neighbors=nl(box, p, p, rm, True))
            else:
                d.update(query_points=q, neighbors=nl(box, p, q, rm, False))
            out.append(d)
        return out

    # cluster
    inp = []
    for i, (box, p, r) in enumerate(S("any", "Cluster")):
        d = dict(box=box, points=p, neighbors=dict(r_max=1.5) if i % 2 == 0 else nl(box, p, p, 1.5, True))
        if i != 1:
            d["keys"] = r.integers(0, 5, len(p)).astype(np.uint32)
        inp.append(d)
    add("Cluster", freud.cluster.Cluster, inp, ["num_clusters", "cluster_idx", "cluster_keys"],
        bad=MULTI + (("keys too short", _cut("keys")),))
    inp = []
    for i, (box, p, r) in enumerate(S("any", "ClusterProperties")):
        k = [4, 3, 5, 6][i]
        idx = np.sort(r.integers(0, k, len(p))).astype(np.uint32)
        idx[:k] = np.arange(k)
        d = dict(box=box, points=p, cluster_idx=idx)
        if i in (0, 3):
            d["masses"] = (1 + r.integers(0, 8, len(p)) / 4).astype(np.float32)
        inp.append(d)
    add("ClusterProperties", freud.cluster.ClusterProperties, inp,
        ["centers", "centers_of_mass", "cluster_masses", "gyrations", "inertia_tensors", "radii_of_gyration", "sizes"],
        bad=(BADPTS, NOSYS, ("cluster_idx too short", _cut("cluster_idx")), ("masses too short", _cut("masses"))))

    # density
    inp = with_qp("CorrelationFunction", S("any", "CorrelationFunction"))
    for i, d in enumerate(inp):
        r = r_("CF", i)
        v = r.integers(-8, 9, len(d["points"])) / 4
        d["values"] = (v + 1j * r.integers(-8, 9, len(v)) / 4 if i in (0, 3) else v + 0j).astype(np.complex128)
        if "query_points" in d:
            d["query_values"] = (r.integers(-8, 9, len(d["query_points"])) / 4).astype(np.complex128)
    hist = ["bin_counts", "box"]
    hbad = MULTI
    add("CorrelationFunction", lambda: freud.density.CorrelationFunction(7, 2.5), inp, hist + ["correlation"],
        settings=dict(nbins=7, bounds=(0, 2.5), bin_edges=np.linspace(0, 2.5, 8), bins=7,
                      bin_centers=(np.arange(7) + .5) * 2.5 / 7, default_query_args=dict(mode="ball", r_max=2.5)),
        bad=hbad + (("values too short", _cut("values")), ("query_values too short", _cut("query_values"))))
    gd = lambda name, kind, w: [dict(box=b, points=p, **(dict(values=(r.integers(1, 9, len(p)) / 4).astype(np.float32))
                                                         if i in (1, 3) else {}))
                                for i, (b, p, r) in enumerate(S(kind, name))]
    add("GaussianDensity", lambda: freud.density.GaussianDensity((6, 5, 7), 2.0, 0.75), gd("GD3", "d3", 3), ["box", "density"],
        settings=dict(r_max=2.0, sigma=0.75, width=(6, 5, 7)), bad=(BADPTS, NOSYS, ("values too short", _cut("values"))))
    add("GaussianDensity2D", lambda: freud.density.GaussianDensity((6, 5), 2.0, 0.75), gd("GD2", "d2", 2), ["box", "density"],
        settings=dict(r_max=2.0, sigma=0.75), bad=(BADPTS, NOSYS, ("values too short", _cut("values"))))
    add("SphereVoxelization", lambda: freud.density.SphereVoxelization((6, 5, 7), 1.25),
        [dict(box=b, points=p) for b, p, _ in S("d3", "SV3")], ["box", "voxels"],
        settings=dict(r_max=1.25, width=(6, 5, 7)), bad=(BADPTS, NOSYS))
    add("SphereVoxelization2D", lambda: freud.density.SphereVoxelization((9, 8), 1.25),
        [dict(box=b, points=p) for b, p, _ in S("d2", "SV2")], ["box", "voxels"],
        settings=dict(r_max=1.25), bad=(BADPTS, NOSYS))
    add("LocalDensity", lambda: freud.density.LocalDensity(1.75, 0.5), with_qp("LD", S("any", "LD")),
        ["box", "density", "num_neighbors"],
        settings=dict(r_max=1.75, diameter=0.5, default_query_args=dict(mode="ball", r_max=2.0)), bad=MULTI)
    for mode in ("exact", "finite_size"):
        add("RDF" + ("" if mode == "exact" else "FiniteSize"),
            lambda mode=mode: freud.density.RDF(6, 2.5, 0.25, mode), with_qp("RDF", S("any", "RDF" + mode)),
            hist + ["rdf", "n_r"],
            settings=dict(nbins=6, bounds=(0.25, 2.5), bin_edges=np.linspace(0.25, 2.5, 7), mode=mode,
                          bin_centers=0.25 + (np.arange(6) + .5) * 2.25 / 6,
                          default_query_args=dict(mode="ball", r_max=2.5)), bad=MULTI)

    # diffraction
    inp = []
    for i, (b, p, r) in enumerate(S("cub", "DP")):
        d = dict(box=b, points=p, zoom=[4, 2, 3, 1][i], peak_width=[1, 1.5, 1, 2][i])
        if i in (1, 3):
            d["view_orientation"] = np.array([[.5, .5, .5, .5], [1, 0, 0, 0], [0.8, 0, 0.6, 0], [.5, -.5, .5, .5]][i])
        if i in (2, 3):
            d["weights"] = (r.integers(1, 9, len(p)) / 4).astype(np.float64)
        inp.append(d)
    add("DiffractionPattern", lambda: freud.diffraction.DiffractionPattern(24, 12), inp,
        ["N_points", "diffraction", "k_values", "k_vectors"], settings=dict(grid_size=24, output_size=12),
        bad=(BADPTS, NOSYS, ("box not cubic", lambda a: dict(a, box=Box(8, 9, 10))),
             ("orientation of wrong shape", _set("view_orientation", np.ones((2, 4))))))
    inp = []
    for i, (b, p, r) in enumerate(S("any", "SSFD")):
        d = dict(box=b, points=p)
        if i in (1, 3):
            d.update(query_points=p[:7].copy(), N_total=len(p))
        inp.append(d)
    add("StaticStructureFactorDebye", lambda: freud.diffraction.StaticStructureFactorDebye(9, 8.0, 0.5), inp,
        ["S_k", "min_valid_k"],
        settings=dict(num_k_values=9, k_max=8.0, k_min=0.5, k_values=np.linspace(0.5, 8, 9), bounds=(0.5, 8.0)),
        bad=(BADPTS, NOSYS, ("query points without total", lambda a: dict(a, query_points=a["points"][:3], N_total=None))))

    # environment
    for mode in ("bod", "lbod", "obcd", "oocd"):
        inp = with_qp("BO", S("d3", "BO" + mode))
        for i, d in enumerate(inp):
            d["orientations"] = quats(r_("BO", i), len(d["points"]))
            if "query_points" in d:
                d["query_orientations"] = quats(r_("BOq", i), len(d["query_points"]))
        add("BondOrder" if mode == "bod" else "BondOrder_" + mode,
            lambda mode=mode: freud.environment.BondOrder((5, 4), mode), inp, hist + ["bond_order"],
            settings=dict(nbins=(5, 4), mode=mode),
            bad=MULTI + (("orientations too short", _cut("orientations")),
                         ("query orientations too short", _cut("query_orientations"))))
    eq = np.array([[1, 0, 0, 0], [0, 0, 0, 1]], dtype=np.float32)
    inp = with_qp("ASN", S("any", "ASN"))
    for i, d in enumerate(inp):
        d["orientations"] = quats(r_("ASN", i), len(d["points"]))
        if "query_points" in d:
            d["query_orientations"] = quats(r_("ASNq", i), len(d["query_points"]))
        if i >= 2:
            d["equiv_orientations"] = eq
    add("AngularSeparationNeighbor", freud.environment.AngularSeparationNeighbor, inp, ["angles", "nlist"],
        bad=MULTI + (("orientations too short", _cut("orientations")), ("equivalent orientations flattened",
                                                                        _flat("equiv_orientations"))))
    inp = []
    for i, n in enumerate([10, 7, 10, 3]):
        r = r_("ASG", i)
        d = dict(global_orientations=quats(r, [3, 5, 3, 1][i]), orientations=quats(r, big or n))
        if i >= 2:
            d["equiv_orientations"] = eq
        inp.append(d)
    add("AngularSeparationGlobal", freud.environment.AngularSeparationGlobal, inp, ["angles"],
        bad=(("orientations flattened", _flat("orientations")), ("global orientations flattened",
                                                                 _flat("global_orientations"))))
    inp = with_qp("LBP", S("any", "LBP"))
    for i, d in enumerate(inp):
        d["orientations"] = quats(r_("LBP", i), len(d["points"]))
        d["proj_vecs"] = np.array([[1, 0, 0], [1, 2, 0], [0, -1, .5]], dtype=np.float32)[:[3, 1, 3, 2][i]]
        if i >= 2:
            d["equiv_orientations"] = eq
    add("LocalBondProjection", freud.environment.LocalBondProjection, inp, ["nlist", "projections", "normed_projections"],
        bad=MULTI + (("orientations too short", _cut("orientations")), ("projection vectors flattened", _flat("proj_vecs"))))

    # interface
    inp = []
    for i, (b, p, r) in enumerate(S("any", "IF")):
        q = pts(r, b, 12)
        inp.append(dict(box=b, points=p, query_points=q,
                        neighbors=dict(r_max=1.25) if i % 2 == 0 else nl(b, p, q, 1.0, False)))
    add("Interface", freud.interface.Interface, inp, ["point_count", "point_ids", "query_point_count", "query_point_ids"],
        bad=(BADPTS, FAR, BOGUS))

    # locality
    inp = []
    for i, (b, p, r) in enumerate(S("any", "PB")):
        inp.append(dict(box=b, points=p, buffer=[2.0, 1.0, 2.5, 1][i], images=i == 3, include_input_points=i in (1, 3)))
    inp[2]["buffer"] = np.array([1.0, 2.0, 0.5], dtype=np.float64)
    add("PeriodicBuffer", freud.locality.PeriodicBuffer, inp, ["buffer_box", "buffer_ids", "buffer_points"],
        bad=(BADPTS, NOSYS, ("negative buffer", _set("buffer", -1.0)), ("buffer of four numbers", _set("buffer", [1, 2, 3, 4]))))
    for cl, opts in ((freud.locality.FilterSANN, dict(allow_incomplete_shell=True)),
                     (freud.locality.FilterRAD, dict(allow_incomplete_shell=True)),
                     (freud.locality.FilterRAD, dict(allow_incomplete_shell=True, terminate_after_blocked=False))):
        inp = []
        for i, (b, p, r) in enumerate(S("any", cl.__name__ + str(len(opts)))):
            q = pts(r, b, 12)
            d = dict(box=b, points=p)
            rm = 2.0 if big else 3.0
            if i in (1, 3):
                d["query_points"] = q
            qq = q if i in (1, 3) else p
            d["neighbors"] = dict(r_max=rm) if i < 2 else nl(b, p, qq, rm, i == 2)
            if cl is freud.locality.FilterRAD and i == 0:
                d["points_radii"] = (1 + r.integers(0, 4, len(p)) / 4).astype(np.float32)
                d["query_points_radii"] = d["points_radii"].copy()
            inp.append(d)
        add(cl.__name__ + ("Open" if len(opts) > 1 else ""), lambda cl=cl, o=opts: cl(**o), inp,
            ["filtered_nlist", "unfiltered_nlist"], bad=MULTI)

    # msd
    for mode in ("window", "direct"):
        inp = []
        for i, (f, n) in enumerate([(6, 4), (9, 3), (6, 4), (4, 7)]):
            r = r_("MSD", i)
            d = dict(positions=(r.integers(-128, 128, (f, big // 8 or n, 3)) / 32).astype(np.float32))
            if i in (1, 2):
                d["images"] = r.integers(-1, 2, d["positions"].shape).astype(np.int32)
            inp.append(d)
        add("MSD_" + mode, lambda mode=mode: freud.msd.MSD(Box(8, 9, 10), mode), inp, ["msd", "particle_msd"],
            settings=dict(box=Box(8, 9, 10)),
            bad=(("positions flattened", _flat("positions")), ("images too short", _cut("images")),
                 ("positions of two dimensions", lambda a: dict(a, positions=a["positions"][0]))))

    # order
    reps = 96 if big else 2            # enough replicates to be divided among threads
    inp = [dict(orientations=quats(r_("Cub", i), min(big, 120) or n)) for i, n in enumerate([8, 5, 8, 12])]
    add("Cubatic", lambda: freud.order.Cubatic(2.0, 0.01, 0.75, reps, seed=7), inp,
        ["cubatic_tensor", "global_tensor", "order", "orientation", "particle_order"],
        settings=dict(t_initial=2.0, t_final=0.01, scale=0.75, n_replicates=reps, seed=7),
        bad=(("orientations flattened", _flat("orientations")),))
    inp = []
    for i, (b, p, r) in enumerate(S("d2", "Hex")):
        inp.append(dict(box=b, points=p, neighbors=dict(num_neighbors=6) if i % 2 == 0 else nl(b, p, p, 2.5, True)))
    for w in (False, True):
        add("Hexatic" + ("Weighted" if w else ""), lambda w=w: freud.order.Hexatic(4, w), inp, ["particle_order"],
            settings=dict(k=4, weighted=w, default_query_args=dict(mode="nearest", num_neighbors=4)),
            bad=MULTI + (("box of three dimensions", lambda a: dict(a, box=Box(8, 8, 8))),))
    inp = [dict(ref_orientations=quats(r_("RAr", i), big or n), orientations=quats(r_("RA", i), big or n))
           for i, n in enumerate([8, 5, 8, 12])]
    add("RotationalAutocorrelation", lambda: freud.order.RotationalAutocorrelation(4), inp, ["order", "particle_order"],
        settings=dict(l=4), bad=(("orientations too short", _cut("orientations")),
                                 ("orientations flattened", _flat("orientations"))))

    # pmft
    def pm(name, kind, o, qo, ang):
        inp = with_qp(name, S(kind, name))
        for i, d in enumerate(inp):
            n = len(d["points"])
            mk = angles if ang else quats
            if o:
                d["orientations"] = mk(r_(name, i), n)
                if "query_points" in d:
                    d["query_orientations"] = mk(r_(name, "q", i), len(d["query_points"]))
            else:
                d["query_orientations"] = mk(r_(name, "q", i), len(d.get("query_points", d["points"])))
        return inp
    pbad = MULTI + (("orientations too short", _cut("orientations")), ("query orientations too short", _cut("query_orientations")),
                    )
    d3 = (("box of three dimensions", lambda a: dict(a, box=Box(8, 8, 8))),)
    T = 2 * np.pi
    add("PMFTR12", lambda: freud.pmft.PMFTR12(2.5, (3, 4, 5)), pm("R12", "d2", 1, 1, 1), hist + ["pmft"],
        settings=dict(nbins=(3, 4, 5), bounds=[(0, 2.5), (0, T), (0, T)], default_query_args=dict(mode="ball", r_max=2.5)),
        bad=pbad + d3)
    add("PMFTXY", lambda: freud.pmft.PMFTXY(1.5, 2.0, (4, 6)), pm("XY", "d2", 0, 1, 1), hist + ["pmft"],
        settings=dict(nbins=(4, 6), bounds=[(-1.5, 1.5), (-2, 2)], default_query_args=dict(mode="ball", r_max=2.5)),
        bad=pbad + d3)
    add("PMFTXYT", lambda: freud.pmft.PMFTXYT(1.5, 2.0, (4, 6, 3)), pm("XYT", "d2", 1, 1, 1), hist + ["pmft"],
        settings=dict(nbins=(4, 6, 3), bounds=[(-1.5, 1.5), (-2, 2), (0, T)], default_query_args=dict(mode="ball", r_max=2.5)),
        bad=pbad + d3)
    inp = pm("XYZ", "d3", 0, 1, 0)
    for i in (2, 3):
        inp[i]["equiv_orientations"] = eq
    add("PMFTXYZ", lambda: freud.pmft.PMFTXYZ(1.5, 2.0, 1.0, (4, 3, 2)), inp, hist + ["pmft"],
        settings=dict(nbins=(4, 3, 2), bounds=[(-1.5, 1.5), (-2, 2), (-1, 1)],
                      default_query_args=dict(mode="ball", r_max=float(np.sqrt(1.5 ** 2 + 2 ** 2 + 1)))),
        bad=pbad + (("box of two dimensions", lambda a: dict(a, box=Box.square(8),
                                                             points=a["points"] * np.float32([1, 1, 0]))),))

    # pseudo classes
    def qh(name):
        out = []
        for i, (b, p, r) in enumerate(S("any", name)):
            out.append(dict(box=b, points=p, query_points=pts(r, b, 9)))
        return out
    qb = (BADPTS, NOSYS)
    res = ["ball", "ball_excluding", "box", "points"]
    add("AABBQuery", AABBHolder, qh("AQ"), res + ["nearest"], bad=qb, pseudo=True)
    add("LinkCell", LinkHolder, qh("LC"), res + ["nearest"], bad=qb, pseudo=True)
    add("QueryResult", QueryResult, qh("QR"), ["lazy", "kept_list"], bad=qb, pseudo=True)
    if not big:
        add("AllPairs", AllPairs, qh("AP"), ["nlist"], bad=qb, pseudo=True)
    add("BoxOps", BoxOps, qh("BX"), ["wrap", "unwrap", "images", "frac", "dist", "alldist", "com", "mat"],
        bad=(BADPTS,), pseudo=True)
    inp = []
    for i, d in enumerate(qh("FA")):
        n = nl(d["box"], d["points"], d["query_points"], 2.0, False)
        inp.append(dict(num_query_points=n.num_query_points, num_points=n.num_points,
                        query_point_indices=np.array(n.query_point_indices), point_indices=np.array(n.point_indices),
                        vectors=np.array(n.vectors), weights=(1 + np.arange(len(n)) % 3).astype(np.float32)))
    add("FromArrays", FromArrays, inp, ["nlist", "copied"],
        bad=(("indices too short", _cut("point_indices")), ("weights too short", _cut("weights")),
             ("index out of range", lambda a: dict(a, num_points=1))), pseudo=True)
    return A
