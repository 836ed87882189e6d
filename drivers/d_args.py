"""Calls with arguments that do or do not fit each other (A01), constructions with settings inside and
outside their domain (A02).  Only what was passed and whether it raised is recorded."""
import resource
import numpy as np
import freud
from dlib import PROP, Q, Trace, main, rng
import dclasses as D
from dclasses import NeighborList



def grow(k, v, r):
    row = np.array(v[r.integers(len(v))][None], copy=True)
    if k in ("points", "query_points", "positions"):
        row = (row + np.array([.171875, .109375, 0])).astype(v.dtype)
    return np.concatenate([v, row])


def change(k, v, how, r):
    if how == "same":
        return v
    if how == "short":
        return v[:-1]
    if how == "shorter":
        return v[:max(1, len(v) // 2)]
    if how == "long":
        return grow(k, v, r)
    if how == "longer":
        return np.concatenate([v, v + np.array(1 / 8).astype(v.dtype) if v.dtype.kind == "f" and k.endswith("points") and v[:, 2].any() else v])
    if how == "flat":
        return v.ravel()
    if how == "column":
        return v[:, None]
    if how == "narrow":
        return v[..., :-1]
    if how == "wide":
        return np.concatenate([v, v[..., :1]], -1)
    if how == "first":
        return v[0]
    if how == "turned":
        return v.T
    if how == "deep":
        return v[None]
    if how == "empty":
        return v[:0]
    if how == "text":
        return np.full(v.shape, "a")
    raise ValueError(how)


HOWS = ["short", "shorter", "long", "longer", "flat", "narrow", "wide", "first", "turned", "deep", "text", "column", "empty"]


def relist(n, dq, dp):
    q, p, vec, w = [np.array(x) for x in (n.query_point_indices, n.point_indices, n.vectors, n.weights)]
    N, M = n.num_query_points + dq, n.num_points + dp
    k = (q < N) & (p < M)
    return NeighborList.from_arrays(N, M, q[k], p[k], vec[k], w[k])


def shape_of(v):
    a = np.asarray(v)
    return dict(s=[int(x) for x in a.shape], t="text" if a.dtype.kind in "US" else "num")


def arrays_of(a):
    return [k for k in a if k in D.ARRAYS and k != "buffer" and isinstance(a[k], np.ndarray)]


def call(ad, a):
    o = ad.make()
    try:
        ad.call(o, a)
        for n in ad.results[:1] if ad.pseudo else ():
            getattr(o, n)
        return ""
    except Exception as e:              # noqa: BLE001
        return type(e).__name__


def record(ad, a):
    nl = a.get("neighbors")
    return dict(what="call", cls=ad.name.split("_")[0],
                arg=[dict(n=k, **shape_of(a[k])) for k in a if k in D.ARRAYS and k != "buffer" and a[k] is not None and not isinstance(a[k], bool)],
                nl=[nl.num_query_points, nl.num_points] if isinstance(nl, NeighborList) else [])


def together(ad, a, r):
    """The same change of every array that has one row per point (or per query point)."""
    n = len(a["points"]) if "points" in a else None
    m = len(a["query_points"]) if "query_points" in a else n
    hows = ["short", "shorter", "long"]
    how = {"points": str(r.choice(hows)), "query_points": str(r.choice(hows))}
    b = dict(a)
    nn = mm = None
    for k in arrays_of(a):
        if k == "points" or (not k.startswith("query_") and k not in ("equiv_orientations", "global_orientations",
                             "proj_vecs", "view_orientation") and n is not None and len(a[k]) == n):
            b[k] = change(k, a[k], how["points"], r)
        elif k == "query_points" or (k.startswith("query_") and m is not None and len(a[k]) == m):
            b[k] = change(k, a[k], how["query_points" if "query_points" in a else "points"], r)
    if isinstance(a.get("neighbors"), NeighborList):
        nn = len(b["points"]) - n
        mm = len(b.get("query_points", b["points"])) - m
        b["neighbors"] = relist(a["neighbors"], mm, nn)
    return b


def calls(t):
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    ads = [a for a in D.all_adapters() if a.name not in ("BoxOps", "QueryResult", "AllPairs")]
    for ad in ads:
        for i in range(4):
            ev = []

            def do(a, label):
                e = record(ad, a)
                t.doing(dict(cls=ad.name, input=i, change=label))
                e["exc"] = call(ad, a)
                e["label"] = label
                ev.append(e)

            do(ad.fresh_inputs(i), "none")
            names = arrays_of(ad.inputs[i])
            r = rng("args", ad.name, i)
            for k in names:
                for how in HOWS:
                    a = ad.fresh_inputs(i)
                    v = a[k]
                    if (how == "column") != (v.ndim == 1) and how in ("column", "narrow", "wide", "turned"):
                        continue
                    if how == "longer" and k in ("points", "query_points", "positions"):
                        continue
                    a[k] = change(k, v, how, r)
                    do(a, f"{k} {how}")
            if isinstance(ad.inputs[i].get("neighbors"), NeighborList):
                for dq, dp in ((1, 0), (0, 1), (-1, 0), (0, -1), (1, -1), (-1, 1), (7, 0), (0, 7)):
                    a = ad.fresh_inputs(i)
                    a["neighbors"] = relist(a["neighbors"], dq, dp)
                    do(a, f"list {dq} {dp}")
            for rep in range(Q(3, 30)):
                a = together(ad, ad.fresh_inputs(i), r)
                do(dict(a), "together")
                k = names[r.integers(len(names))]
                v = a[k]
                how = str(r.choice(["short", "long"]))
                a[k] = change(k, v, how, r)
                do(a, f"together, {k} {how}")
            t.episode(f"{ad.name}/{i}", ev)


# ---- settings -----------------------------------------------------------------
PM = dict(PMFTR12=(1, 3), PMFTXY=(2, 2), PMFTXYT=(2, 3), PMFTXYZ=(3, 3))      # extents, numbers of bins
BINS = [[3], [1], [0], [-1], [3, 3], [3, 3, 3], [3, 3, 3, 3]]


def seqs(n, good, bad):
    """sequences of n values with one of them bad"""
    return [[v if j == i else good for j in range(n)] for v in bad for i in range(n)]


# per class: settings well inside the domain, other values of each (quarters where they are not counts)
NUMS = [-8, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 12]
TABLE = {
    "RDF": (dict(bins=3, r_max=8, r_min=2, mode="exact"), dict(bins=[-1, 0, 1], r_max=NUMS, r_min=NUMS, mode=["finite_size", "other", "Exact", ""])),
    "CorrelationFunction": (dict(bins=3, r_max=8), dict(bins=[-1, 0, 1], r_max=NUMS)),
    "LocalDensity": (dict(r_max=8, diameter=4), dict(r_max=NUMS, diameter=NUMS)),
    "GaussianDensity": (dict(width=[3], r_max=8, sigma=4),
                        dict(width=BINS + seqs(2, 3, [1, -1, 0]) + seqs(3, 3, [1, -1, 0]), r_max=NUMS, sigma=[1, 2, 12])),
    "SphereVoxelization": (dict(width=[3], r_max=8), dict(width=BINS + seqs(2, 3, [1, -1, 0]) + seqs(3, 3, [1, -1, 0]), r_max=NUMS)),
    "BondOrder": (dict(bins=[4], mode="bod"), dict(bins=[[2], [1], [0], [-1]] + seqs(2, 3, [2, 1, 0, -1]) + [[3, 3, 3]],
                                                    mode=["lbod", "obcd", "oocd", "BOD", "x", ""])),
    "Cubatic": (dict(t_initial=12, t_final=1, scale=2, n=1), dict(t_initial=[-1, 0, 1, 2, 3], t_final=[-2, -1, 0, 2, 11, 12, 13], scale=[-1, 0, 1, 3, 4, 5], n=[0, 1, 3])),
    "RotationalAutocorrelation": (dict(l=2), dict(l=list(range(-5, 9)))),
    "Hexatic": (dict(k=6), dict(k=list(range(-3, 13)))),
    "MSD": (dict(mode="window"), dict(mode=["direct", "Window", "other", ""])),
    "StaticStructureFactorDebye": (dict(n=3, k_max=8, k_min=2), dict(n=[-1, 0, 1, 2], k_max=NUMS, k_min=NUMS)),
    "AABBQuery.query": None, "LinkCell.query": None}
for c, (n, k) in PM.items():
    TABLE[c] = (dict(bins=[3] * k, max=[4] * n),
                dict(bins=[[3], [1], [0], [-1], [3, 3], [3, 3, 3], [3, 3, 3, 3]] + seqs(k, 3, [1, 0, -1]), max=seqs(n, 4, [-1, -4, 1, 8])))
QBALL = dict(mode="", r_max=[4], n=[], r_min=[], scale=[], key="")
QNEAR = dict(mode="", r_max=[], n=[3], r_min=[], scale=[], key="")
QALT = dict(mode=["ball", "nearest", "none", "Ball"], r_max=[[]] + [[v] for v in NUMS if v < 11], n=[[], [-1], [0], [1], [2], [40]],
            r_min=[[v] for v in (-1, 0, 1, 3, 4, 5)], scale=[[v] for v in (2, 3, 4, 5, 8)], key=["rmax", "num_neighbours", "k"])


def cases():
    for cls, t in TABLE.items():
        for good, alt in [t] if t else [(QBALL, QALT), (QNEAR, QALT), (dict(QNEAR, r_max=[6]), QALT), (dict(QBALL, r_min=[2]), QALT)]:
            yield cls, dict(good)
            for k in alt:
                for v in alt[k]:
                    yield cls, dict(good, **{k: v})
    for two in (False, True):
        for i in range(2 if two else 3):                # which plane spacing is the smallest
            for w in range(-4, 21):
                L = [7, 7, 7]
                L[i] = 4
                yield "LinkCell", dict(w=w, plane=16, L=L, two=two)
        for i in range(4):
            for v in (0, 2, 5, -5, 1000, -1000):
                yield "Plane", dict(z=[v if j == i else 0 for j in range(4)], two=two)


def settings(t):
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    d, p, e, o, f, l, m = (freud.density, freud.pmft, freud.environment, freud.order, freud.diffraction,
                           freud.locality, freud.msd)
    r = rng("settings")
    BOX, PTS = freud.box.Box(6, 6, 6), (r.random((20, 3)) * 6 - 3).astype(np.float32)
    P3, P2 = np.zeros((3, 3)), np.zeros((2, 3))

    def bins(v):
        return v[0] if len(v) == 1 and r.random() < .7 else tuple(v) if len(v) != 1 else v[0]

    def query(c, x):
        kw = {b: x[b][0] / 4 for b in ("r_max", "r_min", "scale") if x[b]}
        if x["n"]:
            kw["num_neighbors"] = x["n"][0]
        if x["mode"]:
            kw["mode"] = x["mode"]
        if x["key"]:
            kw[x["key"]] = 1
        nq = getattr(l, c)(*((BOX, PTS, 1.0) if c == "LinkCell" else (BOX, PTS)))
        return list(nq.query(PTS[:4], kw)) if r.random() < .5 else nq.query(PTS[:4], kw).toNeighborList()

    def plane(x):
        pts = np.array([[a * .3, a * a * .1, b / 1000] for a, b in enumerate(x["z"])], np.float32)
        b = freud.box.Box(4, 5, 0 if x["two"] else 3)
        return [lambda: l.AABBQuery(b, pts), lambda: l.LinkCell(b, pts, 1.0), lambda: l.CellQuery(b, pts),
                lambda: freud.cluster.Cluster().compute((b, pts), neighbors=dict(r_max=.5))][int(r.integers(4))]()

    MAKE = {
        "RDF": lambda x: d.RDF(x["bins"], x["r_max"] / 4, x["r_min"] / 4, x["mode"]),
        "CorrelationFunction": lambda x: d.CorrelationFunction(x["bins"], x["r_max"] / 4),
        "LocalDensity": lambda x: d.LocalDensity(x["r_max"] / 4, x["diameter"] / 4),
        "GaussianDensity": lambda x: d.GaussianDensity(bins(x["width"]), x["r_max"] / 4, x["sigma"] / 4),
        "SphereVoxelization": lambda x: d.SphereVoxelization(bins(x["width"]), x["r_max"] / 4),
        "BondOrder": lambda x: e.BondOrder(bins(x["bins"]), x["mode"]),
        "Cubatic": lambda x: o.Cubatic(x["t_initial"] / 4, x["t_final"] / 4, x["scale"] / 4, x["n"]),
        "RotationalAutocorrelation": lambda x: o.RotationalAutocorrelation(x["l"]),
        "Hexatic": lambda x: o.Hexatic(x["k"], bool(r.integers(2))),
        "MSD": lambda x: m.MSD(None, x["mode"]),
        "StaticStructureFactorDebye": lambda x: f.StaticStructureFactorDebye(x["n"], x["k_max"] / 4, x["k_min"] / 4),
        "AABBQuery.query": lambda x: query("AABBQuery", x), "LinkCell.query": lambda x: query("LinkCell", x),
        "LinkCell": lambda x: l.LinkCell(freud.box.Box(*x["L"][:2], 0 if x["two"] else x["L"][2]), P2 if x["two"] else P3, x["w"] / 4),
        "Plane": plane}
    for c in PM:
        MAKE[c] = lambda x, c=c: getattr(p, c)(*([v / 4 for v in x["max"]] + [bins(x["bins"])]))

    def gen():
        """several settings changed at once"""
        cls = str(r.choice(sorted(c for c in TABLE) + ["LinkCell"]))
        if cls == "LinkCell":
            L = [int(v) for v in r.integers(4, 11, 3)]
            two = bool(r.integers(2))
            return cls, dict(w=int(r.integers(-8, 25)), plane=min(L[:2] if two else L) * 4, L=L, two=two)
        good, alt = TABLE[cls] or (QBALL if r.random() < .5 else QNEAR, QALT)
        x = dict(good)
        for k in alt:
            if r.random() < .5:
                x[k] = alt[k][int(r.integers(len(alt[k])))]
        return cls, x

    todo = list(cases())
    todo += [gen() for _ in range(Q(600, 12000))]
    for i in range(0, len(todo), 12):
        ev = []
        for cls, x in todo[i:i + 12]:
            t.doing(dict(cls=cls, settings=x))
            try:
                MAKE[cls](x)
                exc = ""
            except Exception as ex:         # noqa: BLE001
                exc = type(ex).__name__
            ev.append(dict(what="new", cls=cls, o=x, exc=exc))
        t.episode("settings", ev)


def run(t):
    (calls if PROP == "A01" else settings)(t)


main(run)
