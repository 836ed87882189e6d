"""Repeated (W02) and divided (W03) systems: histories generated from FParts are applied to the inputs of
every class; the driver only finds out which relations hold between the results."""
import itertools
import json
import numpy as np
import freud
from freud.box import Box
from freud.locality import AABBQuery, NeighborList
from dlib import ARGS, PROP, Q, main, rng
import dclasses as D

UNROWED = ("equiv_orientations", "global_orientations", "proj_vecs", "view_orientation", "buffer")
SKIP = ("Cubatic", "BoxOps", "QueryResult", "AllPairs", "FromArrays", "DiffractionPattern", "PeriodicBuffer", "ClusterProperties")
CAP = 4000
WIDTHS = dict(GaussianDensity=[6, 5, 7], GaussianDensity2D=[6, 5], SphereVoxelization=[6, 5, 7], SphereVoxelization2D=[9, 8])


def eq(x, y, rtol=5e-4):
    if isinstance(x, (float, np.floating)):
        return bool(np.isclose(x, y, rtol=rtol, atol=1e-5, equal_nan=True))
    return D.same(x, y, rtol=rtol)


def compute(o, ad, a, keep=None):
    ad.call(o, {k: D.clone(v) for k, v in a.items()})
    return {n: D.canon(v) for n, (v, exc) in ad.read(o).items() if not exc and (keep is None or n in keep)}


def isl(v):
    return isinstance(v, list) and bool(v) and isinstance(v[0], str) and v[0] == "nlist"


def half(box):
    return .5 * float(np.min(1 / np.linalg.norm(np.linalg.inv(box.to_matrix() if not box.is2D else box.to_matrix() + np.diag([0, 0, 1e9])), axis=1)))


def usable(ad, i):
    """no ties, and nothing farther than half the plane spacing"""
    a = ad.inputs[i]
    if D.ties(a):
        return False
    if ad.name.startswith(("GaussianDensity", "SphereVoxelization")):
        b, o = a["box"], ad.make()
        w = WIDTHS[ad.name]
        g = np.stack(np.meshgrid(*[(np.arange(k) + .5) / k for k in w + [1][:3 - len(w)]], indexing="ij"), -1).reshape(-1, 3)
        g = b.make_absolute(g)
        if b.is2D:
            g[:, 2] = 0
        d = b.compute_all_distances(g, a["points"])
        return not (b.xy or b.xz or b.yz or np.abs(d - o.r_max).min() < 1e-4)
    if "box" not in a:
        return True
    nb = a.get("neighbors")
    if isinstance(nb, dict) and "num_neighbors" in nb:
        nb = AABBQuery(a["box"], a["points"]).query(a.get("query_points", a["points"]), dict(nb, exclude_ii="query_points" not in a)).toNeighborList()
    if isinstance(nb, NeighborList) and len(nb) and nb.distances.max() >= half(a["box"]) * .999:
        return False
    return not (isinstance(nb, dict) and nb.get("r_max", 0) >= half(a["box"]) * .999)


def rows_of(a, own, n, m):
    """names of the arrays with one row per point and per query point"""
    p, q = [], []
    for k, v in a.items():
        if k in UNROWED or k not in D.ARRAYS or not isinstance(v, np.ndarray) or k in ("positions", "images"):
            continue
        (q if k.startswith("query_") and not own else p).append(k)
    return p, q


# ---- repetition -------------------------------------------------------------------
class Repeated:
    def __init__(self, ad, i):
        self.ad, self.a0 = ad, ad.fresh_inputs(i)
        a = self.a0
        self.own = "query_points" not in a
        self.n = len(a["points"]) if "points" in a else a["positions"].shape[1] if "positions" in a else len(a["orientations"])
        self.m = self.n if self.own else len(a["query_points"])
        self.k = np.ones(3, int)
        self.seed = None

    def step(self, c):
        two = "points" in self.a0 and self.a0["box"].is2D
        ax = (c["axis"] - 1) % (2 if two else 3)
        if (self.n + self.m) * self.k.prod() * c["m"] > CAP or self.k[ax] * c["m"] > 12:
            return False
        self.k[ax] *= c["m"]
        self.seed = c["k"] if c["perm"] else None
        return True

    def build(self):
        """the arguments for the repeated system and the single entry each entry is a copy of"""
        a0, k = self.a0, self.k
        K = int(k.prod())
        cells = np.array(list(itertools.product(*[range(x) for x in k])))
        a = dict(a0)
        r = np.random.default_rng(self.seed)
        op = r.permutation(self.n * K) if self.seed is not None else np.arange(self.n * K)
        oq = op if self.own else r.permutation(self.m * K) if self.seed is not None else np.arange(self.m * K)
        p, q = np.tile(np.arange(self.n), K)[op], np.tile(np.arange(self.m), K)[oq]
        cp, cq = np.repeat(cells, self.n, 0)[op], np.repeat(cells, self.m, 0)[oq]
        rp, rq = rows_of(a0, self.own, self.n, self.m)
        for n in rp:
            if n != "points":
                a[n] = a0[n][p]
        for n in rq:
            if n != "query_points":
                a[n] = a0[n][q]
        for n in ("positions", "images"):
            if n in a0:
                a[n] = a0[n][:, p]
        if "points" in a0:
            b = a0["box"]
            M = np.array(b.to_matrix(), float)
            a["box"] = Box(b.Lx * k[0], b.Ly * k[1], 0 if b.is2D else b.Lz * k[2], b.xy, b.xz, b.yz, is2D=b.is2D)
            off = M @ ((k - 1) / 2)
            a["points"] = (a0["points"][p].astype(float) + cp @ M.T - off).astype(np.float32)
            if not self.own:
                a["query_points"] = (a0["query_points"][q].astype(float) + cq @ M.T - off).astype(np.float32)
        nb = a0.get("neighbors")
        if isinstance(nb, NeighborList):
            qi, pi, v, w = [np.array(x) for x in (nb.query_point_indices, nb.point_indices, nb.vectors, nb.weights)]
            qp = a0.get("query_points", a0["points"])
            e = v + qp[qi] - a0["points"][pi]           # lattice vector from the point listed to the one meant
            Mi = M.copy()
            if b.is2D:
                Mi[2, 2] = 1
            s = np.rint(np.linalg.solve(Mi, e.T).T).astype(int)
            where = lambda o, n: np.argsort(o)          # place of copy (cell, entry)
            ip, iq = where(op, self.n), where(oq, self.m)
            idx = lambda c: np.ravel_multi_index(tuple((c % k).T), tuple(k))
            Q_, P_ = [], []
            for c, cell in enumerate(cells):
                Q_.append(iq[c * self.m + qi])
                P_.append(ip[idx(cell + s) * self.n + pi])
            Q_, P_ = np.concatenate(Q_), np.concatenate(P_)
            o = np.lexsort((P_, Q_))
            a["neighbors"] = NeighborList.from_arrays(self.m * K, self.n * K, Q_[o], P_[o], np.tile(v, (K, 1))[o], np.tile(w, K)[o])
        return a, p, q

    def make(self):
        ad, k = self.ad, self.k
        if ad.name.startswith(("GaussianDensity", "SphereVoxelization")):
            o = ad.make()
            w = tuple(int(x * y) for x, y in zip(WIDTHS[ad.name], k))
            return type(o)(w, o.r_max, o.sigma) if "Gauss" in ad.name else type(o)(w, o.r_max)
        return ad.make()


def blist(nl, p, q, a):
    """the bonds of a list by query point and single point, or None if a vector does not join its ends"""
    qi, pi, d, v, w = nl[3], nl[4], nl[5], nl[6], nl[7]
    qp = a.get("query_points", a["points"])
    gap = a["points"][pi].astype(float) - qp[qi] - v
    if len(gap) and np.abs(a["box"].wrap(gap)).max() > 1e-3:
        return None
    o = np.lexsort((p[pi], qi))
    return qi[o], p[pi][o], d[o], v[o], w[o], o


def expected(bl, q):
    """the bonds every copy should have: rows of the single list, query point by query point"""
    first = np.searchsorted(bl[0], np.arange(q.max() + 2))
    return np.concatenate([np.arange(first[x], first[x + 1]) for x in q]).astype(int), np.repeat(np.arange(len(q)), np.diff(first)[q])


def holding(table):
    """the names of the relations that hold; one that does not apply to these values does not hold"""
    out = []
    for name, f in table.items():
        try:
            if f():
                out.append(name)
        except (IndexError, ValueError, TypeError, KeyError):
            pass
    return out


def found(n, x, y, rel):
    return dict(n=n, rel=rel) if rel else dict(n=n, rel=rel, x=repr(x)[:600], y=repr(y)[:1200])


def arr(*v):
    return all(isinstance(x, np.ndarray) for x in v)


def copies_of(x, y, p):
    """every cluster of y consists of the copies of one whole cluster of x"""
    whole = [set(np.flatnonzero(x == c)) for c in range(int(x.max()) + 1)]
    return set(range(int(y.max()) + 1)) == set(y.tolist()) and all(set(p[y == c]) in whole for c in range(int(y.max()) + 1))


def rep_rel(x, y, p, q, k, a0, a, nls):
    K = int(k.prod())
    ids = lambda p: arr(y) and y.ndim == 1 and y.dtype.kind in "iu" and sorted(y.tolist()) == np.flatnonzero(np.isin(p, x)).tolist()

    def bonds():
        A, B = blist(nls[0], np.arange(len(a0["points"])), None, a0), blist(nls[1], p, q, a)
        if A is None or B is None:
            return False
        e, qq = expected(A, q)
        if not (len(e) == len(B[0]) and np.array_equal(qq, B[0]) and np.array_equal(A[1][e], B[1]) and all(eq(A[j][e], B[j]) for j in (2, 3, 4))):
            return False
        return y[1] == len(q) and y[2] == len(p) if isl(y) else eq(x[A[5]][e], y[B[5]])
    return holding(dict(
        same=lambda: eq(x, y),
        times=lambda: np.shape(x) == np.shape(y) and (eq(y, x * x.dtype.type(K)) if arr(x) and x.dtype.kind == "f" else np.array_equal(y, np.asarray(x) * K)),
        rowsP=lambda: arr(x, y) and len(y) == len(p) and eq(y, x[p]),
        rowsQ=lambda: arr(x, y) and len(y) == len(q) and eq(y, x[q]),
        colsP=lambda: arr(x, y) and y.shape[1] == len(p) and eq(y, x[:, p]),
        tile=lambda: arr(x, y) and y.ndim in (2, 3) and eq(y, np.tile(x, k[:y.ndim])),
        idsP=lambda: ids(p), idsQ=lambda: ids(q),
        covers=lambda: arr(x, y) and len(y) == len(p) and copies_of(x, y, p),
        **{"bonds" if isl(y) else "bondrows": lambda: bool(nls) and bonds()}))


def lists(res, n):
    v = res[n]
    if isl(v):
        return v
    return res.get("nlist")


def repetitions(t):
    beh = json.load(open(ARGS["histories"]))
    chosen = choose([0])
    pool = sorted(chosen)
    for j, h in enumerate(beh):
        key = pool[j % len(pool)]
        ad, i = chosen[key], key[2]
        s = Repeated(ad, i)
        t.doing(dict(cls=ad.name, input=i, history=[]))
        base = compute(ad.make(), ad, s.a0)
        ev, done = [], []
        for c in h:
            done.append(c)
            t.doing(dict(cls=ad.name, input=i, history=done))
            did = s.step(c)
            if not did:
                continue
            e = dict(c=c, s="", exc="", r=[], k=s.k.tolist())
            ev.append(e)
            a, p, q = s.build()
            try:
                new = compute(s.make(), ad, a)
            except Exception as x:          # noqa: BLE001
                e["exc"] = type(x).__name__
                e["msg"] = str(x)[:100]
                continue
            for n in sorted(base):
                if n in new:
                    x, y = lists(base, n), lists(new, n)
                    e["r"].append(found(n, base[n], new[n], rep_rel(base[n], new[n], p, q, s.k, s.a0, a, (x, y) if x is not None and y is not None else None)))
        t.episode("/".join(map(str, key)), ev, cls=ad.name)


def directed(ad, i):
    """BondOrder: every bond has a direction (no two points at the same place)"""
    a = ad.inputs[i]
    if not ad.name.startswith("BondOrder"):
        return True
    at = lambda x: [tuple(y) for y in np.rint(a["box"].wrap(x) * 4096).astype(int).tolist()]
    p = at(a["points"])
    return len(set(p)) == len(p) and not ("query_points" in a and set(p) & set(at(a["query_points"])))


def choose(bigs):
    r0, salt = D.r_, [0]
    D.r_ = lambda *k: r0("parts", salt[0], *k)
    chosen = {}
    for big in bigs:
        for s in range(12 if not big else 3):
            salt[0] = rng("salt", big, s).integers(1 << 30)
            for ad in D.all_adapters(big):
                if ad.name not in SKIP:
                    for i in range(4):
                        if (ad.name, big, i) not in chosen and directed(ad, i) and (big or usable(ad, i)):
                            chosen[ad.name, big, i] = ad
    D.r_ = r0
    return chosen


# ---- division -----------------------------------------------------------------------
NEEDS = {"LocalDensity", "RDF", "RDFFiniteSize", "CorrelationFunction", "BondOrder", "BondOrder_lbod", "BondOrder_obcd", "BondOrder_oocd",
         "PMFTR12", "PMFTXY", "PMFTXYT", "PMFTXYZ", "AngularSeparationNeighbor", "LocalBondProjection", "Interface", "FilterSANN", "FilterRAD",
         "FilterRADOpen", "AABBQuery", "LinkCell", "StaticStructureFactorDebye"}
POINTS = {"GaussianDensity", "GaussianDensity2D", "SphereVoxelization", "SphereVoxelization2D", "AngularSeparationGlobal",
          "RotationalAutocorrelation", "MSD_window", "MSD_direct"}


class Divided:
    def __init__(self, ad, i):
        self.ad = ad
        a = self.a = ad.fresh_inputs(i)
        self.pairs = ad.name in NEEDS
        if self.pairs and ad.name != "StaticStructureFactorDebye":
            own = "query_points" not in a
            nb = a.get("neighbors")
            if own:
                a["query_points"] = a["points"].copy()
                if ad.name.startswith(("BondOrder", "AngularSep", "PMFTR12", "PMFTXYT")):
                    a["query_orientations"] = a["orientations"].copy()
                if ad.name == "CorrelationFunction":
                    a["query_values"] = a["values"].copy()
                if isinstance(nb, dict):
                    a["neighbors"] = AABBQuery(a["box"], a["points"]).query(a["points"], dict(nb, exclude_ii=True)).toNeighborList()
        if ad.name == "StaticStructureFactorDebye":
            a.setdefault("query_points", a["points"].copy())
            a["N_total"] = len(a["query_points"])
        self.n = len(a["points"]) if "points" in a else a["positions"].shape[1] if "positions" in a else len(a["orientations"])
        self.m = len(a["query_points"]) if self.pairs else self.n
        self.parts = {"p": [np.arange(self.n)], "q": [np.arange(self.m)]}

    def can(self, s):
        if s == "q":
            return self.pairs
        nb = self.a.get("neighbors")
        return not (isinstance(nb, dict) and "num_neighbors" in nb)

    def cut(self, s, c):
        P = self.parts[s]
        j = max(range(len(P)), key=lambda x: len(P[x])) if c["part"] > 3 else (c["part"] - 1) % len(P)
        x = P[j]
        if len(x) < 2:
            return False
        r = np.random.default_rng(c["k"])
        k = int(r.integers(1, len(x)))
        m = np.zeros(len(x), bool)
        how = c["how"]
        if how in ("head", "tail"):
            m[:k] = True
        elif how == "half":
            m[:len(x) // 2] = True
        elif how == "any":
            m = r.random(len(x)) < .5
        elif how == "one":
            m[k] = True
        else:
            m[::2] = True
        if m.all() or not m.any():
            return False
        P[j:j + 1] = [x[m], x[~m]] if how != "tail" else [x[~m], x[m]]
        return True

    def args(self, s, part):
        a = dict(self.a)
        rp, rq = rows_of(a, not self.pairs, self.n, self.m)
        for k in rp if s == "p" else rq:
            a[k] = a[k][part]
        for k in ("positions", "images"):
            if k in a:
                a[k] = a[k][:, part]
        nb = a.get("neighbors")
        if isinstance(nb, NeighborList):
            qi, pi, v, w = [np.array(x) for x in (nb.query_point_indices, nb.point_indices, nb.vectors, nb.weights)]
            new = np.full(self.n if s == "p" else self.m, -1)
            new[part] = np.arange(len(part))
            x = new[pi if s == "p" else qi]
            k = x >= 0
            if s == "p":
                pi = np.where(k, x, 0)
            else:
                qi = np.where(k, x, 0)
            N, M = (self.m, len(part)) if s == "p" else (len(part), self.n)
            a["neighbors"] = NeighborList.from_arrays(N, M, qi[k], pi[k], v[k], w[k])
        return a


def number(nl, s, part):
    """the bonds of a part under the numbers of the whole"""
    qi, pi = nl[3], nl[4]
    return (part[qi], pi) if s == "q" else (qi, part[pi])


def cut_rel(x, ys, s, parts, whole, results):
    def total():
        tot = sum(y.astype(float) if y.dtype.kind in "iuf" else y for y in ys)
        return all(y.shape == x.shape for y in ys) and (np.array_equal(tot, x) if x.dtype.kind in "iu" else eq(tot.astype(x.dtype), x))

    def bonds():
        X, Y = (x, ys) if isl(x) else (whole["nlist"], [z["nlist"] for z in results])
        ends = [number(y, s, p) for y, p in zip(Y, parts)]
        qi, pi = (np.concatenate([e[k] for e in ends]) for k in (0, 1))
        o, o0 = np.lexsort((pi, qi)), np.lexsort((X[4], X[3]))
        if not (len(qi) == len(X[3]) and np.array_equal(qi[o], X[3][o0]) and np.array_equal(pi[o], X[4][o0])):
            return False
        if isl(x):
            return all(eq(np.concatenate([y[k] for y in Y])[o], X[k][o0]) for k in (5, 6, 7))
        return eq(np.concatenate(ys)[o], x[o0])
    num = arr(x) and x.ndim == 1 and x.dtype.kind in "iu"
    return holding({
        "sum": lambda: total() if arr(x, *ys) else x == sum(ys),
        "max": lambda: arr(x, *ys) and eq(np.max(ys, 0), x),
        "rows": lambda: arr(x, *ys) and len(x) == sum(map(len, parts)) and all(len(y) == len(p) and eq(y, x[p]) for y, p in zip(ys, parts)),
        "cols": lambda: arr(x, *ys) and x.shape[1] == sum(map(len, parts)) and all(eq(y, x[:, p]) for y, p in zip(ys, parts)),
        "ids": lambda: num and sorted(x.tolist()) == sorted(v for y, p in zip(ys, parts) for v in p[y].tolist()),
        "union": lambda: num and set(x.tolist()) == set(v for y in ys for v in y.tolist()),
        "bonds" if isl(x) else "bondrows": bonds})


def divisions(t):
    beh = json.load(open(ARGS["histories"]))
    chosen = {k: v for k, v in choose([0, 300, 1500]).items() if k[0] in NEEDS | POINTS}
    pool = sorted(chosen)
    rng("order").shuffle(pool)
    for j, h in enumerate(beh):
        key = pool[j % len(pool)]
        ad, i = chosen[key], key[2]
        d = Divided(ad, i)
        t.doing(dict(cls=ad.name, input=key, history=[]))
        whole = compute(ad.make(), ad, d.a)
        cache, ev, done = {}, [], []
        one = ad.make()                     # also one object for all the parts, where it starts anew
        for c in h:
            done.append(c)
            t.doing(dict(cls=ad.name, input=key, history=done))
            s = "p" if not d.pairs else c["s"] if d.can(c["s"]) else "q"
            if not d.cut(s, c):
                continue
            e = dict(c=c, s=s, exc="", r=[])
            ev.append(e)
            rs = []
            try:
                for part in d.parts[s]:
                    kk = (s, part.tobytes())
                    if kk not in cache:
                        cache[kk] = compute(ad.make() if c["k"] % 2 or ad.pseudo else one, ad, d.args(s, part))
                    rs.append(cache[kk])
            except Exception as x:          # noqa: BLE001
                e["exc"] = type(x).__name__
                e["msg"] = str(x)[:100]
                continue
            for n in sorted(whole):
                if all(n in r for r in rs):
                    e["r"].append(found(n, whole[n], [r[n] for r in rs], cut_rel(whole[n], [r[n] for r in rs], s, d.parts[s], whole, rs)))
        t.episode("/".join(map(str, key)), ev, cls=ad.name)


main(repetitions if PROP == "W02" else divisions)
