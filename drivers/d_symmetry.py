"""The same system described in other ways (W01): histories of re-descriptions generated from FSymmetry are
applied to the inputs of every class; the driver only finds out which relations hold between results."""
import json
import numpy as np
from freud.box import Box
from freud.locality import NeighborList
from dlib import ARGS, Q, Trace, main, rng
import dclasses as D

P2 = [lambda: Box(8, 16, 8), lambda: Box(16, 8, 8, 0.25, -0.25, 0.125), lambda: Box.cube(16), lambda: Box.square(16),
      lambda: Box(8, 16, xy=0.25, is2D=True), lambda: Box.square(8), lambda: Box.cube(8), lambda: Box(8, 8, 16)]
D.SYSTEMS.update(d3=[(P2[0], 30), (P2[1], 18), (P2[7], 30), (P2[6], 40)],
                 d2=[(P2[5], 24), (P2[4], 18), (P2[3], 30), (P2[5], 16)],
                 any=[(P2[0], 30), (P2[5], 18), (P2[3], 24), (P2[1], 30)],
                 cub=[(P2[6], 30), (P2[2], 18), (P2[6], 30), (P2[2], 40)])
UNROWED = ("equiv_orientations", "global_orientations", "proj_vecs", "view_orientation", "buffer")
SKIP = ("Cubatic", "BoxOps", "QueryResult", "AllPairs", "FromArrays")


def turn_vec(v, two):
    v = np.asarray(v)
    return (np.stack([-v[..., 1], v[..., 0], v[..., 2]], -1) if two else np.roll(v, 1, axis=-1)).astype(v.dtype)


class Description:
    def __init__(self, ad, i):
        self.ad, self.a = ad, ad.fresh_inputs(i)
        self.own = "query_points" not in self.a
        a = self.a
        self.n = len(a["points"]) if "points" in a else a["positions"].shape[1] if "positions" in a else len(a["orientations"])
        self.m = self.n if self.own else len(a["query_points"])
        self.p = np.arange(self.n)         # particle of every entry
        self.q = self.p if self.own else np.arange(self.m)

    def rows(self, s):
        """names of the arrays with one row per point (p) or query point (q)"""
        out = []
        for k, v in self.a.items():
            if k in UNROWED or k not in D.ARRAYS or not isinstance(v, np.ndarray) or k in ("positions", "images"):
                continue
            qq = k.startswith("query_")
            if s == "p" and not (qq and not self.own) or s == "q" and qq and not self.own:
                out.append(k)
        return out

    def relist(self, p=None, q=None, f=None):
        nl = self.a.get("neighbors")
        if not isinstance(nl, NeighborList):
            return
        qi, pi, vec, w = [np.array(x) for x in (nl.query_point_indices, nl.point_indices, nl.vectors, nl.weights)]
        if p is not None:
            pi = np.argsort(p)[pi]
        if q is not None:
            qi = np.argsort(q)[qi]
        if f is not None:
            vec = f(vec)
        o = np.lexsort((pi, qi)) if p is not None or q is not None else np.arange(len(qi))
        self.a["neighbors"] = NeighborList.from_arrays(nl.num_query_points, nl.num_points, qi[o], pi[o], vec[o], w[o])

    def step(self, c):
        a, ad = self.a, self.ad
        s = "p" if self.own else c["s"]
        pts = ("points",) if s == "p" else ("query_points",)
        r = np.random.default_rng(c["k"])
        if c["op"] == "perm":
            o = r.permutation(self.n if s == "p" else self.m)
            if c["k"] % 3 == 0:             # only two entries
                o = np.arange(len(o))
                o[[0, -1]] = o[[-1, 0]]
            if "positions" in a:
                for k in ("positions", "images"):
                    if k in a:
                        a[k] = a[k][:, o]
            for k in self.rows(s):
                a[k] = a[k][o]
            if self.own:
                self.relist(o, o)
                self.p = self.q = self.p[o]
            elif s == "p":
                self.relist(p=o)
                self.p = self.p[o]
            else:
                self.relist(q=o)
                self.q = self.q[o]
            return True
        if "points" not in a:
            return False
        box = a["box"]
        A = np.array(box.to_matrix())
        two = box.is2D
        if c["op"] == "image":
            v = np.array(c["v"])
            if two:
                v[2] = 0
            on = r.random(len(a[pts[0]])) < [1, .5, .1][c["k"] % 3]
            on[r.integers(len(on))] = True
            a[pts[0]] = (a[pts[0]].astype(float) + on[:, None] * (A @ v)).astype(np.float32)
            return True
        if c["op"] == "shift":
            v = np.array(c["v"]) * np.array([37, 93, 211]) / 64
            if two:
                v[2] = 0
            for k in ("points", "query_points"):
                if k in a:
                    a[k] = (a[k].astype(float) + v).astype(np.float32)
            return True
        if box.xy or box.xz or box.yz:
            return False
        a["box"] = Box(box.Ly, box.Lx, 0) if two else Box(box.Lz, box.Lx, box.Ly)
        for k in ("points", "query_points"):
            if k in a:
                a[k] = turn_vec(a[k], two)
        self.relist(f=lambda v: turn_vec(v, two))
        return True


# ---- relations ------------------------------------------------------------------
def bonds(nl, p, q):
    """bond list in terms of particles, ordered"""
    qi, pi = q[nl[1 + 2]], p[nl[1 + 3]]
    o = np.lexsort((pi, qi))
    return [nl[1], nl[2], qi[o], pi[o]], [nl[5][o], nl[7][o]], nl[6][o], o


def eq(x, y):
    return D.same(x, y, rtol=1e-4)


def partition(x, p):
    """cluster of every particle, numbered by first appearance"""
    y = np.empty(len(x), int)
    y[p] = x
    seen = {}
    return [seen.setdefault(int(v), len(seen)) for v in y]


def plain(x):
    return [plain(y) for y in x[1:]] if isinstance(x, list) and x and isinstance(x[0], str) and x[0] == "seq" else x


def bag(v):
    v = plain(v)
    return sorted(json.dumps(np.sort(np.asarray(x).ravel()).tolist() if np.asarray(x).dtype.kind in "iu" else
                             np.round(np.asarray(x, float), 3).tolist()) for x in v)


def relations(n, base, new, ds, d0, nlists):
    out = []
    x, y = base[n], new[n]
    p, q, p0, q0 = ds.p, ds.q, d0.p, d0.q
    if n == "cluster_keys" and "keys" not in ds.a:      # then the keys are numbers of entries
        y = ["seq"] + [["seq"] + [int(p[k]) for k in c] for c in plain(y)]
    if eq(x, y):
        out.append("same")
    try:
        if isinstance(y, np.ndarray) and y.ndim and y.shape == x.shape:
            if len(y) == len(p) and eq(y, x[p]):
                out.append("rowsP")
            if len(y) == len(q) and eq(y, x[q]):
                out.append("rowsQ")
            if y.ndim > 1 and y.shape[1] == len(p) and eq(y, x[:, p]):
                out.append("colsP")
            if len(y) == len(p) and y.dtype.kind in "iu" and partition(x, p0) == partition(y, p):
                out.append("part")
        if isinstance(y, list) and y and isinstance(y[0], str) and y[0] == "nlist":
            a, b = bonds(x, p0, q0), bonds(y, p, q)
            if eq(a[0], b[0]) and eq(a[1], b[1]):
                out.append("bondsD")
                if D.same(a[2], b[2], rtol=1e-4):
                    out.append("bonds")
        if isinstance(y, np.ndarray) and y.ndim and nlists and len(y) == len(nlists[1][3]) and len(x) == len(y):
            a, b = bonds(nlists[0], p0, q0), bonds(nlists[1], p, q)
            if eq(a[0], b[0]) and eq(x[a[3]], y[b[3]]):
                out.append("bondrows")
        if isinstance(y, np.ndarray) and y.ndim == 1 and y.dtype.kind in "iu":
            if set(x.tolist()) == set(p[y].tolist()) and len(x) == len(y):
                out.append("idsP")
            if len(q) and (len(y) == 0 or y.max() < len(q)) and set(x.tolist()) == set(q[y].tolist()) and len(x) == len(y):
                out.append("idsQ")
        if (isinstance(y, np.ndarray) and y.ndim or isinstance(y, list) and y and isinstance(y[0], str) and y[0] == "seq") and bag(x) == bag(y):
            out.append("bag")
    except (IndexError, ValueError, TypeError, KeyError):
        pass
    return out


def compute(ad, a):
    o = ad.make()
    b = {k: D.clone(v) for k, v in a.items()}
    ad.call(o, b)
    return {n: D.canon(v) for n, (v, exc) in ad.read(o).items() if not exc}


def run(t):
    beh = json.load(open(ARGS["histories"]))
    pool = []
    r0, salt = D.r_, [0]
    D.r_ = lambda *k: r0("sym", salt[0], *k)
    chosen = {}
    for s in range(12):
        salt[0] = rng("salt", s).integers(1 << 30)
        for ad in D.all_adapters():
            if ad.name in SKIP:
                continue
            for i in range(4):
                if (ad.name, i) not in chosen and not D.ties(ad.inputs[i]):
                    chosen[ad.name, i] = ad
    pool = sorted(chosen)
    r = rng("order")
    for j, h in enumerate(beh):
        name, i = pool[j % len(pool)]
        ad = chosen[name, i]
        d0, ds = Description(ad, i), Description(ad, i)
        t.doing(dict(cls=name, input=i, history=[]))
        base = compute(ad, d0.a)
        ev, done = [], []
        for c in h:
            done.append(c)
            t.doing(dict(cls=name, input=i, history=done))
            did = ds.step(c)
            e = dict(c=c, did=did, exc="", r=[])
            try:
                new = compute(ad, ds.a)
            except Exception as x:          # noqa: BLE001
                e["exc"] = type(x).__name__
                e["msg"] = str(x)[:100]
                ev.append(e)
                continue
            nls = (base["nlist"], new["nlist"]) if "nlist" in base and "nlist" in new else None
            e["r"] = [dict(n=n, rel=relations(n, base, new, ds, d0, nls)) for n in sorted(base) if n in new]
            ev.append(e)
        t.episode(f"{name}/{i}", ev, cls=name)


main(run)
