"""Histogram analyses: RDF, CorrelationFunction, the PMFTs, BondOrder (H01, H03-H05) and
accumulation histories of every accumulating analysis (H02)."""
import warnings
import numpy as np
import freud
from dlib import *

warnings.simplefilter("ignore")
NL = freud.locality.NeighborList
ANG = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (-4, 3, 5), (4, -3, 5), (-3, -4, 5), (5, 12, 13)]
QUAT = [(1, 0, 0, 0), (-1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 0, 1), (1, 1, 0, 0), (1, 0, -1, 0), (1, 1, 1, 1), (1, 1, 1, -1),
        (2, 1, 0, 0), (1, 0, 0, 2), (1, 1, 1, 0), (0, 2, -1, 0), (1, -1, 1, 1)]


def distinct(r, ib, n, avoid=()):
    """n different lattice points of the box, none of them in avoid"""
    seen, out = {tuple(x) for x in avoid}, []
    while len(out) < n:
        c = r.integers(-40, 41, (4 * n, 3))
        if r.random() < .3:
            c[:, :2] //= 8                      # many bonds along z
        if ib.d == 2:
            c[:, 2] = 0
        for x in inbox(ib, c):
            if tuple(x) not in seen and len(out) < n:
                seen.add(tuple(x))
                out.append(x)
    return np.array(out).reshape(n, 3)


def angles(r, n, ident):
    k = np.zeros(n, int) if ident else r.integers(0, len(ANG), n)
    g = [ANG[i] for i in k]
    a = np.array([np.arctan2(s, c) + 2 * np.pi * int(r.integers(-1, 2)) * (r.random() < .3) * (s != 0) for c, s, h in g])
    if n > 4 and r.random() < .25:                 # as quaternions about z
        return g, np.stack([np.cos(a / 2), 0 * a, 0 * a, np.sin(a / 2)], 1)
    return g, a if r.random() < .7 else a.tolist()


def quats(r, n, ident, pool=QUAT):
    k = np.zeros(n, int) if ident else r.integers(0, len(pool), n)
    g = [pool[i] for i in k]
    return g, np.array([np.array(q) / np.sqrt(sum(x * x for x in q)) for q in g])


def linax(r, big):
    n = int(r.choice([1, 2, 3, 4, 5, 8] if big else [1, 2, 3, 4]))
    w = int(r.choice([1, 2, 4, 8, 16, 3, 6, 10])) * (1 if n % 2 == 0 else 2)
    w = max(w, 2)
    return dict(lo=-n * w // 2, w=w, n=n)


def pow2(w):
    return w & (w - 1) == 0


def rax(r, n=None, lo=True):
    n = n or int(r.choice([1, 2, 4, 5, 7, 10]))
    w = int(r.choice([1, 2, 4, 8, 3, 6, 12]))
    return dict(lo=int(r.choice([0, 0, w, 3 * w, 5])) if lo else 0, w=w, n=n)


def edgesok(o, axes, u):
    """edges, centres, bounds, nbins agree with the requested axes"""
    one = not isinstance(o.nbins, list)
    W = lambda x: [x] if one else x
    if len(W(o.nbins)) != len(axes):
        return False
    for k, (lo, w, n) in enumerate(axes):
        e = lo + w * np.arange(n + 1)
        if W(o.nbins)[k] != n or len(W(o.bin_edges)[k]) != n + 1 or len(W(o.bin_centers)[k]) != n:
            return False
        s = max(abs(lo), abs(lo + w * n)) * 1e-5
        if not (np.allclose(W(o.bin_edges)[k], e, rtol=0, atol=s) and np.allclose(W(o.bin_centers)[k], e[:-1] + w / 2, rtol=0, atol=s)
                and np.allclose(W(o.bounds)[k], [lo, lo + w * n], rtol=0, atol=s)):
            return False
    return True


def explicit(r, nq, n, rmax, d, excl):
    """a neighbour list with its own bond vectors (its distances are those of the vectors)"""
    m = int(r.choice([0, 1, 6, 40])) if nq < 400 else nq + 50
    q = np.sort(r.integers(0, nq, m))
    p = r.integers(0, n, m)
    v = r.integers(-rmax, rmax + 1, (m, 3))
    if d == 2:
        v[:, 2] = 0
    z = (v == 0).all(1)
    v[z] = [1, 0, 0]
    return q, p, v


KIND = dict(H01=["rdf"], H03=["cf"], H04=["xy", "xyz", "r12", "xyt"], H05=["bo"])


def setup(r, kind, u):
    """axes (quarter units), object, real axes for edgesok, extra head"""
    T2 = 2 * np.pi
    if kind in ("rdf", "cf"):
        ax = rax(r, lo=kind == "rdf")
        rm = (ax["lo"] + ax["n"] * ax["w"]) / 4 * u
        o = freud.density.RDF(ax["n"], rm, ax["lo"] / 4 * u) if kind == "rdf" else freud.density.CorrelationFunction(ax["n"], rm)
        return [ax], o, [(ax["lo"] / 4 * u, ax["w"] / 4 * u, ax["n"])], (ax["lo"] + ax["n"] * ax["w"]) ** 2
    if kind in ("xy", "xyz"):
        axs = [linax(r, kind == "xy") for _ in range(len(kind))]
        h = [-a["lo"] / 4 * u for a in axs]
        same = len({a["n"] for a in axs}) == 1 and r.random() < .5
        bins = axs[0]["n"] if same else [a["n"] for a in axs]
        o = (freud.pmft.PMFTXY if kind == "xy" else freud.pmft.PMFTXYZ)(*h, bins)
        return axs, o, [(a["lo"] / 4 * u, a["w"] / 4 * u, a["n"]) for a in axs], sum(a["lo"] ** 2 for a in axs)
    ang = lambda: dict(lo=0, w=1, n=int(r.choice([1, 2, 3, 4, 5, 8])))
    if kind == "r12":
        axs = [rax(r, int(r.choice([1, 2, 4])), lo=False), ang(), ang()]
        o = freud.pmft.PMFTR12(axs[0]["n"] * axs[0]["w"] / 4 * u, [a["n"] for a in axs])
        return axs, o, [(0, axs[0]["w"] / 4 * u, axs[0]["n"])] + [(0, T2 / a["n"], a["n"]) for a in axs[1:]], (axs[0]["n"] * axs[0]["w"]) ** 2
    if kind == "xyt":
        axs = [linax(r, False), linax(r, False), ang()]
        o = freud.pmft.PMFTXYT(*[-a["lo"] / 4 * u for a in axs[:2]], [a["n"] for a in axs])
        return axs, o, [(a["lo"] / 4 * u, a["w"] / 4 * u, a["n"]) for a in axs[:2]] + [(0, T2 / axs[2]["n"], axs[2]["n"])], sum(a["lo"] ** 2 for a in axs[:2])
    axs = [dict(lo=0, w=1, n=int(r.choice([2, 3, 4, 6, 8]))), dict(lo=0, w=1, n=int(r.choice([2, 3, 4, 6, 8])))]
    o = freud.environment.BondOrder([a["n"] for a in axs] if axs[0]["n"] != axs[1]["n"] or r.random() < .5 else axs[0]["n"],
                                    mode=(mode := str(r.choice(["bod", "lbod", "obcd", "oocd"]))))
    return axs, o, [(0, T2 / axs[0]["n"], axs[0]["n"]), (0, np.pi / axs[1]["n"], axs[1]["n"])], mode


def brim(t):
    """one bond whose value is the last float below the upper bound of an axis"""
    for ei in range(Q(8, 60)):
        r = rng(PROP, "brim", ei)
        kind = KIND[PROP][ei % len(KIND[PROP])]
        if kind not in ("rdf", "cf", "xy", "xyz"):
            continue
        evs = []
        for _ in range(12):
            d = dict(xy=2, xyz=3).get(kind, 1)
            n = [int(x) for x in r.integers(1, 120, d)]
            mx = [np.float32(x) for x in r.uniform(.5, 9, d)]
            axis = int(r.integers(0, d))
            v = np.zeros(3, np.float32)
            v[axis] = np.nextafter(mx[axis], np.float32(0))
            nl = NL.from_arrays(1, 1, [0], [0], v[None])
            s = (freud.box.Box.cube(50) if kind != "xy" else freud.box.Box.square(50), np.zeros((1, 3), np.float32))
            o = (freud.density.RDF(n[0], float(mx[0])) if kind == "rdf" else
                 freud.density.CorrelationFunction(n[0], float(mx[0])) if kind == "cf" else
                 freud.pmft.PMFTXY(*map(float, mx), n) if kind == "xy" else freud.pmft.PMFTXYZ(*map(float, mx), n))
            args = dict(rdf=(), cf=(np.ones(1),), xy=(np.zeros(1),), xyz=(np.array([[1., 0, 0, 0]]),))[kind]
            t.doing(dict(kind=kind, n=n, max=[float(x) for x in mx], v=v.tolist()))
            _, exc = attempt(lambda: o.compute(s, *args, query_points=np.zeros((1, 3), np.float32), neighbors=nl)
                             if kind != "cf" else o.compute(s, np.ones(1), np.zeros((1, 3), np.float32), np.ones(1), neighbors=nl))
            c = np.zeros(n) if exc else np.asarray(o.bin_counts).reshape(n)
            evs.append(dict(kind="brim", exc=exc, n=1, total=int(c.sum()), last=int(np.take(c, -1, axis).sum()),
                            at=[float(mx[axis]).hex(), n[axis]]))
        t.episode("brim-%s/%d" % (kind, ei), evs, ax=[], fold=False)


def poles(t):
    """bonds whose direction is, up to rounding, a pole of the frame they are seen from"""
    box = freud.box.Box.cube(50)
    for ei in range(Q(8, 60)):
        r = rng(PROP, "pole", ei)
        mode = ["oocd", "obcd", "lbod", "bod"][ei % 4]
        evs = []
        for _ in range(6):
            n = [int(x) for x in r.integers(2, 9, 2)]
            m = int(r.integers(1, 300))
            q = r.normal(size=(m, 4)).astype(np.float32)
            q = (q / np.linalg.norm(q, axis=1, keepdims=True)).astype(np.float64)
            s, x, y, z = q.T
            up = np.stack([2 * (x * z + s * y), 2 * (y * z - s * x), 1 - 2 * (x * x + y * y)], 1)     # the z axis turned by q
            south = bool(r.random() < .5)
            q2 = q.copy()
            if mode == "oocd" and south:                            # q times a half turn about x
                q2 = np.stack([-x, s, z, -y], 1)
            v = dict(oocd=r.normal(size=(m, 3)), lbod=up, obcd=np.tile([0, 0, 1.], (m, 1)), bod=np.concatenate([r.normal(size=(m, 2)) * 1e-6, np.ones((m, 1))], 1))[mode]
            v = v * r.uniform(.1, 3, (m, 1)) * (-1 if south and mode != "oocd" else 1)
            i = np.arange(m)
            nl = NL.from_arrays(m, m, i, i, v.astype(np.float32))
            o = freud.environment.BondOrder(n, mode=mode)
            p = np.zeros((m, 3), np.float32)
            t.doing(dict(mode=mode, n=n, q=q.tolist(), v=v.tolist()))
            _, exc = attempt(lambda: o.compute((box, p), q, p, q2, neighbors=nl))
            c = np.zeros(n) if exc else np.asarray(o.bin_counts).reshape(n)
            evs.append(dict(kind="brim", exc=exc, n=m, total=int(c.sum()), last=int(c[:, -1 if south else 0].sum()), at=[mode, n]))
        t.episode("pole-%s/%d" % (mode, ei), evs, ax=[], fold=False)


def single(t):
    brim(t)
    if PROP == "H05":
        poles(t)
    n_ep = Q(150, 1500) * len(KIND[PROP])
    for ei in range(n_ep):
        r = rng(PROP, ei)
        kind = KIND[PROP][ei % len(KIND[PROP])]
        u = float(r.choice([1, .5, 2, .25]))
        axs, o, axr, lim = setup(r, kind, u)
        planar = kind in ("r12", "xyt", "xy")
        mode = lim if kind == "bo" else "exact"
        ib = None
        ex = all(pow2(a["w"]) for a in axs) or kind in ("bo",)
        evs = []
        for k in range(int(r.integers(1, 5))):
            reset = k == 0 or bool(r.random() < .35)
            if k == 0 and r.random() < .2:
                reset = False                   # the first compute of an object starts from nothing
            while ib is None or min(ib.planes()) < 5 or r.random() < .3:
                ib = random_ibox(r, d=2 if planar else 3 if kind == "xyz" else None, pow2=True, Ls=[8, 16, 32], per=[True] * 3, u=u,
                                 tilt=bool(r.random() < .3))
            big = r.random() < .06
            n = 70 if big else int(r.integers(1, 14))
            n = min(n, int(np.prod(ib.L[:ib.d])) // 3)
            P = distinct(r, ib, n)
            own = bool(r.random() < .4)
            m = n if own else int(r.integers(1, 14))
            many = ei % 40 < 2 * len(KIND[PROP]) and ei >= 40 and k == 0 and int(np.prod(ib.L[:ib.d])) > 500
            if many:            # so many that the pieces of a loop run in parallel have several (see vf.drive)
                P, own, m = P[:3], False, 400
                n = len(P)
            Qp = P if own else distinct(r, ib, m, P)
            f = lambda a: (np.asarray(a) * u).astype(np.float32)
            e = dict(kind=kind, ex=ex, box=ib.rec(), P=ints(P), Q=ints(Qp), excl=own, reset=reset, again=False, bonds=[], R16=0, mode=mode)
            half = .49 * min(ib.planes())
            kw = {}
            c = r.random() if not many else 1
            if kind != "bo" and np.sqrt(lim) / 4 < half and (kind in ("rdf", "cf", "r12") or lim % 16) and c < .4:
                e["R16"] = int(lim)
            elif c < .75:
                R4 = int(r.integers(3, max(4, int(4 * half))))
                e["R16"] = R4 * R4
                nb = dict(r_max=R4 / 4 * u)
                if r.random() < .3:
                    nb["exclude_ii"] = e["excl"] = bool(own and kind != "bo" and r.random() < .5) or own
                kw["neighbors"] = nb
            else:
                q, p, v = explicit(r, m, n, 14, ib.d, own)
                e["bonds"] = [[int(a), int(b), ints(w)] for a, b, w in zip(q, p, v)]
                kw["neighbors"] = NL.from_arrays(m, n, q, p, f(v))
            if not own:
                kw["query_points"] = f(Qp) if r.random() < .7 else f(Qp).tolist()
            ident = bool(r.random() < .25)
            args = ()
            if kind in ("xy",):
                g, a = angles(r, m, ident)
                args = (a,)
                e["qo"] = g
            elif kind in ("r12", "xyt"):
                g, a = angles(r, n, ident)
                args = (a,)
                e["po"] = e["qo"] = g
                if not own:
                    g, a = angles(r, m, ident)
                    kw["query_orientations"] = a
                    e["qo"] = g
                elif r.random() < .3:
                    g, a = angles(r, m, ident)
                    kw["query_orientations"] = a
                    e["qo"] = g
            elif kind == "xyz":
                g, a = quats(r, m, ident)
                e["qo"] = g
                args = (a,)
                ne = int(r.choice([0, 1, 2, 4])) if k == 0 or reset else len(e_eq) if not none_eq else 0
                none_eq = ne == 0
                if ne:
                    g, a = quats(r, ne, False)
                    kw["equiv_orientations"] = a
                    e["eq"] = g
                else:
                    e["eq"] = [[1, 0, 0, 0]]
                e_eq = e["eq"]
            elif kind == "bo":
                e["po"], e["qo"] = [[1, 0, 0, 0]] * n, [[1, 0, 0, 0]] * m
                if r.random() < .7 or not own:
                    g, a = quats(r, n, ident)
                    kw["orientations"] = a
                    e["po"] = e["qo"] = g
                    if not own or r.random() < .5:
                        g, a = quats(r, m, ident)
                        kw["query_orientations"] = a
                        e["qo"] = g
            elif kind == "cf":
                cplx = bool(r.random() < .5)
                val = r.integers(-4, 5, (n, 2)) * [1, int(cplx)]
                qval = val if own and r.random() < .5 else r.integers(-4, 5, (m, 2)) * [1, int(cplx)]
                C = lambda x: (x[:, 0] + 1j * x[:, 1]) if cplx else x[:, 0].astype(float)
                args = (C(val) if r.random() < .7 else C(val).tolist(),)
                if qval is not val or not own:
                    kw["query_values"] = C(qval)
                e["val"], e["qval"] = ints(val), ints(qval)
                e["real"] = bool((val[:, 1] == 0).all() and (qval[:, 1] == 0).all() and (reset or k == 0 or evs[-1]["real"]))
            if kind == "rdf" and m > 1 and (k == 0 or r.random() < .3):
                mode = str(r.choice(["exact", "finite_size"]))
                o.mode = mode
            if kind == "rdf" and m == 1:
                mode = "exact"
                o.mode = mode
            e["mode"] = mode
            s = (ib.freud(), f(P)) if r.random() < .6 else freud.locality.AABBQuery(ib.freud(), f(P))
            t.doing(dict(e, u=u, axes=axs))
            _, exc = attempt(lambda: o.compute(s, *args, **RS(reset), **kw))
            e["exc"] = exc
            observe(o, e, kind, axr, u)
            evs.append(e)
            if kind == "rdf" and m > 1 and not exc and r.random() < .3:
                mode = "exact" if mode == "finite_size" else "finite_size"
                o.mode = mode
                e2 = dict(e, again=True, mode=mode)
                observe(o, e2, kind, axr, u)
                evs.append(e2)
        t.episode("%s/%d" % (kind, ei), evs, ax=axs, fold=False)


def observe(o, e, kind, axr, u):
    e.update(counts=[], res=[], nr=[], edgesok=True)
    if e["exc"]:
        return
    c = np.asarray(o.bin_counts)
    want = tuple(n for _, _, n in axr)
    if kind == "xy":
        want = tuple(x for x in want if x != 1)    # documented squeeze of bin_counts
    e["edgesok"] = edgesok(o, axr, u) and c.shape == want
    e["counts"] = ints(c.ravel())
    if kind == "rdf":
        e["res"], e["nr"] = real(o.rdf), real(o.n_r)
    elif kind == "cf":
        x = np.asarray(o.correlation)
        e["real"] = bool(e["real"])
        if e["real"] and np.iscomplexobj(x):
            e["edgesok"] = False
        e["res"] = np.stack([np.round(np.real(x) * 256), np.round(np.imag(x) * 256)], 1).astype(int).tolist()
    elif kind == "bo":
        e["res"] = real(o.bond_order)
    else:
        with np.errstate(all="ignore"):
            e["res"] = real(np.exp(-np.asarray(o.pmft, dtype=float)))


# ---- H02 -----------------------------------------------------------------
def flatc(x):
    x = np.asarray(x)
    return np.stack([np.real(x), np.imag(x)], -1).ravel()


def histories(t):
    import json
    H = json.load(open(ARGS["histories"]))
    frames_n = 4
    for hi, h in enumerate(H):
        r = rng("H02", hi)
        kind = ["rdf", "cf", "xy", "xyz", "r12", "xyt", "bo", "debye", "diffraction"][hi % 9]
        same = bool(r.random() < .6) or kind in ("debye", "diffraction")
        planar = kind in ("xy", "r12", "xyt")
        mk, call, props = analysis(kind, r)
        d = 2 if planar else 3 if kind in ("xyz",) else int(r.choice([2, 3]))
        mkbox = lambda: random_ibox(r, d=d, pow2=True, Ls=[16, 32], tilt=False, per=[True] * 3, u=1.0)
        if kind == "diffraction":
            L = int(r.choice([16, 32]))
            mkbox = lambda: IBox([L] * 3)
        ib0, n0 = mkbox(), int(r.integers(3, 12))
        ne = int(r.integers(1, 4))
        fr = []
        for _ in range(frames_n):
            ib = ib0 if same else mkbox()
            n = n0 if same else int(r.integers(3, 12))
            m = n if same else int(r.integers(2, 9))
            P = r.uniform(0, 1, (n, 3)) @ ib.vectors() - ib.vectors().sum(0) / 2
            Qp = r.uniform(0, 1, (m, 3)) @ ib.vectors() - ib.vectors().sum(0) / 2
            fr.append(dict(box=ib.freud(), P=P, Q=Qp, qa=r.uniform(0, 7, m), pa=r.uniform(0, 7, n), qq=quats(r, m, False)[1], pq=quats(r, n, False)[1],
                           eq=quats(r, ne, False)[1], val=r.integers(-3, 4, n) + 1j * r.integers(-3, 4, n), qval=r.integers(-3, 4, m) + 0j))
        how = {k: w for k, (w, sc, tol, g) in props.items()}
        tol = {k: tl for k, (w, sc, tl, g) in props.items()}
        if not same:
            props = {k: v for k, v in props.items() if v[0] in ("sum", "weighted")}
        one = []
        for x in fr:
            o = mk()
            call(o, x, True)
            one.append({k: fix(flat(g(o)), sc) for k, (w, sc, tl, g) in props.items()})
        o = mk()
        evs = []
        names = sorted(props)
        for c in h:
            e = dict(op=c["op"], exc="", name="", val=[], reset=False, f=0)
            if c["op"] == "c":
                e.update(f=c["f"], reset=c["reset"])
                t.doing(dict(kind=kind, history=h, call=c))
                _, e["exc"] = attempt(lambda: call(o, fr[c["f"] - 1], c["reset"]))
            elif c["op"] == "x":
                how_ = refusals(kind)[c["k"] % len(refusals(kind))]
                t.doing(dict(kind=kind, history=h, call=c, refused=how_))
                _, e["exc"] = attempt(lambda: refused(kind, how_, o, call, dict(fr[c["f"] - 1])))
                if not e["exc"]:                # accepted after all: nothing to say about the rest
                    break
            else:
                e["name"] = names[c["k"] % len(names)]
                w, sc, tl, g = props[e["name"]]
                e["val"] = fix(flat(g(o)), sc)
            evs.append(e)
        t.episode("fold-%s/%d" % (kind, hi), evs, fold=True, one=one, how=how, tol=tol, ax=[])


def refusals(kind):
    """ways in which a call of this kind is refused"""
    return (["arguments"] if kind == "debye" else ["not cubic", "weights"] if kind == "diffraction" else
            ["r_max", "array", "dimension"] if kind in ("xy", "xyz", "r12", "xyt") else
            ["r_max"] if kind == "rdf" else ["r_max", "array"])


def refused(kind, how, o, call, x):
    if how == "arguments":
        return o.compute((x["box"], x["P"]), query_points=x["Q"], reset=False)
    if how == "not cubic":
        return o.compute((freud.box.Box(4, 5, 6), x["P"]), reset=False)
    if how == "weights":
        return o.compute((x["box"], x["P"]), weights=np.ones(len(x["P"]) + 1), reset=False)
    if how == "r_max":                          # a box too small for the search radius
        x["box"] = freud.box.Box(3, 4, 5) if x["box"].dimensions == 3 else freud.box.Box(3, 4)
    if how == "array":
        for k in ("qa", "pa", "qq", "pq", "val", "qval"):
            x[k] = x[k][:-1]
    if how == "dimension":
        x["box"] = freud.box.Box(40, 41, 42) if x["box"].dimensions == 2 else freud.box.Box(40, 41)
        x["P"], x["Q"] = x["P"] * [1, 1, 0], x["Q"] * [1, 1, 0]
    x["eq"] = np.concatenate([x["eq"]] * 2)
    return call(o, x, False)


def flat(x):
    return np.asarray(x).ravel()


COUNT = [0]


def RS(reset):
    """every other time the default is used"""
    COUNT[0] += 1
    return {} if reset and COUNT[0] % 2 else dict(reset=reset)


def analysis(kind, r):
    nb = dict(r_max=float(r.choice([3.3, 5.1])))
    C = ("sum", 1, 0, lambda o: o.bin_counts)
    if kind == "rdf":
        mode = str(r.choice(["exact", "finite_size"]))
        return (lambda: freud.density.RDF(7, 6.5, .5, normalization_mode=mode), lambda o, x, reset: o.compute((x["box"], x["P"]), x["Q"], **RS(reset)),
                dict(bin_counts=C, rdf=("mean", 4096, 30, lambda o: o.rdf), n_r=("mean", 4096, 30, lambda o: o.n_r)))
    if kind == "cf":
        return (lambda: freud.density.CorrelationFunction(6, 6.5),
                lambda o, x, reset: o.compute((x["box"], x["P"]), x["val"], x["Q"], x["qval"], **RS(reset)),
                dict(bin_counts=C, correlation=("weighted", 1024, 2, lambda o: flatc(o.correlation))))
    P = dict(bin_counts=C, pcf=("mean", 256, 20, lambda o: np.exp(-o.pmft)))
    if kind == "xy":
        return (lambda: freud.pmft.PMFTXY(4, 3, (4, 5)), lambda o, x, reset: o.compute((x["box"], x["P"]), x["qa"], x["Q"], neighbors=nb, **RS(reset)), P)
    if kind == "xyz":
        return (lambda: freud.pmft.PMFTXYZ(4, 3, 5, (2, 3, 4)),
                lambda o, x, reset: o.compute((x["box"], x["P"]), x["qq"], x["Q"], equiv_orientations=x["eq"], neighbors=nb, **RS(reset)), P)
    if kind == "r12":
        return (lambda: freud.pmft.PMFTR12(5, (3, 2, 4)), lambda o, x, reset: o.compute((x["box"], x["P"]), x["pa"], x["Q"], x["qa"], neighbors=nb, **RS(reset)), P)
    if kind == "xyt":
        return (lambda: freud.pmft.PMFTXYT(4, 3, (3, 2, 4)), lambda o, x, reset: o.compute((x["box"], x["P"]), x["pa"], x["Q"], x["qa"], neighbors=nb, **RS(reset)), P)
    if kind == "bo":
        mode = str(r.choice(["bod", "lbod", "obcd", "oocd"]))
        return (lambda: freud.environment.BondOrder((4, 3), mode), lambda o, x, reset: o.compute((x["box"], x["P"]), x["pq"], x["Q"], x["qq"], neighbors=nb, **RS(reset)),
                dict(bin_counts=C, bond_order=("mean", 1024, 30, lambda o: o.bond_order)))
    if kind == "debye":
        return (lambda: freud.diffraction.StaticStructureFactorDebye(6, 7.5, k_min=.5), lambda o, x, reset: o.compute((x["box"], x["P"]), **RS(reset)),
                dict(S_k=("mean", 4096, 30, lambda o: o.S_k), min_valid_k=("max", 65536, 40, lambda o: [o.min_valid_k])))
    return (lambda: freud.diffraction.DiffractionPattern(grid_size=16, output_size=16),
            lambda o, x, reset: o.compute((x["box"], x["P"]), zoom=2, **RS(reset)),
            dict(diffraction=("mean", 65536, 40, lambda o: o.diffraction)))


main(histories if PROP == "H02" else single)
