"""Order parameters and local environments: Hexatic (O01), Cubatic (O02), RotationalAutocorrelation
(O03), AngularSeparation (E01), LocalBondProjection (E02)."""
import warnings
import zlib
import numpy as np
import freud
from dlib import *

warnings.simplefilter("ignore")
NL = freud.locality.NeighborList
ONE = 16384
QUAT = [(1, 0, 0, 0), (-1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 0, 1), (1, 1, 0, 0), (1, 0, -1, 0), (1, 1, 1, 1), (1, 1, 1, -1),
        (2, 1, 0, 0), (1, 0, 0, 2), (1, 1, 1, 0), (0, 2, -1, 0), (1, -1, 1, 1), (0, 1, 1, 2), (-1, 2, 0, 1), (0, -1, 0, 1)]


def mul(a, b):
    w, x, y, z = a
    W, X, Y, Z = b
    return (w*W - x*X - y*Y - z*Z, w*X + x*W + y*Z - z*Y, w*Y - x*Z + y*W + z*X, w*Z + x*Y - y*X + z*W)


def prim(q):
    g = np.gcd.reduce(np.abs(q))
    return tuple(int(x) // int(g) for x in q)


def closure(gens):
    G = {(1, 0, 0, 0)}
    new = True
    while new:
        new = {prim(mul(a, b)) for a in G for b in gens} - G
        G |= new
    return sorted(G)


GROUPS = [[(1, 0, 0, 0)], closure([(-1, 0, 0, 0)]), closure([(0, 0, 0, 1)]), closure([(1, 0, 0, 1)]), closure([(0, 1, 0, 0), (0, 0, 1, 0)]),
          closure([(1, 1, 1, 1)]), closure([(1, 1, 0, 0), (0, 0, 1, 0)]), closure([(1, 1, 1, 1), (0, 1, 0, 0)]),
          closure([(1, 1, 0, 0), (1, 0, 1, 0)])]


def unit(g):
    g = np.asarray(g, dtype=float).reshape(-1, 4)
    return g / np.sqrt((g * g).sum(1))[:, None]


def quats(r, n, ident=False):
    return [QUAT[0] if ident else QUAT[int(r.integers(len(QUAT)))] for _ in range(n)]


def forms(r, a):
    """an array in one of the forms a user may pass"""
    c = r.random()
    a = np.asarray(a)
    return a if c < .4 else a.astype(np.float32) if c < .7 else np.asfortranarray(a) if c < .85 else a.tolist()


def distinct(r, ib, n, avoid=(), span=40):
    seen, out = {tuple(x) for x in avoid}, []
    while len(out) < n:
        c = r.integers(-span, span + 1, (4 * n + 4, 3))
        if ib.d == 2:
            c[:, 2] = 0
        for x in inbox(ib, c):
            if tuple(x) not in seen and len(out) < n:
                seen.add(tuple(x))
                out.append(x)
    return np.array(out).reshape(n, 3)


def box(r, d, u):
    while True:
        ib = random_ibox(r, d=d, pow2=True, Ls=[8, 16, 32], per=[True] * 3, u=u, tilt=bool(r.random() < .3))
        if min(ib.planes()) >= 5:
            return ib


# so many that the pieces of a loop run in parallel have several entries (see vf.drive)
LONG = 500


def roomy(r, d, u):
    return IBox([32, 32, 1 if d == 2 else 32], d=d, u=u)


def bonds(r, e, ib, P, Qp, own, u, wraps):
    """neighbours argument: a ball query or an explicit list; fills in R16, bonds, excl"""
    n, m = len(P), len(Qp)
    f = lambda a: (np.asarray(a) * u).astype(np.float32)
    e.update(bonds=[], R16=0, excl=own)
    if r.random() < .4 and m < LONG:
        half = .49 * min(ib.planes())
        R4 = int(r.integers(3, max(4, int(4 * half))))
        e["R16"] = R4 * R4
        nb = dict(r_max=R4 / 4 * u)
        if own and r.random() < .3:
            nb["exclude_ii"] = True
        return nb
    k = int(r.choice([0, 1, 5, 30, 200 if m > 30 else 20])) if m < LONG else LONG + 100
    q, p = np.sort(r.integers(0, m, k)), r.integers(0, n, k)
    if r.random() < .3 and k:
        q = np.sort(r.choice(q, k))                  # some query points without bonds
    V = wraps(P[p] - Qp[q])
    keep = (V != 0).any(1)
    q, p, V = q[keep], p[keep], V[keep]
    w = r.integers(1, 9, len(q)) if r.random() < .7 else np.ones(len(q), int)
    e["bonds"] = [[int(a), int(b), ints(v), int(x)] for a, b, v, x in zip(q, p, V, w)]
    return NL.from_arrays(m, n, q, p, f(V), weights=w.astype(np.float32))


def wrapper(ib):
    A, m = ib.vectors(), np.array([1, 1, 1 if ib.d == 3 else 0])

    def f(v):
        v = np.asarray(v).reshape(-1, 3)
        return v - (np.floor(frac(ib, v) + 1e-9).astype(int) * m) @ A
    return f


def system(r, ib, P, u):
    f = (np.asarray(P) * u).astype(np.float32)
    c = r.random()
    return (ib.freud(), f) if c < .6 else freud.locality.AABBQuery(ib.freud(), f)


def hexatic(t):
    for ei in range(Q(150, 1500)):
        r = rng(PROP, ei)
        evs, k, weighted = [], int(r.choice([1, 2, 3, 4, 5, 6, 8, 12])), bool(r.random() < .5)
        o = freud.order.Hexatic(k, weighted) if k != 6 or weighted else freud.order.Hexatic()
        for _ in range(int(r.integers(1, 4))):
            u = float(r.choice([1, .5, 4]))
            bad = bool(r.random() < .05)
            many = ei % 25 == 24
            ib = roomy(r, 3 if bad else 2, u) if many else box(r, 3 if bad else 2, u)
            n = 60 if r.random() < .1 else LONG if many else int(r.integers(2, 14))
            n = n if many else min(n, ib.L[0] * ib.L[1] // 3)
            P = distinct(r, ib, n)
            e = dict(kind="hex", k=k, weighted=weighted, box=ib.rec(), P=ints(P), Q=ints(P), bad=bad)
            if r.random() < .15 and k + 1 <= 9 and not bad and not many:
                # default neighbours: everybody else, close together in a large box
                ib = IBox([256, 256, 1], d=2, u=u)
                P = distinct(r, ib, k + 1, span=8)
                e.update(box=ib.rec(), P=ints(P), Q=ints(P), R16=16 * 64 * 64, excl=True, bonds=[])
                kw = {}
            else:
                kw = dict(neighbors=bonds(r, e, ib, P, P, True, u, wrapper(ib)))
            t.doing(dict(call="Hexatic.compute", e=e))
            _, exc = attempt(lambda: o.compute(system(r, ib, P, u), **kw))
            e["exc"] = exc
            if not exc:
                z = o.particle_order
                e["psi"] = np.stack([np.array(fix(z.real, ONE)), np.array(fix(z.imag, ONE))], 1).tolist()
                if o.k != k or o.weighted != weighted:
                    e["psi"] = []
            evs.append(e)
        t.episode(ei, evs)


def rotational(t):
    for ei in range(Q(120, 1200)):
        r = rng(PROP, ei)
        evs, l = [], int(r.choice([0, 2, 4, 6, 8, 10, 12, 14, 16, 20]))
        o = freud.order.RotationalAutocorrelation(l)
        for _ in range(int(r.integers(1, 4))):
            n = int(r.choice([1, 2, 7, 20, 150] + [LONG] * (ei % 12 == 11)))
            a, b = quats(r, n), quats(r, n)
            if r.random() < .2:
                b = list(a)
            e = dict(kind="rot", l=l, a=a, b=b, bad=False)
            A, Bq = unit(a), unit(b)
            if r.random() < .08:
                e["bad"] = True
                A = A[:-1] if n > 1 else np.concatenate([A, A])
            x, y = forms(r, A), forms(r, Bq)
            t.doing(dict(call="RotationalAutocorrelation.compute", e=e))
            _, e["exc"] = attempt(lambda: o.compute(x, y))
            if not e["exc"]:
                z = o.particle_order
                e["ra"] = np.stack([np.array(fix(z.real, ONE)), np.array(fix(z.imag, ONE))], 1).tolist() if o.l == l else []
                e["order"] = fix(o.order, ONE)
            evs.append(e)
        if r.random() < .2:
            ll = int(r.choice([1, 3, 7, -2, -1]))
            _, exc = attempt(lambda: freud.order.RotationalAutocorrelation(ll))
            evs.append(dict(kind="rot", bad=True, exc=exc))
        t.episode(ei, evs)


def digest(o):
    z = 0
    for a in (o.order, o.orientation, o.particle_order, o.global_tensor, o.cubatic_tensor):
        z = zlib.crc32(np.ascontiguousarray(a).tobytes(), z)
    return z & 0x3fffffff


CHILD = """
import os, sys, json
a = json.loads(sys.argv[1])
os.sched_setaffinity(0, a["all"][:a["cpus"] or None])
import numpy as np, freud
o = freud.order.Cubatic(*a["args"]).compute(np.array(a["q"]))
import zlib
z = 0
for x in (o.order, o.orientation, o.particle_order, o.global_tensor, o.cubatic_tensor):
    z = zlib.crc32(np.ascontiguousarray(x).tobytes(), z)
print(json.dumps([z & 0x3fffffff, float(o.order)]))
"""


def divided(t):
    """many replicates, divided among few or many processors"""
    import subprocess
    import sys
    for ei in range(Q(2, 10)):
        r = rng(PROP, "divided", ei)
        q = quats(r, 3)
        reps = [int(x) for x in ([64, 400, 2000] if ei % 2 == 0 else [150, 900, 3000])]
        args = lambda k: [1.0, .05, .5, k, ei + SEED]
        e = dict(kind="cubdiv", bad=False, exc="", cases=[], more=[], q=q, args=args(0))
        for k in reps:
            case = []
            for cpus in (0, 1, 2):
                t.doing(dict(call="Cubatic.compute on %s processors" % (cpus or "all"), q=q, args=args(k)))
                p = subprocess.run([sys.executable, "-c", CHILD, json.dumps(dict(cpus=cpus, all=ARGS["cpus"], args=args(k), q=unit(q).tolist()))],
                                   capture_output=True, text=True, timeout=600)
                if p.returncode:
                    raise RuntimeError("child failed: " + p.stderr[-500:])
                d, order = json.loads(p.stdout)
                case.append(d)
            e["cases"].append(case)
            e["more"].append(fix(order, 1 << 20))
        t.episode(1000 + ei, [e])


def best(t):
    """every replicate can be the best one: each of the first four wins for some seed"""
    for ei in range(Q(3, 12)):
        r = rng(PROP, "best", ei)
        Qf = unit(quats(r, 12))
        rows = []
        for s in range(80):
            a = [1.0, .2, .5, s + 1000 * SEED]
            t.doing(dict(call="Cubatic.compute", q=Qf.tolist(), args=a))
            rows.append(fix([freud.order.Cubatic(*a[:3], n, a[3]).compute(Qf).order for n in (1, 2, 3, 4)], 1 << 20))
        t.episode(2000 + ei, [dict(kind="cubbest", bad=False, exc="", rows=rows, q=Qf.tolist())])


def cubatic(t):
    divided(t)
    best(t)
    par = freud.parallel
    for ei in range(Q(40, 320)):
        r = rng(PROP, ei)
        evs = []
        for _ in range(2):
            n = int(r.choice([1, 2, 5, 12, 40, 200]))
            kind = r.random()
            if kind < .3:           # perfectly aligned, in any of the cube's own orientations
                g = closure([(1, 1, 0, 0), (1, 0, 1, 0)])
                q0 = QUAT[int(r.integers(len(QUAT)))]
                q = [prim(mul(q0, g[int(r.integers(len(g)))])) for _ in range(n)]
                q = [x if sum(v * v for v in x) <= 6 else q0 for x in q]
            else:
                q = quats(r, n)
            t0, t1, sc = float(r.choice([5, 1, .5])), float(r.choice([.01, .001, .05])), float(r.choice([.9, .5, .8]))
            rep, seed = int(r.choice([1, 2, 3, 8, 16])), int(r.integers(0, 1000))
            Qf = forms(r, unit(q))
            e = dict(kind="cub", q=q, bad=False, runs=[], more=[], args=[t0, t1, sc, rep, seed])
            t.doing(dict(call="Cubatic.compute", e=e))

            def once(rep, threads):
                par.set_num_threads(threads)
                try:
                    return freud.order.Cubatic(t0, t1, sc, rep, seed).compute(Qf)
                finally:
                    par.set_num_threads(None)
            o, e["exc"] = attempt(lambda: once(rep, None))
            if not e["exc"]:
                e["runs"] = [dict(threads=str(k), digest=digest(once(rep, k))) for k in (None, 1, 2, 3, 8)]
                reps = sorted({1, 2, 4, rep})        # the replicates of a shorter run are among those of a longer one
                e["more"] = fix([once(k, None).order for k in reps], 1 << 20)
                ok = (abs(o.t_initial - t0) + abs(o.t_final - t1) + abs(o.scale - sc) < 1e-5) and o.n_replicates == rep and o.seed == seed
                e.update(G=fix(o.global_tensor, ONE), C=fix(o.cubatic_tensor, ONE), orient=fix(o.orientation, ONE),
                         order=fix(o.order, ONE), po=fix(o.particle_order, ONE) if ok else [])
                e["G"], e["C"] = np.ravel(e["G"]).tolist(), np.ravel(e["C"]).tolist()
            evs.append(e)
        if r.random() < .3:
            a = [(1, 2, .5), (1, 1e-7, .5), (1, .1, 1.0), (1, .1, 0.0), (1, .1, -.2)][int(r.integers(5))]
            _, exc = attempt(lambda: freud.order.Cubatic(*a, seed=1))
            evs.append(dict(kind="cub", bad=True, exc=exc, args=a))
        t.episode(ei, evs)


def halfturn(x):
    return np.ravel(fix(np.asarray(x, dtype=float) / 2 / (2 * np.pi), 65536)).tolist()


def separation(t):
    on, og = freud.environment.AngularSeparationNeighbor(), freud.environment.AngularSeparationGlobal()
    for ei in range(Q(120, 1200)):
        r = rng(PROP, ei)
        evs = []
        for _ in range(int(r.integers(1, 4))):
            eq = list(GROUPS[int(r.integers(len(GROUPS)))])
            r.shuffle(eq)
            eq = [tuple(int(v) for v in x) for x in eq]
            bad = bool(r.random() < .06)
            kw = {} if eq == [(1, 0, 0, 0)] and r.random() < .7 else dict(equiv_orientations=forms(r, unit(eq)))
            n, many = int(r.choice([1, 3, 8, 30])), ei % 20 == 19 and not evs
            if r.random() < (.6 if many else .4):
                m = int(r.choice([1, 2, 5]))
                if many:
                    n, m = LONG, 1
                o, g = quats(r, n), quats(r, m)
                e = dict(kind="sep", glob=True, o=o, g=g, eq=eq, bad=bad)
                G = unit(g)
                if bad:
                    G = G[:, :3]
                a = (forms(r, G), forms(r, unit(o)))
                t.doing(dict(call="AngularSeparationGlobal.compute", e=e))
                _, e["exc"] = attempt(lambda: og.compute(*a, **kw))
                if not e["exc"]:
                    e["shape"], e["ang"] = list(og.angles.shape), halfturn(og.angles)
            else:
                u = float(r.choice([1, .5]))
                ib = roomy(r, int(r.choice([2, 3])), u) if many else box(r, None, u)
                P = distinct(r, ib, n := min(n, int(np.prod(ib.L[:ib.d])) // 4))
                own = bool(r.random() < .35) and not many
                m = n if own else int(r.choice([1, 4, 11, 40]))
                m = LONG if many else m
                m = m if many else min(m, int(np.prod(ib.L[:ib.d])) // 4)
                Qp = P if own else distinct(r, ib, m, P)
                o = quats(r, n)
                qo = o
                e = dict(kind="sep", glob=False, box=ib.rec(), P=ints(P), Q=ints(Qp), o=o, eq=eq, bad=bad)
                kw["neighbors"] = bonds(r, e, ib, P, Qp, own, u, wrapper(ib))
                if not own:
                    kw["query_points"] = forms(r, Qp * u)
                if not own or r.random() < .3:
                    qo = quats(r, m)
                    kw["query_orientations"] = forms(r, unit(qo))
                O = unit(o)
                if bad:
                    O = np.concatenate([O, O[:1]])
                e["qo"] = qo
                t.doing(dict(call="AngularSeparationNeighbor.compute", e=e))
                _, e["exc"] = attempt(lambda: on.compute(system(r, ib, P, u), forms(r, O), **kw))
                if not e["exc"]:
                    e["rows"], e["ang"] = ints(on.nlist[:]), halfturn(on.angles)
            evs.append(e)
        t.episode(ei, evs)


def projection(t):
    o = freud.environment.LocalBondProjection()
    for ei in range(Q(120, 1200)):
        r = rng(PROP, ei)
        evs = []
        for _ in range(int(r.integers(1, 4))):
            eq = list(GROUPS[int(r.integers(len(GROUPS)))])
            r.shuffle(eq)
            eq = [tuple(int(v) for v in x) for x in eq]
            kw = {} if eq == [(1, 0, 0, 0)] and r.random() < .7 else dict(equiv_orientations=forms(r, unit(eq)))
            u = float(r.choice([1, .5]))
            many = ei % 20 == 19 and not evs
            ib = roomy(r, int(r.choice([2, 3])), u) if many else box(r, None, u)
            cap = int(np.prod(ib.L[:ib.d])) // 4
            n = min(int(r.choice([1, 3, 8, 30])), cap)
            P = distinct(r, ib, n)
            own = bool(r.random() < .4) and not many
            m = n if own else min(int(r.choice([1, 4, 11, 40])), cap)
            m = LONG if many else m
            Qp = P if own else distinct(r, ib, m, P)
            g = quats(r, n)
            p = r.integers(-2, 3, (int(r.choice([1, 2, 4])), 3))
            p[(p == 0).all(1)] = [0, 0, 1]
            e = dict(kind="lbp", box=ib.rec(), P=ints(P), Q=ints(Qp), o=g, eq=eq, p=ints(p), bad=False)
            kw["neighbors"] = bonds(r, e, ib, P, Qp, own, u, wrapper(ib))
            if not own:
                kw["query_points"] = forms(r, Qp * u)
            t.doing(dict(call="LocalBondProjection.compute", e=e))
            G = unit(g)
            if r.random() < .06:
                e["bad"] = True
                G = np.concatenate([G, G[:2]]) if r.random() < .5 or n == 1 else G[:-1]
            a = (forms(r, G), forms(r, p.astype(float)))
            _, e["exc"] = attempt(lambda: o.compute(system(r, ib, P, u), *a, **kw))
            if not e["exc"]:
                e["rows"], e["shape"], e["nshape"] = ints(o.nlist[:]), list(o.projections.shape), list(o.normed_projections.shape)
                e["pr"] = np.ravel(fix(o.projections / u, 256)).tolist()
                e["no"] = np.ravel(fix(o.normed_projections, ONE)).tolist()
            evs.append(e)
        t.episode(ei, evs)


main(dict(O01=hexatic, O02=cubatic, O03=rotational, E01=separation, E02=projection)[PROP])
