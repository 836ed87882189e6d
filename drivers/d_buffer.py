"""PeriodicBuffer (P01) and UnitCell / random systems (U01)."""
import numpy as np
import freud
from dlib import *


def inside(r, ib, n):
    """integer points with fractional coordinates in [0, 1)"""
    out = []
    A = ib.vectors()[:ib.d, :ib.d].T.astype(float)
    while len(out) < n:
        v = r.integers(-2 * max(ib.L), 2 * max(ib.L) + 1, 3)
        if ib.d == 2:
            v[2] = 0
        f = np.linalg.solve(A, v[:ib.d]) + .5
        k = np.floor(f + 1e-9).astype(int)
        v[:ib.d] -= (ib.vectors()[:ib.d, :ib.d].T @ k)
        out.append(v)
    return np.array(out)


def inside_of(ib, P):
    A = ib.vectors()[:ib.d, :ib.d].T.astype(float)
    k = np.floor(np.linalg.solve(A, P[:, :ib.d].T.astype(float)).T + .5 + 1e-9).astype(int)
    P = P.copy()
    P[:, :ib.d] -= k @ ib.vectors()[:ib.d, :ib.d]
    return P


def buffers(t):
    for ei in range(Q(40, 400)):
        r = rng("buf", ei)
        ib = random_ibox(r, pow2=ei % 4 != 3, Ls=[4, 8, 16] if ei % 4 != 3 else [5, 6, 10], per=[True] * 3,
                         u=float(r.choice([1, .5, 2])))
        edge = ei % 4 == 1          # large cells, points on or next to faces, buffers just beyond a multiple of L
        if edge:
            ib = random_ibox(r, pow2=True, Ls=[32, 64, 128], per=[True] * 3, u=float(r.choice([1, .5, 2])))
        pb = freud.locality.PeriodicBuffer()
        evs = []
        for k in range(4):
            n = int(r.choice([1, 2, 5, 12, Q(30, 80)], p=[.2, .2, .3, .2, .1]))
            P = inside(r, ib, n)
            if edge:
                P = P[:4]
                V, h = ib.vectors()[:ib.d], np.array(ib.L)[:ib.d]
                for j in range(len(P)):     # a point exactly on or one unit above the lower faces
                    for c in range(ib.d):
                        if r.random() < .6:
                            fr = np.linalg.solve(V[:, :ib.d].T.astype(float), P[j][:ib.d]) + .5
                            P[j][:ib.d] -= np.rint(V[c][:ib.d] * (np.floor(fr[c] * h[c] / 1) / h[c])).astype(int)
                P = inside_of(ib, P)
                n = len(P)
            f = (P * ib.u).astype(np.float32)
            sysm = [(ib.freud(), f), freud.locality.AABBQuery(ib.freud(), f), (ib.freud(), f.tolist())][int(r.integers(0, 3))]
            images, incl = bool(r.integers(0, 2)), bool(r.integers(0, 2))
            bad = ""
            hi = 3 * max(ib.L) if n < 6 else max(ib.L)
            if images:
                nn = r.integers(0, 4 if n < 6 else 3, 3)
                arg = [float(x) if r.random() < .5 else max(0., x - .5) for x in nn]
                if r.random() < .4:
                    nn[:] = nn[0]
                    arg = int(nn[0]) if r.random() < .5 else max(0., nn[0] - .25)
                b2 = [0, 0, 0]
            else:
                b2 = r.integers(0, hi, 3)
                if r.random() < .3:
                    b2 = 2 * (b2 // 2) if r.random() < .5 else b2 * (r.random(3) < .6)
                if r.random() < .4:
                    b2[:] = b2[0]
                    arg = float(b2[0]) / 2 * ib.u
                else:
                    arg = [float(x) / 2 * ib.u for x in b2]
                if edge:
                    b2 = 2 * np.array(ib.L) * r.integers(0, 3, 3) + r.integers(-1, 3, 3)
                    b2 = np.maximum(b2, 0)
                    arg = [float(x) / 2 * ib.u for x in b2]
                nn = [0, 0, 0]
            if r.random() < .12:
                a = [arg] * 3 if np.ndim(arg) == 0 else list(arg)
                i = int(r.integers(0, 4))
                if i == 3:
                    arg, bad = a[:2], "buffer of length 2"
                else:
                    a[i] = -1.0
                    arg, bad = a, "negative buffer"
            t.doing(dict(box=ib.rec(), u=ib.u, P=ints(P), buffer=arg, images=images, include=incl))
            _, exc = attempt(lambda: pb.compute(sysm, arg, images=images, include_input_points=incl))
            e = dict(op="buffer", P=ints(P), b2=ints(b2), n=ints(nn), images=images, incl=incl, bad=bad, exc=exc, pts=[], ids=[])
            if not bad and not exc:
                bb = pb.buffer_box
                e.update(pts=toint(np.asarray(pb.buffer_points).reshape(-1, 3) / ib.u, tol=.01), ids=ints(pb.buffer_ids),
                         bL2=toint(2 * np.array([bb.Lx, bb.Ly, bb.Lz]) / ib.u, tol=.01), bd=int(bb.dimensions),
                         tilt=fix([bb.xy, bb.xz, bb.yz], 1e6),
                         bigex=bool(ib.ex and all(x & (x + 1) == 0 for x in ints(nn)[:ib.d])))
            evs.append(e)
        t.episode("buffer/%d" % ei, evs, box=ib.rec(), name="")


UC = freud.data.UnitCell
NAMED = dict(sc=(UC.sc, 2), bcc=(UC.bcc, 2), fcc=(UC.fcc, 2), hcp=(UC.hcp, 12), square=(UC.square, 2), hex=(UC.hex, 2),
             graphene=(UC.graphene, 6), rect=(UC.rectangular, 2), rect3c=(lambda: UC.rectangular(3, centered=True), 2),
             oblique=(UC.oblique, 2), oblique60=(lambda: UC.oblique(2, 60), 2))


def matrix(b):
    L = [b.Lx, b.Ly, b.Lz if b.dimensions == 3 else 1.0]
    return np.array([[L[0], b.xy * L[1], b.xz * L[2]], [0, L[1], b.yz * L[2]], [0, 0, L[2]]])


def cell_events(t, r, uc, D, basis, name, case):
    b = uc.box
    A = matrix(b)
    evs = [dict(op="cell", d=int(uc.dimensions), L=fix([b.Lx, b.Ly, b.Lz], 1e6), t=fix([b.xy, b.xz, b.yz], 1e6),
                basis=toint(np.asarray(uc.basis_positions, dtype=float), D),
                vec=bool(np.allclose(np.c_[uc.a1, uc.a2, uc.a3][:uc.dimensions, :uc.dimensions], A[:uc.dimensions, :uc.dimensions], atol=1e-5)))]
    for k in range(5):
        n = [int(x) for x in r.integers(1, 5, 3)] if k else [1, 1, 1]
        bad = ""
        if uc.dimensions == 2:
            n[2] = 1
        arg = tuple(n)
        if r.random() < .3:
            n = [n[0], n[0], n[0] if uc.dimensions == 3 else 1]
            arg = n[0]
        if r.random() < .15:
            arg, bad = [(0, "zero replicas"), ((1, -1, 1), "negative replicas"), ((1.5, 1, 1), "fractional replicas"),
                        ((2, 2, 0), "zero replicas"), (-3, "negative replicas")][int(r.integers(0, 5))]
            if uc.dimensions == 2 and r.random() < .5:
                arg, bad = (2, 2, 2), "z replicas in 2D"
        s = float(r.choice([1, 1, 2, .5, 3, .1]))
        t.doing(dict(cell=case, replicas=arg, scale=s))
        kw = dict(scale=s) if s != 1 or r.random() < .5 else {}
        if n == [1, 1, 1] and not bad and r.random() < .5:
            res, exc = attempt(lambda: uc.generate_system(**kw))
        else:
            res, exc = attempt(lambda: uc.generate_system(arg, **kw))
        e = dict(op="system", n=n, bad=bad, exc=exc, f=[], boxok=True)
        if res is not None and not bad:
            box, pos = res
            A2 = A * np.array(n)[None, :] * s
            if uc.dimensions == 2:
                A2[2, 2] = 1
            e["boxok"] = bool(box.dimensions == uc.dimensions and np.allclose(matrix(box), A2, rtol=1e-5, atol=1e-5 * s))
            fr = np.linalg.solve(A2, np.asarray(pos, dtype=float).T).T + .5
            if uc.dimensions == 2:
                fr[:, 2] = np.where(pos[:, 2] == 0, 0, np.nan)
            e["f"] = toint(fr * np.array(n) * D, tol=.02)
        evs.append(e)
    n = 3 if uc.dimensions == 3 else (3, 2, 1)
    sg = .01 * float(min(b.Lx, b.Ly))
    sd = 0 if r.random() < .3 else int(r.integers(0, 1000))
    sc = float(r.choice([1, 1, 2, .5]))
    b0, p0 = uc.generate_system(n, seed=sd, scale=sc)
    (b1, p1), (b2, p2), (b3, p3) = [uc.generate_system(n, sigma_noise=sg, seed=x, scale=sc) for x in (sd, sd, sd + 1)]
    dist = b0.compute_distances(p0, p1)
    evs.append(dict(op="noise", same=bool((p1 == p2).all() and b1 == b2), boxsame=bool(b0 == b1 == b3), moved=bool((dist > 0).any()),
                    other=bool((p1 != p3).any()), bound=bool((dist < 10 * sg).all()), inside=bool(near_inside(b1, p1)),
                    flat=bool(uc.dimensions == 3 or (p1[:, 2] == 0).all())))
    t.episode(case, evs, name=name, D=D, basis=basis)


def near_inside(b, p):
    f = np.linalg.solve(matrix(b), np.asarray(p, dtype=float).T).T[:, :b.dimensions] + .5
    return (f > -1e-5).all() and (f < 1 + 1e-5).all()


def cells(t):
    names = list(NAMED)
    for k in range(Q(22, 110)):
        r = rng("named", k)
        name = names[k % len(names)]
        mk, D = NAMED[name]
        uc = mk()
        cell_events(t, r, uc, D, toint(np.asarray(uc.basis_positions, dtype=float), D), name, "named/%s/%d" % (name, k))
    for k in range(Q(25, 250)):
        r = rng("cell", k)
        ib = random_ibox(r, pow2=bool(r.integers(0, 2)), per=[True] * 3, u=float(r.choice([1, .1, .5])))
        D = int(r.choice([2, 3, 4, 5, 8]))
        m = int(r.integers(1, 6))
        basis = np.unique(r.integers(0, D, (m, 3)) * ([1, 1, 1] if ib.d == 3 else [1, 1, 0]), axis=0)
        r.shuffle(basis)
        fb = basis / D
        arg = fb.tolist() if r.random() < .5 else fb.astype(np.float32)
        box = ib.freud()
        uc = UC(box if r.random() < .6 else box.to_matrix() if ib.d == 3 else box, arg)
        cell_events(t, r, uc, D, ints(basis), "", "cell/%d" % k)
    for k in range(Q(6, 30)):
        r = rng("random", k)
        n, d2, sd, L = int(r.choice([1, 10, 300])), bool(k % 2), int(r.integers(0, 99)) if k > 1 else 0, float(r.choice([1, 7, 20.5]))
        st = str(np.random.get_state()[1:3])
        mk = lambda s: freud.data.make_random_system(L, n, is2D=d2, seed=s)
        (b, p), (bb, pp), (_, po) = mk(sd), mk(sd), mk(sd + 1)
        t.episode("random/%d" % k, [dict(op="random", n=len(p), want=n, inside=bool(near_inside(b, p)) and (not d2 or bool((p[:, 2] == 0).all())),
                                         d=int(b.dimensions), wantd=2 if d2 else 3, L=bool(b.Lx == np.float32(L) and b.Ly == np.float32(L) and (d2 or b.Lz == np.float32(L)) and b.xy == 0),
                                         same=bool((p == pp).all() and b == bb), other=bool((p != po).any()), state=str(np.random.get_state()[1:3]) == st)], name="")


main(buffers if PROP == "P01" else cells)
