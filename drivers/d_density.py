"""LocalDensity, SphereVoxelization, GaussianDensity (D01-D03)."""
import warnings
import numpy as np
import freud
from dlib import *

warnings.simplefilter("ignore")
NL = freud.locality.NeighborList


def local(t):
    for ei in range(Q(160, 1600)):
        r = rng(PROP, ei)
        u = float(r.choice([1, .5, 2, .25]))
        R4 = int(r.integers(2, 17))
        S4 = int(r.choice([0, 1, 2, 4, 6, 8, 2 * R4, 3 * R4]))
        o = freud.density.LocalDensity(R4 / 4 * u, S4 / 4 * u)
        evs = []
        for k in range(int(r.integers(1, 4))):
            while True:
                ib = random_ibox(r, pow2=True, Ls=[8, 16, 32], per=[True] * 3, u=u, tilt=bool(r.random() < .3))
                if .49 * min(ib.planes()) > (R4 + S4 / 2) / 4 or k == 0 and min(ib.planes()) > 5:
                    break
                if r.random() < .02:
                    ib = IBox([64, 64, 64], u=u)
                    break
            n = 60 if r.random() < .06 else int(r.integers(1, 14))
            own = bool(r.random() < .4)
            m = n if own else int(r.integers(1, 14))
            if ei % 20 == 19 and k == 0:    # so many that the pieces of a loop run in parallel have several (see vf.drive)
                n, m, own = min(n, 3), 500, False
            P = inbox(ib, r.integers(-40, 41, (n, 3)) * [1, 1, ib.d - 2])
            Qp = P if own else inbox(ib, r.integers(-40, 41, (m, 3)) * [1, 1, ib.d - 2])
            f = lambda a: (np.asarray(a) * u).astype(np.float32)
            half = .49 * min(ib.planes())
            e = dict(kind="local", box=ib.rec(), P=ints(P), Q=ints(Qp), excl=own, explicit=False, bonds=[], R16=0, R4=R4, S4=S4, u=real(u)[0])
            kw = {}
            c = r.random()
            if (R4 + S4 / 2) / 4 < half and c < .5:
                pass
            elif c < .7:
                q4 = int(r.integers(2, max(3, int(4 * half))))
                e["R16"] = q4 * q4
                nb = dict(r_max=q4 / 4 * u)
                if r.random() < .3:
                    nb["exclude_ii"] = e["excl"] = bool(r.random() < .5) or own
                kw["neighbors"] = nb
            else:
                e["explicit"] = True
                b = int(r.choice([0, 1, 8, 50])) if m < 500 else 600
                q = np.sort(r.integers(0, m, b))
                v = r.integers(-9, 10, (b, 3)) * [1, 1, ib.d - 2]
                e["bonds"] = [[int(a), ints(w)] for a, w in zip(q, v)]
                kw["neighbors"] = NL.from_arrays(m, n, q, r.integers(0, n, b), f(v), r.choice([1., .25, 3.], b))
            if not own:
                kw["query_points"] = f(Qp)
            s = (ib.freud(), f(P)) if r.random() < .6 else freud.locality.AABBQuery(ib.freud(), f(P))
            t.doing(dict(e, u=u))
            _, e["exc"] = attempt(lambda: o.compute(s, **kw))
            e["num"], e["dens"] = ([], []) if e["exc"] else (fix(o.num_neighbors, 16384), real(o.density))
            evs.append(e)
        t.episode("local/%d" % ei, evs)


def grid(t):
    gauss = PROP == "D03"
    for ei in range(Q(150, 1500)):
        r = rng(PROP, ei)
        pow2 = bool(r.random() < .6)
        u = float(r.choice([1, .5, 2, .25])) if pow2 else float(r.choice([1, .5, .1]))
        d = int(r.choice([2, 3]))
        big = r.random() < .05
        R4 = int(r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 21, 30, 40]))
        S4 = int(r.choice([2, 3, 4, 6, 8, 12]))
        W = [1, 2, 4, 8] if pow2 else [1, 2, 3, 4, 5, 6, 7, 8]
        w = [int(r.choice(W)) for _ in range(3)]
        if big:
            w = [int(r.choice([16, 32] if pow2 else [13, 20, 32])) for _ in range(2)] + [1]
            d = 2
        if d == 2:
            w[2] = 1
        one = r.random() < .4
        if one:
            w = [w[0]] * d + [1] * (3 - d)
            arg = w[0]
        else:
            arg = w[:d] if d == 2 or r.random() < .5 else tuple(w)
        mk = freud.density.SphereVoxelization if not gauss else (lambda a, b: freud.density.GaussianDensity(a, b, S4 / 4 * u))
        o = mk(arg, R4 / 4 * u)
        evs = []
        for k in range(int(r.integers(1, 4))):
            G = [1, 2, 4, 8] if pow2 else [1, 2, 3, 5]
            L = [x * int(r.choice(G)) for x in w]
            L = [2 * x if x < 2 else x for x in L]
            per = [True] * 3 if r.random() < .5 else [bool(x) for x in r.integers(0, 2, 3)]
            ib = IBox(L, d=d, u=u, ex=pow2, per=per)
            n = (300 if ei % 3 == 0 else int(r.integers(40, 120))) if big else int(r.integers(1, 9))
            P = r.integers(-40, 41, (n, 3)) * [1, 1, d - 2]
            far = P
            if r.random() < .8:
                P = inbox(ib, P)
            if r.random() < .3:                 # outside along directions that are not periodic
                P = np.where(per, P, np.clip(far, *[np.array([s * x // 2 for x in ib.L]) + s * 6 for s in (-1, 1)])) * [1, 1, d - 2]
            e = dict(kind="gauss" if gauss else "voxel", box=ib.rec(), P=ints(P), w=w, R4=R4, S4=S4, u=real(u)[0], exc="", shape=[], res=[])
            kw = {}
            if gauss:
                val = np.ones(n, int)
                if r.random() < .7:
                    val = r.integers(-4, 5, n)
                    kw["values"] = val.astype(float) if r.random() < .5 else val.tolist()
                e["val"] = ints(val)
            p = (np.asarray(P) * u).astype(np.float32)
            s = (ib.freud(), p) if r.random() < .5 else freud.locality.AABBQuery(ib.freud(), p)
            t.doing(dict(e, u=u))
            _, e["exc"] = attempt(lambda: o.compute(s, **kw))
            if not e["exc"]:
                x = np.asarray(o.density if gauss else o.voxels)
                e["shape"] = list(x.shape)
                e["res"] = real(x) if gauss else ints(x.ravel())
            evs.append(e)
        t.episode("%s/%d" % (e["kind"], ei), evs)


main(local if PROP == "D01" else grid)
