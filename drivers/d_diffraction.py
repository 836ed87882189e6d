"""StaticStructureFactorDebye (D04) and DiffractionPattern (D05)."""
import itertools, warnings
import numpy as np
import rowan
import freud
from dlib import *

warnings.simplefilter("ignore")


def debye(t):
    for ei in range(Q(70, 700)):
        r = rng(PROP, ei)
        u = float(r.choice([1, .5, 2, .25]))
        d = int(r.choice([2, 3]))
        many = ei % 14 == 13              # so many that the pieces of a loop run in parallel have several
        n = int(r.choice([2, 3, 5, 9])) if not many else 401
        a = int(r.choice([0, 0, 1, 3]))
        b = a + int(r.integers(1, 8 if d == 2 else 16))
        K = 2 * np.pi / 16 / u
        o = freud.diffraction.StaticStructureFactorDebye(n, b * K, a * K) if a or r.random() < .5 else freud.diffraction.StaticStructureFactorDebye(n, b * K)
        evs = []
        ib = None
        for k in range(int(r.integers(1, 5))):
            reset = bool(r.random() < .4) or (k == 0 and r.random() < .8)
            if ib is None or r.random() < .3:
                ib = random_ibox(r, d=d, pow2=True, Ls=[4, 8] if d == 2 else [4, 8, 16], per=[True] * 3 if r.random() < .8 else None, u=u, tilt=bool(r.random() < .3))
            N = int(r.choice([1, 2, 5, 9] + [40] * (r.random() < .2))) if not many else 2
            if any(ib.b):
                N = min(N, 5)
            P = inbox(ib, r.integers(-20, 21, (N, 3)) * [1, 1, d - 2])
            f = lambda x: (np.asarray(x) * u).astype(np.float32)
            kw = {}
            Qp, NT, bad = P, N, False
            c = r.random()
            if c < .35:
                M = int(r.choice([1, 2, 4, 8]))
                Qp = inbox(ib, r.integers(-20, 21, (M, 3)) * [1, 1, d - 2])
                NT = M + N if r.random() < .7 else int(r.integers(1, 30))
                kw = dict(query_points=f(Qp), N_total=NT)
            elif c < .45:
                kw = dict(query_points=f(Qp)) if r.random() < .5 else dict(N_total=N)
                bad = True
            if any(ib.b):
                # separations exactly on a face have no unique image in a tilted box
                g = frac(ib, (P[:, None] - Qp[None]).reshape(-1, 3))[:, :d]
                if (np.abs(g - np.round(g)) < 1e-9)[:, np.array(ib.per[:d])].any():
                    ib = IBox(ib.L, d=d, per=ib.per, u=u)
                    P, Qp = inbox(ib, P), inbox(ib, Qp)
                    if "query_points" in kw:
                        kw["query_points"] = f(Qp)
            s = (ib.freud(), f(P))
            e = dict(box=ib.rec(), P=ints(P), Q=ints(Qp), N=NT, reset=reset, bad=bad)
            t.doing(dict(e, u=u, k=(n, b, a)))
            _, e["exc"] = attempt(lambda: o.compute(s, reset=reset, **kw))
            e["k"] = fix(np.asarray(o.k_values) / K, 4096)
            if o.num_k_values != n or not np.allclose(o.bounds, (a * K, b * K), rtol=1e-4, atol=1e-4 * K):
                e["k"] = []
            e["S"], e["kmin"] = [], [0, 0]
            if not e["exc"]:
                e["S"], e["kmin"] = fix(o.S_k, 16384), real(o.min_valid_k * u)[0]
            evs.append(e)
        t.episode("debye/%d" % ei, evs, kind="debye", n=n, a=a, b=b)


def cube_rotations():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product([1, -1], repeat=3):
            m = np.zeros((3, 3), int)
            for i in range(3):
                m[i, p[i]] = s[i]
            if round(np.linalg.det(m)) == 1:
                out.append(m)
    return out


def pattern(t):
    ROT = cube_rotations()
    n_ep = Q(40, 400)
    for ei in range(n_ep + 1):
        r = rng(PROP, ei)
        G = int(r.choice([4, 8, 16] if ei % 4 else [5, 7, 12]))
        O = int(r.choice([8, 12, 16, 9, 15]))
        big = ei % 20 == 7
        if big:
            G, O = 32, 32
        head = dict(kind="diffraction", G=G, O=O)
        o = freud.diffraction.DiffractionPattern(G, O) if O != G or r.random() < .5 else freud.diffraction.DiffractionPattern(grid_size=G)
        evs = []
        zn, zd = [(1, 1), (2, 1), (4, 1), (3, 1), (3, 2), (5, 2)][int(r.integers(6))]
        pw = int(r.choice([1, 1, 2, 0]))
        m = ROT[int(r.integers(24))]
        known = ei == n_ep
        if known:
            m = np.eye(3, dtype=int)
        L = G * int(r.integers(1, 4))
        for k in range(1 if known else int(r.integers(1, 4))):
            u = float(r.choice([1, .5, 3]))
            reset = bool(r.random() < .4) or k == 0
            if reset:
                m = m if known else ROT[int(r.integers(24))]
                L = G * int(r.integers(1, 4))
            N = 60 if big else int(r.integers(1, 12))
            P = 2 * r.integers(-L // 2 - 1, L // 2 + 1, (N, 3)) + 1          # half units, odd
            if L % 2:
                P = P - 1                                  # bin edges are at odd half units
            if r.random() < .5:
                P = P[r.integers(0, N, N)]
            elif r.random() < .4:
                P[:, int(r.integers(3))] = P[0, 0]
            if r.random() < .7:
                P = (P + L) % (2 * L) - L
            w = r.integers(1, 5, N) if r.random() < .4 else np.ones(N, int)
            if (w != 1).any() and r.random() < .4:      # some of them negative, the total well above zero
                for i in r.permutation(N):
                    if 2 * (w.sum() - 2 * w[i]) >= np.abs(w).sum():
                        w[i] = -w[i]
            kw = dict(weights=w.astype(float)) if (w != 1).any() else {}
            if (m != np.eye(3)).any() or r.random() < .5:
                q = rowan.from_matrix(m.astype(float))
                kw["view_orientation"] = q if r.random() < .5 else -q
            bad = not known and bool(r.random() < .08)
            box = freud.box.Box(L * u, L * u, 2 * L * u) if bad else freud.box.Box.cube(L * u)
            e = dict(L=L, P=ints(P), w=ints(w), zn=zn, zd=zd, pw=pw, view=ints(m), reset=reset, bad=bad, D=[], kv=[], kvec=[], shapes=True, same=True)
            t.doing(dict(e, G=G, O=O))
            if bad:
                e["reset"] = reset = False
            s = (box, (P * u / 2).astype(np.float32))
            _, e["exc"] = attempt(lambda: o.compute(s, zoom=zn / zd, peak_width=pw, **({} if reset and ei % 2 else dict(reset=reset)), **kw))
            if e["exc"] or bad:
                evs.append(e)
                continue
            D = np.array(o.diffraction)
            S = 2 * np.pi / (L * u) * zd / zn / 1024
            e["shapes"] = D.shape == (O, O) and o.k_values.shape == (O,) and o.k_vectors.shape == (O, O, 3) and o.N_points == N and o.output_size == O and o.grid_size == G
            e["D"], e["kv"] = fix(D.ravel(), 4096), fix(o.k_values / S, 1)
            e["kvec"] = fix(o.k_vectors.reshape(-1, 3) / S, 1)
            im = o.to_image()
            e["same"] = bool(np.array_equal(D, o.diffraction) and im.shape == (O, O, 4) and im.dtype == np.uint8)
            evs.append(e)
        if known:
            head.update(strict=True, known="kvectors-transposed")
        t.episode("pattern/%d" % ei, evs, **head)


main(debye if PROP == "D04" else pattern)
