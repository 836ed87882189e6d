"""Clusters, cluster properties and interfaces (C01, C02, I01)."""
import numpy as np
import freud
from dlib import *

NL = freud.locality.NeighborList


def nlist(nq, n_p, q, p, r=None):
    q, p = np.asarray(q, dtype=int), np.asarray(p, dtype=int)
    o = np.argsort(q, kind="stable")
    v = np.zeros((len(q), 3), dtype=np.float32)
    v[:, 0] = 1
    return NL.from_arrays(nq, n_p, q[o], p[o], v), q[o], p[o]


def inbox(ib, P):
    return P - np.floor(frac(ib, P)).astype(int) @ ib.vectors() if ib.d == 3 else P - np.floor(frac(ib, P) * [1, 1, 0]).astype(int) @ ib.vectors()


def graph(r, n):
    """bond lists of several shapes"""
    k = int(r.integers(0, 6))
    if k == 0:
        q = p = np.zeros(0, dtype=int)
    elif k == 1:                               # sparse random
        m = int(r.integers(0, n + 1))
        q, p = r.integers(0, n, m), r.integers(0, n, m)
    elif k == 2:                               # long chain in shuffled order and directions
        o = r.permutation(n)
        cut = r.random(max(n - 1, 0)) < .9
        a, b = o[:-1][cut], o[1:][cut]
        f = r.random(len(a)) < .5
        q, p = np.where(f, a, b), np.where(f, b, a)
    elif k == 3:                               # stars
        hub = r.integers(0, n, 3)
        p = r.integers(0, n, n)
        q = hub[r.integers(0, 3, n)]
    elif k == 4:                               # cliques, both directions
        lab = r.integers(0, max(1, n // 4), n)
        q, p = np.nonzero(lab[:, None] == lab[None, :])
        m = r.random(len(q)) < .5
        q, p = q[m], p[m]
    else:                                      # one dense cluster
        m = 3 * n
        q, p = r.integers(0, n, m), r.integers(0, n, m)
    return q, p


def clusters(t):
    for ei in range(Q(30, 300)):
        r = rng("cl", ei)
        cl = freud.cluster.Cluster()
        evs = []
        for k in range(6):
            kind = int(r.integers(0, 3))
            e = dict(op="cluster", r2=0, q=[], p=[], Q=[], P=[], box=None)
            if kind < 2:
                n = int(r.choice([1, 2, 3, 8, 30, Q(90, 220)], p=[.05, .1, .2, .25, .25, .15]))
                q, p = graph(r, n)
                if ei % 10 == 9 and k == 2:     # so many that the pieces of a loop run in parallel have several (see vf.drive)
                    n = 300
                    q, p = [x[:n] for x in graph(r, n)]
                nl, q, p = nlist(n, n, q, p)
                e.update(q=ints(q), p=ints(p))
                if r.random() < .5:
                    nl.sort(by_distance=bool(r.integers(0, 2)))
                ib = IBox([64, 64, 64])
                P = r.integers(-30, 30, (n, 3))
                kw = dict(neighbors=nl)
            else:
                ib = random_ibox(r, pow2=True, Ls=[8, 16], per=[True] * 3, u=float(r.choice([1, .5])))
                n = int(r.integers(1, 26))
                P = r.integers(-8, 8, (n, 3))
                if ib.d == 2:
                    P[:, 2] = 0
                P = inbox(ib, P)
                r2 = int(r.integers(1, max(2, int(.95 * min(ib.planes())))))
                e.update(r2=r2, P=ints(P), Q=ints(P))
                kw = dict(neighbors=dict(r_max=r2 / 2 * ib.u))
            keys = None
            if r.random() < .5:
                keys = r.integers(0, 50, n) if r.random() < .5 else r.permutation(n) + 7
                kw["keys"] = keys if r.random() < .5 else keys.tolist()
            f = (P * ib.u).astype(np.float32)
            sysm = (ib.freud(), f) if r.random() < .5 else freud.locality.LinkCell(ib.freud(), f, cell_width=max(r2 / 2 * ib.u, 1)) if kind == 2 and r.random() < .5 and max(r2 / 2 * ib.u, 1) < .49 * min(ib.planes()) * ib.u else freud.locality.AABBQuery(ib.freud(), f)
            e.update(n=n, keys=ints(np.arange(n) if keys is None else keys), box=ib.rec())
            t.doing(dict(e, u=ib.u))
            _, exc = attempt(lambda: cl.compute(sysm, **kw))
            e["exc"] = exc
            e.update(idx=[], ckeys=[], num=0)
            if not exc:
                e.update(idx=ints(cl.cluster_idx), num=int(cl.num_clusters), ckeys=[ints(x) for x in cl.cluster_keys])
            evs.append(e)
        t.episode("cluster/%d" % ei, evs)


def frac(ib, v):
    A = ib.vectors().T.astype(float)
    if ib.d == 2:
        A[2, 2] = 1
    return np.linalg.solve(A, np.asarray(v, dtype=float).T).T + .5


def props(t):
    for ei in range(Q(40, 400)):
        r = rng("props", ei)
        ib = random_ibox(r, pow2=True, Ls=[8, 16], per=[True] * 3, u=float(r.choice([1, .5, 2])))
        u = ib.u
        cp = freud.cluster.ClusterProperties()
        evs = []
        for k in range(4):
            nc = int(r.integers(1, 6))
            n = int(r.choice([1, 4, 12, 30]))
            lab = r.integers(0, nc, n)
            if r.random() < .2:
                lab = np.sort(lab)
            cen = r.integers(-8, 9, (nc, 3))
            w = int(r.choice([1, 2, 3, 8], p=[.2, .4, .3, .1]))
            P = cen[lab] + r.integers(-w, w + 1, (n, 3))
            if ib.d == 2:
                P[:, 2] = 0
            mass = r.integers(1, 9, n)
            if r.random() < .2:
                mass[:] = 1
            um = bool(r.random() < .75)
            bad = ""
            f = (P * u).astype(np.float32)
            kw = dict(masses=mass.astype(np.float32) if r.random() < .5 else mass.tolist()) if um else {}
            la = lab if r.random() < .5 else lab.tolist()
            if r.random() < .1 and k:
                j = int(r.integers(0, 4))
                if j == 0:
                    kw["masses"], bad = mass[:-1] if n > 1 else np.ones(2), "too few masses"
                elif j == 1:
                    kw["masses"], bad = np.ones(n + 1), "too many masses"
                elif j == 2:
                    la, bad = np.r_[lab, 0], "too many labels"
                else:
                    la, bad = np.r_[lab, 0, 0][:n - 1] if n > 1 else np.zeros(2, int), "too few labels"
            t.doing(dict(box=ib.rec(), u=u, P=ints(P), labels=ints(la), masses=ints(mass) if um else None, bad=bad))
            _, exc = attempt(lambda: cp.compute((ib.freud(), f), la, **kw))
            e = dict(op="props", P=ints(P), lab=ints(lab), mass=ints(mass if um else np.ones(n)), bad=bad, exc=exc, out=[], shapes=True,
                     f=fix(frac(ib, P), 65536))
            if not exc and not bad:
                m = int(lab.max()) + 1
                s = lambda a: tuple(np.shape(a))
                e["shapes"] = bool(s(cp.centers) == s(cp.centers_of_mass) == (m, 3) and s(cp.gyrations) == s(cp.inertia_tensors) == (m, 3, 3)
                                   and s(cp.sizes) == s(cp.cluster_masses) == s(cp.radii_of_gyration) == (m,))
                if e["shapes"]:
                    c, cm = np.asarray(cp.centers, float) / u, np.asarray(cp.centers_of_mass, float) / u
                    K = 128.0 ** 2 / u ** 2
                    e["out"] = [dict(size=int(cp.sizes[i]), mass=toint(cp.cluster_masses[i]), centre=fix(c[i], 256), com=fix(cm[i], 256),
                                     fcentre=fix(frac(ib, c[i]), 65536), fcom=fix(frac(ib, cm[i]), 65536), gyr=fix(cp.gyrations[i], K),
                                     inertia=fix(cp.inertia_tensors[i], K), rg2=fix(float(cp.radii_of_gyration[i]) ** 2, K)) for i in range(m)]
            evs.append(e)
        t.episode("props/%d" % ei, evs, box=ib.rec())


def interfaces(t):
    for ei in range(Q(40, 400)):
        r = rng("iface", ei)
        it = freud.interface.Interface()
        evs = []
        ib = random_ibox(r, pow2=True, Ls=[8, 16], per=[True] * 3, u=float(r.choice([1, .5])))
        for k in range(4):
            n, m = int(r.integers(1, 30)), int(r.integers(1, 14))
            P, Qp = r.integers(-8, 8, (n, 3)), r.integers(-8, 8, (m, 3))
            if ib.d == 2:
                P[:, 2] = Qp[:, 2] = 0
            P, Qp = inbox(ib, P), inbox(ib, Qp)
            f = lambda a: (a * ib.u).astype(np.float32)
            both = [(P, Qp), (Qp, P)]
            if r.random() < .5:
                r2 = int(r.integers(1, max(2, int(.95 * min(ib.planes())))))
                for a, b in both:
                    e = dict(op="interface", r2=r2, q=[], p=[], P=ints(a), Q=ints(b), box=ib.rec())
                    nb = dict(r_max=r2 / 2 * ib.u)
                    if r.random() < .3:
                        nb["mode"] = "ball"
                    evs.append(observe(t, it, e, (ib.freud(), f(a)), f(b) if r.random() < .5 else f(b).tolist(), nb))
            else:
                q, p = r.integers(0, m, 12), r.integers(0, n, 12)
                c = int(r.choice([0, 1, 5, 12]))
                for (a, b), (qq, pp) in zip(both, [(q[:c], p[:c]), (p[:c], q[:c])]):
                    nl, qq, pp = nlist(len(b), len(a), qq, pp)
                    e = dict(op="interface", r2=0, q=ints(qq), p=ints(pp), P=ints(a), Q=ints(b), box=ib.rec())
                    evs.append(observe(t, it, e, freud.locality.AABBQuery(ib.freud(), f(a)), f(b), nl))
        t.episode("interface/%d" % ei, evs)


def observe(t, it, e, sysm, qp, nb):
    t.doing(e)
    _, exc = attempt(lambda: it.compute(sysm, qp, neighbors=nb))
    e["exc"] = exc
    e.update(pids=[], qids=[], pc=0, qc=0)
    if not exc:
        e.update(pids=ints(it.point_ids), qids=ints(it.query_point_ids), pc=int(it.point_count), qc=int(it.query_point_count))
    return e


main(dict(C01=clusters, C02=props, I01=interfaces)[PROP])
