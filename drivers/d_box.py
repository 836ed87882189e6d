"""Box calls on integer lattices: wrap, images, unwrap, fractions, distances, centre of mass."""
from dlib import *
import freud


def vecs(r, ib, n, span=3, z2d=False):
    """n integer vectors: general ones up to span images away, faces, corners, lattice points."""
    A = ib.vectors()
    out = []
    for _ in range(n):
        c = r.random()
        k = r.integers(-span, span + 1, 3)
        if c < 0.45:
            v = np.array([r.integers(-ib.L[i] * span, ib.L[i] * span + 1) for i in range(3)])
        elif c < 0.85:   # fractional coordinates on halves, quarters or eighths: faces and edges
            den = int(r.choice([2, 4, 8]))
            f = r.integers(-den * span, den * span + 1, 3)
            v = (f[:, None] * A).sum(0)
            v = np.where(v % den == 0, v // den, v // den)
        else:
            v = (k[:, None] * A).sum(0)
        if ib.d == 2 and not z2d:
            v[2] = 0
        out.append(v)
    return np.array(out, dtype=np.int64)


def forms(r, x, u):
    """The same vectors as different containers: float32, float64, list, Fortran, strided, int."""
    k = int(r.integers(0, 6))
    f = x * u
    if k == 0:
        return f.astype(np.float32)
    if k == 1:
        return f.astype(np.float64)
    if k == 2:
        return f.tolist()
    if k == 3:
        return np.asfortranarray(f.astype(np.float32))
    if k == 4:
        big = np.full((2 * len(f), 3), 77, dtype=np.float32)
        big[::2] = f
        return big[::2]
    return x.copy() if u == 1.0 else f.astype(np.float32)


def unchanged(a, before):
    return bool(np.array_equal(np.asarray(a), before))


def call(ev, f):
    _, exc = attempt(f)
    ev["exc"] = exc
    return ev


def wrap_event(t, r, ib, b, n, single=False, out=False, span=3):
    x = vecs(r, ib, n, span)
    arg = (x[0] * ib.u).astype(np.float32) if single else forms(r, x, ib.u)
    before = np.array(arg, copy=True)
    ev = dict(a="wrap", v=x[:1].tolist() if single else x.tolist(), w=[], w2=[], same=True)
    t.doing(dict(call="Box.wrap", box=ib.rec(), u=ib.u, v=ev["v"]))

    def go():
        if out:
            o = np.full((len(x), 3), 5, dtype=np.float32)
            w = b.wrap(arg, out=o)
            w = o
        else:
            w = b.wrap(arg)
        shape_ok = np.shape(w) == ((3,) if single else (len(x), 3))
        ev["w"] = toint(np.atleast_2d(w), 1 / ib.u) if shape_ok else []
        ev["w2"] = toint(np.atleast_2d(b.wrap(w)), 1 / ib.u)
        ev["same"] = unchanged(arg, before)
    return call(ev, go)


def images_event(t, r, ib, b, n, single=False, span=3):
    x = vecs(r, ib, n, span)
    arg = (x[0] * ib.u).astype(np.float32) if single else forms(r, x, ib.u)
    before = np.array(arg, copy=True)
    ev = dict(a="images", v=x[:1].tolist() if single else x.tolist(), n=[], inside=[], back=[], same=True)
    t.doing(dict(call="Box.get_images/contains", box=ib.rec(), u=ib.u, v=ev["v"]))

    def go():
        im = b.get_images(arg)
        ins = b.contains(arg)
        ev["n"] = ints(np.atleast_2d(im)) if np.shape(im) == ((3,) if single else (len(x), 3)) else []
        ev["inside"] = [bool(z) for z in ins]
        w = b.wrap(arg)
        back = b.unwrap(w, im)
        ev["back"] = toint(np.atleast_2d(back), 1 / ib.u)
        ev["same"] = unchanged(arg, before)
    return call(ev, go)


def unwrap_event(t, r, ib, b, n):
    x = vecs(r, ib, n, span=1)
    mode = int(r.integers(0, 4))
    m = r.integers(-4, 5, (n, 3))
    if ib.d == 2:
        m[:, 2] = 0
    va, ma = x, m
    if mode == 0:
        va = x[:1]
    elif mode == 1:
        ma = m[:1]
    elif mode == 2:
        va, ma = x[:1], m[:1]
    arg = (va * ib.u).astype(np.float32)
    single = False
    if len(va) == 1 and r.random() < 0.5:
        arg = arg[0]
        single = True
    img = ma[0] if len(ma) == 1 and r.random() < 0.5 else ma
    img = img.astype(r.choice([np.int32, np.int64]))
    before, ib4 = np.array(arg, copy=True), img.copy()
    ev = dict(a="unwrap", v=va.tolist(), n=ma.tolist(), u=[], n2=[], same=True)
    t.doing(dict(call="Box.unwrap", box=ib.rec(), u=ib.u, v=ev["v"], n=ev["n"]))

    def go():
        if r.random() < 0.3 and not single:
            N = max(len(va), len(ma))
            o = np.zeros((N, 3), dtype=np.float32)
            b.unwrap(arg, img, out=o)
            u = o
        else:
            u = b.unwrap(arg, img)
        u = np.atleast_2d(u)
        ev["u"] = toint(u, 1 / ib.u)
        ev["n2"] = ints(b.get_images(u))
        ev["same"] = unchanged(arg, before) and unchanged(img, ib4)
    return call(ev, go)


def abs_event(t, r, ib, b, n, single=False):
    den = int(r.choice([1, 2, 8, 16]))
    f = r.integers(-3 * den, 4 * den + 1, (n, 3))
    if single:
        f = f[:1]
    arr = (f / den).astype(np.float32)
    arg = arr[0] if single else forms(r, f, 1 / den)
    if not single and np.asarray(arg).dtype.kind == "i":
        arg = arr
    before = np.array(arg, copy=True)
    ev = dict(a="abs", f=f.tolist(), den=den, r=[], same=True)
    t.doing(dict(call="Box.make_absolute", box=ib.rec(), u=ib.u, f=ev["f"], den=den))
    mode = int(r.integers(0, 3))

    def go():
        if mode == 1 and not single:
            o = np.full(arr.shape, 9, dtype=np.float32)
            b.make_absolute(arg, out=o)
            res = o
        elif mode == 2 and not single:
            a2 = arr.copy()
            b.make_absolute(a2, out=a2)
            res = a2
        else:
            res = b.make_absolute(arg)
        ok = np.shape(res) == ((3,) if single else arr.shape)
        ev["r"] = toint(np.atleast_2d(res), 2 * den / ib.u, tol=2e-2) if ok else []
        ev["same"] = unchanged(arg, before)
    return call(ev, go)


def frac_event(t, r, ib, b, n, single=False):
    x = vecs(r, ib, n)
    if single:
        x = x[:1]
    arr = (x * ib.u).astype(np.float32)
    arg = arr[0] if single else forms(r, x, ib.u)
    before = np.array(arg, copy=True)
    L = ib.L
    den = np.array([2 * L[0] * L[1] * L[2], 2 * L[1] * L[2], 2 * L[2]], dtype=float)
    ev = dict(a="frac", v=x.tolist(), r=[], back=[], same=True, tol=0 if ib.ex else 1)
    t.doing(dict(call="Box.make_fractional", box=ib.rec(), u=ib.u, v=ev["v"]))
    mode = int(r.integers(0, 3))

    def go():
        if mode == 1 and not single:
            o = np.full(arr.shape, 9, dtype=np.float32)
            b.make_fractional(arg, out=o)
            res = o
        elif mode == 2 and not single:
            a2 = arr.copy()
            b.make_fractional(a2, out=a2)
            res = a2
        else:
            res = b.make_fractional(arg)
        ok = np.shape(res) == ((3,) if single else arr.shape)
        ev["r"] = toint(np.atleast_2d(res) * den, tol=0.6 if not ib.ex else 2e-3) if ok else []
        ev["back"] = toint(np.atleast_2d(b.make_absolute(res)), 1 / ib.u)
        ev["same"] = unchanged(arg, before)
    return call(ev, go)


def dist_event(t, r, ib, b, n, m, pairs=False):
    q, p = vecs(r, ib, n, span=2), vecs(r, ib, m, span=2)
    if m and n:
        for k in range(min(n, m)):
            c = r.random()
            if c < 0.2:
                p[k] = q[k]
            elif c < 0.3:
                p[k] = q[k] + (r.integers(-1, 2, 3)[:, None] * ib.vectors()).sum(0)
    aq, ap = forms(r, q, ib.u), forms(r, p, ib.u)
    b4 = np.array(aq, copy=True), np.array(ap, copy=True)
    ev = dict(a="dist", q=q.tolist(), p=p.tolist(), d=[], all=[], paired="", same=True, pairs=pairs)
    t.doing(dict(call="Box.compute_distances", box=ib.rec(), u=ib.u, q=ev["q"], p=ev["p"]))

    def go():
        d, e = attempt(lambda: b.compute_distances(aq, ap))
        ev["paired"] = "error" if e else ""
        if not e:
            ev["d"] = toint(np.asarray(d, float) ** 2, 1 / ib.u ** 2, tol=0.02)
        a = np.asarray(b.compute_all_distances(aq, ap), float) if not pairs else np.zeros((0, 0))
        ev["all"] = toint(a ** 2, 1 / ib.u ** 2, tol=0.02)
        ev["same"] = unchanged(aq, b4[0]) and unchanged(ap, b4[1])
    return call(ev, go)


def com_event(t, r, ib, b):
    A = ib.vectors()
    j = r.integers(2, 7, 3) - 4           # eighths from the centre, interior
    sgn = r.integers(-1, 2, 3)
    c8 = j.copy()
    M1, M3 = int(r.integers(1, 6)), int(r.integers(1, 6))
    kind = int(r.integers(0, 3))
    if kind == 0:       # mean at k = 0
        M3 = M1
        M = [int(r.integers(2, 9)), M1, 0, M3]
        M[2] = int(r.integers(0, M[0]))
        off = 0
    elif kind == 1:     # mean one eighth further along sgn
        dlt = int(r.integers(1, 5))
        M2, M3 = int(r.integers(0, 4)), int(r.integers(0, 4))
        M = [M2 + dlt, M3 + dlt, M2, M3]
        off = 1
    else:               # one point
        M, off = [int(r.integers(1, 9)), 0, 0, 0], 0
    pts, ms = [], []
    for k in range(4):
        left = M[k]
        while left > 0:
            mm = int(r.integers(1, left + 1))
            e8 = c8 + 2 * k * sgn
            v = (e8[:, None] * A).sum(0) // 8
            v = v + (r.integers(-2, 3, 3)[:, None] * A).sum(0) * (1, 1, 1)
            if ib.d == 2:
                v[2] = 0
            pts.append(v)
            ms.append(mm)
            left -= mm
    pts, ms = np.array(pts), np.array(ms, dtype=np.float32)
    mean = ((c8 + off * sgn)[:, None] * A).sum(0) // 8
    if ib.d == 2:
        mean[2] = 0
    unit = bool(np.all(ms == 1)) and r.random() < 0.5
    u = ib.u
    shift = r.integers(-20, 21, 3)
    if ib.d == 2:
        shift[2] = 0
    perm = r.permutation(len(pts))
    x = (pts * u).astype(np.float32)
    xt = ((pts + (r.integers(-2, 3, (len(pts), 3))[:, :, None] * A).sum(1)) * u).astype(np.float32)
    if ib.d == 2:
        xt[:, 2] = 0
    b4, m4 = x.copy(), ms.copy()
    ev = dict(a="com", v=pts.tolist(), m=ints(ms), mean=mean.tolist(), shift=shift.tolist(), com=[], comT=[],
              comP=[], comM=[], comS=[], cen=[], same=True)
    t.doing(dict(call="Box.center_of_mass", box=ib.rec(), u=u, v=ev["v"], m=ev["m"]))

    def go():
        mk = (lambda z: None) if unit else (lambda z: z)
        g = lambda a, mm: toint(b.center_of_mass(a, mm), 1 / u, tol=0.02)
        ev["com"] = g(x, mk(ms))
        ev["comT"] = g(xt, mk(ms))
        ev["comP"] = g(x[perm], mk(ms[perm]))
        ev["comM"] = g(x, mk(ms * 4))
        ev["comS"] = g(x + (shift * u).astype(np.float32), mk(ms))
        ev["cen"] = toint(b.center(x, mk(ms)), 1 / u, tol=0.02)
        ev["same"] = unchanged(x, b4) and unchanged(ms, m4)
    return call(ev, go)


TINY = [2.0 ** -k for k in (10, 16, 20, 23, 24, 26, 30, 40, 60)]


def exact_inside(ib, w):
    """every periodic fractional coordinate of the float vectors w is in [0, 1), in exact arithmetic"""
    from fractions import Fraction as F
    res = []
    for v in np.asarray(w, dtype=np.float64):
        x, y, z = (F(float(c)) / F(ib.u) for c in v)
        Z = z / ib.L[2]
        Y = (y - ib.b[2] * Z) / ib.L[1]
        X = (x - ib.b[0] * Y - ib.b[1] * Z) / ib.L[0]
        res.append(all(not ib.per[i] or 0 <= f + F(1, 2) < 1 for i, f in enumerate((X, Y, Z)[:ib.d])))
    return res


def edge_event(t, r, ib, b, n):
    """points on faces, edges and corners of the box and its images, displaced by next to nothing"""
    den = 2
    f = 2 * r.integers(-2, 3, (n, 3)) + r.choice([0, 1], (n, 3), p=[.3, .7])
    # half of them next to the middle of a lower face, where a shear of almost nothing decides the cell
    f[::2] = 0
    f[np.arange(0, n, 2), r.integers(0, 3, len(f[::2]))] = -1
    v = (f[:, :, None] * ib.vectors()[None]).sum(1) // den
    s = r.integers(-1, 2, (n, 3))
    if ib.d == 2:
        v[:, 2] = s[:, 2] = 0
    # in a tilted box the shear rounds a displacement the coordinates resolve, possibly onto the
    # upper face: there only displacements that no lattice coordinate resolves are judged
    e = r.choice(TINY[-2:] if any(ib.b) else TINY, (n, 3))
    x = np.array(v * ib.u + s * e * ib.u, dtype=np.float32)
    # one unit in the last place, where the displacement was too small for the coordinate
    ulp = np.nextafter(x, np.float32(np.inf) * s.astype(np.float32), dtype=np.float32, where=s != 0, out=x.copy())
    if not any(ib.b):
        x = np.where((x == (v * ib.u).astype(np.float32)) & (r.random((n, 1)) < 0.5), ulp, x)
    s = np.sign(x.astype(np.float64) - v * ib.u).astype(int)
    ev = dict(a="edge", v=v.tolist(), s=s.tolist(), w=[], inside=[], n=[], zero=[], back=[], per=all(ib.per))
    t.doing(dict(call="Box.wrap/get_images/contains", box=ib.rec(), u=ib.u, v=x.tolist()))

    def go():
        w = b.wrap(x)
        ev["w"] = toint(w, 1 / ib.u)
        ev["inside"] = exact_inside(ib, w)
        im = b.get_images(x)
        ev["n"] = ints(im)
        ev["zero"] = [bool(z) for z in b.contains(x)]
        ev["back"] = toint(b.unwrap(w, im), 1 / ib.u)
    return call(ev, go)


def run(t):
    r = rng("box", PROP)
    N = Q(60, 500)
    for k in range(N):
        if PROP == "B06":
            d = 2 if r.random() < 0.35 else 3
            L = [int(r.choice([8, 16, 32])) for _ in range(3)]
            bt = [0, 0, 0] if r.random() < 0.4 else [8 * int(r.integers(-2, 3)) for _ in range(3)]
            ib = IBox(L, bt, d, (True, True, True), float(r.choice([1.0, 0.5, 2.0])), ex=False)
        else:
            per = None if k % 3 else [bool(k // 3 & 1), bool(k // 3 & 2), bool(k // 3 & 4)]   # every combination
            ib = random_ibox(r, pow2=bool(r.random() < 0.6), per=per)
        b = ib.freud()
        ev = []
        for _ in range(Q(3, 6)):
            n = int(r.choice([1, 2, 7, 30]))
            s = bool(r.random() < 0.2)
            if PROP == "B01":
                ev.append(wrap_event(t, r, ib, b, n, s, out=(not s and r.random() < 0.3)))
                if ib.ex:
                    ev.append(edge_event(t, r, ib, b, 12))
            elif PROP == "B02":
                ev.append(images_event(t, r, ib, b, n, s))
                ev.append(unwrap_event(t, r, ib, b, n))
                if ib.ex:
                    ev.append(edge_event(t, r, ib, b, 12))
            elif PROP == "B03":
                ev.append(abs_event(t, r, ib, b, n, s))
                ev.append(frac_event(t, r, ib, b, n, s))
            elif PROP == "B04":
                n = int(r.choice([1, 2, 5, 9]))
                m = n if r.random() < 0.6 else int(r.choice([1, 2, 3, 8]))
                ev.append(dist_event(t, r, ib, b, n, m))
            elif PROP == "B06":
                ev.append(com_event(t, r, ib, b))
        t.episode("%s d=%d" % (PROP, ib.d), ev, box=ib.rec())
    # hundreds of thousands of images away, where float32 is still exact in small boxes
    for k in range(Q(10, 60) if PROP in ("B01", "B02") else 0):
        ib = random_ibox(r, pow2=True, Ls=[2, 4], per=[True] * 3 if k % 3 else None)
        b, ev = ib.freud(), []
        for span in (40, 300, 5000, 40000, 140000):
            f = wrap_event if PROP == "B01" else images_event
            ev.append(f(t, r, ib, b, 12, span=span))
        t.episode("far d=%d" % ib.d, ev, box=ib.rec())
    # long arrays: every row on its own, across the parallel loop's chunks
    for k in range(Q(2, 6)):
        ib = random_ibox(r, d=3 - k % 2, pow2=True)
        b = ib.freud()
        n = Q(1500, 6000)
        if PROP == "B01":
            t.episode("long", [wrap_event(t, r, ib, b, n)], box=ib.rec())
        elif PROP == "B02":
            t.episode("long", [images_event(t, r, ib, b, n)], box=ib.rec())
        elif PROP == "B03":
            t.episode("long", [abs_event(t, r, ib, b, n), frac_event(t, r, ib, b, n)], box=ib.rec())
        elif PROP == "B04":
            t.episode("long", [dist_event(t, r, ib, b, 40, 60), dist_event(t, r, ib, b, 700, 1 if k % 2 else 2), dist_event(t, r, ib, b, 700, 700, True)], box=ib.rec())


main(run)
