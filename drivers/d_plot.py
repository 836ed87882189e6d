"""G01: drawings generated from FPlot are made with the real classes and freud.plot; what a viewer can read
back from the axes is recorded."""
import json
import os
os.environ["MPLBACKEND"] = "Agg"
import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import freud
from dlib import ARGS, attempt, fix, inbox, main, random_ibox, rng, toint

S = 1024


def rows(a, s=S):
    return fix(np.ma.filled(np.ma.asarray(a, dtype=float), np.nan), s)


def system(r, d=2, n=None):
    n = n or int(r.integers(3, 24))
    b = freud.box.Box(8, 6, 0 if d == 2 else 10, is2D=d == 2)
    p = r.uniform(-.5, .5, (n, 3)) * b.L
    return b, p.astype(np.float32)


def image(ax, new):
    im = [x for x in new if isinstance(x, matplotlib.image.AxesImage)][0]
    return dict(img=rows(im.get_array()), upper=im.origin == "upper", ext=fix(im.get_extent(), S))


def line(new):
    x, y = new[0].get_data()
    return dict(kind="line", x=fix(x, S), y=fix(y, S))


def segs(new, u):
    out = []
    for x in new:
        if isinstance(x, matplotlib.lines.Line2D):
            p = np.stack(x.get_data_3d() if hasattr(x, "get_data_3d") else x.get_data(), 1)
            q = toint(p * 2 / u)
            out += [[q[i], q[i + 1]] for i in range(len(q) - 1)]
    return out


def ibox(r, d):
    return random_ibox(r, d=d, pow2=True, Ls=[4, 8, 16], tilt=bool(r.random() < .5), u=float(r.choice([1, .5])))


def vec(ib):
    return ib.vectors()[:ib.d, :ib.d].tolist()


class Session:
    def __init__(self, r):
        self.r = r
        self.axes = []          # (axes, group)
        self.seen = []

    def ax(self, given, group):
        if not given:
            return None
        old = [a for a, g in self.axes if g == group]
        if old and group != "bars" and self.r.random() < .6:
            return old[int(self.r.integers(len(old)))]
        f = plt.figure()
        a = f.add_subplot(111, projection="3d") if group == "3d" else f.subplots()
        self.seen.append(a)
        return a

    def run(self, c):
        r = self.r
        w = c["what"]
        e = dict(c=c, exc="", given=False, same=True, kept=True, fresh=True)
        if w == "png":
            return dict(e, **self.png())
        if w == "diffraction" and r.random() < .5:
            return dict(e, **self.to_image())
        group, draw, read = getattr(self, "d_" + w)()
        ax = self.ax(c["given"], group)
        before = list(ax.get_children()) if ax is not None else []
        have = [x for x in before if type(x).__name__ in ("Line2D", "Line3D", "AxesImage", "Rectangle", "PathCollection", "Path3DCollection")]
        got, exc = attempt(lambda: draw(ax))
        e["exc"] = exc
        e["given"] = ax is not None
        if exc:
            return dict(e, kind="none")
        a = got[0] if isinstance(got, tuple) else got
        kids = list(a.get_children())
        e["same"] = a is ax
        e["kept"] = all(any(x is y for y in kids) for x in have)
        e["fresh"] = not any(a is x for x in self.seen)
        self.seen.append(a)
        self.axes.append((a, group))
        new = [x for x in kids if not any(x is y for y in before)]
        e.update(read(a, [x for x in new if isinstance(x, (matplotlib.lines.Line2D, matplotlib.image.AxesImage, matplotlib.collections.PathCollection,
                                                           matplotlib.patches.Rectangle)) and x is not a.patch], got))
        return e

    # ---- lines ----
    def d_rdf(self):
        b, p = system(self.r, int(self.r.choice([2, 3])))
        o = freud.density.RDF(int(self.r.integers(2, 12)), 2.5, .25).compute((b, p))
        return "num", lambda ax: o.plot(ax=ax), lambda a, n, g: dict(line(n), wx=fix(o.bin_centers, S), wy=fix(o.rdf, S))

    def d_cf(self):
        b, p = system(self.r)
        v = self.r.normal(size=len(p)) + 1j * self.r.normal(size=len(p))
        o = freud.density.CorrelationFunction(int(self.r.integers(2, 9)), 2.5).compute((b, p), v, p, v)
        return "num", lambda ax: o.plot(ax=ax), lambda a, n, g: dict(line(n), wx=fix(o.bin_centers, S), wy=fix(o.correlation.real, S))

    def d_msd(self):
        o = freud.msd.MSD(mode=str(self.r.choice(["window", "direct"]))).compute(self.r.normal(size=(int(self.r.integers(2, 9)), 4, 3)))
        return "num", lambda ax: o.plot(ax=ax), lambda a, n, g: dict(line(n), wx=[S * i for i in range(len(o.msd))], wy=fix(o.msd, S))

    def d_debye(self):
        b, p = system(self.r, 3)
        o = freud.diffraction.StaticStructureFactorDebye(int(self.r.integers(5, 20)), 9, float(self.r.choice([0, .5, 2]))).compute((b, p))
        k = o.k_values > o.min_valid_k
        return "num", lambda ax: o.plot(ax=ax), lambda a, n, g: dict(line(n), wx=fix(o.k_values[k], S), wy=fix(o.S_k[k], S))

    def d_lines(self):
        m = int(self.r.integers(2, 9))
        x, y = self.r.normal(size=(2, m)) * 4
        return "num", lambda ax: freud.plot.line_plot(x, y, title="t", xlabel="x", ylabel="y", ax=ax), lambda a, n, g: dict(line(n), wx=fix(x, S), wy=fix(y, S))

    # ---- images ----
    def of_xy(self, A, xl, yl):
        return lambda a, n, g: dict(image(a, n), kind="image", A=rows(A), wext=fix([xl[0], xl[1], yl[0], yl[1]], S))

    def field(self, o, name):
        b, p = system(self.r)
        o.compute((b, p))
        return "num", lambda ax: o.plot(ax=ax), self.of_xy(getattr(o, name), (-4, 4), (-3, 3))

    def wh(self):
        return tuple(int(x) for x in self.r.integers(2, 9, 2))

    def d_gauss(self):
        return self.field(freud.density.GaussianDensity(self.wh(), 2, .7), "density")

    def d_voxels(self):
        return self.field(freud.density.SphereVoxelization(self.wh(), 1), "voxels")

    def d_pmft(self):
        b, p = system(self.r)
        x, y = 1 + self.r.random(2)
        o = freud.pmft.PMFTXY(x, y, self.wh()).compute((b, p), self.r.uniform(0, 6, len(p)))
        A = np.array(o.pmft)
        A[~np.isfinite(A)] = np.nan
        return "num", lambda ax: o.plot(ax=ax) if self.r.random() < .5 else freud.plot.pmft_plot(o, ax=ax, cmap="gray"), self.of_xy(A, (-x, x), (-y, y))

    def d_image(self):
        A = self.r.normal(size=self.wh()) * 5
        b = freud.box.Box.square(float(self.r.integers(2, 9)))
        return "num", lambda ax: freud.plot.density_plot(A, b, ax=ax), self.of_xy(A, (-b.Lx / 2, b.Lx / 2), (-b.Ly / 2, b.Ly / 2))

    def pattern(self):
        b = freud.box.Box.cube(8)
        p = self.r.uniform(-4, 4, (int(self.r.integers(2, 30)), 3))
        n = int(self.r.integers(4, 10))
        return freud.diffraction.DiffractionPattern(int(self.r.integers(6, 16)), n).compute((b, p), view_orientation=[1, 0, 0, 0], zoom=1)

    def lims(self):
        a = {}
        if self.r.random() < .5:
            a["vmin"] = float(self.r.uniform(.001, .1))
        if self.r.random() < .5:
            a["vmax"] = float(self.r.uniform(.5, 5))
        return a

    def d_diffraction(self):
        o, k = self.pattern(), self.lims()
        lo, hi = k.get("vmin", 4e-6 * o.N_points), k.get("vmax", .7 * o.N_points)
        kv = o.k_values
        return "num", lambda ax: o.plot(ax=ax, **k), lambda a, n, g: dict(image(a, n), kind="rows", A=rows(np.clip(o.diffraction, lo, hi)), wext=fix([kv.min(), kv.max()] * 2, S))

    def to_image(self):
        o, k = self.pattern(), self.lims()
        lo, hi = k.get("vmin", 4e-6 * o.N_points), k.get("vmax", .7 * o.N_points)
        im, exc = attempt(lambda: o.to_image(cmap="gray", **k))
        u = 1 << 20
        return dict(kind="pixels", exc=exc, pix=[] if exc else im[..., 0].astype(int).tolist(), A=rows(o.diffraction, u), lo=int(lo * u) - 2, hi=int(hi * u) + 2)

    # ---- bars ----
    def bars(self, keys, counts, n):
        return lambda a, new, g: dict(kind="bars", kc=[[int(k), int(c)] for k, c in zip(keys, counts)], n=n, bars=[
            [int(t.get_text()), int(round(x.get_height()))] for t, x in zip(a.get_xticklabels(), new)] if len(a.get_xticklabels()) == len(new) else [])

    def d_cluster(self):
        b, p = system(self.r, n=int(self.r.integers(3, 60)))
        o = freud.cluster.Cluster().compute((b, p), neighbors=dict(r_max=float(self.r.uniform(.2, 1.2))))
        return "bars", lambda ax: o.plot(ax=ax), self.bars(*np.unique(o.cluster_idx, return_counts=True), 10)

    def d_clusters(self):
        m, n = int(self.r.integers(1, 20)), int(self.r.integers(1, 15))
        keys = self.r.permutation(100)[:m]
        f = self.r.integers(1, 9, m)
        return "bars", lambda ax: freud.plot.clusters_plot(keys, f, n, ax=ax), self.bars(keys, f, n)

    def d_bars(self):
        m = int(self.r.integers(1, 9))
        x, h = np.arange(m) * 2, self.r.integers(1, 9, m)
        return "bars", lambda ax: freud.plot.bar_plot(x, h, ax=ax), lambda a, n, g: dict(
            kind="line", x=fix([q.get_x() + q.get_width() / 2 for q in n], S), y=fix([q.get_height() for q in n], S), wx=fix(x, S), wy=fix(h, S))

    def hist(self, v):
        v = v[np.isfinite(v)]
        u = 1 << 16
        return lambda a, n, g: dict(kind="hist", vals=fix(v, u), bars=[
            [fix(q.get_x(), u), fix(q.get_x() + q.get_width(), u) + (4 if q is n[-1] else 0), int(q.get_height())] for q in n])

    def d_hexatic(self):
        b, p = system(self.r)
        o = freud.order.Hexatic(int(self.r.integers(2, 8)), bool(self.r.random() < .3)).compute((b, p), neighbors=dict(num_neighbors=3) if len(p) > 3 else dict(num_neighbors=2))
        return "num", lambda ax: o.plot(ax=ax), self.hist(np.abs(o.particle_order))

    def d_hist(self):
        v = self.r.normal(size=int(self.r.integers(2, 40)))
        return "num", lambda ax: freud.plot.histogram_plot(v, ax=ax), self.hist(v)

    # ---- boxes and systems ----
    def d_box(self):
        r = self.r
        d = int(r.choice([2, 3]))
        ib = ibox(r, d)
        b = ib.freud()
        im = [int(x) for x in r.integers(-2, 3, 3)] if r.random() < .6 else None
        if im and d == 2:
            im[2] = 0
        t = str(r.choice(["", "a box"]))
        style = [{}, dict(color="r"), dict(linestyle="--"), dict(color="b", linewidth=3)][int(r.integers(4))]

        def draw(ax):
            f = b.plot if r.random() < .6 else (lambda **k: freud.plot.box_plot(b if r.random() < .5 else dict(b.to_dict(), dimensions=d), **k))
            return f(title=t or None, ax=ax, **(dict(image=im) if im else {}), **style)

        def read(a, new, g):
            get = lambda x: dict(color=x.get_color(), linestyle=x.get_linestyle(), linewidth=x.get_linewidth())
            ok = all(get(x)[k] == v for x in new for k, v in dict(dict(color="k"), **style).items())
            return dict(kind="box", segs=segs(new, ib.u), a=vec(ib), im=(im or [0, 0, 0])[:d], styled=ok, title=a.get_title() if t else "", wtitle=t)
        return "%dd" % d, draw, read

    def d_system(self):
        r = self.r
        d = int(r.choice([2, 3]))
        ib = ibox(r, d)
        p = np.array(inbox(ib, r.integers(-9, 10, (int(r.integers(1, 9)), 3)) * ([1, 1, 0] if d == 2 else 1)))
        s = (ib.freud(), (p * ib.u).astype(np.float32))
        t = str(r.choice(["", "points"]))
        q = freud.locality.AABBQuery(*s)

        def draw(ax):
            return q.plot(title=t or None, ax=ax) if r.random() < .5 else freud.plot.system_plot(s, title=t or None, ax=ax)

        def read(a, new, g):
            o = np.stack(g[1]._offsets3d, 1) if d == 3 else g[1].get_offsets()
            return dict(kind="system", segs=segs(new, ib.u), a=vec(ib), im=[0] * d, pts=toint(np.asarray(o) / ib.u), P=p[:, :d].tolist(), title=a.get_title() if t else "", wtitle=t)
        return "%dd" % d, draw, read

    # ---- rendered pictures ----
    def png(self):
        r = self.r
        d = int(r.choice([2, 3]))
        b, p = system(r, d, 12)
        k = int(r.integers(9))
        o, f = [(freud.density.RDF(4, 2), lambda o: o.compute((b, p))),
                (freud.density.CorrelationFunction(4, 2), lambda o: o.compute((b, p), np.ones(12), p, np.ones(12))),
                (freud.density.GaussianDensity((3, 4) if d == 2 else (3, 4, 5), 1, 1), lambda o: o.compute((b, p))),
                (freud.density.SphereVoxelization((3, 4) if d == 2 else (3, 4, 5), 1), lambda o: o.compute((b, p))),
                (freud.cluster.Cluster(), lambda o: o.compute((b, p), neighbors=dict(r_max=1.))),
                (freud.msd.MSD(), lambda o: o.compute(np.ones((3, 4, 3)))),
                (freud.diffraction.StaticStructureFactorDebye(8, 5), lambda o: o.compute((b, p))),
                (freud.diffraction.DiffractionPattern(8, 8), lambda o: o.compute((freud.box.Box.cube(9), p), view_orientation=[1, 0, 0, 0])),
                (freud.pmft.PMFTXY(1, 1, 4), lambda o: o.compute(system(rng("png"), 2, 12), np.zeros(12)))][k]
        what = lambda: (lambda x: "none" if x is None else "png" if bytes(x[:4]) == b"\x89PNG" else "other")(o._repr_png_())

        def both():
            a = what()
            f(o)
            return [a, what()]
        got, exc = attempt(both)
        return dict(kind="png", exc=exc, png=got or [], wpng=["none", "none" if k in (2, 3) and d == 3 else "png"])


def run(t):
    for j, h in enumerate(json.load(open(ARGS["histories"]))):
        s = Session(rng("plot", j))
        ev = []
        for c in h:
            t.doing(dict(episode=j, history=h, at=c))
            ev.append(s.run(c))
        plt.close("all")
        t.episode("plot/%d" % j, ev)


main(run)
