"""Every documented form of a system through the real NeighborQuery.from_system, and through the
computes that take one (Q06)."""
import collections, json, types, warnings
import numpy as np
from dlib import ARGS, Q, attempt, ints, main, toint
import freud
from freud.box import Box
from freud.locality import AABBQuery, LinkCell, NeighborList, NeighborQuery
import gsd.hoomd
from MDAnalysis.coordinates.timestep import Timestep
import dclasses as D

warnings.simplefilter("ignore")
CLS = dict(NeighborQuery=NeighborQuery, AABBQuery=AABBQuery, LinkCell=LinkCell)
Named = collections.namedtuple("Named", "box points")


def cls_at(path):
    """a class that introduces itself by this path"""
    mod, name = path.rsplit(".", 1)
    return type(name, (), {"__module__": mod})


OLDGSD = cls_at("gsd.hoomd.Snapshot")
HOOMD3 = cls_at("hoomd.snapshot.Snapshot")
MDAOLD = cls_at("MDAnalysis.coordinates.base.Timestep")
GARNETT = cls_at("garnett.trajectory.Frame")
OVITO = dict(ovito=cls_at("ovito.data.DataCollection"), ovitoold=cls_at("ovito.plugins.PyScript.DataCollection"),
             ovitoscript=cls_at("PyScript.DataCollection"))
NS = types.SimpleNamespace


class SubFrame(gsd.hoomd.Frame):
    pass


def array(pk, p):
    p = np.asarray(p, dtype=np.float32)
    if pk == "f64":
        return p.astype(np.float64)
    if pk == "list":
        return p.tolist()
    if pk == "tuples":
        return tuple(map(tuple, p.tolist()))
    if pk == "strided":
        b = np.full((len(p), 5), 7, dtype=np.float32)
        b[:, 1:4] = p
        return b[:, 1:4]
    if pk == "fortran":
        return np.asfortranarray(p)
    p = p.copy()
    if pk == "readonly":
        p.setflags(write=False)
    return p


def box_of(r, box=None):
    """the box of a presentation, real numbers"""
    n = [x / 8 for x in r["nums"]]
    k, d = r["kind"], r["dims"]
    if k == "Box":
        b = Box(*n, is2D=d == 2)
        b.periodic = r["per"]
        return b
    names = dict(zip(("Lx", "Ly", "Lz", "xy", "xz", "yz"), n))
    if k in ("list2", "list3", "list6"):
        return n
    if k == "tuple6":
        return tuple(n)
    if k == "arr6":
        return np.array(n)
    if k in ("matrix", "rows"):
        return np.array(n).reshape(3, 3)
    if k == "dict":
        return names
    if k == "dictdims":
        return dict(names, dimensions=d)
    if k == "obj":
        return NS(**names)
    if k == "objdims":
        return NS(**names, dimensions=d)
    raise KeyError(k)


def build(r):
    f, b = r["form"], box_of(r)
    pk = r["pk"]
    if f in ("tuple", "list", "named", "attr", "raw", "aabb", "linkcell") or pk in ("f32", "f64", "strided", "readonly"):
        p = array(pk, r["pts"])
    else:
        p = array("f32", r["pts"])
    if f == "tuple":
        return (b, p)
    if f == "list":
        return [b, p]
    if f == "named":
        return Named(b, p)
    if f == "attr":
        return NS(box=b, points=p)
    if f == "raw":
        return freud.locality._RawPoints(b, p)
    if f == "aabb":
        return AABBQuery(b, p)
    if f == "linkcell":
        return LinkCell(b, p)
    if f == "hoomd2":
        return NS(box=b, particles=NS(position=p, N=len(p)))
    if f in ("gsd", "gsdsub"):
        s = gsd.hoomd.Frame() if f == "gsd" else SubFrame()
        s.configuration.box = b
        s.configuration.dimensions = r["dims"]
        s.particles.N = len(p)
        s.particles.position = p
        return s
    if f in ("gsdold", "hoomd3"):
        s = OLDGSD() if f == "gsdold" else HOOMD3()
        s.configuration = NS(box=b, dimensions=r["dims"])
        s.particles = NS(position=p, N=len(p))
        return s
    if f == "mda":
        L = np.linalg.norm(b, axis=1)
        ang = [np.degrees(np.arccos(np.dot(b[i], b[j]) / L[i] / L[j])) for i, j in ((1, 2), (0, 2), (0, 1))]
        s = Timestep(len(p))
        s.positions = p
        s.dimensions = [*L, *ang]
        return s
    if f == "mdaold":
        s = MDAOLD()
        s.triclinic_dimensions, s.positions = b.astype(np.float32), p
        return s
    if f in ("garnett", "garnettold"):
        s = GARNETT()
        s.box = b
        setattr(s, "position" if f == "garnett" else "positions", p)
        return s
    if f in OVITO:
        s = OVITO[f]()
        s.cell = NS(matrix=np.hstack([b, [[-1.5], [2.0], [.5]]]), is2D=r["dims"] == 2)
        s.particles = NS(positions=p)
        return s
    raise KeyError(f)


def snap(o):
    """what an observer sees in a presented object"""
    if isinstance(o, np.ndarray):
        return ["a", o.tolist()]
    if isinstance(o, (NeighborQuery, Box, NeighborList)):
        return D.canon(o) if not isinstance(o, NeighborQuery) else ["nq", D.canon(o.box), o.points.tolist()]
    if isinstance(o, dict):
        return [[k, snap(v)] for k, v in sorted(o.items())]
    if isinstance(o, (list, tuple)):
        return [snap(x) for x in o]
    if isinstance(o, Timestep):
        return [o.dimensions.tolist(), o.positions.tolist()]
    if hasattr(o, "__dict__"):
        return [[k, snap(v)] for k, v in sorted(o.__dict__.items())]
    return repr(o)


def seen(q):
    b = q.box
    return dict(L=toint([b.Lx, b.Ly, b.Lz], 8), t=toint([b.xy, b.xz, b.yz], 8), d=int(b.dimensions),
                per=[bool(x) for x in b.periodic], P=toint(q.points, 64))


def convert(c, obj, a):
    before = snap(obj) if not isinstance(obj, type) else None
    q, err = attempt(lambda: CLS[c].from_system(obj, dimensions=a) if a else CLS[c].from_system(obj))
    e = dict(ok=not err, err=err, c=c)
    if not err:
        e.update(sys=seen(q), isa=isinstance(q, CLS[c]), identical=q is obj, kept=D.same(before, snap(obj)))
    return q, e


def bads(pts, box):
    P = np.asarray(pts, dtype=np.float32)
    b3 = Box(8, 8, 8)
    return [None, 5, 2.5, object(), (box,), (box, P, 1.0, 2), box, np.zeros((4, 3)), [1, 2, 3, 4, 5, 6], (P, box), "ab", b"ab",
            {}, dict(box=box, points=P), set(), len, NS(box=box), NS(points=P), NS(box=box, points=None), (box, None),
            (box, P[:, :2]), (box, np.zeros((0, 3))), (None, P), ("box", P), ((1, 2, 3, 4, 5), P), AABBQuery,
            (box, P.ravel()), (Box.square(8), P + np.float32([0, 0, 1])), NS(box=box, particles=NS(N=3)),
            NS(box=None, points=P), [], (b3, [["a", "b", "c"]])]


# ---- the forms of an adapter's input -----------------------------------------
def reps(box, p):
    """presentations of a periodic system given as real arrays"""
    n = [box.Lx, box.Ly, box.Lz, box.xy, box.xz, box.yz]
    d = box.dimensions
    n8 = [int(round(x * 8)) for x in n]
    L, t = n8[:3], n8[3:]
    if d == 2:
        L[2], t[1:] = 0, [0, 0]
    out = []

    def add(form, kind, filler=False, dims=0, pk="f32"):
        LL = [L[0], L[1], 8 if filler and d == 2 else L[2]]
        m = [[LL[0], t[0] * LL[1] // 8, t[1] * LL[2] // 8], [0, LL[1], t[2] * LL[2] // 8], [0, 0, LL[2]]]
        if kind == "matrix":
            nums = sum(m, [])
        elif kind == "rows":
            nums = np.array(m).T.ravel().tolist()
        else:
            nums = LL + t
        out.append(dict(form=form, kind=kind, nums=nums, dims=dims, per=[True] * 3, pk=pk, pts=p))
    for f in ("tuple", "list", "named", "attr", "raw", "aabb", "linkcell"):
        add(f, "Box", dims=d)
    add("tuple", "list6", pk="list")
    add("tuple", "dict", pk="f64")
    add("tuple", "matrix", pk="strided")
    add("list", "objdims", dims=d, pk="readonly")
    add("attr", "arr6", pk="fortran")
    add("hoomd2", "objdims", True, d)
    add("hoomd2", "Box", dims=d)
    for f in ("gsd", "gsdsub", "gsdold", "hoomd3"):
        add(f, "arr6", True, d, pk="f32" if f != "hoomd3" else "f64")
    if d == 3:
        add("mdaold", "rows")
        if t == [0, 0, 0]:
            add("mda", "rows")
    for f in ("garnett", "garnettold"):
        add(f, "objdims" if f == "garnett" else "Box", dims=d)
    for f in OVITO:
        add(f, "matrix", True, d, pk="f64")
    return out


def computes(t):
    for a in D.all_adapters():
        if a.name == "AllPairs":
            call = lambda o, s, i: NeighborList.all_pairs(s, i["query_points"])
            read = lambda o, r: [D.canon(r)]
        elif a.pseudo or "points" not in a.inputs[0]:
            continue
        else:
            def call(o, s, i, a=a):
                return o.compute(s, **{k: v for k, v in i.items() if k not in ("box", "points")})

            def read(o, r, a=a):
                return [[k, D.canon(v[0]), v[1]] for k, v in sorted(a.read(o).items())]
        for i in range(len(a.inputs)):
            inp = a.fresh_inputs(i)
            o = a.make()
            t.doing(dict(cls=a.name, input=i, form="tuple"))
            ref = read(o, call(o, (inp["box"], inp["points"]), inp))
            ev = []
            for r in reps(inp["box"], inp["points"]):
                # LinkCell's nearest neighbors of a tilted box are only the nearest below half
                # its plane spacing (Q02)
                if r["form"] == "linkcell" and "num_neighbors" in str(inp.get("neighbors")) and inp["box"].xy:
                    continue
                fresh = a.fresh_inputs(i)
                t.doing(dict(cls=a.name, input=i, form=r["form"], kind=r["kind"]))
                o = a.make()
                x, err = attempt(lambda: call(o, build(r), fresh))
                ev.append(dict(op="compute", form=r["form"], kind=r["kind"], ok=not err, err=err,
                               same=not err and D.same(ref, read(o, x))))
            t.episode(dict(cls=a.name, input=i), ev)


def run(t):
    for h, beh in enumerate(json.load(open(ARGS["histories"]))):
        s, ev, q = beh[0]["sys"], [], None
        P = np.array(s["P"]) / 64
        for c in beh[1:]:
            t.doing(dict(sys=s, history=beh[1:len(ev) + 2]))
            if c["op"] in ("give", "conflict"):
                q2, e = convert(c["c"], build(dict(c["r"], pts=P)), c["a"])
            elif c["op"] == "again":
                q2, e = convert(c["c"], q, 0)
            elif c["op"] == "pass":
                b = q.box
                q2, e = convert(c["c"], build(dict(form=c["f"], kind="Box", per=b.periodic, pk=c["pk"], pts=q.points,
                                                   dims=b.dimensions,
                                                   nums=[8 * x for x in (b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz)])), 0)
            else:
                v = bads(P, Box(8, 8, 8))[c["b"] - 1]
                _, err = attempt(lambda: CLS[c["c"]].from_system(v))
                q2, e = None, dict(ok=not err)
            if c["op"] in ("give", "again", "pass") and e["ok"]:
                q = q2
            ev.append(dict(c, **e))
            if c["op"] in ("give", "again", "pass") and not e["ok"]:
                break
        t.episode(dict(sys=s), ev)
    # the systems the computes below are given
    boxes = [D.BOX3(), D.BOXT(), D.BOXC(), D.BOX2(), D.BOX2T(), Box.square(7)]
    for b in boxes:
        p = D.pts(D.r_("sys"), b, 3)
        ev = []
        for r in reps(b, p):
            _, e = convert("NeighborQuery", build(r), 0)
            ev.append(dict(op="give", a=0, r=dict({k: v for k, v in r.items() if k != "pts"}, P=toint(p, 64)), **e))
        t.episode(dict(box=str(b)), ev)
    computes(t)


main(run)
