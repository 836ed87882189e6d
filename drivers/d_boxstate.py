"""Replays histories generated from FBoxState.tla on a real freud Box."""
from dlib import *
import types, warnings
import freud
from freud.box import Box

warnings.simplefilter("ignore")
U = 0.5
F = [[0, 0, 0], [2, 1, 0], [1, 2, 2], [2, 2, 2]]


def proj(b):
    o = {}
    o["d"] = int(b.dimensions)
    o["is2D"] = bool(b.is2D)
    o["L"] = toint(b.L, 1 / U)
    o["Lxyz"] = toint([b.Lx, b.Ly, b.Lz], 1 / U)
    o["t"] = toint([b.xy, b.xz, b.yz], 4)
    o["per"] = [bool(x) for x in b.periodic]
    o["perxyz"] = [bool(b.periodic_x), bool(b.periodic_y), bool(b.periodic_z)]
    o["vol"] = toint(b.volume, 1 / U ** (2 if b.is2D else 3))
    o["m4"] = toint(b.to_matrix(), 4 / U)
    o["v4"] = toint([b.v1, b.v2, b.v3], 4 / U)
    p = b.to_box_params()
    o["params"] = toint(p[:3], 1 / U) + toint(p[3:], 4)
    dd = b.to_dict()
    o["dict"] = toint([dd["Lx"], dd["Ly"], dd["Lz"]], 1 / U) + toint([dd["xy"], dd["xz"], dd["yz"]], 4) + [dd["dimensions"]]
    o["cubic"] = bool(b.cubic)
    deg = b.Lx == 0 or b.Ly == 0 or (b.Lz == 0 and not b.is2D)
    with np.errstate(all="ignore"):
        o["linv"] = [0, 0, 0] if deg else toint(b.L_inv, 64 * U)
    o["f"] = F
    o["a8"] = o["f2"] = []
    for k in ("eqself", "eqtwin", "fresh", "reprok"):
        o[k] = True
    for k in ("eqL", "eqt", "eqper", "eqother", "eqd"):
        o[k] = False
    if deg:
        return o
    fr = np.array(F, dtype=np.float32) / 2
    a = b.make_absolute(fr)
    o["a8"] = toint(a, 8 / U)
    o["f2"] = toint(b.make_fractional(a), 2)
    mk = lambda L=None, t=None, d=None, per=None: _mk(b, L, t, d, per)
    twin = mk()
    o["eqself"] = bool(b == b) and not bool(b != b)
    o["eqtwin"] = bool(b == twin) and bool(twin == b) and not bool(b != twin)
    o["eqL"] = any(bool(b == mk(L=[b.Lx + (i == 0), b.Ly + (i == 1), b.Lz + (i == 2)])) for i in range(2 if b.is2D else 3))
    o["eqt"] = any(bool(b == mk(t=[b.xy + (i == 0), b.xz + (i == 1), b.yz + (i == 2)])) for i in range(3))
    o["eqper"] = any(bool(b == mk(per=[bool(x) != (k == i) for k, x in enumerate(b.periodic)])) for i in range(3))
    o["eqother"] = bool(b == "box") or bool(b == None)  # noqa: E711
    if b.is2D:
        c = Box(b.Lx, b.Ly, 1, b.xy, b.xz, b.yz)
        c.periodic = b.periodic
        c.Lz = 0
        o["eqd"] = bool(b == c) or bool(c == b)
    pts = np.array([[0.25, 0.5, 0.75 * (not b.is2D)], [9, -7, 5 * (not b.is2D)], [-3.5, 2, -11 * (not b.is2D)]], dtype=np.float32)
    o["fresh"] = all(np.array_equal(f(b), f(twin)) for f in (
        lambda x: x.wrap(pts), lambda x: x.make_fractional(pts), lambda x: x.make_absolute(pts),
        lambda x: x.get_images(pts), lambda x: x.contains(pts), lambda x: x.compute_all_distances(pts, pts),
        lambda x: x.unwrap(pts, [[1, -1, 2]] * 3), lambda x: x.center_of_mass(pts)))
    rb = eval(repr(b), {"freud": freud})
    rb.periodic = b.periodic
    o["reprok"] = bool(rb == b) and str(b) == repr(b)
    return o


def _mk(b, L=None, t=None, d=None, per=None):
    L = [b.Lx, b.Ly, b.Lz] if L is None else L
    t = [b.xy, b.xz, b.yz] if t is None else t
    c = Box(*L, *t, is2D=b.is2D)
    c.periodic = b.periodic if per is None else per
    return c


PERMS = [np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]]), np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]), np.eye(3)]


def bad(b, k):
    if k == 1:
        return Box.cube()
    if k == 2:
        return Box.square()
    if k == 3:
        return Box.from_box([1, 2, 3, 4])
    if k == 4:
        d = b.to_dict()
        d["dimensions"] = 3
        return Box.from_box(d, dimensions=2)
    if k == 5:
        return Box.from_box_lengths_and_angles(1, 1, 1, 4.0, 1, 1)
    if k == 6:
        return Box.from_box_lengths_and_angles(1, 1, 1, 0.3, 0.3, 2.5)
    if k == 7:
        b.L = [1, 2]
        return b
    return Box.from_box(Box(2, 2, 2), dimensions=2)


def apply(b, c, i):
    op = c["op"]
    if op == "new":
        return Box(*[x * U for x in c["L"]], *[x / 4 for x in c["t"]], is2D=c["d"] == 2)
    if op == "infer":
        L = [x * U for x in c["L"]]
        return Box(*L) if L[2] else Box(L[0], L[1])
    if op == "cube":
        return Box.cube(c["k"] * U)
    if op == "square":
        return Box.square(c["k"] * U)
    if op == "L":
        b.L = [x * U for x in c["L"]] if i % 2 else np.array(c["L"]) * U
    elif op == "Lscalar":
        b.L = c["k"] * U
    elif op == "Li":
        setattr(b, ("Lx", "Ly", "Lz")[c["i"] - 1], c["k"] * U)
    elif op == "ti":
        setattr(b, ("xy", "xz", "yz")[c["i"] - 1], c["k"] / 4)
    elif op == "dim":
        b.dimensions = c["d"]
    elif op == "per":
        b.periodic = c["per"]
    elif op == "perall":
        b.periodic = c["p"]
    elif op == "peri":
        setattr(b, ("periodic_x", "periodic_y", "periodic_z")[c["i"] - 1], c["p"])
    elif op == "mul":
        k = c["num"] / c["den"]
        return b * k if i % 2 else k * b
    elif op == "from":
        f = c["form"]
        if f == "box":
            return Box.from_box(b)
        if f == "dict":
            return Box.from_box(b.to_dict())
        if f == "attrs":
            return Box.from_box(types.SimpleNamespace(**b.to_dict()))
        if f == "params":
            return Box.from_box(b.to_box_params() if i % 2 else np.array(b.to_box_params()))
        if f == "matrix":
            return Box.from_box(b.to_matrix())
        if f == "frommatrix":
            return Box.from_matrix(b.to_matrix(), dimensions=b.dimensions if i % 2 else None)
        if f == "rotmatrix":
            return Box.from_matrix(PERMS[i % 3] @ b.to_matrix())
        if f == "angles":
            return Box.from_box_lengths_and_angles(*b.to_box_lengths_and_angles())
        if f == "seq3":
            return Box.from_box([b.Lx, b.Ly, b.Lz] if not b.is2D or i % 2 else [b.Lx, b.Ly])
    elif op == "bad":
        return bad(b, c["k"])
    return b


def run(t):
    for h in json.load(open(ARGS["histories"])):
        b = Box(2, 2, 2)
        ev = []
        for i, c in enumerate(h):
            t.doing(dict(call="Box history", commands=h[:i + 1]))
            b4 = repr(b), tuple(b.periodic)
            new, exc = attempt(lambda: apply(b, c, i))
            same = True
            if c["op"] in ("mul", "from", "new", "infer", "cube", "square"):
                same = (repr(b), tuple(b.periodic)) == b4 and (new is not b)
            if not exc:
                b = new
            ev.append(dict(c=c, ok=not exc, exc=exc, srcsame=same, o=proj(b)))
        t.episode("history", ev)


main(run)
