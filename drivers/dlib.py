"""Driver side: run the real freud, write episodes as ndjson for the trace specifications."""
import json, os, sys, traceback
import numpy as np

NONINT = 1 << 30          # stands for "not an integer / not finite" in traces
ARGS = json.load(open(sys.argv[1]))
SEED, TIER, PROP = ARGS["seed"], ARGS["tier"], ARGS["property"]
THOROUGH = TIER == "thorough"


def rng(*k):
    import zlib
    return np.random.default_rng([SEED] + [zlib.crc32(str(x).encode()) for x in k])


def Q(quick, thorough):
    return thorough if THOROUGH else quick


def toint(x, scale=1.0, tol=2e-3):
    """Nested list of ints of x*scale; NONINT where that is not within tol of an integer."""
    a = np.asarray(x, dtype=np.float64) * scale
    with np.errstate(all="ignore"):
        r = np.round(a)
        bad = ~np.isfinite(a) | (np.abs(a - r) > tol) | (np.abs(r) >= NONINT)
    r = np.where(bad, NONINT, np.where(np.isfinite(r), r, 0)).astype(np.int64)
    return r.tolist()


def fix(x, scale):
    """Fixed point: nearest int of x*scale (NONINT if not finite or too big)."""
    a = np.asarray(x, dtype=np.float64) * scale
    with np.errstate(all="ignore"):
        r = np.round(a)
        bad = ~np.isfinite(a) | (np.abs(r) >= NONINT)
    return np.where(bad, NONINT, np.where(np.isfinite(r), r, 0)).astype(np.int64).tolist()


def ints(x):
    return np.asarray(x).astype(np.int64).tolist()


class Trace:
    def __init__(self):
        self.f = open(ARGS["out"], "w")
        self.n = 0

    def doing(self, what):
        """Record what is about to run on the real code (the replay if it crashes)."""
        with open(ARGS["progress"], "w") as f:
            json.dump(what, f, default=str)

    def episode(self, case, ev, **head):
        d = dict(case=case, **head)
        d["ev"] = ev
        self.f.write(json.dumps(d, default=_j) + "\n")
        self.n += 1


def _j(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def attempt(f):
    """(value, '') or (None, exception class name)."""
    try:
        return f(), ""
    except Exception as e:           # noqa: BLE001 - the exception class is the observation
        return None, type(e).__name__


def main(run):
    t = Trace()
    try:
        run(t)
        t.f.close()
    except Exception as e:           # noqa: BLE001
        traceback.print_exc()
        import freud
        base = os.path.dirname(os.path.abspath(freud.__file__))
        tb = e.__traceback__
        files = []
        while tb:
            files.append(tb.tb_frame.f_code.co_filename)
            tb = tb.tb_next
        inner = any(os.path.abspath(x).startswith(base) for x in files)
        sys.stdout.flush()
        odd = isinstance(e, (ArithmeticError, AssertionError, AttributeError, LookupError, RuntimeError, TypeError, ValueError))
        os._exit(77 if inner else 78 if odd else 3)
    sys.stdout.flush()
    os._exit(0)


# ---- integer boxes ---------------------------------------------------------
class IBox:
    """Box with integer lattice vectors a1=(Lx,0,0) a2=(bx,Ly,0) a3=(cx,cy,Lz), real unit u."""

    def __init__(self, L, b=(0, 0, 0), d=3, per=(True, True, True), u=1.0, ex=None):
        self.L, self.b, self.d, self.per, self.u = list(L), list(b), d, list(per), u
        if d == 2:
            self.L[2] = 1
            self.b[1] = self.b[2] = 0
        if ex is None:
            ex = all(x & (x - 1) == 0 for x in self.L[:d])
        self.ex = ex

    def freud(self):
        import freud
        L, u = self.L, self.u
        if self.d == 2:
            b = freud.box.Box(L[0] * u, L[1] * u, 0, self.b[0] / L[1], 0, 0, is2D=True)
        else:
            b = freud.box.Box(L[0] * u, L[1] * u, L[2] * u, self.b[0] / L[1], self.b[1] / L[2],
                              self.b[2] / L[2])
        b.periodic = self.per
        return b

    def rec(self):
        return dict(L=self.L, bx=self.b[0], cx=self.b[1], cy=self.b[2], d=self.d, per=self.per,
                    ex=self.ex)

    def vectors(self):
        return np.array([[self.L[0], 0, 0], [self.b[0], self.L[1], 0],
                         [self.b[1], self.b[2], self.L[2] if self.d == 3 else 0]], dtype=np.int64)

    def planes(self):
        """nearest plane distances (units), float"""
        xy, xz, yz = self.b[0] / self.L[1], self.b[1] / self.L[2], self.b[2] / self.L[2]
        p = [self.L[0] / np.sqrt(1 + xy * xy + (xy * yz - xz) ** 2), self.L[1] / np.sqrt(1 + yz * yz), self.L[2]]
        return p[:self.d]


def random_ibox(r, d=None, pow2=True, tilt=None, Ls=None, per=None, u=None):
    d = int(r.choice([2, 3])) if d is None else d
    if Ls is None:
        Ls = [4, 8, 16, 32] if pow2 else [5, 6, 7, 9, 10, 12, 15, 20, 24]
    L = [int(r.choice(Ls)) for _ in range(3)]
    if tilt is None:
        tilt = r.random() < 0.5
    b = [0, 0, 0]
    if tilt:
        # tilt factors multiples of 1/4 so that pow2 boxes stay exact
        if pow2:
            k = [int(r.integers(-6, 7)) for _ in range(3)]
            b = [k[0] * L[1] // 4, k[1] * L[2] // 4, k[2] * L[2] // 4]
        else:
            b = [int(r.integers(-L[1], L[1] + 1)), int(r.integers(-L[2], L[2] + 1)), int(r.integers(-L[2], L[2] + 1))]
    if per is None:
        per = [True, True, True] if r.random() < 0.6 else [bool(x) for x in r.integers(0, 2, 3)]
    if u is None:
        u = float(r.choice([1.0, 0.5, 0.0625, 4.0])) if pow2 else float(r.choice([1.0, 0.5, 0.1]))
    return IBox(L, b, d, per, u)


def frac(ib, v):
    A = ib.vectors().T.astype(float)
    if ib.d == 2:
        A[2, 2] = 1
    return np.linalg.solve(A, np.asarray(v, dtype=float).T).T + .5


def inbox(ib, P):
    m = np.array([1, 1, 1 if ib.d == 3 else 0])
    return P - (np.floor(frac(ib, P)).astype(int) * m) @ ib.vectors()


def real(x):
    out = []
    for v in np.asarray(x, dtype=float).ravel():
        if not np.isfinite(v):
            out.append([-32767, 90])
        elif v == 0:
            out.append([0, 0])
        else:
            f, k = np.frexp(v)
            m, e = int(round(f * 32768)), int(k) - 15
            if abs(m) == 32768:
                m, e = m // 2, e + 1
            out.append([m, e])
    return out
