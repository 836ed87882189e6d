"""Lives of real analysis objects (K01-K04): histories generated from FComputeGen are replayed
on every built class; reference results come from fresh objects in separate processes."""
import gc, json, os, pickle, subprocess, sys
import numpy as np

if __name__ == "__main__" and sys.argv[1] == "--refs":
    import dclasses as D
    i = int(sys.argv[2])
    out = {}
    for a in D.all_adapters():
        o = a.make()
        try:
            a.call(o, a.fresh_inputs(i))
            out[a.name] = {n: (D.canon(v), x) for n, (v, x) in a.read(o).items()}
        except Exception as e:          # noqa: BLE001
            out[a.name] = {n: (None, type(e).__name__) for n in a.results}
        del o
    pickle.dump(out, open(sys.argv[3], "wb"))
    os._exit(0)

import dlib
from dlib import ARGS, PROP, Q, Trace, main, rng
import dclasses as D

NREF = 4


def references():
    ps, files = [], []
    for i in range(NREF):
        f = ARGS["out"] + ".ref%d" % i
        files.append(f)
        ps.append(subprocess.Popen([sys.executable, os.path.abspath(__file__), "--refs", str(i), f]))
    for p in ps:
        if p.wait() != 0:
            raise RuntimeError("reference process failed")
    refs = [pickle.load(open(f, "rb")) for f in files]
    for f in files:
        os.remove(f)
    return refs


# ---- representations of an input array ---------------------------------------
def represent(a, v, r):
    """(object to pass, base array to scribble or None) for array a in representation v."""
    if v == 1:          # wider type
        t = {"f4": np.float64, "u4": np.int64, "i4": np.int64}.get(a.dtype.str[1:])
        if a.dtype.kind == "c" and not np.any(a.imag):
            t, a = np.float64, a.real
        x = np.array(a, dtype=t or a.dtype)
        return x, x
    if v == 2:
        x = np.array(a, order="F")
        return x, x
    if v == 3:          # every second row of a larger array
        base = np.zeros((2 * a.shape[0] + 1,) + a.shape[1:], dtype=a.dtype)
        base[...] = 7
        base[1::2] = a
        return base[1::2], base
    if v == 4:
        base = np.array(a)
        x = base[...]
        x.flags.writeable = False
        return x, base
    if v == 5:
        x = a.tolist()
        return x, x
    if v == 6:          # reversed view
        base = np.array(a[::-1])
        return base[::-1], base
    if v == 7 and a.ndim > 1:       # some columns of a wider array
        base = np.full(a.shape[:-1] + (2 * a.shape[-1] + 1,), 5, dtype=a.dtype)
        base[..., 1:1 + 2 * a.shape[-1]:2] = a
        return base[..., 1:1 + 2 * a.shape[-1]:2], base
    if v == 8:
        return (tuple(map(tuple, a.tolist())) if a.ndim == 2 else tuple(a.tolist())), None
    if v == 9:          # other byte order
        x = a.astype(a.dtype.newbyteorder())
        return x, x
    if v == 10 and a.ndim > 1:      # transposed memory of a transposed array, strided
        base = np.zeros(tuple(2 * s for s in a.shape[::-1]), dtype=a.dtype)
        x = base.T[(slice(None, None, 2),) * a.ndim]
        x[...] = a
        return x, base
    if v == 11:         # misaligned memory
        raw = np.zeros(a.nbytes + 1, dtype=np.uint8)
        x = raw[1:].view(a.dtype).reshape(a.shape)
        x[...] = a
        return x, x
    x = np.array(a)
    return x, x


def build(ad, c, seed):
    """Arguments in the representation asked for, and what the caller could scribble on."""
    a = ad.fresh_inputs(c["i"] - 1)
    v, m = c.get("v", 0), c.get("m", 0)
    names = [k for k in a if k in D.ARRAYS and isinstance(a[k], np.ndarray)]
    own = {}
    for j, k in enumerate(names):
        vv = v if m == 0 or j % 3 == m - 1 else 0
        x, base = represent(a[k], vv, seed)
        a[k] = x
        own[k] = base
    for k in a:
        if k not in own and isinstance(a[k], (D.Box, D.NeighborList, dict)):
            own[k] = a[k]
    return a, own


def snap(own):
    return {k: D.canon(v) for k, v in own.items()}


def scribble(own, r):
    for k, v in own.items():
        if isinstance(v, np.ndarray):
            if v.flags.writeable:
                v[...] = 3 if v.dtype.kind in "iu" else 0.21875
        elif isinstance(v, list):
            v[:] = [[0.5, 0.5, 0.5]] * 2
        elif isinstance(v, D.NeighborList):
            v.filter(np.arange(len(v)) % 2 == 0)
            v.sort(True)
        elif isinstance(v, D.Box):
            v.L = [3, 4, 0 if v.is2D else 5]
            v.periodic = [False, True, False]
        elif isinstance(v, dict):
            v.clear()
            v["scribbled"] = 1


class Life:
    def __init__(self, adapters, refs, seed):
        self.ads, self.refs, self.seed = adapters, refs, seed
        self.obj, self.own, self.last, self.holds = {}, {}, {}, []

    def read(self, o, ad, obs):
        out = []
        first = ad.read(obs)
        vals = {n: D.canon(v) for n, (v, _) in first.items()}
        second = ad.read(obs)
        for n, (v, exc) in first.items():
            eq = [] if exc else [i + 1 for i in range(NREF) if self.refs[i][ad.name][n][1] == "" and
                                 D.same(vals[n], self.refs[i][ad.name][n][0])]
            prev = self.last.get(o, {}).get(n)
            out.append(dict(n=n, exc=exc, eq=eq, again=second[n][1] == exc and D.same(D.canon(second[n][0]), vals[n], True),
                            kept=prev is None or (prev[1] == exc and D.same(prev[0], vals[n], True))))
            if not exc:
                self.last.setdefault(o, {})[n] = (vals[n], exc)
        return out

    def held_changed(self):
        bad = []
        for ad, n, v, want in self.holds:
            if not D.same(D.canon(v), want, True):
                bad.append(ad.name + "." + n)
        return sorted(set(bad))

    def step(self, c):
        o = c["o"]
        ad = self.ads[o]
        e = dict(c=c, exc="", sbad=[], touched=[], r=[], changed=[], label="")
        if c["op"] == "new":
            self.obj[o] = ad.make()
            self.last.pop(o, None)
        elif c["op"] in ("comp", "fail"):
            a, own = build(ad, c, self.seed)
            if c["op"] == "fail":
                lab, f = ad.bad[(c["b"] - 1) % len(ad.bad)]
                try:
                    a = f(a)
                    e["label"] = lab
                except KeyError:
                    a = ad.bad[0][1](a)
                    e["label"] = ad.bad[0][0]
            before = snap(own)
            self.last.pop(o, None)
            try:
                ad.call(self.obj[o], a)
            except Exception as x:      # noqa: BLE001
                e["exc"] = type(x).__name__
                if e["c"]["op"] == "comp":
                    e["msg"] = str(x)[:200]
            after = snap(own)
            e["touched"] = [k for k in own if not D.same(before[k], after[k], True)]
            self.own[o] = own
            del a
        elif c["op"] == "read":
            e["r"] = self.read(o, ad, self.obj[o])
        elif c["op"] == "hold":
            for n, (v, exc) in ad.read(self.obj[o]).items():
                if not exc:
                    self.holds.append((ad, n, v, D.canon(v)))
            e["r"] = self.read(o, ad, self.obj[o])
        elif c["op"] == "held":
            e["changed"] = self.held_changed()
        elif c["op"] == "scrib":
            scribble(self.own.get(o, {}), None)
            self.own[o] = {}
            gc.collect(0)
        elif c["op"] == "del":
            del self.obj[o]
            self.last.pop(o, None)
            gc.collect(0)
        if o in self.obj:
            e["sbad"] = ad.settings_wrong(self.obj[o])
        return e


def run(t):
    beh = json.load(open(ARGS["histories"]))
    refs = references()
    ads = D.all_adapters()
    for k, h in enumerate(beh):
        a, b = ads[k % len(ads)], ads[(k * 7 + 3) % len(ads)]
        life = Life({1: a, 2: a, 3: b}, refs, k)
        done, ev = [], []
        for c in h:
            done.append(c)
            t.doing(dict(cls=a.name, other=b.name, history=done))
            ev.append(life.step(c))
        del life
        t.episode(a.name, ev)


main(run)
