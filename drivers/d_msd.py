"""Mean squared displacement (M01)."""
import warnings
import numpy as np
import freud
from dlib import *

warnings.simplefilter("ignore")


def trajectory(r, ib, N, n):
    """integer positions frame by frame, wrapped into the box with images when there is one"""
    c = r.random()
    x0 = r.integers(-12, 13, (1, n, 3))
    if c < .15:
        s = np.zeros((N, n, 3), int)
    elif c < .35:
        s = np.repeat(r.integers(-2, 3, (1, n, 3)), N, 0)          # uniform motion
    else:
        s = r.integers(-3, 4, (N, n, 3))
    s[0] = 0
    x = x0 + np.cumsum(s, 0)
    return x


def msd(t):
    for ei in range(Q(220, 2200)):
        r = rng(PROP, ei)
        mode = str(r.choice(["window", "direct"]))
        c = r.random()
        ib = None if c < .4 else random_ibox(r, pow2=True, Ls=[8, 16], per=[True] * 3, u=1.0)
        u = float(r.choice([1, .5, 2])) if ib is None else float(r.choice([1, .5, 4]))
        if ib:
            ib.u = u
        box = ib.freud() if ib else None
        if ib and r.random() < .3:
            box = box.to_matrix() if r.random() < .5 else box.to_dict()
        mk = lambda: freud.msd.MSD(box, mode) if r.random() < .7 else freud.msd.MSD(box=box) if mode == "window" else freud.msd.MSD(mode=mode, box=box)
        o = mk()
        evs, N = [], int(r.choice([1, 2, 3, 5, 8, 17, 40]))
        for k in range(int(r.integers(1, 5))):
            reset = k == 0 or bool(r.random() < .4)
            if k == 0 and r.random() < .3:
                reset = False
            if reset and k:
                N = int(r.choice([1, 2, 4, 7, 16, 31]))
            n = int(r.choice([1, 2, 3, 6]))
            x = trajectory(r, ib, N, n)
            e = dict(n=n, reset=reset, bad=False, im=[], box=dict(L=[1, 1, 1], bx=0, cx=0, cy=0, d=3, per=[True] * 3, ex=True))
            im = None
            if ib is not None and ib.d == 2:
                x[:, :, 2] = 0
            if ib is not None:
                e["box"] = ib.rec()
                if r.random() < .8:
                    flat = x.reshape(-1, 3)
                    m = np.array([1, 1, 1 if ib.d == 3 else 0])
                    im = (np.floor(frac(ib, flat)).astype(int) * m)
                    if r.random() < .3:
                        im = im + r.integers(-1, 2, im.shape) * m     # images of an unwrapped engine
                    flat = flat - im @ ib.vectors()
                    x, im = flat.reshape(x.shape), im.reshape(x.shape)
                    e["im"] = ints(im)
                    if ib.d == 2 and r.random() < .3:
                        im = im + np.array([0, 0, 1])                 # the third image of a plane means nothing
            e["x"] = ints(x)
            X = x * u
            bad = r.random()
            if bad < .04:
                X, e["bad"] = X[0], True
            elif bad < .08:
                X, e["bad"] = X[:, :, :2], True
            elif bad < .12 and im is not None:
                im, e["bad"] = im[:, :, :2] if r.random() < .5 else np.concatenate([im, im]), True
            c = r.random()
            X = X.astype(np.float32) if c < .5 else X if c < .8 else np.asfortranarray(X) if c < .9 else X.tolist()
            if im is not None:
                c = r.random()
                im = im.astype(np.int32) if c < .5 else im if c < .7 else im.astype(float) if c < .85 else im.tolist()
            t.doing(dict(call="MSD.compute", mode=mode, e=e))
            args = (X,) if im is None else (X, im)
            _, e["exc"] = attempt(lambda: o.compute(*args, reset=reset) if not reset or r.random() < .5 else o.compute(*args))
            if not e["exc"]:
                pm = o.particle_msd
                e["shape"], e["pm"], e["msd"] = list(pm.shape), np.ravel(fix(pm / u / u, 64)).tolist(), fix(o.msd / u / u, 64)
                if o.mode != mode or (o.box is None) != (ib is None):
                    e["shape"] = []
            evs.append(e)
            if e["exc"] and reset:
                o = mk()                       # what a failed call with reset leaves behind is not specified
                evs.append(dict(n=0, reset=True, bad=False, im=[], x=[], exc="", shape=[0, 0], pm=[], msd=[], box=e["box"]))
        t.episode(ei, evs, mode=mode)


main(msd)
