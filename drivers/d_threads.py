"""Histories of thread-count settings on the real freud.parallel (T02)."""
import ctypes, json, os
import numpy as np
from dlib import ARGS, main, toint
import freud
from freud.parallel import NumThreads, get_num_threads, set_num_threads
import dclasses as D

BAD = ["three", 2.5, [1], 1 << 40, {}]
try:
    _tbb = ctypes.CDLL("libtbb.so.12")._ZN3tbb6detail2r127global_control_active_valueEi
    _tbb.restype, _tbb.argtypes = ctypes.c_size_t, [ctypes.c_int]
except (OSError, AttributeError):
    _tbb = None


def active():
    return -1 if _tbb is None else int(_tbb(0))


def val(v):
    return None if v == -99 else v

EXC = [ValueError, KeyboardInterrupt, RuntimeError, GeneratorExit, SystemExit, AttributeError]


def run(t):
    beh = json.load(open(ARGS["histories"]))
    auto = len(os.sched_getaffinity(0))
    ads = [a for a in D.all_adapters(300) if a.name in ("RDF", "Cluster", "AABBQuery", "LocalDensity")]
    refs = {}
    for a in ads:
        for i in range(3):
            o = a.make()
            a.call(o, a.fresh_inputs(i))
            refs[a.name, i] = (o, {n: D.canon(v) for n, (v, _) in a.read(o).items()})
    for h, cmds in enumerate(beh):
        set_num_threads(0)
        cm, stack, ev = {}, [], []
        for c in cmds:
            t.doing(dict(history=cmds[:len(ev) + 1]))
            e = dict(c=c, ok=True, swallowed=False, same=True)
            try:
                if c["op"] == "set":
                    set_num_threads(val(c["v"])) if c["v"] != -99 or h % 2 else set_num_threads()
                elif c["op"] == "badset":
                    set_num_threads(BAD[c["v"] - 1])
                elif c["op"] == "ctor":
                    cm[c["k"]] = NumThreads(val(c["v"])) if c["v"] != -99 or h % 2 else NumThreads()
                elif c["op"] == "enter":
                    x = cm[c["k"]].__enter__()
                    stack.append(cm[c["k"]])
                elif c["op"] == "badenter":
                    NumThreads(BAD[c["v"] - 1]).__enter__()
                elif c["op"] == "exit":
                    x = stack.pop()
                    if c["exc"]:
                        err = EXC[(h + len(ev)) % len(EXC)]("inside")
                        e["swallowed"] = bool(x.__exit__(type(err), err, None))
                    else:
                        x.__exit__(None, None, None)
                elif c["op"] == "work":
                    a = ads[(h + c["v"]) % len(ads)]
                    o, want = refs[a.name, c["v"] - 1]
                    p = a.make()
                    a.call(p, a.fresh_inputs(c["v"] - 1))
                    e["same"] = all(D.same(D.canon(v), want[n]) for n, (v, _) in a.read(p).items()) and \
                        all(D.same(D.canon(v), want[n], True) for n, (v, _) in a.read(o).items())
            except Exception as x:      # noqa: BLE001
                e["ok"] = False
                e["exc"] = type(x).__name__
            g = get_num_threads()
            e["get"] = int(g) if isinstance(g, (int, np.integer)) else -1
            e["act"] = active()
            ev.append(e)
        set_num_threads(0)
        t.episode("threads", ev, auto=auto)


main(run)
