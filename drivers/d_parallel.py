"""The analysis classes under different thread counts, processor sets and repetitions (T01)."""
import json, os, pickle, subprocess, sys, zlib
import numpy as np

SETTINGS = [1, 2, 3, None, 8, 5, None, 16, 4, None]


def leaves(v, out_i, out_f):
    if isinstance(v, np.ndarray):
        out_i.append(repr((v.shape, v.dtype.kind)).encode())
        if v.dtype.kind in "fc":
            out_f.append(np.ravel(v))
            out_i.append(np.isnan(np.ravel(v)).tobytes())
        else:
            out_i.append(np.ascontiguousarray(v).tobytes())
    elif isinstance(v, (float, np.floating)):
        out_f.append(np.array([v]))
    elif isinstance(v, (list, tuple)):
        out_i.append(b"[%d" % len(v))
        for x in v:
            leaves(x, out_i, out_f)
    else:
        out_i.append(repr(v).encode())


def compress(v, exc):
    i, f = [], []
    leaves(v, i, f)
    c = zlib.crc32(b"|".join(i))
    return exc, [c >> 16, c & 65535], f


def child(conf):
    """Run every class on the given inputs under every setting; pickle compressed results."""
    c = json.load(open(conf))
    if c["cpus"]:
        os.sched_setaffinity(0, set(sorted(os.sched_getaffinity(0))[:c["cpus"]]))
    import dclasses as D
    from freud.parallel import set_num_threads
    out = []
    ads = D.all_adapters(c["n"])
    for i in c["inputs"]:
        for a in ads:
            args = a.fresh_inputs(i)
            reuse = a.make()
            for k, th in enumerate(c["threads"]):
                if c["slow"] and a.name in ("Hexatic", "HexaticWeighted", "StaticStructureFactorDebye", "AllPairs") and k >= c["slow"]:
                    continue
                with open(c["progress"], "w") as f:
                    json.dump(dict(cls=a.name, input=i, threads=th, n=c["n"], cpus=c["cpus"]), f)
                set_num_threads(th)
                o = reuse if k % 2 else a.make()
                try:
                    a.call(o, args)
                    r = {n: compress(D.canon(v), x) for n, (v, x) in a.read(o).items()}
                except Exception as e:          # noqa: BLE001
                    r = {n: compress(None, type(e).__name__) for n in a.results}
                out.append((a.name, i, c["n"], -1 if th is None else th, c["cpus"], k, r))
    pickle.dump(out, open(c["out"], "wb"))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__" and sys.argv[1] == "--child":
    child(sys.argv[2])

from dlib import ARGS, Q, main


def dev(a, b):
    """Largest deviation of float leaves, in 1e-7 of the largest value of the reference."""
    if len(a) != len(b):
        return 1 << 29
    m = 0.0
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return 1 << 29
        x, y = x.astype(np.complex128), y.astype(np.complex128)
        inf = ~np.isfinite(x)
        if np.any(inf != ~np.isfinite(y)) or np.any(np.nan_to_num(x[inf]) != np.nan_to_num(y[inf])):
            return 1 << 29
        x, y = x[~inf], y[~inf]
        if x.size:
            s = max(float(np.max(np.abs(x))), 1e-30)
            m = max(m, float(np.max(np.abs(x - y))) / s)
    return int(min(np.ceil(m * 1e7), 1 << 29))


def run(t):
    jobs = []
    sizes = Q([1100], [700, 1700, 3000])
    for n in sizes:
        jobs.append(dict(cpus=1, threads=[1], inputs=[0, 1, 2, 3], n=n, slow=0))
    ref = len(jobs)
    for n in sizes:
        for i in range(4):
            jobs.append(dict(cpus=0, threads=SETTINGS * Q(1, 6), inputs=[i], n=n, slow=Q(4, 12)))
        jobs.append(dict(cpus=2, threads=[2, None], inputs=[0, 1, 3], n=n, slow=0))
        if Q(0, 1):
            jobs.append(dict(cpus=5, threads=[5, None, 2], inputs=[0, 1, 2, 3], n=n, slow=0))
    ps, res = [], []
    pending = list(enumerate(jobs))
    results = [None] * len(jobs)
    running = {}
    while pending or running:
        while pending and len(running) < 6:
            k, j = pending.pop(0)
            conf = ARGS["out"] + ".job%d" % k
            j["out"] = conf + ".pkl"
            j["progress"] = conf + ".now"
            json.dump(j, open(conf, "w"))
            running[k] = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--child", conf])
        k, p = next(iter(running.items()))
        rc = p.wait()
        del running[k]
        if rc != 0:
            for q in running.values():
                q.kill()
            t.doing(dict(child=json.load(open(jobs[k]["progress"])), rc=rc))
            os._exit(77 if rc < 0 else 78)
        results[k] = pickle.load(open(jobs[k]["out"], "rb"))
        for f in (jobs[k]["out"], jobs[k]["progress"], ARGS["out"] + ".job%d" % k):
            os.remove(f)
    refs = {(a, i, n): r for out in results[:ref] for a, i, n, th, c, k, r in out}
    eps = {key: [dict(threads=1, cpus=1, rep=0, r=[dict(n=m, exc=x[0], dig=x[1], dev=0) for m, x in r.items()])]
           for key, r in refs.items()}
    worst = {}
    for out in results[ref:]:
        for a, i, n, th, c, k, r in out:
            rr = []
            for m, x in r.items():
                d = dev(refs[a, i, n][m][2], x[2])
                worst[a] = max(worst.get(a, 0), d)
                rr.append(dict(n=m, exc=x[0], dig=x[1], dev=d))
            eps[a, i, n].append(dict(threads=th, cpus=c, rep=k, r=rr))
    for (a, i, n), ev in eps.items():
        t.episode("%s/%d/%d" % (a, i, n), ev)
    print(sorted(worst.items(), key=lambda x: -x[1])[:12])


main(run)
