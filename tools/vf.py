"""Framework shared by all checks: build, drive the real code, run TLC, verdicts, evidence."""
import json, os, random, re, shutil, signal, subprocess, sys, time

import build as _b

VERIF = _b.VERIF
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """The check itself could not do its work: neither held nor broken."""


class Violation(Exception):
    def __init__(self, replay, msg):
        super().__init__(msg)
        self.replay, self.msg = replay, msg


def _write(path, eps):
    with open(path, "w") as f:
        for e in eps:
            f.write(json.dumps(e) + "\n")


def known_findings(pid):
    """key -> description of the findings listed for this property"""
    d = {}
    for line in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            d[m.group(2)] = m.group(3).strip()
    return d


def _rlimit():
    os.setsid()


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.wd = os.path.join(VERIF, ".build", "run", "%s-%s-%d" % (pid, tier, os.getpid()))
        shutil.rmtree(self.wd, ignore_errors=True)
        os.makedirs(self.wd)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.runs = []
        self.known = []
        self.src = None

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- build -------------------------------------------------------------
    def build(self):
        if self.src is None:
            try:
                self.src = _b.build()
            except _b.BuildError as e:
                raise Machinery(str(e))
        return self.src

    # -- drive the real code -------------------------------------------------
    def drive(self, driver, label="t", timeout=400, **args):
        """Run drivers/<driver>.py on the real code.  Returns the ndjson trace path.
        A crash of the process (signal) or a hang is a violation: the record of the call being
        executed is in the progress file."""
        self.build()
        out = os.path.join(self.wd, label + ".ndjson")
        prog = os.path.join(self.wd, label + ".progress.json")
        # The real code cuts its loops into pieces by the number of CPUs: with many of them every piece of
        # a small system is a single point, and what one point leaves behind for the next goes unseen.
        # So use two, except where threads are the question and, in thorough runs, for every other seed.
        cpus = use = sorted(os.sched_getaffinity(0))
        if self.pid not in ("T01", "T02") and not (self.tier == "thorough" and self.seed % 2 == 0):
            use = random.SystemRandom().sample(cpus, min(2, len(cpus)))
        a = dict(args, seed=self.seed, tier=self.tier, property=self.pid, out=out, progress=prog, cpus=cpus)

        def before():
            _rlimit()
            os.sched_setaffinity(0, use)
        af = os.path.join(self.wd, label + ".args.json")
        with open(af, "w") as f:
            json.dump(a, f)
        e = _b.env()
        e["PYTHONPATH"] = self.src + ":" + DRV
        e["PYTHONFAULTHANDLER"] = "1"
        e["MPLCONFIGDIR"] = self.wd
        log = os.path.join(self.wd, label + ".log")
        with open(log, "w") as lf:
            p = subprocess.Popen([PY, os.path.join(DRV, driver + ".py"), af], env=e, cwd=self.wd,
                                 stdout=lf, stderr=subprocess.STDOUT, preexec_fn=before)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
        if rc != 0:
            tail = open(log, errors="replace").read()[-2000:]
            cur = None
            if os.path.exists(prog):
                try:
                    cur = json.load(open(prog))
                except ValueError:
                    cur = open(prog).read()[:20000]
            if rc == "timeout" or (isinstance(rc, int) and rc < 0):
                how = "did not return" if rc == "timeout" else "killed the process (signal %d)" % -rc
                if cur is None:
                    raise Machinery("driver %s %s before its first call: %s" % (driver, how, tail))
                raise self._violation(dict(kind="crash", driver=driver, how=how, current=cur, log=tail),
                                      "a call on the real code " + how)
            if rc == 77:
                raise self._violation(dict(kind="exception", driver=driver, current=cur, log=tail),
                                      "a call on the real code raised unexpectedly: " + tail.strip().splitlines()[-1])
            if rc == 78 and cur is not None:
                # the drivers run on the unchanged code without exceptions: what the code gave back cannot be read
                raise self._violation(dict(kind="unreadable", driver=driver, current=cur, log=tail),
                                      "what a call on the real code gave back cannot be recorded: " + tail.strip().splitlines()[-1])
            raise Machinery("driver %s exited %s:\n%s" % (driver, rc, tail))
        return out

    # -- TLC -----------------------------------------------------------------
    def _tlc(self, module, cfg, label, env=None, workers="8", timeout=700, extra=(), heap="4g"):
        md = os.path.join(self.wd, "tlc-" + label)
        os.makedirs(md, exist_ok=True)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
               "-config", cfg] + list(extra) + [module + ".tla"]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery("TLC on %s (%s) did not finish in %d s" % (module, label, timeout))
        shutil.rmtree(md, ignore_errors=True)
        out = r.stdout + r.stderr
        with open(os.path.join(self.wd, label + ".tlc.log"), "w") as f:
            f.write(out)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if not m:
            m = re.search(r"The number of states generated: (\d+)", out)
            gen = int(m.group(1)) if m else 0
        self.runs.append(dict(module=module, label=label, rc=r.returncode, generated=gen,
                              distinct=dist, wall_s=round(time.time() - t, 1)))
        return r.returncode, out, gen, dist

    def mc(self, module, cfg=None, label=None, **kw):
        """Exhaustive design check: must succeed (it does not depend on /repo)."""
        cfg = cfg or module + ".cfg"
        label = label or "mc-" + cfg.replace(".cfg", "")
        rc, out, gen, dist = self._tlc(module, cfg, label, **kw)
        if rc != 0:
            raise Machinery("design check %s/%s failed (rc %d):\n%s" % (module, cfg, rc, out[-2000:]))
        self.states += dist
        self.transitions += gen
        return out

    def witness(self, module, cfg, env=None, **kw):
        """A faulty variant of the design must be refuted: TLC has to find a violation."""
        rc, out, gen, dist = self._tlc(module, cfg, "wit-" + cfg.replace(".cfg", ""), env=env, **kw)
        if rc != 12:
            raise Machinery("faulty design %s/%s %s not refuted (rc %d):\n%s" % (module, cfg, env, rc, out[-2000:]))
        self.transitions += gen

    def behaviours(self, module, cfg, num, depth, label=None, **kw):
        """Behaviours of the specification (simulation mode), as the JSON it printed with
        PrintT(<<"BEH", ToJson(h)>>)."""
        label = label or "gen-" + cfg.replace(".cfg", "")
        rc, out, gen, dist = self._tlc(module, cfg, label, workers="1",
                                       extra=["-simulate", "num=%d" % num, "-depth", str(depth),
                                              "-seed", str(self.seed)], **kw)
        if rc not in (0,):
            raise Machinery("generation %s/%s failed (rc %d):\n%s" % (module, cfg, rc, out[-2000:]))
        res, seen = [], set()
        for m in re.finditer(r'<<"BEH", "(.*?)">>\n', out):
            s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
            if s not in seen:
                seen.add(s)
                res.append(json.loads(s))
        if not res:
            raise Machinery("no behaviours from %s:\n%s" % (module, out[-2000:]))
        by = {}                 # simulation prints every last step it could take: keep one each
        for h in res:
            by.setdefault(json.dumps(h[:-1]), []).append(h)
        res = [v[k % len(v)] for k, v in enumerate(by.values())]
        self.transitions += gen
        self.notes.setdefault("behaviours_generated", 0)
        self.notes["behaviours_generated"] += len(res)
        return res

    def validate(self, module, trace, cfg=None, label=None, env=None, **kw):
        """Trace validation.  The module steps each recorded episode through the specification
        and has the invariant Conforms (no clause broken)."""
        label = label or "tv-" + module
        eps = [json.loads(x) for x in open(trace)]
        if not eps:
            raise Machinery("empty trace for " + module)
        listed = known_findings(self.pid)
        kn = [e for e in eps if e.get("known") in listed]
        if kn:
            eps = [e for e in eps if e.get("known") not in listed]
            _write(trace, eps)
            for k in kn:
                if self._known_breaks(module, k, cfg, env, kw):
                    self.known.append(k["known"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, listed[k["known"]]))
            if not eps:
                return ""
        nev = sum(len(e["ev"]) for e in eps)
        e = dict(env or {}, TRACE=trace)
        rc, out, gen, dist = self._tlc(module, cfg or "Trace.cfg", label, env=e, **kw)
        # 75, 76, or an overflow or the like while a clause is evaluated: a recorded value lies outside its domain
        if rc in (12, 75, 76) or rc == 255 and "The behavior up to this point is" in out and not re.search("OutOfMemory|StackOverflow", out):
            g = re.findall(r"/\\ ep = (\d+)", out), re.findall(r"/\\ line = (\d+)", out), re.findall(r"/\\ broken = (\{[^}]*\})", out)
            i = int(g[0][-1]) - 1 if g[0] else 0
            ln = int(g[1][-1]) if g[1] else 0
            br = g[2][-1] if rc == 12 and g[2] else "the domain of a clause: " + "".join(re.findall(r"Error: (.*)", out))[:300]
            ln += rc != 12
            ep = eps[i]
            one = dict(ep)
            one["ev"] = ep["ev"][:ln]
            raise self._violation(dict(kind="trace", module=module, episode=i + 1, event=ln, clauses=br,
                                       record=one, how="run TLC on spec/%s.tla with TRACE=a file holding 'record' as its only line" % module),
                                  "%s: episode %d (%s) event %d breaks %s" % (module, i + 1, ep.get("case", ""), ln, br))
        if rc != 0:
            raise Machinery("TLC failed on %s (rc %d):\n%s" % (module, rc, out[-4000:]))
        if dist != nev + len(eps):
            raise Machinery("%s: %d states but %d events in %d episodes: trace not consumed" % (module, dist, nev, len(eps)))
        self.states += dist
        self.transitions += gen
        self.traces += len(eps)
        self.events += nev
        if len(self.samples) < 4:
            s = json.dumps(eps[min(len(eps) - 1, self.seed % len(eps))])
            self.samples.append(json.loads(s) if len(s) < 700 else s[:700] + "...")
        return out

    def _known_breaks(self, module, ep, cfg, env, kw):
        f = os.path.join(self.wd, "known.ndjson")
        _write(f, [ep])
        rc, out, _, _ = self._tlc(module, cfg or "Trace.cfg", "known", env=dict(env or {}, TRACE=f), **kw)
        if rc not in (0, 12):
            raise Machinery("TLC failed on %s (rc %d):\n%s" % (module, rc, out[-4000:]))
        return rc == 12

    def _violation(self, rec, msg):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
        with open(path, "w") as f:
            json.dump(dict(rec, property=self.pid, seed=self.seed, message=msg), f)
        return Violation(path, msg)

    # -- result ----------------------------------------------------------------
    def evidence(self, violations):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ["none"],
                   events_validated=self.events, tlc_runs=self.runs)
        cov.update(self.notes)
        if self.known:
            cov["known_findings_reproduced"] = self.known
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=violations)
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, self.pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, self.pid + ".json"))
