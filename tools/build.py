#!/usr/bin/env python3
"""Content mirror of /repo's working tree into /verif/.build/src and an incremental
ninja build of it.  /repo itself is never written to."""
import fcntl, filecmp, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(VERIF, ".build")
SRC = os.path.join(B, "src")
OUT = os.path.join(B, "cmake")
TOP = ["CMakeLists.txt", "CMake", "freud", "extern", "pyproject.toml", "README.rst", "LICENSE"]
SKIP_DIRS = {"__pycache__", ".git", "build"}
SKIP_EXT = (".so", ".pyc", ".pyo")


class BuildError(Exception):
    pass


def _walk(base):
    res = {}
    for t in TOP:
        p = os.path.join(base, t)
        if os.path.isfile(p):
            res[t] = p
        elif os.path.isdir(p):
            for d, dirs, files in os.walk(p):
                dirs[:] = [x for x in dirs if x not in SKIP_DIRS]
                for f in files:
                    if not f.endswith(SKIP_EXT):
                        q = os.path.join(d, f)
                        res[os.path.relpath(q, base)] = q
    return res


def sync():
    os.makedirs(SRC, exist_ok=True)
    want, have = _walk(REPO), _walk(SRC)
    changed = []
    for rel in have:
        if rel not in want:
            os.unlink(have[rel])
            changed.append(rel)
    for rel, p in want.items():
        q = os.path.join(SRC, rel)
        if rel in have and filecmp.cmp(p, q, shallow=False):
            continue
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copyfile(p, q)          # fresh mtime: ninja sees the change
        changed.append(rel)
    for t in TOP:                       # submodule directories may be empty
        p = os.path.join(REPO, t)
        if os.path.isdir(p):
            for d, dirs, _ in os.walk(p):
                dirs[:] = [x for x in dirs if x not in SKIP_DIRS]
                os.makedirs(os.path.join(SRC, os.path.relpath(d, REPO)), exist_ok=True)
    return changed


def env():
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
    e.update(PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0", MPLBACKEND="agg",
             MPLCONFIGDIR=os.path.join(B, "mpl"), PYTHONPATH=SRC)
    return e


def build(verbose=False):
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(B, "mpl"), exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        changed = sync()
        log = os.path.join(B, "build.log")
        with open(log, "w") as lf:
            if not os.path.exists(os.path.join(OUT, "build.ninja")):
                r = subprocess.run(["/usr/bin/cmake", "-G", "Ninja", "-S", SRC, "-B", OUT,
                                    "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_C_COMPILER=/usr/bin/gcc",
                                    "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
                                    "-DPython_EXECUTABLE=/opt/venv/bin/python",
                                    "-DCMAKE_PROJECT_freud_INCLUDE=/opt/vp/cmake/partial.cmake",
                                    "-DCMAKE_LIBRARY_OUTPUT_DIRECTORY=" + os.path.join(SRC, "freud")],
                                   env=env(), stdout=lf, stderr=subprocess.STDOUT)
                if r.returncode:
                    raise BuildError("cmake failed, see " + log)
            r = subprocess.run(["/usr/bin/cmake", "--build", OUT, "--parallel", "8"], env=env(),
                               stdout=lf, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError("build failed, see " + log)
    if verbose:
        print("built", len(changed), "changed files")
    return SRC


if __name__ == "__main__":
    try:
        build(True)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
