"""Replay driver: the library rebuilt from /repo's current sources, run on concrete inputs."""
import os, subprocess, concurrent.futures as cf, select, time
from . import build
CXX = "clang++"


class BuildError(Exception):
    pass


_built = {}


def compile_driver(kind="native"):
    """kind: native (assembly back end) | portable (C++ back end)"""
    if kind in _built:
        return _built[kind]
    wd = os.path.join(build.workdir(), "drv-" + kind)
    os.makedirs(wd, exist_ok=True)
    base = [CXX, "-std=c++20", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-I", build.REPO + "/include", "-I", build.REPO + "/src", "-w"]
    jobs = []
    objs = []
    import glob
    pre = []
    if kind == "portable":
        pre = ["-DDV_PORTABLE", "-include", os.path.join(build.HERE, "harness", "portable.hpp")]
    for p in range(6):
        o = "%s/d%d.o" % (wd, p)
        jobs.append(base + ["-O0", "-DPART=%d" % p] + pre + ["-c", os.path.join(build.HERE, "harness", "driver.cpp"), "-o", o])
        objs.append(o)
    for s in sorted(glob.glob(build.REPO + "/src/*.cpp")):
        o = "%s/%s.o" % (wd, os.path.basename(s)[:-4])
        jobs.append(base + ["-O1"] + pre + ["-c", s, "-o", o])
        objs.append(o)
    if kind == "native":
        o = wd + "/asm.o"
        jobs.append([CXX, "-c", build.REPO + "/src/arithmetic.s", "-o", o])
        objs.append(o)

    def run(c):
        r = subprocess.run(c, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-2000:])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    exe = wd + "/driver"
    run([CXX, "-fsanitize=address"] + objs + ["-o", exe])
    _built[kind] = exe
    return exe


class Driver:
    def __init__(self, kind="native", nofeat=False):
        self.exe = compile_driver(kind)
        self.kind, self.nofeat = kind, nofeat
        self.crash = None

    def run(self, cmds, timeout=600):
        """outputs of the commands; a crash yields 'CRASH ...' for the command that caused it (the rest is rerun)"""
        out = []
        i = 0
        crashes = 0
        while i < len(cmds):
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:symbolize=0:exitcode=77", ASAN_SYMBOLIZE="0")
            if self.nofeat:
                env["BLS_DISABLE_BMI2"] = "1"
            try:
                r = subprocess.run([self.exe], input="\n".join(cmds[i:]) + "\n",
                                   capture_output=True, text=True, timeout=timeout, env=env)
            except subprocess.TimeoutExpired as e:
                got = (e.stdout or b"").decode().splitlines()
                out += got + ["TIMEOUT"] + ["SKIPPED"] * (len(cmds) - i - len(got) - 1)
                return out[:len(cmds)]
            got = r.stdout.splitlines()
            out += got
            i += len(got)
            if i < len(cmds):
                crashes += 1
                msg = " ".join(l.strip() for l in r.stderr.splitlines() if "ERROR" in l or "SUMMARY" in l or "bad size" in l or "terminate" in l)[:300]
                out.append("CRASH rc=%d %s" % (r.returncode, msg))
                i += 1
                if crashes > 20:
                    out += ["SKIPPED"] * (len(cmds) - i)
                    break
        return out
