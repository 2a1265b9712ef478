"""Extraction: compile /repo's current sources to LLVM IR and load them."""
import os, glob, tempfile, hashlib, subprocess, shutil
from . import ir, exec as ex
REPO = os.environ.get("DV_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("DV_WORK", os.path.join(HERE, "build"))
_cache = {}


def workdir():
    d = os.path.join(WORK, "run.%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def cleanup():
    d = os.path.join(WORK, "run.%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)


def module(extra_srcs=()):
    key = tuple(extra_srcs)
    if key in _cache:
        return _cache[key]
    srcs = sorted(glob.glob(REPO + "/src/*.cpp")) + [os.path.join(HERE, "harness", "inst.cpp")] + list(extra_srcs)
    outs = ir.compile_ir(srcs, workdir(), [REPO + "/include", REPO + "/src"])
    m = ir.load(outs)
    _cache[key] = m
    return m


def executor(contracts, extra=()):
    e = ex.Exec(module(extra), contracts)
    e.run_ctors()
    return e
