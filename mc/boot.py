"""Import gdspy from /repo's current working tree, with a freshly built clipper.

The C++ extension is compiled from /repo/gdspy/clipper.{cpp,hpp} into a cache
directory below /verif/.cache (git-ignored) keyed by the content of the sources,
so that a change in the C++ code is always seen and /repo is never written to.
"""
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import sysconfig
import warnings

REPO = os.environ.get("MC_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, ".cache")


def build_clipper():
    h = hashlib.sha256()
    srcs = []
    gd = os.path.join(REPO, "gdspy")
    for f in sorted(os.listdir(gd)):
        if f.endswith((".cpp", ".hpp", ".h", ".c", ".cc")):
            srcs.append(f)
            with open(os.path.join(gd, f), "rb") as fin:
                h.update(f.encode() + b"\0" + fin.read() + b"\0")
    h.update(sys.version.encode())
    out = os.path.join(CACHE, "clipper-%s.so" % h.hexdigest()[:24])
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    tmp = "%s.%d.tmp" % (out, os.getpid())
    cpps = [os.path.join(gd, f) for f in srcs if f.endswith((".cpp", ".cc", ".c"))]
    cmd = (
        ["g++", "-O1", "-fPIC", "-shared", "-fwrapv", "-w"]
        + ["-I" + sysconfig.get_paths()["include"], "-I" + gd]
        + cpps
        + ["-o", tmp]
    )
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr)
        raise SystemExit("building clipper from %s failed" % gd)
    os.replace(tmp, out)
    return out


class _ClipperFinder(importlib.abc.MetaPathFinder):
    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path, target=None):
        if name != "gdspy.clipper":
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, self.path)
        return importlib.util.spec_from_file_location(name, self.path, loader=loader)


def load():
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache"
    so = build_clipper()
    sys.meta_path.insert(0, _ClipperFinder(so))
    sys.path.insert(0, REPO)
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    warnings.simplefilter("ignore")
    import gdspy

    assert gdspy.__file__.startswith(REPO + "/"), gdspy.__file__
    gdspy.library.use_current_library = False
    return gdspy
