"""Build the compiled evaluator from /repo's current tree into a scratch directory and
inject it in place of whatever extension lies in the source tree."""
import glob
import hashlib
import importlib.util
import os
import subprocess
import sys
import sysconfig

REPO = os.environ.get("FPV_REPO", "/repo")
MODNAME = "forcepho.src.compute_gaussians_kernel"


class BuildError(Exception):
    pass


def build(outdir, sanitize=False, opt=None):
    """Compile the extension.  Returns the path of the shared object."""
    import pybind11
    src = os.path.join(REPO, "forcepho", "src", "compute_gaussians_kernel.cc")
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    out = os.path.join(outdir, ("san_" if sanitize else "") + "kern")
    os.makedirs(out, exist_ok=True)
    so = os.path.join(out, "compute_gaussians_kernel" + suffix)
    flags = ["-std=c++11", "-fPIC", "-shared", "-fvisibility=hidden", "-w"]
    if sanitize:
        flags += ["-O1", "-g", "-fno-omit-frame-pointer",
                  "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined"]
    else:
        flags += [opt or "-O2"]
    inc = ["-I" + os.path.join(REPO, "forcepho", "src"), "-I" + pybind11.get_include(),
           "-I" + sysconfig.get_paths()["include"]]
    cmd = ["g++"] + flags + inc + [src, "-o", so]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-4000:])
    return so


def inject(so):
    """Load the shared object and make `forcepho` use it."""
    import forcepho  # noqa: F401
    spec = importlib.util.spec_from_file_location("compute_gaussians_kernel", so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules[MODNAME] = mod
    try:
        import forcepho.src as s
        s.compute_gaussians_kernel = mod
    except ImportError:
        pass
    return mod


def source_digest():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(REPO, "forcepho", "src", "*"))):
        if f.endswith(".so"):
            continue
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]
