"""pycuda for a machine without a GPU.

`install()` puts modules named pycuda, pycuda.driver, pycuda.compiler and pycuda.autoinit into sys.modules.  Device
memory is a set of buffers that only the emulator (fpv/cuda/emu.cc) knows; SourceModule compiles the CUDA source
for the host with instrumented loads and stores, and a call of a kernel runs its threads as fibers in a random
order.  Illegal accesses, races, divergent barriers, reads of memory nothing wrote, and transfers that do not fit
raise `Illegal` (with what the emulator saw)."""
import ctypes
import hashlib
import os
import re
import subprocess
import sys
import tempfile
import types

import numpy as np

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cuda")
COUNTERS = ["accesses", "atomics", "barriers", "shuffles", "switches", "blocks", "threads", "launches", "max_shared", "schedule"]


class Illegal(Exception):
    """The device was used in a way a GPU does not allow."""


class LogicError(Exception):
    pass


_emu = None
_cache = {}
_tmp = None
seed = [1]
log = []            # (what, bytes) of transfers, launches and frees


def scratch():
    global _tmp
    if _tmp is None or not os.path.isdir(_tmp):
        _tmp = tempfile.mkdtemp(prefix="fpv_cuda_")
    return _tmp


def emu():
    global _emu
    if _emu is None:
        so = os.path.join(scratch(), "emu.so")
        r = subprocess.run(["g++", "-std=c++17", "-O2", "-fPIC", "-shared", "-w", os.path.join(HERE, "emu.cc"), "-o", so], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("emulator: " + r.stderr[-2000:])
        e = ctypes.CDLL(so, mode=ctypes.RTLD_GLOBAL)
        e.fpv_alloc.restype = ctypes.c_void_p
        e.fpv_alloc.argtypes = [ctypes.c_size_t]
        e.fpv_free.argtypes = [ctypes.c_void_p]
        e.fpv_region.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int]
        e.fpv_live.restype = ctypes.c_size_t
        e.fpv_message.restype = ctypes.c_char_p
        e.fpv_counter.restype = ctypes.c_uint64
        e.fpv_launch.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_void_p), ctypes.c_int, ctypes.POINTER(ctypes.c_uint), ctypes.POINTER(ctypes.c_uint),
                                 ctypes.c_size_t, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_uint64]
        _emu = e
    return _emu


def counters():
    return {n: int(emu().fpv_counter(k)) for k, n in enumerate(COUNTERS)}


def live():
    return int(emu().fpv_live())


WHY = {1: "is not device memory", 2: "was freed", 3: "is smaller than that", 4: "was never written"}


class DeviceAllocation:
    def __init__(self, n):
        if n <= 0:
            raise LogicError("cuMemAlloc failed: invalid argument")
        self._p, self._n = emu().fpv_alloc(int(n)), int(n)

    def free(self):
        if self._p is None:
            raise LogicError("cuMemFree failed: invalid handle")
        emu().fpv_free(self._p)
        log.append(("free", self._n))
        self._p = None

    def __int__(self):
        if self._p is None:
            raise Illegal("the address of device memory that was freed is used")
        return self._p

    __index__ = __int__

    def __del__(self):
        try:
            if self._p is not None:
                emu().fpv_free(self._p)
        except Exception:
            pass


def _bytes(obj):
    m = memoryview(obj)
    if not m.contiguous:
        raise ValueError("ndarray is not contiguous")
    if isinstance(obj, np.ndarray):
        return obj.tobytes(order="A")
    return m.tobytes()


def mem_alloc(n):
    return DeviceAllocation(n)


def memcpy_htod(dest, src):
    b = _bytes(src)
    p = int(dest)
    st = emu().fpv_region(p, len(b), 1, 0)
    if st:
        raise Illegal("copy of %d bytes to the device: the destination %s" % (len(b), WHY[st]))
    ctypes.memmove(p, b, len(b))
    log.append(("htod", len(b)))


def memcpy_dtoh(dest, src, need_init=True):
    p = int(src)
    st = emu().fpv_region(p, dest.nbytes, 0, 1 if need_init else 0)
    if st:
        raise Illegal("copy of %d bytes from the device: the source %s" % (dest.nbytes, WHY[st]))
    if not dest.flags.c_contiguous:
        raise ValueError("ndarray is not contiguous")
    ctypes.memmove(dest.ctypes.data, p, dest.nbytes)
    log.append(("dtoh", dest.nbytes))


def memcpy_dtod(dest, src, size):
    for p, m in ((int(src), 0), (int(dest), 1)):
        st = emu().fpv_region(p, size, m, 1 - m)
        if st:
            raise Illegal("copy of %d bytes on the device: one side %s" % (size, WHY[st]))
    ctypes.memmove(int(dest), int(src), size)


def to_device(obj):
    d = DeviceAllocation(len(_bytes(obj)))
    memcpy_htod(d, obj)
    return d


def from_device(devptr, shape, dtype, order="C"):
    out = np.empty(shape, dtype, order)
    memcpy_dtoh(out, devptr)
    return out


def from_device_like(devptr, other):
    return from_device(devptr, other.shape, other.dtype)


class _Arg:
    def __init__(self, array):
        self.array = array
        if not self.array.flags.forc:
            raise ValueError("ndarray is not contiguous")


class In(_Arg):
    def before(self):
        self.d = to_device(self.array)

    def after(self):
        self.d.free()


class Out(_Arg):
    def before(self):
        self.d = mem_alloc(self.array.nbytes)

    def after(self):
        # what the kernel did not write is whatever the memory held
        memcpy_dtoh(self.array, self.d, need_init=False)
        self.d.free()


class InOut(In):
    def after(self):
        memcpy_dtoh(self.array, self.d)
        self.d.free()


EXTERN = re.compile(r"extern\s+__shared__\s+(?:__align__\s*\(\s*\d+\s*\)\s*)?([\w:<> \t]+?)[ \t]+(\w+)\s*\[\s*\]\s*;")


class Function:
    def __init__(self, mod, name):
        self.mod, self.name = mod, name
        self.fn = ctypes.cast(getattr(mod.lib, name), ctypes.c_void_p).value

    def __call__(self, *args, grid=(1, 1), block=None, shared=0, stream=None, time_kernel=False, texrefs=()):
        if block is None or len(block) != 3:
            raise ValueError("must specify block size")
        grid = tuple(grid) + (1,) * (3 - len(grid))
        vals, after = [], []
        for a in args:
            if isinstance(a, _Arg):
                a.before()
                after.append(a)
                a = a.d
            vals.append(int(a))
        arr = (ctypes.c_void_p * max(len(vals), 1))(*vals)
        u3 = ctypes.c_uint * 3
        seed[0] += 1
        st = emu().fpv_launch(self.fn, arr, len(vals), u3(*[int(x) for x in grid]), u3(*[int(x) for x in block]), int(shared),
                              self.mod.sh[0], self.mod.sh[1], self.mod.span[0], self.mod.span[1], seed[0] & 0xffffffff)
        log.append(("launch", len(vals)))
        if st:
            raise Illegal("kernel %s: %s" % (self.name, emu().fpv_message().decode(errors="replace")))
        for a in after:
            a.after()


class _Module:
    pass


def build(source, include_dirs, no_extern_c):
    text = source if no_extern_c else 'extern "C" {\n%s\n}\n' % source
    text = EXTERN.sub(lambda m: "%s *%s = (%s *) fpv_dynshared();" % (m.group(1), m.group(2), m.group(1)), text)
    inc = [os.path.join(HERE, "inc")] + list(include_dirs)
    h = hashlib.sha256((text + "\0".join(inc)).encode())
    for d in inc:
        for f in sorted(os.listdir(d)):
            if f.endswith((".h", ".hh", ".cc", ".cu")):
                h.update(open(os.path.join(d, f), "rb").read())
    key = h.hexdigest()[:20]
    if key in _cache:
        return _cache[key]
    src = os.path.join(scratch(), "k_%s.cc" % key)
    so = os.path.join(scratch(), "k_%s_%d.so" % (key, os.getpid()))
    with open(src, "w") as f:
        f.write(text)
    cmd = ["g++", "-std=c++17", "-O1", "-fPIC", "-shared", "-w", "-ffp-contract=off", "-fsanitize=thread", "-fno-exceptions", "-include", os.path.join(HERE, "shim.h")] + ["-I" + d for d in inc]
    r = subprocess.run(cmd + ["-c", src, "-o", so + ".o"], capture_output=True, text=True)
    if r.returncode:
        raise Illegal("the CUDA source does not compile: " + r.stderr[-2000:])
    r = subprocess.run(["g++", "-shared", so + ".o", "-o", so], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[-2000:])
    emu()
    m = _Module()
    m.lib = ctypes.CDLL(so)
    a, b = ctypes.c_void_p(), ctypes.c_void_p()
    m.lib.fpv_shared_range(ctypes.byref(a), ctypes.byref(b))
    m.sh = (a.value, b.value)
    lo, hi = [], []
    for line in open("/proc/self/maps"):
        if so in line:
            x, y = line.split()[0].split("-")
            lo.append(int(x, 16)), hi.append(int(y, 16))
    m.span = (min(lo), max(hi))
    _cache[key] = m
    return m


class SourceModule:
    def __init__(self, source, nvcc="nvcc", options=None, keep=False, no_extern_c=False, arch=None, code=None, cache_dir=None, include_dirs=()):
        self._m = build(source, list(include_dirs), no_extern_c)

    def get_function(self, name):
        return Function(self._m, name)


def install():
    if "pycuda" in sys.modules and getattr(sys.modules["pycuda"], "_fpv", False):
        return
    def mod(name, **kw):
        m = types.ModuleType(name)
        m._fpv = True
        for k, v in kw.items():
            setattr(m, k, v)
        sys.modules[name] = m
        return m
    drv = mod("pycuda.driver", In=In, Out=Out, InOut=InOut, mem_alloc=mem_alloc, to_device=to_device, from_device=from_device, from_device_like=from_device_like,
              memcpy_htod=memcpy_htod, memcpy_dtoh=memcpy_dtoh, memcpy_dtod=memcpy_dtod, DeviceAllocation=DeviceAllocation, LogicError=LogicError)
    comp = mod("pycuda.compiler", SourceModule=SourceModule)
    auto = mod("pycuda.autoinit")
    mod("pycuda", driver=drv, compiler=comp, autoinit=auto, VERSION=(2022, 1))
