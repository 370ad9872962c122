"""Failing allocations: numpy's data allocator replaced by one that fails a chosen allocation (NEP 49)."""
import ctypes
import os
import subprocess
import sys

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
_lib = None


def build():
    d = os.environ.get('VERIF_BUILD') or '/tmp'
    out = os.path.join(d, 'faultalloc.so')
    if not os.path.exists(out):
        tmp = f'{out}.{os.getpid()}'
        for cc in ('gcc', 'clang', 'cc'):
            try:
                subprocess.run([cc, '-O1', '-shared', '-fPIC', '-w', '-o', tmp, os.path.join(HERE, 'faultalloc.c')],
                               check=True, capture_output=True)
                break
            except (OSError, subprocess.CalledProcessError):
                continue
        else:
            return None
        os.replace(tmp, out)
    return out


def install():
    """Makes numpy use the fault allocator in this process. False when no C compiler is available."""
    global _lib
    if _lib is not None:
        return True
    so = build()
    if so is None:
        return False
    lib = ctypes.CDLL(so)
    lib.fa_handler.restype = ctypes.c_void_p
    lib.fa_arm.argtypes = [ctypes.c_int64, ctypes.c_int64, ctypes.c_uint64]
    lib.fa_cap.argtypes = [ctypes.c_uint64]
    lib.fa_disarm.restype = ctypes.c_int64
    lib.fa_count.restype = ctypes.c_int64
    api = ctypes.pythonapi
    api.PyCapsule_New.restype = ctypes.py_object
    api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    api.PyCapsule_GetPointer.restype = ctypes.c_void_p
    api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    try:
        from numpy._core import _multiarray_umath as mu
    except ImportError:
        from numpy.core import _multiarray_umath as mu
    table = ctypes.cast(api.PyCapsule_GetPointer(mu._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    # PyDataMem_SetHandler is entry 304 of the array API
    proto = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)
    set_handler = proto(table[304])
    install.name = ctypes.create_string_buffer(b'mem_handler')
    cap = api.PyCapsule_New(lib.fa_handler(), ctypes.cast(install.name, ctypes.c_char_p), None)
    set_handler(cap)
    try:
        from numpy._core.multiarray import get_handler_name
    except ImportError:
        from numpy.core.multiarray import get_handler_name
    if get_handler_name() != 'verif_fault':
        raise RuntimeError('the fault allocator is not in use')
    _lib = lib
    lib.fa_release.restype = ctypes.c_int64
    hold_loadtxt(lib)
    return True


def hold_loadtxt(lib):
    """numpy's text reader dereferences the result of a failed allocation (a crash of numpy, not of the code under test):
    a failure that is due inside it is raised as the MemoryError it ought to be, after the call."""
    from numpy.lib import _npyio_impl as m
    real = getattr(m, '_load_from_filelike', None)
    if real is None:
        return

    def _load_from_filelike(*a, **k):
        lib.fa_hold()
        held = 0
        try:
            r = real(*a, **k)
        finally:
            held = lib.fa_release()
        if held:
            raise MemoryError('injected')
        return r
    m._load_from_filelike = _load_from_filelike


class failing:
    """with failing(n): the n-th numpy data allocation inside the block fails (sticky: and all later ones)."""

    def __init__(self, n, sticky=False, min_size=0):
        self.n, self.sticky, self.min = n, sticky, min_size
        self.failed = 0

    def __enter__(self):
        if _lib is not None:
            _lib.fa_arm(self.n, int(self.sticky), self.min)
        return self

    def __exit__(self, *a):
        if _lib is not None:
            self.failed = _lib.fa_disarm()
        return False


def cap(nbytes):
    """Allocations larger than nbytes fail from now on (0: no limit)."""
    if _lib is not None:
        _lib.fa_cap(nbytes)


def allocations():
    return _lib.fa_count() if _lib is not None else 0
