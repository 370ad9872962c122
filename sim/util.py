"""Shared pieces of the scenarios."""
import os
import io
import sys
import math
import pickle
import traceback
import warnings
import hashlib

import numpy as np

import simsched
from core import SRC


class Skip(Exception):
    pass


def new_sim(case, ctx, **kw):
    sim = simsched.Sim(case['sched'], SRC, ctx.fatal, **kw)
    ctx.sim = sim
    return sim


def isolated(fn):
    """Runs fn in a forked copy of this process and returns its (picklable) result: no state leaks back."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = (True, fn())
            except BaseException:
                out = (False, traceback.format_exc())
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        except BaseException:
            code = 5
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    ok, val = pickle.loads(data)
    if not ok:
        raise RuntimeError('oracle failed:\n' + val)
    return val


def num_equal(a, b, rtol=1e-9, atol=1e-12):
    """Equality of two cell values."""
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError):
        return type(a) is type(b) and str(a) == str(b)
    if math.isnan(fa) or math.isnan(fb):
        return math.isnan(fa) and math.isnan(fb)
    if math.isinf(fa) or math.isinf(fb):
        return fa == fb
    return abs(fa - fb) <= atol + rtol * max(abs(fa), abs(fb))


def arr_equal(a, b, rtol=0.0, atol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if rtol == 0 and atol == 0:
        return bool(np.array_equal(a, b, equal_nan=True)) if a.dtype.kind == 'f' or b.dtype.kind == 'f' \
            else bool(np.array_equal(a, b))
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def arr_digest(a):
    a = np.ascontiguousarray(a)
    return hashlib.blake2b(a.tobytes() + str((a.shape, a.dtype.str)).encode(), digest_size=6).hexdigest()


def exc_text(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = ''
    for f in reversed(tb):
        if '/surfalize/' in f.filename:
            loc = f' at {os.path.basename(f.filename)}:{f.name}'
            break
    return f'{type(e).__name__}: {str(e)[:200]}{loc}'


def shrink_list(lst, minimum=0):
    """Smaller versions of a list: drop halves, then single items."""
    n = len(lst)
    if n <= minimum:
        return
    if n > 3 and n // 2 >= minimum:
        yield lst[:n // 2]
        yield lst[n // 2:]
    for i in range(n):
        if n - 1 >= minimum:
            yield lst[:i] + lst[i + 1:]


def with_(case, **kw):
    c = dict(case)
    c.update(kw)
    return c


def short_hash(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=6).hexdigest()


class Oracle:
    """A copy of this process, forked before the run, that computes expected values in pristine state.

    fn(group) is called in its own fork for every group, so nothing one group computes can reach another."""

    def __init__(self, fn):
        self.fn = fn
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(w1)
                os.close(r2)
                with os.fdopen(r1, 'rb') as f:
                    data = f.read()
                if data:
                    out = []
                    for g in pickle.loads(data):
                        try:
                            out.append((True, isolated(lambda: fn(g))))
                        except BaseException:
                            out.append((False, traceback.format_exc()))
                    with os.fdopen(w2, 'wb') as f:
                        pickle.dump(out, f)
            except BaseException:
                code = 5
            os._exit(code)
        os.close(r1)
        os.close(w2)
        self.w, self.r, self.pid = w1, r2, pid

    def ask(self, groups):
        with os.fdopen(self.w, 'wb') as f:
            pickle.dump(groups, f)
        with os.fdopen(self.r, 'rb') as f:
            data = f.read()
        os.waitpid(self.pid, 0)
        out = pickle.loads(data)
        for ok, v in out:
            if not ok:
                raise RuntimeError('oracle failed:\n' + v)
        return [v for ok, v in out]

    def drop(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


def val_equal(a, b, rtol=1e-9, atol=1e-12):
    """Equality of parameter values: numbers, tuples, dicts, arrays, strings."""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(sorted(a)) == list(sorted(b)) and \
            all(val_equal(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        try:
            return len(a) == len(b) and all(val_equal(x, y, rtol, atol) for x, y in zip(a, b))
        except TypeError:
            return False
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if rtol and np.size(a):
            b_ = np.abs(np.asarray(b, dtype='f8'))
            atol = max(atol, 1e-10 * float(np.max(b_[np.isfinite(b_)], initial=0.0)))
        return arr_equal(a, b, rtol, atol)
    return num_equal(a, b, rtol, atol)
