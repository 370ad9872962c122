"""Process set-up: third-party imports, then the simulator's seams, then the code under test from /repo."""
import os
import sys

from core import REPO, SRC

sys.path.insert(0, REPO)
os.environ.setdefault('TQDM_DISABLE', '1')

import io, zipfile, zlib, lzma, struct, queue, threading, datetime, warnings, pathlib, subprocess, platform  # noqa
import multiprocessing.pool, multiprocessing.dummy, multiprocessing.util, concurrent.futures, concurrent.futures.thread  # noqa
import numpy as np, numpy.random, numpy.polynomial  # noqa
import pandas as pd, scipy, scipy.optimize, scipy.ndimage, scipy.interpolate, scipy.signal, scipy.fft, scipy.linalg  # noqa
import scipy.integrate, scipy.stats  # noqa
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot, matplotlib.patches  # noqa
import PIL, PIL.Image, openpyxl, requests, urllib3, click, click.testing, tqdm, tqdm.auto, dateutil, dateutil.parser, chardet  # noqa
try:
    import fpdf, fpdf.fonts  # noqa
except ImportError:
    pass
PIL.Image.init()

import simsched   # noqa: E402
simsched.install()

import surfalize                                     # noqa: E402
import surfalize.batch, surfalize.cli, surfalize.examples, surfalize.file   # noqa: E402
import importlib, pkgutil                            # noqa: E402
for _m in pkgutil.walk_packages(surfalize.__path__, 'surfalize.'):
    try:
        importlib.import_module(_m.name)
    except ImportError:
        pass
assert os.path.realpath(surfalize.__file__).startswith(os.path.realpath(SRC)), surfalize.__file__

simsched.instrument(SRC)

import registry                                      # noqa: E402


def scenario(prop):
    return registry.get(prop)
