"""The system under check: /repo/fast_hdbscan, imported once per worker.

Only names that users or the project's own tests import are used as seams.
"""
import os
import sys
import warnings

from .core import REPO

sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")

import fast_hdbscan  # noqa: E402

if not os.path.abspath(fast_hdbscan.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise RuntimeError("fast_hdbscan was imported from %s" % fast_hdbscan.__file__)

from fast_hdbscan import hdbscan as H  # noqa: E402
from fast_hdbscan.hdbscan import (  # noqa: E402
    HDBSCAN,
    PLSCAN,
    compute_minimum_spanning_tree,
    clusters_from_spanning_tree,
)
from fast_hdbscan.hdbscan import fast_hdbscan as fast_hdbscan_fn  # noqa: E402


class leaf_size:
    """Temporarily change the default leaf size of the search tree (the documented default is 40), so that
    small inputs exercise inner nodes.  A no-op if the seam is not there."""

    def __init__(self, size):
        self.size = size

    def __enter__(self):
        import inspect

        self.saved = None
        if self.size is None:
            return self
        fn = getattr(H, "build_kdtree", None)
        if fn is None or getattr(fn, "__defaults__", None) is None:
            return self
        params = list(inspect.signature(fn).parameters)
        if "leaf_size" not in params:
            return self
        ndef = len(fn.__defaults__)
        pos = params.index("leaf_size") - (len(params) - ndef)
        if pos < 0:
            return self
        d = list(fn.__defaults__)
        d[pos] = self.size
        self.saved = (fn, fn.__defaults__)
        fn.__defaults__ = tuple(d)
        return self

    def __exit__(self, *a):
        if self.saved is not None:
            self.saved[0].__defaults__ = self.saved[1]


class thread_count:
    """Temporarily report another number of threads (used for block sizes only)."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        import numba

        self.saved = numba.get_num_threads
        if self.n is not None:
            numba.get_num_threads = lambda n=self.n: n
        return self

    def __exit__(self, *a):
        import numba

        numba.get_num_threads = self.saved
