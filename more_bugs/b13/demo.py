"""Spanning trees of one graph with one and with all worker threads must have the same weights."""
import sys
import numba, numpy as np, scipy.sparse as sp
from fast_hdbscan.hdbscan import compute_minimum_spanning_tree
n = 3000
if numba.config.NUMBA_NUM_THREADS < 2:
    sys.exit("one thread only")
rng = np.random.default_rng(0)
i = np.repeat(np.arange(n), 30)
j = rng.integers(0, n, 30 * n)
w = rng.random(30 * n) + 0.1
keep = i != j
g = sp.csr_matrix((w[keep], (i[keep], j[keep])), shape=(n, n))
numba.set_num_threads(1)
one = np.sort(compute_minimum_spanning_tree(g, min_samples=5, metric="precomputed")[0][:, 2])
numba.set_num_threads(numba.config.NUMBA_NUM_THREADS)
for k in range(30):
    got = np.sort(compute_minimum_spanning_tree(g, min_samples=5, metric="precomputed")[0][:, 2])
    if got.shape != one.shape or not np.array_equal(got, one):
        print("different weights with several threads"); sys.exit(1)
print("ok")
