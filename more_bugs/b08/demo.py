import sys
import numpy as np
import scipy.sparse as sp
from fast_hdbscan.hdbscan import compute_minimum_spanning_tree

n = 12
A = sp.lil_matrix((n, n))
for i in range(n):
    for j in range(i + 1, n):
        if j - i <= 2:
            A[i, j] = A[j, i] = 1.0 + 0.1 * i
# the end samples have two stored neighbours
_, _, core = compute_minimum_spanning_tree(sp.csr_matrix(A), min_samples=2, metric="precomputed")
print(core)
sys.exit(0 if np.all(np.isfinite(core)) else 1)
