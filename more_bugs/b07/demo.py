import sys
import numpy as np
import scipy.sparse as sp
from fast_hdbscan.hdbscan import compute_minimum_spanning_tree

n = 8
X = np.cumsum(1.0 + 0.25 * np.arange(n))[:, None]
C = sp.lil_matrix((n, n))
C[0, 1] = -1.0
C[2, 5] = -2.0
e, _, _ = compute_minimum_spanning_tree(X, min_samples=1, algorithm="kruskal", cannot_link=sp.csr_matrix(C))
root = list(range(n))
def find(i):
    while root[i] != i:
        i = root[i]
    return i
for a, b, w in e:
    if np.isfinite(w):
        root[find(int(a))] = find(int(b))
bad = [(a, b) for a, b in ((0, 1), (2, 5)) if find(a) == find(b)]
print("linked although forbidden:", bad)
sys.exit(1 if bad else 0)
