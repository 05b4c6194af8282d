import sys
import numpy as np
from scipy.spatial.distance import cdist
from fast_hdbscan.hdbscan import compute_minimum_spanning_tree

bad = 0
for n in (5, 8, 12):
    X = (np.arange(n, dtype=float) ** 2)[:, None]
    _, _, core = compute_minimum_spanning_tree(X, min_samples=n - 1, algorithm="kruskal")
    want = np.sort(cdist(X, X), axis=1)[:, n - 1]
    if not np.allclose(core, want, rtol=1e-4):
        bad += 1
        print(n, core, want)
print("wrong:", bad)
sys.exit(1 if bad else 0)
