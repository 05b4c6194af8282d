import sys
import numpy as np
from scipy.spatial.distance import cdist
from fast_hdbscan.hdbscan import compute_minimum_spanning_tree

n = 14
X = (np.arange(n, dtype=float) ** 2)[:, None]
_, _, core = compute_minimum_spanning_tree(X, min_samples=4, algorithm="kruskal", knn_k=6, sample_weights=np.ones(n, dtype=np.float32))
D = np.sort(cdist(X, X), axis=1)
want = D[:, 3]
print(core, want)
sys.exit(0 if np.allclose(core, want, rtol=1e-4) else 1)
