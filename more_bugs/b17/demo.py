"""The far sample is listed by nobody, lists the others, and must be linked at a finite distance."""
import sys
import numpy as np
from fast_hdbscan.hdbscan import compute_minimum_spanning_tree
X = np.array([[float(i), 0.0] for i in range(20)] + [[40.0, 0.0]])
e, _, _ = compute_minimum_spanning_tree(X, min_samples=1, metric="manhattan", knn_k=3)
print(np.sort(e[:, 2])[-3:])
sys.exit(0 if np.isfinite(e[:, 2]).all() else 1)
