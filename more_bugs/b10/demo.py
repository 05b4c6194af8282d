import sys
import numpy as np
from fast_hdbscan import HDBSCAN

g = np.arange(8) * 0.1
X = np.concatenate([g, g + 2, g + 100, g + 102, g + 104, g + 106])[:, None]
y = np.full(len(X), -1)
y[0:4] = 1
y[8:10] = 0
y[10] = 1
y[16:24] = 2
l = HDBSCAN(min_cluster_size=4, min_samples=2, semi_supervised=True, ss_algorithm="bc_simple").fit(X, y).labels_
print(l)
ok = l[0] >= 0 and l[8] >= 0 and l[0] != l[8]
print("the two small classes are kept apart:", ok)
sys.exit(0 if ok else 1)
