import sys
import numpy as np
from fast_hdbscan import HDBSCAN

X = np.array([0.0, 1, 2, 6, 7, 8])[:, None]
est = HDBSCAN(min_samples=1, min_cluster_size=2).fit(X)
lab = est.dbscan_clustering(4.0)
print(lab)
sys.exit(0 if lab[0] != lab[3] else 1)
