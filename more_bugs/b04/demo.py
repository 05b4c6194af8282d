import sys
import numpy as np
from fast_hdbscan import HDBSCAN

rng = np.random.default_rng(0)
X = np.concatenate([rng.normal(c, 1.0, size=(40, 2)) for c in (0.0, 12.0)])
a = HDBSCAN(min_cluster_size=6).fit(X).condensed_tree_.to_numpy()
b = HDBSCAN(min_cluster_size=6).fit(X * 2.0 ** -40).condensed_tree_.to_numpy()
ok = len(a) == len(b) and np.allclose(a["lambda_val"] * 2.0 ** 40, b["lambda_val"], rtol=1e-3)
print("densities scale with the data:", ok)
sys.exit(0 if ok else 1)
