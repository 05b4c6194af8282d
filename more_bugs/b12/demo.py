import sys
import numpy as np
from fast_hdbscan import HDBSCAN

g = np.arange(8) * 0.1
X = np.concatenate([g, g + 2, g + 100, g + 102])[:, None]
X = np.hstack([X, np.zeros_like(X)])
y = np.full(len(X), -1)
y[4:8] = 0
y[12:16] = 0
y[20:24] = 1
y[28:32] = 2
kw = dict(min_cluster_size=4, min_samples=2, semi_supervised=True)
want = HDBSCAN(**kw).fit(X, y).labels_
at = [0, 0, 0, 0]
Z = np.insert(X, at, [np.nan, 0.5], axis=0)
z = np.insert(y, at, -1)
got = HDBSCAN(**kw).fit(Z, z).labels_
print(want, got)
ok = np.array_equal(got[4:], want) and np.all(got[:4] == -1)
print("incomplete rows leave the rest alone:", ok)
sys.exit(0 if ok else 1)
