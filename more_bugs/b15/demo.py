"""propagated_labels() leaves the fitted labels alone."""
import sys
import numpy as np
from fast_hdbscan import HDBSCAN, BranchDetector
rng = np.random.default_rng(3)
arms = [np.c_[np.linspace(0, 5, 60) * np.cos(a), np.linspace(0, 5, 60) * np.sin(a)] for a in (0, 2.1, 4.2)]
X = np.concatenate(arms) + rng.normal(0, 0.08, (180, 2))
c = HDBSCAN(min_samples=5, min_cluster_size=10, allow_single_cluster=True, cluster_selection_method="eom").fit(X)
d = BranchDetector(min_cluster_size=10).fit(c, labels=np.zeros(180, dtype=np.int64), probabilities=np.ones(180, dtype=np.float32))
before = d.labels_.copy()
s = d.sub_cluster_labels_; assert (s == -1).any() and s.max() > 0, np.unique(s)
d.propagated_labels()
if not np.array_equal(before, d.labels_):
    print("fitted labels changed"); sys.exit(1)
print("ok")
