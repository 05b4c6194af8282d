import sys
import itertools
import numpy as np
from fast_hdbscan.hdbscan import clusters_from_spanning_tree

bad = 0
for gaps in itertools.permutations((1.0, 2.0, 3.0, 5.0, 8.0, 13.0, 21.0)):
    edges = np.array([[i, i + 1, g] for i, g in enumerate(gaps)])
    for eps in (2.5, 4.0, 6.0, 10.0):
        try:
            lab, prob = clusters_from_spanning_tree(edges, min_cluster_size=2, cluster_selection_method="leaf",
                                                    cluster_selection_epsilon=eps)[:2]
        except KeyError:
            continue
        for c in range(lab.max() + 1):
            if prob[lab == c].max() < 0.999:
                bad += 1
                if bad < 5:
                    print(gaps, eps, lab, prob)
print("clusters without a member of full strength:", bad)
sys.exit(1 if bad else 0)
