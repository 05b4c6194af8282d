"""min_samples=0 is refused."""
import sys
import numpy as np
from fast_hdbscan import fast_hdbscan
X = np.arange(20.0).reshape(10, 2)
try:
    fast_hdbscan(X, min_samples=0)
except ValueError:
    print("refused"); sys.exit(0)
print("accepted"); sys.exit(1)
