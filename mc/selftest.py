"""Setup check: the structure models have the right number of runs (closed forms), and the library comes from /repo."""
import sys
from math import comb

from . import models
from .core import load_library


def n(ts):
    return len(models.Explored(ts).runs)


def cat(k):
    return comb(2 * k, k) // (k + 1)


def main():
    load_library()
    for N in range(1, 6):
        assert n(models.Chain(N, 2)) == 2 ** N
        assert n(models.Dep(N)) == comb(3 * N, N) // (2 * N + 1)                       # ternary trees
        assert n(models.Dep(N, multiroot=True, projective=False)) == (N + 1) ** (N - 1)   # Cayley
        assert n(models.Dep(N, multiroot=False, projective=False)) == N ** (N - 1)
        assert n(models.Tree(N, 2)) == cat(N - 1) * 2 ** (2 * N - 1)
        spans = {(i, j, a) for i in range(N) for j in range(i, N) for a in range(2)}
        assert n(models.Restricted(models.Tree(N, 2), spans)) == n(models.Tree(N, 2))
        assert n(models.Dep(N, L=2)) == 2 ** N * (comb(3 * N, N) // (2 * N + 1))
    for N in range(2, 6):
        assert n(models.CFG(N, 2, 2)) == cat(N - 1) * 2 ** N * 2 ** (N - 1)
        # compositions of N-1 into parts < K, one label per boundary
        for K in range(2, 6):
            comp = [1] + [0] * (N - 1)
            for m in range(1, N):
                comp[m] = sum(2 * comp[m - k] for k in range(1, K) if k <= m)
            assert n(models.Semi(N, K, 2)) == 2 * comp[N - 1]
    print("models ok")
    return 0


if __name__ == "__main__":
    sys.exit(main())
