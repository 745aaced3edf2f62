"""P04: KNN Shapley values against the definition of the Shapley value (subset enumeration)."""
from rt.lib import *
from itertools import combinations
from math import comb
from dattri.algorithm.data_shapley import KNNShapleyAttributor


def brute(D, lab, tlab, K):
    """Shapley values of v(S) = (1/K) * #{of the min(K,|S|) nearest members of S with the test label}."""
    M, N = D.shape
    out = torch.zeros(M, N, dtype=torch.float64)

    def v(S, j):
        near = sorted(S, key=lambda i: D[j, i].item())[:K]
        return sum(int(lab[i] == tlab[j]) for i in near) / K
    for j in range(M):
        for i in range(N):
            rest = [q for q in range(N) if q != i]
            for s in range(N):
                for S in combinations(rest, s):
                    out[j, i] += (v(S + (i,), j) - v(S, j)) / comb(N - 1, s) / N
    return out


def gen(rng, nmax=6):
    N, M, d, L = rng.int(1, nmax), rng.int(1, 4), rng.int(1, 3), rng.int(1, 3)
    K = rng.int(1, N + 2)
    X, Y, tr, bs = data(rng, N, d, L)
    X2, Y2, te, bt = data(rng, M, d, L)
    return N, M, K, X, Y, tr, bs, X2, Y2, te, bt


@check("definition", 30, 300)
def f(rng):
    N, M, K, X, Y, tr, bs, X2, Y2, te, bt = gen(rng)
    fn = rng.pick(None, lambda a, b: (a[0][:, None, :] - b[0][None]).abs().sum(-1) + 0.1 * (a[0].sum(1)[:, None] - b[0].sum(1)[None]).abs())
    D = torch.cdist(X2.double(), X.double()) if fn is None else fn((X2.double(),), (X.double(),))
    a = KNNShapleyAttributor(K) if fn is None else KNNShapleyAttributor(K, distance_func=fn)
    inp = dict(N=N, M=M, K=K, bs=bs, bt=bt, X=X, Y=Y, X2=X2, Y2=Y2, default=fn is None)
    want = brute(D, Y.tolist(), Y2.tolist(), K)
    lab, tlab = rng.pick(None, Y.tolist()), rng.pick(None, Y2.tolist())
    r = a.attribute(tr, te, lab, tlab)
    close(r, want, "KNN-Shapley", labels=(lab, tlab), **inp)
    if rng.pick(0, 1):
        close(a.attribute(tr, te), want, "KNN-Shapley again", **inp)
    util = torch.tensor([sum(int(Y[i] == Y2[j]) for i in D[j].argsort()[:K]) / K for j in range(M)])
    close(r.sum(1), util, "efficiency", **inp)


@check("given labels override", 10)
def f(rng):
    N, M, K, X, Y, tr, bs, X2, Y2, te, bt = gen(rng, 5)
    lab, tlab = rng.ints(0, 2, N).tolist(), rng.ints(0, 2, M).tolist()
    D = torch.cdist(X2.double(), X.double())
    lab0, tlab0 = list(lab), list(tlab)
    r = KNNShapleyAttributor(K).attribute(tr, te, lab, tlab)
    close(r, brute(D, lab0, tlab0, K), "KNN-Shapley, labels given", N=N, M=M, K=K, bs=bs, bt=bt, lab=lab0, tlab=tlab0)
    true(lab == lab0 and tlab == tlab0, "the caller's label lists are changed", lab=lab)


@check("large", 4, 20)
def f(rng):
    """Many samples: the recursion written out independently."""
    N, M, d = rng.int(30, 80), rng.int(3, 9), 3
    K = rng.int(1, 12)
    X, Y, tr, bs = data(rng, N, d, 3, bs=rng.int(3, 40))
    X2, Y2, te, bt = data(rng, M, d, 3, bs=rng.int(1, 5))
    D = torch.cdist(X2.double(), X.double())
    want = torch.zeros(M, N, dtype=torch.float64)
    for j in range(M):
        o = D[j].argsort().tolist()
        m = [int(Y[i] == Y2[j]) for i in o]
        # value at rank r: sum over the sizes of the coalitions in which r can be among the K nearest
        s = [0.0] * N
        s[N - 1] = m[N - 1] / max(N, K)
        for r in range(N - 2, -1, -1):
            s[r] = s[r + 1] + (m[r] - m[r + 1]) / K * min(K, r + 1) / (r + 1)
        for r in range(N):
            want[j, o[r]] = s[r]
    close(KNNShapleyAttributor(K).attribute(tr, te), want, "KNN-Shapley", N=N, M=M, K=K, bs=bs, bt=bt)


@check("mismatch", 6)
def f(rng):
    N, M, K, X, Y, tr, bs, X2, Y2, te, bt = gen(rng, 5)
    dlt = rng.pick(-1, 1, 2)
    a = KNNShapleyAttributor(K)
    if N + dlt >= 0:
        raises(ValueError, lambda: a.attribute(tr, te, [0] * (N + dlt), None), "training labels mismatch", N=N, dlt=dlt)
    if M + dlt >= 0:
        raises(ValueError, lambda: a.attribute(tr, te, None, [0] * (M + dlt)), "test labels mismatch", M=M, dlt=dlt)


main()
