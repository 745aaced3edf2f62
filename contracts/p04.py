"""P04: KNN Shapley values."""
from contracts.lib import *

A = "dattri/algorithm/data_shapley.py::KNNShapleyAttributor."


def build(w, K, scalar=False):
    ds = w.load("dattri.algorithm.data_shapley")

    def dist(bx, by):
        x, y = bx[0], by[0]

        if scalar:
            return SymTensor([x.pshape[0], y.pshape[0]],
                             lambda i: T.fn("dist", x.at([i[0]]), y.at([i[1]])), "f")

        def body(i):
            u, v = T.fresh("u"), T.fresh("v")
            return T.fn("dist", T.lam([u], [x.pshape[1]], x.at([i[0], T.atom(u)])),
                        T.lam([v], [y.pshape[1]], y.at([i[1], T.atom(v)])))
        return SymTensor([x.pshape[0], y.pshape[0]], body, "f")
    return ds.KNNShapleyAttributor(K, distance_func=dist)


def spec(N, K, F, lab, tlab):
    """Closed form of the KNN-Shapley recursion (Jia et al. 2019, theorem 1)."""
    def f(j, i):
        v = T.fresh("c")
        if F is None:
            L = T.lam([v], [P(N)], T.fn("dist", T.fn("Xte0", j), T.fn("Xtr0", T.atom(v))))
        else:
            L = T.lam([v], [P(N)], T.fn("dist", rowlam("Xte0", F, j), rowlam("Xtr0", F, T.atom(v))))
        al = lambda r: T.mk_app("argsort", (L, r), "I")
        rank = T.mk_app("rank", (L, i), "I")
        match = lambda r: T.iverson(T.eq(lab(al(r)), tlab(j)))
        n, k = P(N), P(K)
        base = T.div(match(T.sub(n, ONE)), T.to_real(T.imax(n, k)))
        # sum over positions r = N-2, N-3, ..., rank (0-based)
        s = S([T.sub(T.sub(n, ONE), rank)], lambda t: (lambda r: T.mul(
            T.sub(match(r), match(T.add(r, ONE))),
            T.div(T.to_real(T.imin(k, T.add(r, ONE))), T.to_real(T.mul(k, T.add(r, ONE))))))(
            T.sub(T.sub(n, T.num(2)), t)))
        return T.add(base, s)
    return f


@contract("P04", "attribute[labels given]", [A + "attribute", A + "__init__"])
def c(w):
    N, M, bs, bt, F, K = Int("N", 1), Int("M", 1), Int("bs", 1), Int("bt", 1), Int("F", 1), Int("K", 1)
    a = build(w, K)
    tr, te = loader("Xtr", N, bs, [F]), loader("Xte", M, bt, [F])
    ltr = EList.seq(P(N), lambda k: wrap(T.fn("ltr", k, sort="I")))
    lte = EList.seq(P(M), lambda k: wrap(T.fn("lte", k, sort="I")))
    r = a.attribute(tr, te, ltr, lte)
    ensure_eq(r, (M, N), spec(N, K, F, lambda q: T.fn("ltr", q, sort="I"), lambda q: T.fn("lte", q, sort="I")),
              "KNN-Shapley value")


@contract("P04", "attribute[label list lengths]", [A + "attribute"])
def c(w):
    N, M, bs, bt, F, K = Int("N", 1), Int("M", 1), Int("bs", 1), Int("bt", 1), Int("F", 1), Int("K", 1)
    n, m = Int("n", 0), Int("m", 0)
    ENG.assume(T.bor(T.bnot(T.eq(P(n), P(N))), T.bnot(T.eq(P(m), P(M)))))
    a = build(w, K)
    tr, te = loader("Xtr", N, bs, [F]), loader("Xte", M, bt, [F])
    ltr = EList.seq(P(n), lambda k: wrap(T.fn("ltr", k, sort="I")))
    lte = EList.seq(P(m), lambda k: wrap(T.fn("lte", k, sort="I")))
    expect_raise(ValueError, lambda: a.attribute(tr, te, ltr, lte), "wrong label list length is rejected")


@contract("P04", "constructor", [A + "__init__"])
def c(w):
    ds = w.load("dattri.algorithm.data_shapley")
    expect_raise(NotImplementedError, lambda: ds.KNNShapleyAttributor(3, task=object()), "a task is rejected")
