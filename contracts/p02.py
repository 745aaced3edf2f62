"""P02: TracIn / CosIn / Grad-Dot / Grad-Cos."""
from contracts.lib import *

A = "dattri/algorithm/tracin.py::TracInAttributor."


def norm_(f, D):
    """p -> f(p) / max(||f||, 1e-12)"""
    n = T.sqrt(S([D], lambda p: T.mul(f(p), f(p))))
    e = T.num(1e-12, "R")
    d = T.ite(T.le(e, n), n, e)
    return lambda p: T.div(f(p), d)


def build(w, C, D, normalized, layer, pdim, L=None):
    tr = w.load("dattri.algorithm.tracin")
    seed = Int("seed")
    pj = w.load("dattri.params.projection")
    pp = pj.TracInProjectionParams(proj_dim=pdim, proj_seed=seed)
    if pdim is not None:
        tr.random_project = ProjContract(pdim, proj_dim=pdim, proj_seed=seed)
    wts = tensor("w", C if L is None else L)
    return tr.TracInAttributor(task=TaskContract(C, D), weight_list=wts, normalized_grad=normalized,
                               proj_params=pp, layer_name=layer), seed


def dims():
    return (Int("C", 1), Int("D", 1), Int("F", 1), Int("N", 1), Int("M", 1), Int("bs", 1), Int("bt", 1))


def rep(g, c, D, X, F, i, normalized, layer, pdim, seed):
    f = g(c, D, X, F, i, key=c if layer else None)
    d = D
    if pdim is not None:
        f, d = proj(f, D, seed, c), pdim
    return (norm_(f, d) if normalized else f), d


def want(C, D, F, normalized, layer, pdim, seed, Xte="Xte0", g2=gt):
    def f(i, j):
        d = pdim if pdim is not None else D
        return S([C, d], lambda c, p: T.mul(T.fn("w", c), T.mul(
            rep(gl, c, D, "Xtr0", F, i, normalized, layer, pdim, seed)[0](p),
            rep(g2, c, D, Xte, F, j, normalized, layer, pdim, seed)[0](p))))
    return f


for normalized in (False, True):
    for layer in (None, ["l"]):
        for pr in (False, True):
            if normalized and layer and pr:
                continue
            nm = "%s%s%s" % ("cos" if normalized else "dot", ",layer" if layer else "",
                             ",projected" if pr else "")

            @contract("P02", "attribute[%s]" % nm, [A + "attribute", A + "__init__"])
            def c(w, normalized=normalized, layer=layer, pr=pr):
                C, D, F, N, M, bs, bt = dims()
                pdim = Int("Q", 1) if pr else None
                a, seed = build(w, C, D, normalized, layer, pdim)
                tr, te = loader("Xtr", N, bs, [F]), loader("Xte", M, bt, [F])
                ensure_eq(a.attribute(tr, te), (N, M), want(C, D, F, normalized, layer, pdim, seed),
                          "score[i,j] = sum_c w_c <g_c(i), g_c(j)>")

            @contract("P02", "self_attribute[%s]" % nm, A + "self_attribute")
            def c(w, normalized=normalized, layer=layer, pr=pr):
                C, D, F, N, M, bs, bt = dims()
                pdim = Int("Q", 1) if pr else None
                a, seed = build(w, C, D, normalized, layer, pdim)
                tr = loader("Xtr", N, bs, [F])
                r = a.self_attribute(tr)
                if normalized:
                    ensure_eq(r, (N,), lambda i: S([C], lambda c: T.fn("w", c)),
                              "self score = sum_c w_c (cosine of a gradient with itself is 1)")
                else:
                    f = want(C, D, F, False, layer, pdim, seed, "Xtr0", gl)
                    ensure_eq(r, (N,), lambda i: f(i, i), "self score[i] = sum_c w_c |g_c(i)|^2")


@contract("P02", "dict batches", [A + "attribute", A + "self_attribute"])
def c(w):
    C, D, F, N, M, bs, bt = dims()
    a, seed = build(w, C, D, False, None, None)
    pack = lambda fs: EDict({"x": fs[0], "y": fs[1]})
    tr = loader("Xtr", N, bs, [F], ([], "i"), pack=pack)
    te = loader("Xte", M, bt, [F], ([], "i"), pack=pack)
    ensure_eq(a.attribute(tr, te), (N, M), want(C, D, F, False, None, None, seed),
              "dict batches: same score as tuple batches")


@contract("P02", "weights and checkpoints of different length", [A + "attribute", A + "self_attribute"])
def c(w):
    C, D, F, N, M, bs, bt = dims()
    L = Int("L", 0)
    ENG.assume(T.ne(P(L), P(C)))
    a, seed = build(w, C, D, False, None, None, L)
    tr, te = loader("Xtr", N, bs, [F]), loader("Xte", M, bt, [F])
    expect_raise(ValueError, lambda: a.attribute(tr, te), "length mismatch -> ValueError")
    expect_raise(ValueError, lambda: a.self_attribute(tr), "self: length mismatch -> ValueError")


@contract("P02", "unsupported batch type", [A + "attribute", A + "self_attribute"])
def c(w):
    C, D, F, N, M, bs, bt = dims()
    a, seed = build(w, C, D, False, None, None)
    tr = loader("Xtr", N, bs, [F], pack=lambda fs: fs[0])
    te = loader("Xte", M, bt, [F])
    expect_raise(TypeError, lambda: a.attribute(tr, te), "batch of unsupported type -> TypeError")
    expect_raise(TypeError, lambda: a.self_attribute(tr), "self: unsupported type -> TypeError")
