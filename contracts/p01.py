"""P01: scores of the inner-product attributors are the ensemble mean of
<train representation, test representation> (/ RelatIF denominator), for every dataset size,
every batch partition, every number of checkpoints; self_attribute is its diagonal."""
from contracts.lib import *

B = "dattri/algorithm/base.py::BaseInnerProductAttributor."


def make(w, C, D, E):
    base = w.load("dattri.algorithm.base")
    tt, tl = rowfun("Ttest"), rowfun("Ttrain")
    positive("denl", note="precondition: RelatIF denominators are non-zero")
    positive("dent", note="precondition: RelatIF denominators are non-zero")

    class A(base.BaseInnerProductAttributor):
        """Arbitrary row-wise subclass (the contract subclasses must satisfy)."""

        def transform_test_rep(self, ckpt_idx, test_rep):
            return tt(ckpt_idx, test_rep, E)

        def transform_train_rep(self, ckpt_idx, train_rep):
            return tl(ckpt_idx, train_rep, E)

        def _compute_denom(self, ckpt_idx, train_batch_rep, test_batch_rep=None,
                           relatif_method=None):
            c = P(ckpt_idx)

            def body(i):
                v, u = T.fresh("p"), T.fresh("p")
                a = T.lam([v], [train_batch_rep.pshape[1]], train_batch_rep.at([i[0], T.atom(v)]))
                if relatif_method == "l":
                    b = T.lam([u], [test_batch_rep.pshape[1]], test_batch_rep.at([i[0], T.atom(u)]))
                    return T.fn("denl", c, a, b)
                return T.fn("dent", c, a)
            return SymTensor([train_batch_rep.pshape[0]], body, "f")
    return A(TaskContract(C, D))


def score(C, D, E, F, rel, Xte="Xte0"):
    def want(i, j):
        def term(c, p):
            a = T.fn("Ttrain", c, veclam(gl(c, D, "Xtr0", F, i), D), p)
            b = T.fn("Ttest", c, veclam(gt(c, D, Xte, F, j), D), p)
            t = T.mul(a, b)
            if rel == "l":
                t = T.div(t, T.fn("denl", c, veclam(gl(c, D, "Xtr0", F, i), D),
                                  veclam(gt(c, D, "Xtr0", F, i), D)))
            elif rel:
                t = T.div(t, T.fn("dent", c, veclam(gl(c, D, "Xtr0", F, i), D)))
            return t
        return T.div(S([C, E], term), P(C))
    return want


def dims():
    return (Int("C", 1), Int("D", 1), Int("E", 1), Int("F", 1), Int("N", 1), Int("M", 1),
            Int("bs", 1), Int("bt", 1))


for rel in (None, "l", "theta"):
    @contract("P01", "attribute[relatif=%s]" % rel, [B + "attribute", B + "generate_train_rep",
                                                      B + "generate_test_rep"])
    def c(w, rel=rel):
        C, D, E, F, N, M, bs, bt = dims()
        a = make(w, C, D, E)
        tr, te = loader("Xtr", N, bs, [F]), loader("Xte", M, bt, [F])
        r = a.attribute(tr, te, relatif_method=rel)
        ensure_eq(r, (N, M), score(C, D, E, F, rel), "score[i,j] = mean_c <train_i, test_j>/denom")

    @contract("P01", "self_attribute[relatif=%s]" % rel, B + "self_attribute")
    def c(w, rel=rel):
        C, D, E, F, N, M, bs, bt = dims()
        a = make(w, C, D, E)
        tr = loader("Xtr", N, bs, [F])
        r = a.self_attribute(tr, relatif_method=rel)
        f = score(C, D, E, F, rel, "Xtr0")
        ensure_eq(r, (N,), lambda i: f(i, i), "self score[i] = attribute score[i,i]")


@contract("P01", "attribute[dict batches]", B + "attribute")
def c(w):
    C, D, E, F, N, M, bs, bt = dims()
    a = make(w, C, D, E)
    pack = lambda fs: EDict({"x": fs[0], "y": fs[1]})
    tr = loader("Xtr", N, bs, [F], ([], "i"), pack=pack)
    te = loader("Xte", M, bt, [F], ([], "i"), pack=pack)
    r = a.attribute(tr, te)
    ensure_eq(r, (N, M), score(C, D, E, F, None), "dict batches: same score as tuple batches")


@contract("P01", "self_attribute[dict batches]", B + "self_attribute")
def c(w):
    C, D, E, F, N, M, bs, bt = dims()
    a = make(w, C, D, E)
    pack = lambda fs: EDict({"x": fs[0], "y": fs[1]})
    tr = loader("Xtr", N, bs, [F], ([], "i"), pack=pack)
    r = a.self_attribute(tr)
    f = score(C, D, E, F, None, "Xtr0")
    ensure_eq(r, (N,), lambda i: f(i, i), "dict batches: same self score as tuple batches")


@contract("P01", "defaults: identity transform, cache, unit denominator",
          [B + "cache", B + "transform_test_rep", B + "transform_train_rep", B + "_compute_denom",
           B + "attribute"])
def c(w):
    C, D, E, F, N, M, bs, bt = dims()
    base = w.load("dattri.algorithm.base")

    class A(base.BaseInnerProductAttributor):
        pass
    a = A(TaskContract(C, D))
    full = loader("Xfull", Int("L", 1), Int("bl", 1), [F])
    a.cache(full)
    ensure(a.full_train_dataloader is full, "cache keeps the full training loader")
    tr, te = loader("Xtr", N, bs, [F]), loader("Xte", M, bt, [F])
    r = a.attribute(tr, te)
    ensure(a.full_train_dataloader is full, "attribute does not replace a cached loader")
    ensure_eq(r, (N, M), lambda i, j: T.div(S([C, D], lambda c, p: T.mul(
        gl(c, D, "Xtr0", F, i)(p), gt(c, D, "Xte0", F, j)(p))), P(C)),
        "score = mean_c <grad loss_i, grad target_j>")


@contract("P01", "attribute[unsupported batch type]", B + "attribute")
def c(w):
    C, D, E, F, N, M, bs, bt = dims()
    a = make(w, C, D, E)
    tr = loader("Xtr", N, bs, [F], pack=lambda fs: fs[0])
    te = loader("Xte", M, bt, [F])
    expect_raise(TypeError, lambda: a.attribute(tr, te), "batch of unsupported type -> TypeError")
    expect_raise(TypeError, lambda: a.self_attribute(tr), "self: unsupported type -> TypeError")
