from rt.lib import *
from dattri.algorithm.base import BaseInnerProductAttributor


def mk(task, E, Wt, Wl):
    class A(BaseInnerProductAttributor):
        def transform_test_rep(self, ckpt_idx, test_rep):
            return test_rep @ Wt[ckpt_idx]

        def transform_train_rep(self, ckpt_idx, train_rep):
            return train_rep @ Wl[ckpt_idx]

        def _compute_denom(self, ckpt_idx, train_batch_rep, test_batch_rep=None, relatif_method=None):
            if relatif_method == "l":
                return (train_batch_rep * test_batch_rep).sum(1).abs() + 1 + ckpt_idx
            return train_batch_rep.norm(dim=1) + 1 + ckpt_idx
    return A(task)


def run(rng, rel, dic=False):
    task, model, cks, loss, target, (d, k, C) = setup(rng)
    N, M = rng.int(1, 7), rng.int(1, 6)
    X, Y, tr, bs = data(rng, N, d, k)
    X2, Y2, te, bt = data(rng, M, d, k)
    P = sum(v.numel() for v in cks[0].values())
    E = rng.int(1, 4)
    Wt, Wl = [rng.randn(P, E) for _ in range(C)], [rng.randn(P, E) for _ in range(C)]
    a = mk(task, E, Wt, Wl)
    want, diag = torch.zeros(N, M), torch.zeros(N)
    for c in range(C):
        gl, gt, gs = grads(loss, cks[c], X, Y), grads(target, cks[c], X2, Y2), grads(target, cks[c], X, Y)
        den = torch.ones(N)
        if rel == "l":
            den = (gl * gs).sum(1).abs() + 1 + c
        elif rel:
            den = gl.norm(dim=1) + 1 + c
        want += (gl @ Wl[c]) @ (gt @ Wt[c]).T / den[:, None] / C
        diag += ((gl @ Wl[c]) * (gs @ Wt[c])).sum(1) / den / C
    inp = dict(N=N, M=M, bs=bs, bt=bt, C=C, rel=rel)
    if rng.pick(0, 1):
        a.cache(data(rng, N, d, k)[2])
    close(a.attribute(tr, te, relatif_method=rel), want, "attribute", **inp)
    close(a.self_attribute(tr, relatif_method=rel), diag, "self_attribute", **inp)
    close(a.attribute(tr, te, relatif_method=rel), want, "attribute after other calls", **inp)


@check("attribute-none", 12)
def f(rng):
    run(rng, None)


@check("attribute-l", 8)
def f(rng):
    run(rng, "l")


@check("attribute-theta", 8)
def f(rng):
    run(rng, "theta")


@check("dict-batches", 8)
def f(rng):
    """dict batches give the tuple-batch scores (task functions taking dicts)."""
    from dattri.task import AttributionTask
    d, k, N, M = 2, 2, rng.int(1, 6), rng.int(1, 5)
    model = Lin(d, k)
    lf = loss_of(model)
    cks = [{n: rng.randn(*p.shape) for n, p in model.state_dict().items()} for _ in range(2)]
    task = AttributionTask(loss_func=lambda p, b: lf(p, (b["x"], b["y"])), model=model, checkpoints=cks)

    class DS(Dataset):
        def __init__(self, X, Y):
            self.X, self.Y = X, Y

        def __len__(self):
            return len(self.X)

        def __getitem__(self, i):
            return {"x": self.X[i], "y": self.Y[i]}
    X, Y, X2, Y2 = rng.randn(N, d), rng.ints(0, k, N), rng.randn(M, d), rng.ints(0, k, M)
    bs, bt = rng.int(1, N + 1), rng.int(1, M + 1)

    class A(BaseInnerProductAttributor):
        pass
    r = A(task)
    want = sum(grads(lf, c, X, Y) @ grads(lf, c, X2, Y2).T for c in cks) / 2
    dia = sum((grads(lf, c, X, Y) ** 2).sum(1) for c in cks) / 2
    close(r.attribute(DataLoader(DS(X, Y), batch_size=bs), DataLoader(DS(X2, Y2), batch_size=bt)), want,
          "dict batches", N=N, M=M, bs=bs, bt=bt)
    close(r.self_attribute(DataLoader(DS(X, Y), batch_size=bs)), dia, "dict batches self", N=N, bs=bs)


@check("bad-batch", 2)
def f(rng):
    task, model, cks, loss, target, (d, k, C) = setup(rng)

    class DS(Dataset):
        def __len__(self):
            return 3

        def __getitem__(self, i):
            return torch.zeros(d)

    class A(BaseInnerProductAttributor):
        pass
    good = data(rng, 3, d, k)[2]
    raises(TypeError, lambda: A(task).attribute(DataLoader(DS()), good), "tensor batches")
    raises(TypeError, lambda: A(task).attribute(good, DataLoader(DS())), "tensor test batches")
    raises(TypeError, lambda: A(task).self_attribute(DataLoader(DS())), "tensor batches (self)")


main()
