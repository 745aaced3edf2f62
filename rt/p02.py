from rt.lib import *
from dattri.algorithm.tracin import TracInAttributor
from dattri.params.projection import TracInProjectionParams, RandomProjectionParams
from dattri.func.projection import random_project


def nrm(x):
    return x / x.norm(dim=1, keepdim=True).clamp_min(1e-12)


def run(rng, normalized, layer, proj, nan=False, order=None):
    task, model, cks, loss, target, (d, k, C) = setup(rng)
    N, M = rng.int(1, 7), rng.int(1, 6)
    X, Y, tr, bs = data(rng, N, d, k)
    X2, Y2, te, bt = data(rng, M, d, k)
    if nan:
        X[rng.int(0, N - 1), 0] = float("nan")
        X2[rng.int(0, M - 1), 0] = rng.pick(float("nan"), float("inf"))
    w = rng.rand(C) + 0.1
    names = None
    if layer:
        alln = list(cks[0])
        names = [n for n in alln if rng.pick(0, 1)] or [alln[-1]]
    pp = TracInProjectionParams(proj_dim=4, proj_type="identity")
    dim, seed = rng.int(1, 6), rng.int(0, 50)
    if proj:
        pp = TracInProjectionParams(proj_dim=dim, proj_seed=seed,
                                    proj_type=rng.pick("normal", "rademacher"))
    else:
        pp = TracInProjectionParams()
        pp.proj_dim = None
    a = TracInAttributor(task=task, weight_list=w, normalized_grad=normalized, proj_params=pp,
                         layer_name=names)

    def rep(f, c, X, Y):
        g = torch.nan_to_num(grads(f, cks[c], X, Y, names))
        if proj:
            p = random_project(g, RandomProjectionParams(feature_batch_size=len(g), device="cpu",
                                                         **pp.model_dump()))
            g = p(g, ensemble_id=c)
        return g
    want, diag = torch.zeros(N, M), torch.zeros(N)
    for c in range(C):
        gl, gt = rep(loss, c, X, Y), rep(target, c, X2, Y2)
        if normalized and min(gl.norm(dim=1).min(), gt.norm(dim=1).min()) < 1e-3:
            return                     # direction of a vanishing gradient: rounding noise
        if normalized:
            want += w[c] * (nrm(gl) @ nrm(gt).T)
            diag += w[c]
        else:
            want += w[c] * (gl @ gt.T)
            diag += w[c] * (gl * gl).sum(1)
    inp = dict(N=N, M=M, bs=bs, bt=bt, C=C, normalized=normalized, layer=names, proj=proj, dim=dim)
    if rng.pick(0, 1):
        a.self_attribute(tr)
    tol = dict(rtol=5e-3, atol=5e-4) if nan else {}
    close(a.attribute(tr, te), want, "attribute", **tol, **inp)
    close(a.self_attribute(tr), diag, "self_attribute", **tol, **inp)
    close(a.attribute(tr, te), want, "attribute again", **tol, **inp)


for key, kw in (("dot", dict(normalized=False, layer=False, proj=False)),
                ("cos", dict(normalized=True, layer=False, proj=False)),
                ("dot-layer", dict(normalized=False, layer=True, proj=False)),
                ("cos-layer", dict(normalized=True, layer=True, proj=False)),
                ("dot-proj", dict(normalized=False, layer=False, proj=True)),
                ("cos-proj", dict(normalized=True, layer=True, proj=True))):
    @check(key, 10, 60)
    def f(rng, kw=kw):
        run(rng, **kw)


@check("nan", 6, 30)
def f(rng):
    run(rng, rng.pick(True, False), False, False, nan=True)


@check("default-projection", 2)
def f(rng):
    """No projection parameters: 512-dimensional normal projection with seed 0."""
    task, model, cks, loss, target, (d, k, C) = setup(rng)
    X, Y, tr, bs = data(rng, 3, d, k)
    X2, Y2, te, bt = data(rng, 2, d, k)
    a = TracInAttributor(task=task, weight_list=torch.ones(C), normalized_grad=False)
    want = 0
    for c in range(C):
        r = []
        for f_, x, y in ((loss, X, Y), (target, X2, Y2)):
            g = grads(f_, cks[c], x, y)
            p = random_project(g, RandomProjectionParams(
                feature_batch_size=len(g), device="cpu", proj_dim=512, proj_seed=0,
                proj_max_batch_size=32, proj_type="normal"))
            r.append(p(g, ensemble_id=c))
        want = want + r[0] @ r[1].T
    close(a.attribute(tr, te), want, "default projection", C=C)


@check("dict-batches", 4)
def f(rng):
    from dattri.task import AttributionTask
    d, k, N, M = 2, 2, rng.int(1, 6), rng.int(1, 5)
    model = Lin(d, k)
    lf = loss_of(model)
    cks = [{n: rng.randn(*p.shape) for n, p in model.state_dict().items()} for _ in range(2)]
    task = AttributionTask(loss_func=lambda p, b: lf(p, (b["x"], b["y"])),
                           model=model, checkpoints=cks)

    class DS(Dataset):
        def __init__(self, X, Y):
            self.X, self.Y = X, Y

        def __len__(self):
            return len(self.X)

        def __getitem__(self, i):
            return {"x": self.X[i], "y": self.Y[i]}
    X, Y, X2, Y2 = rng.randn(N, d), rng.ints(0, k, N), rng.randn(M, d), rng.ints(0, k, M)
    bs, bt = rng.int(1, N + 1), rng.int(1, M + 1)
    for proj in (False, True):
        pp = TracInProjectionParams(proj_dim=4)
        if not proj:
            pp.proj_dim = None
        a = TracInAttributor(task=task, weight_list=torch.ones(2), normalized_grad=False, proj_params=pp)
        want = 0
        for c in range(2):
            r = []
            for x, y in ((X, Y), (X2, Y2)):
                g = grads(lf, cks[c], x, y)
                if proj:
                    g = random_project(g, RandomProjectionParams(
                        feature_batch_size=len(g), device="cpu", **pp.model_dump()))(g, ensemble_id=c)
                r.append(g)
            want = want + r[0] @ r[1].T
        close(a.attribute(DataLoader(DS(X, Y), batch_size=bs), DataLoader(DS(X2, Y2), batch_size=bt)),
              want, "dict batches", N=N, M=M, bs=bs, bt=bt, proj=proj)


@check("length-mismatch", 4)
def f(rng):
    task, model, cks, loss, target, (d, k, C) = setup(rng)
    L = rng.pick(C + 1, max(C - 1, 0), 0)
    if L == C:
        L += 1
    tr, te = data(rng, 3, d, k)[2], data(rng, 2, d, k)[2]
    a = TracInAttributor(task=task, weight_list=torch.ones(L), normalized_grad=False)
    raises(ValueError, lambda: a.attribute(tr, te), "length mismatch", C=C, L=L)
    raises(ValueError, lambda: a.self_attribute(tr), "length mismatch (self)", C=C, L=L)


main()
