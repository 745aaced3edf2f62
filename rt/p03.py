from rt.lib import *
from dattri.algorithm.trak import TRAKAttributor
from dattri.params.projection import TRAKProjectionParams, RandomProjectionParams
from dattri.func.projection import random_project


def prob_of(model, keep):
    def f(params, data):
        x, y = data
        if y.dim() == 0:
            x, y = x.unsqueeze(0), y.unsqueeze(0)
        out = torch.func.functional_call(model, params, (x,))
        p = torch.exp(-nn.functional.cross_entropy(out, y.long()))
        return p.unsqueeze(0) if keep else p
    return f


def run(rng, hist, layer=False, dic=False):
    task, model, cks, loss, target, (d, k, C) = setup(rng)
    for n_, p in model.named_parameters():      # some frozen parameters
        pass
    N, M = rng.int(3, 9), rng.int(1, 6)
    X, Y, tr, bs = data(rng, N, d, k)
    X2, Y2, te, bt = data(rng, M, d, k)
    Q, seed, reg = rng.int(1, 3), rng.int(0, 50), rng.pick(0.0, 0.5, 2.0)
    names = None
    if layer:
        alln = list(cks[0])
        names = [n for n in alln if rng.pick(0, 1)] or [alln[-1]]
    if dic:
        from dattri.task import AttributionTask
        tr, te = dict_loader(X, Y, bs), dict_loader(X2, Y2, bt)
        u = lambda f: (lambda p, b: f(p, (b["x"], b["y"])))
        task = AttributionTask(loss_func=u(loss), target_func=u(target), model=model, checkpoints=cks)
    pf = prob_of(model, rng.pick(True, False))
    pp = TRAKProjectionParams(proj_dim=Q, proj_seed=seed, proj_type=rng.pick("normal", "rademacher"))
    a = TRAKAttributor(task=task, correct_probability_func=u(pf) if dic else pf, proj_params=pp,
                       layer_name=names, regularization=reg)
    ns = sum(p.numel() for p in model.parameters() if p.requires_grad) ** 0.5

    def rep(f, c, X, Y):
        g = grads(f, cks[c], X, Y, names) / ns
        return random_project(g, RandomProjectionParams(feature_batch_size=len(g), device="cpu",
                                                        **pp.model_dump()))(g, ensemble_id=c).double()

    def scores(X2, Y2, f):
        tot, q = 0, 0
        for c in range(C):
            L, G = rep(loss, c, X, Y), rep(f, c, X2, Y2)
            K = L.T @ L + reg * torch.eye(Q, dtype=torch.float64)
            if torch.linalg.cond(K) > 1e4 or K.diagonal().min() < 1e-6:
                return None
            tot = tot + G @ torch.linalg.solve(K, L.T)
            q = q + torch.stack([1 - pf(cks[c], (x, y)).flatten()[0] for x, y in zip(X, Y)]).double()
        return ((tot / C) * (q / C)).T
    want, self_ = scores(X2, Y2, target), scores(X, Y, loss)
    if want is None or self_ is None:
        return
    inp = dict(N=N, M=M, bs=bs, bt=bt, C=C, Q=Q, seed=seed, reg=reg, layer=names, hist=hist)
    tol = dict(rtol=1e-2, atol=2e-3)
    if hist == "direct":
        close(a.attribute(te, tr), want, "attribute", **tol, **inp)
        close(a.self_attribute(tr), self_.diagonal(), "self_attribute", **tol, **inp)
        close(a.attribute(te, tr), want, "attribute again", **tol, **inp)
    else:
        if rng.pick(0, 1):
            a.attribute(te, tr)
        if rng.pick(0, 1):
            a.cache(data(rng, 4, d, k)[2] if not dic else dict_loader(X[:2], Y[:2], 1))
        a.cache(tr)
        close(a.attribute(te), want, "cached attribute", **tol, **inp)
        close(a.self_attribute(), self_.diagonal(), "cached self_attribute", **tol, **inp)
        close(a.attribute(te), want, "cached attribute again", **tol, **inp)
        raises(ValueError, lambda: a.attribute(te, tr), "loader after cache", **inp)
        raises(ValueError, lambda: a.self_attribute(tr), "loader after cache (self)", **inp)


for hist in ("direct", "cached"):
    for layer in (False, True):
        @check("%s%s" % (hist, "-layer" if layer else ""), 14, 80)
        def f(rng, hist=hist, layer=layer):
            run(rng, hist, layer)

    @check(hist + "-dict", 6, 30)
    def f(rng, hist=hist):
        run(rng, hist, False, True)


@check("frozen-params", 3)
def f(rng):
    """The feature scale is the root of the number of trainable parameters."""
    from dattri.task import AttributionTask
    d, k, N = 3, 2, 6
    model = MLP(d, 3, k)
    X, Y, tr, bs = data(rng, N, d, k)
    lf = loss_of(model)
    sd = {n: p.detach().clone() for n, p in model.state_dict().items()}
    task = AttributionTask(loss_func=lf, model=model, checkpoints=sd)
    model.fc1.bias.requires_grad_(False)
    reg = 1.5
    pp = TRAKProjectionParams(proj_dim=4)
    a = TRAKAttributor(task=task, correct_probability_func=prob_of(model, False), proj_params=pp,
                       regularization=reg)
    n = sum(p.numel() for p in task.get_model().parameters() if p.requires_grad)
    g = grads(lf, sd, X, Y, [m for m, p in model.named_parameters() if p.requires_grad]) / n ** 0.5
    L = random_project(g, RandomProjectionParams(feature_batch_size=N, device="cpu",
                                                 **pp.model_dump()))(g, ensemble_id=0)
    q = torch.stack([1 - prob_of(model, False)(sd, (x, y)) for x, y in zip(X, Y)])
    want = (L @ torch.linalg.solve(L.T @ L + reg * torch.eye(4), L.T)).T * q[:, None]
    close(a.attribute(tr, tr), want, "frozen parameters", n=n)


@check("protocol", 2)
def f(rng):
    task, model, cks, loss, target, (d, k, C) = setup(rng)
    tr, te = data(rng, 5, d, k)[2], data(rng, 2, d, k)[2]
    a = TRAKAttributor(task=task, correct_probability_func=prob_of(model, False))
    raises(ValueError, lambda: a.attribute(te), "no training loader")
    raises(ValueError, lambda: a.self_attribute(), "no training loader (self)")
    bad = DataLoader(torch.randn(4, d), batch_size=2)
    raises(TypeError, lambda: a.attribute(te, bad), "unsupported batch")
    raises(TypeError, lambda: a.attribute(bad, tr), "unsupported test batch")
    raises(TypeError, lambda: a.self_attribute(bad), "unsupported batch (self)")
    raises(TypeError, lambda: a.cache(bad), "unsupported batch (cache)")


main()
