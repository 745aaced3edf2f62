"""P05: data value embeddings against the product formula, on the real attributor."""
from rt.lib import *
from dattri.task import AttributionTask
from dattri.algorithm.dvemb import DVEmbAttributor
from dattri.params.projection import DVEmbProjectionParams


class Seq(nn.Module):
    """Linear layers on (B, L, d) inputs (or (B, d))."""
    def __init__(self, d, h, k, b1, b2):
        super().__init__()
        self.a = nn.Linear(d, h, bias=b1)
        self.b = nn.Linear(h, k, bias=b2)

    def forward(self, x):
        o = self.b(torch.tanh(self.a(x)))
        return o.sum(1) if o.dim() == 3 else o


def full_loss(model):
    def f(params, data):
        x, y = data
        out = torch.func.functional_call(model, params, (x.unsqueeze(0),))
        return nn.functional.cross_entropy(out, y.long().unsqueeze(0))
    return f


def batch_loss(model, data, device):
    x, y = data
    return nn.functional.cross_entropy(model(x.to(device)), y.long().to(device))


def per_sample(model, X, Y, names=None):
    """Per-sample gradients, in the order of the linear layers (weight then bias)."""
    out = []
    ps = [p for n, p in model.named_parameters() if names is None or n.split(".")[0] in names]
    for x, y in zip(X, Y):
        l = nn.functional.cross_entropy(model(x.unsqueeze(0)), y.long().unsqueeze(0))
        out.append(torch.cat([g.flatten() for g in torch.autograd.grad(l, ps)]))
    return torch.stack(out)


def run(rng, mode, dim=None, ctx=False, layers=None):
    d, h, k = rng.int(2, 3), rng.int(2, 4), rng.int(2, 3)
    seq = rng.pick(0, 0, 1, 2) if mode != "none" else 0
    model = Seq(d, h, k, rng.pick(True, False), rng.pick(True, False))
    with torch.no_grad():
        for p in model.parameters():
            p.copy_(rng.randn(*p.shape) * 0.5)
    N = rng.int(2, 7)
    mkx = lambda n: rng.randn(n, seq, d) if seq else rng.randn(n, d)
    X, Y = mkx(N), rng.ints(0, k, N)
    loss = full_loss(model) if mode == "none" else batch_loss
    task = AttributionTask(loss_func=loss, model=model, checkpoints=model.state_dict())
    kw = {}
    if dim:
        kw["proj_params"] = DVEmbProjectionParams(proj_dim_per_layer=dim, proj_max_batch_size=64, proj_seed=rng.int(0, 5))
    a = DVEmbAttributor(task=task, factorization_type=mode, layer_names=layers, **kw)
    Kd = dim if mode != "kronecker" or not dim else int(math.sqrt(dim))
    opt = torch.optim.SGD(model.parameters(), lr=0.3)
    keys = rng.pick([0], [0, 1], [1, 2], [3], [2, 5, 7], [1, 0], [4, 1, 2])      # in the order they are recorded
    hist = {}
    names = [layers] if isinstance(layers, str) else layers

    def project(Xb, Yb):
        """Projected per-sample gradients with the attributor's own projectors."""
        if mode == "none" or not dim:
            G = per_sample(model, Xb, Yb, names)
            return a.projector(G) if dim else G
        acts, outs = {}, {}
        hs = []
        for nm, m in model.named_children():
            if names is None or nm in names:
                hs.append(m.register_forward_hook(lambda m, i, o, nm=nm: acts.__setitem__(nm, i[0].detach())))
                hs.append(m.register_full_backward_hook(lambda m, gi, go, nm=nm: outs.__setitem__(nm, go[0].detach())))
        model.zero_grad()
        (batch_loss(model, (Xb, Yb), "cpu") * len(Xb)).backward()
        for q in hs:
            q.remove()
        res = []
        for (pa, pb), nm in zip(a.random_projectors, acts):
            A, B = acts[nm], outs[nm]
            A, B = (A, B) if A.dim() == 3 else (A[:, None], B[:, None])
            A2 = torch.stack([pa(A[:, l]) for l in range(A.shape[1])], 1)
            B2 = torch.stack([pb(B[:, l]) for l in range(B.shape[1])], 1)
            if mode == "kronecker":
                res.append(torch.einsum("blo,bli->boi", B2, A2).flatten(1))
            else:
                res.append((A2 * B2).sum(1) * math.sqrt(dim))
        return torch.cat(res, 1)
    inp = dict(mode=mode, dim=dim, N=N, seq=seq, keys=keys, d=d, h=h, k=k, ctx=ctx, layers=layers)
    steps = []
    for e in keys:
        order = torch.randperm(N, generator=rng.g) if rng.pick(True, False) else rng.ints(0, N, N)   # also with repeats
        b = rng.int(1, N)
        for s in range(0, N, b):
            ix = order[s:s + b]
            lr = 0.01 + 0.1 * rng.r.random()
            # the model parameters at the moment of caching
            saved = {n: p.detach().clone() for n, p in model.named_parameters()}
            if ctx:
                with a.cache_gradients_context(e, ix, lr):
                    opt.zero_grad()
                    batch_loss(model, (X[ix], Y[ix]), "cpu").backward()
                    now = model.state_dict()
            else:
                a.cache_gradients(e, (X[ix], Y[ix]), ix, lr)
            steps.append((e, ix, lr / len(ix), project(X[ix], Y[ix])))
            with torch.no_grad():                    # the training run goes on
                for p in model.parameters():
                    p += 0.1 * rng.randn(*p.shape)
    a.cache(memory_saving=rng.pick(True, False))
    P, N = steps[0][3].shape[1], max(int(q[1].max()) for q in steps) + 1
    At = torch.eye(P, dtype=torch.float64)
    want = {e: torch.zeros(N, P, dtype=torch.float64) for e in keys}
    for e, ix, eta, G in reversed(sorted(steps, key=lambda q: q[0])):
        G = G.double()
        want[e].index_add_(0, ix, eta * G @ At.T)
        At = At @ (torch.eye(P, dtype=torch.float64) - eta * G.T @ G)
    M = rng.int(1, 5)
    X2, Y2 = mkx(M), rng.ints(0, k, M)
    te = DataLoader(TensorDataset(X2, Y2), batch_size=rng.int(1, M + 1))
    T2 = project(X2, Y2).double()
    tot = sum(want.values())
    close(a.attribute(te), tot @ T2.T, "scores over all epochs", **inp)
    e = rng.pick(*keys)
    close(a.attribute(te, epoch=e), want[e] @ T2.T, "scores of one epoch", epoch=e, **inp)
    sel = [rng.int(0, N - 1) for _ in range(rng.int(1, 4))]
    close(a.attribute(te, train_data_indices=sel), (tot @ T2.T)[sel], "scores of selected samples", sel=sel, **inp)
    raises(ValueError, lambda: a.attribute(te, epoch=99), "unknown epoch", **inp)


@check("full", 12)
def f(rng):
    run(rng, "none")


@check("full-projected", 8)
def f(rng):
    run(rng, "none", rng.int(2, 6))


@check("factorised", 12)
def f(rng):
    run(rng, rng.pick("kronecker", "elementwise"), ctx=rng.pick(True, False),
        layers=rng.pick(None, None, "b", ["a"], ["a", "b"]))


@check("kronecker", 12)
def f(rng):
    run(rng, "kronecker", rng.pick(4, 9, 5), ctx=rng.pick(True, False), layers=rng.pick(None, None, "b"))


@check("elementwise", 12)
def f(rng):
    run(rng, "elementwise", rng.int(2, 5), ctx=rng.pick(True, False), layers=rng.pick(None, None, ["a"]))


@check("errors", 3)
def f(rng):
    model = Seq(2, 2, 2, True, True)
    mk = lambda l, **k: DVEmbAttributor(task=AttributionTask(loss_func=l, model=model, checkpoints=model.state_dict()), **k)
    raises(ValueError, lambda: mk(batch_loss), "three-argument loss without factorisation")
    raises(ValueError, lambda: mk(full_loss(model), factorization_type="kronecker"), "two-argument loss with factorisation")
    a = mk(full_loss(model))
    X, Y, te, _ = data(rng, 3, 2, 2)
    raises(RuntimeError, lambda: a.attribute(te), "attribute before cache")
    raises(ValueError, lambda: a.cache(), "cache without gradients")
    a.cache_gradients(0, (X, Y), torch.arange(3), 0.1)
    a.cached_gradients[0][0][0, 0] = float("nan")
    raises(ValueError, lambda: a.cache(), "NaN gradients")


main()
