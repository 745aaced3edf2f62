"""P08: Fisher products and EK-FAC against explicitly built matrices."""
from rt.lib import *
import contextlib, io
from dattri.func import fisher as FI
from dattri.algorithm.influence_function import IFAttributorEKFAC
from dattri.task import AttributionTask

torch.set_default_dtype(torch.float64)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


@check("ifvp_explicit", 20, 150)
def f(rng):
    d, k = rng.int(1, 4), rng.int(1, 3)
    a = rng.int(0, k - 1)
    xs = tuple(rng.randn(d).double() for _ in range(k))
    Bs = [rng.randn(d, d).double() for _ in range(k)]

    def g(*x):
        return sum((torch.sin(B @ y) * (q + 1)).sum() for q, (B, y) in enumerate(zip(Bs, x))) + x[0] @ x[-1]
    reg = rng.pick(0.3, 1.0, 2.5)
    gr = torch.func.grad(g, argnums=a)(*xs)
    K = torch.outer(gr, gr) + reg * torch.eye(d)
    for v in (rng.randn(d).double(), rng.randn(rng.int(1, 3), d).double()):
        want = torch.linalg.solve(K, v.T).T
        close(FI.ifvp_explicit(g, argnums=a, regularization=reg)(xs, v), want, "ifvp_explicit", x=list(xs), v=v)
        close(FI.ifvp_at_x_explicit(g, *xs, argnums=a, regularization=reg)(v), want, "ifvp_at_x_explicit", v=v)


class Net(nn.Module):
    """two linear maps (in sequence positions too), with or without bias"""
    def __init__(self, rng, seq):
        super().__init__()
        i, h, o = rng.int(1, 3), rng.int(1, 3), rng.int(1, 3)
        self.b1, self.b2 = rng.pick(True, False), rng.pick(True, False)
        self.l1, self.l2 = nn.Linear(i, h, bias=self.b1), nn.Linear(h, o, bias=self.b2)
        for p in self.parameters():
            p.data = rng.randn(*p.shape).double()
        self.i, self.o, self.seq = i, o, seq

    def forward(self, x):
        y = self.l2(torch.tanh(self.l1(x)))
        return y.sum(1) if self.seq else y


def make(rng):
    seq = rng.pick(0, 0, 1, 3, 12)
    net = Net(rng, seq)
    N = rng.int(2, 7)
    X = rng.randn(N, *([seq] if seq else []), net.i).double()
    Y = rng.randn(N, net.o).double()

    def loss(params, batch):
        x, y = batch
        if x.dim() < (3 if seq else 2):        # one sample, vmapped over
            x, y = x[None], y[None]
        out = torch.func.functional_call(net, params, (x,))
        return ((out - y) ** 2).sum(-1).mean()
    return net, X, Y, loss, seq


def layers(net, X, Y):
    """per sample: for each layer a (T, in[+1]) and d loss / d out (T, out)"""
    out = {}
    for r in range(len(X)):
        x = X[r:r + 1]
        h = net.l1(x)
        h.retain_grad()
        t = torch.tanh(h)
        o = net.l2(t)
        o.retain_grad()
        y = o.sum(1) if net.seq else o
        ((y - Y[r:r + 1]) ** 2).sum(-1).mean().backward()
        for nm, a, g, b in (("l1", x, h.grad, net.b1), ("l2", t, o.grad, net.b2)):
            a = a.detach().reshape(-1, a.shape[-1])
            if b:
                a = torch.cat([a, torch.ones(len(a), 1)], 1)
            out.setdefault(nm, []).append((a, g.reshape(-1, g.shape[-1])))
        net.zero_grad()
    return out


@check("EK-FAC", 30, 200)
def f(rng):
    net, X, Y, loss, seq = make(rng)
    N = len(X)
    names = rng.pick(None, ["l1", "l2"], ["l2", "l1"], "l2", ["l1"])
    damping = rng.pick(0.1, 0.5)
    bs = rng.int(1, N + 1)
    mi = rng.pick(None, 1, 2, 50)
    task = AttributionTask(loss_func=loss, model=net, checkpoints=net.state_dict())
    with quiet():
        att = IFAttributorEKFAC(task=task, module_name=names, damping=damping)
        att.cache(DataLoader(TensorDataset(X, Y), batch_size=bs), mi)
    inp = dict(N=N, batch_size=bs, seq=seq, module_name=names, max_iter=mi, bias=[net.b1, net.b2])
    use = ["l1", "l2"] if names is None else [names] if isinstance(names, str) else names
    if att.module_name != use:
        fail("modules used: %s" % att.module_name, **inp)
    n = N if mi is None else min(N, bs * mi)
    L = {k: v[:n] for k, v in layers(net, X, Y).items()}
    Qs, lam = {}, {}
    for k in use:
        A = sum(a.T @ a for a, _ in L[k]) / n
        S = sum(g.T @ g for _, g in L[k]) / n
        qa, qs = att.cached_q[k]
        for q, C, w in ((qa, A, "input"), (qs, S, "gradient")):
            close(q.T @ q, torch.eye(len(C)), "orthogonal eigenvectors", **inp)
            D = q.T @ C @ q
            close(D - torch.diag(torch.diag(D)), torch.zeros_like(D), "eigenvectors diagonalise the %s covariance" % w, aatol=1e-5, **inp)
        lam[k] = sum((qs.T @ (g.T @ a) @ qa) ** 2 for a, g in L[k]) / n
        close(att.cached_lambdas[k], lam[k], "eigenvalue corrections of " + k, **inp)
    # transform: solve the explicit block
    R = rng.int(1, 3)
    mods = {"l1": net.l1, "l2": net.l2}
    rows, want = [], []
    for k in use:
        qa, qs = att.cached_q[k]
        W = mods[k].weight
        V = rng.randn(R, W.shape[0], qa.shape[0]).double()
        Z = qs.T @ V @ qa / (lam[k] + damping)
        Z = qs @ Z @ qa.T
        for lst, M in ((rows, V), (want, Z)):
            lst.append(M[:, :, :W.shape[1]].reshape(R, -1))
            if mods[k].bias is not None:
                lst.append(M[:, :, -1])
    V = torch.cat(rows, 1)
    close(att.transform_test_rep(0, V), torch.cat(want, 1), "transform_test_rep", **inp)
    if net.l1._forward_hooks or net.l2._forward_hooks:
        fail("hooks left behind", **inp)
    raises(ValueError, lambda: att.transform_test_rep(1, V), "checkpoint 1", **inp)
    # the whole attributor: rows of train gradients against transformed test gradients
    att2 = att
    tr, te = DataLoader(TensorDataset(X, Y), batch_size=rng.int(1, 4)), DataLoader(TensorDataset(X[:2], Y[:2]), batch_size=1)
    with quiet():
        sc = att2.attribute(tr, te)
    full = layers(net, X, Y)
    order = []
    tot = torch.zeros(N, 2)
    for k in use:
        qa, qs = att.cached_q[k]
        G = torch.stack([g.T @ a for a, g in full[k]])
        Z = qs @ (qs.T @ G[:2] @ qa / (lam[k] + damping)) @ qa.T
        tot += torch.einsum("nij,mij->nm", G, Z)
    close(sc, tot, "scores", atol=1e-5, **inp)


@check("several checkpoints", 2, 4)
def f(rng):
    net, X, Y, loss, seq = make(rng)
    task = AttributionTask(loss_func=loss, model=net, checkpoints=[net.state_dict(), net.state_dict()])
    raises(ValueError, lambda: IFAttributorEKFAC(task=task), "two checkpoints")


@check("mask", 10, 60)
def f(rng):
    T_, i, o = rng.int(2, 13), rng.int(1, 3), rng.int(1, 3)
    N, bs = rng.int(1, 6), rng.int(1, 4)
    lin = nn.Linear(i, o, bias=False)
    lin.weight.data = rng.randn(o, i).double()
    X = rng.randn(N, T_, i).double()
    M = torch.tensor([[1] + [rng.int(0, 1) for _ in range(T_ - 1)] for _ in range(N)])
    cache = {}

    def func(batch):
        x, m = batch
        y = lin(x)
        y.retain_grad()
        cache["l"] = (x, y)
        return ((torch.sin(y) * m[..., None]).sum() / len(x), m)
    ld = DataLoader(TensorDataset(X, M), batch_size=bs)
    cov = FI.estimate_covariance(func, ld, cache)
    g = torch.cos(lin(X)) * M[..., None]
    a = (X * M[..., None]).reshape(-1, i)
    g = g.reshape(-1, o).detach()
    n = M.sum()
    close(cov["l"][0], a.T @ a / n, "masked input covariance", N=N, batch_size=bs, mask=M)
    close(cov["l"][1], g.T @ g / n, "masked gradient covariance", N=N, batch_size=bs, mask=M)
    q = {"l": (torch.linalg.qr(rng.randn(i, i).double())[0], torch.linalg.qr(rng.randn(o, o).double())[0])}
    lam = FI.estimate_lambda(func, ld, q, cache)
    G = torch.einsum("nto,nti->noi", g.reshape(N, T_, o), X * M[..., None])
    close(lam["l"], ((q["l"][1].T @ G @ q["l"][0]) ** 2).mean(0), "masked eigenvalues", N=N, batch_size=bs, mask=M)


if __name__ == "__main__":
    main()
