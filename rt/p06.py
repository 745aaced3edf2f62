"""P06: representer point scores against their definition."""
from rt.lib import *
from dattri.algorithm.rps import RPSAttributor
from dattri.algorithm import utils as U
from dattri.model_util.hook import get_final_layer_io
from dattri.task import AttributionTask


class Net(nn.Module):
    def __init__(self, d, h, k, bias, twice):
        super().__init__()
        self.body, self.fc, self.twice = nn.Linear(d, h), nn.Linear(h, k, bias=bias), twice

    def forward(self, x):
        o = self.fc(torch.tanh(self.body(x)))
        return o * 2 if self.twice else o


def ce(pre, y):
    return nn.functional.cross_entropy(pre, y, reduction="mean")


def bce(pre, y):
    return nn.functional.binary_cross_entropy_with_logits(pre, y)


def objective(x, y, th, loss, lam):
    return loss(x @ th.T, y) + lam * (th ** 2).sum()


def reference_theta(x, y, th, loss, lam, epochs):
    y = torch.sigmoid(y) if th.shape[0] == 1 else torch.softmax(y, 1)
    best, seen, first = None, float("inf"), None
    for e in range(epochs):
        v = th.clone().requires_grad_(True)
        f = objective(x, y, v, loss, lam)
        g, = torch.autograd.grad(f, v)
        m = g.abs().mean().item()
        first = m if e == 0 else first
        if m < seen:
            seen, best = m, th
            if m < first / 200:
                break
        t = 10.0
        while True:
            new = th - t * g
            if t < 1e-10 or objective(x, y, new, loss, lam) - f.detach() + t * (g ** 2).sum() / 2 < 0:
                break
            t /= 2
        th = new
    return best


def gen(rng):
    k = rng.pick(1, 3, 4)
    d, h, N, M = rng.int(1, 4), rng.int(1, 4), rng.int(1, 7), rng.int(1, 5)
    m = Net(d, h, k, rng.pick(True, False), rng.pick(True, False))
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(rng.randn(*p.shape))
    loss = bce if k == 1 else ce

    def mk(n):
        X, y = rng.randn(n, d), rng.ints(0, max(k, 2), n)
        y = y.float().unsqueeze(1) if k == 1 else y
        return X, y, DataLoader(TensorDataset(X, y), batch_size=rng.int(1, n + 1))
    return m, loss, k, mk, N, M


def features(m, X):
    f = torch.tanh(m.body(X))
    return f.detach(), m.fc(f).detach()


@check("scores", 40, 300)
def f(rng):
    m, loss, k, mk, N, M = gen(rng)
    X, _, tr = mk(N)[:3]
    X2, y2, te = mk(M)
    Xf, _, full = mk(rng.int(1, 8))
    lam, norm, cached, ep = rng.pick(0.003, 0.1, 1.0), rng.pick(0, 1), rng.pick(0, 1), rng.pick(1, 5, 30)
    task = AttributionTask(model=m, loss_func=loss, target_func=loss, checkpoints=m.state_dict())
    a = RPSAttributor(task, "fc", normalize_preactivate=bool(norm), l2_strength=lam, epoch=ep)
    if cached:
        a.cache(full)
    fx, ox = features(m, X)
    ft, _ = features(m, X2)
    ff, of = features(m, Xf) if cached else (fx, ox)
    th = U.rps_finetune_theta(ff, of, m.fc.weight.data.clone(), loss, lam, ep)
    p = torch.sigmoid(ox) if k == 1 else torch.softmax(ox, 1)
    pre = (fx @ th.detach().T).requires_grad_(True)
    al, = torch.autograd.grad(loss(pre, p), pre)
    al = al / (-2 * lam * N)
    al = al.expand(N, M) if k == 1 else al[:, y2]
    kern = (nn.functional.normalize(fx) @ nn.functional.normalize(ft).T) if norm else fx @ ft.T
    inp = dict(k=k, N=N, M=M, lam=lam, norm=norm, cached=cached, X=X, X2=X2, y2=y2)
    for _ in range(2):
        close(a.attribute(tr, te), kern * al, "RPS score", **inp)
    true(len(m.fc._forward_hooks) == 0, "hooks are removed", **inp)


@check("layer input and output", 20)
def f(rng):
    m, loss, k, mk, N, M = gen(rng)
    X, _, tr = mk(N)
    fx, ox = get_final_layer_io(m, "fc", tr)
    a, b = features(m, X)
    close(fx, a, "layer input", X=X)
    close(ox, b, "layer output", X=X)
    true(len(m.fc._forward_hooks) == 0, "hooks are removed", X=X)


@check("fine-tuning", 40, 300)
def f(rng):
    k, d, n = rng.pick(1, 3), rng.int(1, 4), rng.int(2, 8)
    sc = rng.pick(1.0, 1.0, 1.0, 1e6)
    x, y, th = rng.randn(n, d).double() * sc, rng.randn(n, k).double(), rng.randn(k, d).double()
    lam, ep = rng.pick(0.01, 0.5), rng.pick(1, 2, 4) if sc == 1.0 else 1
    keep = th.clone()
    loss = (lambda a, b: bce(a, b.to(a.dtype))) if k == 1 else (lambda a, b: ce(a, b.to(a.dtype)))
    got = U.rps_finetune_theta(x, y, th, loss, lam, ep)
    want = reference_theta(x, y, keep, loss, lam, ep)
    close(got, want, "fine-tuned layer", rtol=1e-2, atol=1e-3, k=k, x=x, y=y, th=keep, lam=lam, epochs=ep)
    close(th, keep, "the model's layer is unchanged", x=x)


if __name__ == "__main__":
    main()
