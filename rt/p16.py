"""P16: block projected influence functions against explicitly built per-sample gradients."""
from rt.lib import *
import tempfile, shutil, contextlib, logging
import torch._dynamo
from dattri.algorithm.block_projected_if.block_projected_if import BlockProjectedIFAttributor
from dattri.algorithm.block_projected_if.core.utils import stable_inverse
from dattri.params.projection import GeneralProjectionParams
from dattri.task import AttributionTask

torch._dynamo.config.disable = True
logging.disable(logging.CRITICAL)
IDENT = dict(proj_dim=-1, proj_max_batch_size=64, proj_type="identity")


@contextlib.contextmanager
def scratch():
    """the attributor writes batch_metadata.json to the working directory: use a scratch one"""
    d, old = tempfile.mkdtemp(prefix="p16_"), os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


class Net(nn.Module):
    """a stack of linear layers on (batch, features) or (batch, positions, features); one layer may be unused"""

    def __init__(self, rng, seq, i, o):
        super().__init__()
        h = rng.int(1, 3)
        self.a = nn.Linear(i, h, bias=rng.pick(True, False))
        self.b = nn.Linear(h, o, bias=rng.pick(True, False))
        self.unused = nn.Linear(2, 2) if rng.int(0, 3) == 0 else None
        self.seq = seq

    def forward(self, x, y=None):
        y = self.b(torch.tanh(self.a(x)))
        return y.mean(1) if self.seq else y


class Case:
    def __init__(self, rng):
        self.rng = rng
        self.seq, i, self.o = rng.pick(0, 0, rng.int(1, 3)), rng.int(1, 3), rng.int(1, 3)
        self.m = m = Net(rng, self.seq, i, self.o)
        self.shape = (self.seq, i) if self.seq else (i,)
        self.form = rng.pick("list", "tuple", "dict")
        self.other = rng.pick(True, False)      # a target function of its own
        self.names = rng.pick(None, None, ["a"], ["b", "a"])

        def unpack(batch):
            return (batch["x"], batch["y"]) if isinstance(batch, dict) else batch[:2]

        def loss(model, batch, device):
            x, y = unpack(batch)
            return ((model(x) - y) ** 2).sum(-1).mean()

        def target(model, batch, device):
            x, y = unpack(batch)
            return (model(x).exp().sum(-1) * (1 + y[:, 0])).mean()
        self.loss, self.target = loss, target if self.other else loss
        self.task = AttributionTask(loss, m, m.state_dict(), **({"target_func": target} if self.other else {}))
        self.order = [n for n, q in m.named_modules() if isinstance(q, nn.Linear)] if self.names is None else self.names

    def data(self, n, bs):
        X, Y = self.rng.randn(n, *self.shape), self.rng.randn(n, self.o)
        pack = {"list": None, "tuple": lambda b: tuple(torch.stack(c) for c in zip(*b)),
                "dict": lambda b: dict(zip("xy", (torch.stack(c) for c in zip(*b))))}[self.form]
        d = DataLoader(TensorDataset(X, Y), batch_size=bs, collate_fn=pack)
        d.X, d.Y = X, Y
        return d

    def grads(self, d, f):
        """row r: for every selected layer, the gradient of its [weight | bias] for sample r alone"""
        rows = []
        for x, y in zip(d.X, d.Y):
            self.m.zero_grad()
            f(self.m, (x[None], y[None]), "cpu").backward()
            parts = []
            for n in self.order:
                q = getattr(self.m, n)
                if q is None or q.weight.grad is None:
                    continue
                parts.append((q.weight.grad if q.bias is None else torch.cat([q.weight.grad, q.bias.grad[:, None]], 1)).reshape(-1).clone())
            rows.append(parts)
        return [torch.stack(c) for c in zip(*rows)]

    def make(self, hessian, damping, offload, d, chunk=16):
        ident = GeneralProjectionParams(**IDENT)
        return BlockProjectedIFAttributor(self.task, layer_names=self.names, hessian=hessian, damping=damping, sparsifier_params=ident,
                                          projector_params=ident, offload=offload, cache_dir=d if offload == "disk" else None, chunk_size=chunk)

    def precond(self, g, hessian, damping):
        if hessian == "Identity":
            return torch.eye(g.shape[1])
        M = (g.T @ g / len(g)).double()
        lam = (1e-5 if damping is None else damping) * M.trace() / len(M)
        return torch.linalg.inv(M + lam * torch.eye(len(M), dtype=M.dtype)).float()

    def info(self, **k):
        return dict(model=str(self.m), form=self.form, target=self.other, names=str(self.names), **k)


def scores(cs, train, test, hessian, damping):
    out = 0
    for g, t in zip(cs.grads(train, cs.loss), cs.grads(test, cs.target)):
        out = out + g @ cs.precond(g, hessian, damping) @ t.T
    return out


def selfs(cs, train, hessian, damping):
    return sum((g @ cs.precond(g, hessian, damping) * g).sum(1) for g in cs.grads(train, cs.loss))


def tol(hessian, damping):
    return dict(rtol=3e-2, atol=3e-2) if damping is None and hessian == "eFIM" else dict(rtol=2e-3, atol=1e-3)


@check("scores", 26, 150, 60)
def f(rng):
    cs = Case(rng)
    n, bs, nt = rng.int(1, 14), rng.int(1, 4), rng.pick(rng.int(1, 6), 33, 40)
    hessian = rng.pick("Identity", "eFIM")
    damping = rng.pick(0.1, 1.0, 10.0)
    offload = rng.pick("none", "cpu", "disk")
    train, test = cs.data(n, bs), cs.data(nt, rng.int(1, 7))
    info = cs.info(n=n, bs=bs, nt=nt, hessian=hessian, damping=damping, offload=offload)
    with scratch() as d:
        a = cs.make(hessian, damping, offload, d, rng.pick(1, 2, 16))
        if rng.pick(True, False):
            a.cache(train)
        close(a.attribute(train, test), scores(cs, train, test, hessian, damping), "scores", **tol(hessian, damping), **info)
        close(a.compute_self_attribution(), selfs(cs, train, hessian, damping), "self influence", **tol(hessian, damping), **info)
        test2 = cs.data(rng.int(1, 4), 2)
        close(a.attribute(train, test2), scores(cs, train, test2, hessian, damping), "scores of other test data", **tol(hessian, damping), **info)


@check("recache", 14, 80, 40)
def f(rng):
    cs = Case(rng)
    bs = rng.int(1, 4)
    hessian, damping, offload = rng.pick("Identity", "eFIM"), rng.pick(0.1, 1.0), rng.pick("none", "cpu", "disk")
    one, two = cs.data(rng.int(1, 12), bs), cs.data(rng.int(1, 12), rng.pick(bs, rng.int(1, 4)))
    test = cs.data(3, 2)
    info = cs.info(n=(len(one.X), len(two.X)), hessian=hessian, offload=offload)
    with scratch() as d:
        a = cs.make(hessian, damping, offload, d, rng.pick(1, 2, 16))
        a.cache(one)
        if rng.pick(True, False):
            a.attribute(one, test)
        if rng.pick(True, False):
            a = cs.make(hessian, damping, offload, d, rng.pick(1, 2, 16))     # what is left on disk does not matter
        a.cache(two)
        close(a.attribute(two, test), scores(cs, two, test, hessian, damping), "scores after caching other data", **tol(hessian, damping), **info)
        close(a.compute_self_attribution(), selfs(cs, two, hessian, damping), "self influence after caching other data", **tol(hessian, damping), **info)


@check("train-subset", 2, 4, 20)
def f(rng):
    cs = Case(rng)
    full, test = cs.data(6, 2), cs.data(2, 2)
    part = cs.data(3, 2)
    with scratch() as d:
        a = cs.make("Identity", None, "none", d)
        a.cache(full)
        close(a.attribute(part, test), scores(cs, part, test, "Identity", None), "rows of another training loader than the cached one", **cs.info())


@check("stable-inverse", 20, 200)
def f(rng):
    n = rng.int(1, 5)
    B = rng.randn(n, rng.int(1, 6))
    M = B @ B.T
    damp = rng.pick(0.1, 1.0, 2.0)
    D = (M + damp * M.trace() / n * torch.eye(n)).double()
    if torch.linalg.cond(D) > 1e3 or D.eq(0).all():
        return
    want = torch.linalg.inv(D)
    close(stable_inverse(M, damp), want, "inverse", M=M, damping=damp)
    M2 = B @ B.T + torch.eye(n)
    close(stable_inverse(M2), torch.linalg.inv((M2 + 1e-5 * M2.trace() / n * torch.eye(n)).double()), "default damping", M=M2)


if __name__ == "__main__":
    main()
