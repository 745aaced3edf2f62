"""P12: influence-function transforms against explicitly built Hessians and formulas."""
from rt.lib import *
from dattri.algorithm import influence_function as I
from dattri.func.projection import arnoldi_project
from dattri.task import AttributionTask


class Case:
    """two-layer model, per-batch loss; data in tuple, list or dict batches"""

    def __init__(self, rng, same=False):
        self.rng = rng
        i, h, o = rng.int(1, 2), rng.int(1, 2), rng.int(1, 2)
        self.m = m = nn.Sequential(nn.Linear(i, h, bias=rng.pick(True, False)), nn.Tanh(), nn.Linear(h, o))
        self.names = [k for k, _ in m.named_parameters()]
        self.sds = [{k: rng.randn(*v.shape).to(v) for k, v in m.state_dict().items()} for _ in range(rng.int(1, 2))]
        self.N, self.bs = rng.int(1, 6), rng.int(1, 4)
        self.X, self.Y = rng.randn(self.N, i), rng.randn(self.N, o)
        if same:
            self.X, self.Y = self.X[:1].repeat(self.N, 1), self.Y[:1].repeat(self.N, 1)
        self.form = rng.pick("list", "tuple", "dict")
        self.layers = rng.pick(None, None, self.names[-1], self.names[:2], ["2.bias", "0.weight"])

        def loss(params, data):
            x, y = (data["x"], data["y"]) if isinstance(data, dict) else data
            p = torch.func.functional_call(m, params, (x,))
            return ((p - y) ** 2).mean() + 0.1 * (p ** 4).mean() + 0.3 * sum((v ** 2).sum() for v in params.values())
        self.loss = loss
        self.task = AttributionTask(loss, m, [{k: v.clone() for k, v in s.items()} for s in self.sds])
        pack = {"list": None, "tuple": lambda b: tuple(torch.stack(c) for c in zip(*b)),
                "dict": lambda b: dict(zip("xy", (torch.stack(c) for c in zip(*b))))}[self.form]
        self.loader = DataLoader(TensorDataset(self.X, self.Y), batch_size=self.bs, collate_fn=pack)
        self.sel = self.names if self.layers is None else [self.layers] if isinstance(self.layers, str) else self.layers

    def info(self, **k):
        return dict(model=str(self.m), N=self.N, bs=self.bs, form=self.form, layers=str(self.layers),
                    X=self.X, Y=self.Y, checkpoints=len(self.sds), **k)

    def theta(self, c):
        return torch.cat([self.sds[c][k].reshape(-1) for k in self.sel])

    def fn(self, c, data):
        def g(v):
            d, o = dict(self.sds[c]), 0
            for k in self.sel:
                d[k] = v[o:o + d[k].numel()].reshape(d[k].shape)
                o += d[k].numel()
            return self.loss(d, data)
        return g

    def batches(self):
        return [(self.X[o:o + self.bs], self.Y[o:o + self.bs]) for o in range(0, self.N, self.bs)]

    def hess(self, c, data):
        return torch.autograd.functional.hessian(self.fn(c, data), self.theta(c))


def denominators(a, c, T, cs):
    r = cs.rng.int(1, 3)
    g, t = cs.rng.randn(r, len(cs.theta(c))), cs.rng.randn(r, len(cs.theta(c)))
    Tg = T(g)
    ip = (t * Tg).sum(1)
    ok = ip.abs() > 1e-3
    close(a._compute_denom(c, g, t, relatif_method="l")[ok], ip.clamp_min(1e-12).sqrt()[ok], "denominator l", **cs.info())
    close(a._compute_denom(c, g, relatif_method="theta"), Tg.norm(dim=1), "denominator theta", **cs.info())
    raises(ValueError, lambda: a._compute_denom(c, g, relatif_method="x"), "unknown method", **cs.info())


class Bad(Dataset):
    def __len__(self):
        return 2

    def __getitem__(self, i):
        return torch.ones(3)


@check("explicit and cg", 20, 200)
def f(rng):
    torch.set_default_dtype(torch.float64)
    cs = Case(rng)
    for cls in (I.IFAttributorExplicit, I.IFAttributorCG):
        lam = rng.pick(0.5, 2.0)
        kw = {} if cls is I.IFAttributorExplicit else dict(max_iter=40, tol=1e-12, mode=rng.pick("rev-rev", "rev-fwd"))
        Hs = [[cs.hess(c, b) for b in cs.batches()] for c in range(len(cs.sds))]
        # conjugate gradients need positive definite curvature
        lam += max(0.0, -min(float(torch.linalg.eigvalsh((H + H.T) / 2)[0]) for Q in Hs for H in Q))
        a = cls(cs.task, layer_name=cs.layers, regularization=lam, **kw)
        a.cache(cs.loader)
        for c in list(range(len(cs.sds))) + [0]:
            def T(v, c=c):
                return sum(torch.linalg.solve(H + lam * torch.eye(len(H)), v.T).T for H in Hs[c])
            v = rng.randn(rng.int(1, 3), len(cs.theta(c)))
            close(a.transform_test_rep(c, v), T(v), cls.__name__, ckpt=c, v=v, lam=lam, **cs.info())
            close(a.transform_train_rep(c, v), v, "training side", **cs.info())
            denominators(a, c, T, cs)
        a.cache(DataLoader(Bad()))
        raises(TypeError, lambda: a.transform_test_rep(0, v), "unsupported batch")


@check("lissa", 12, 100)
def f(rng):
    torch.set_default_dtype(torch.float32)
    cs = Case(rng, same=True)
    depth, damp, sc, rep = rng.int(1, 6), rng.pick(0.0, 0.1), rng.pick(20.0, 50.0), rng.int(1, 2)
    a = I.IFAttributorLiSSA(cs.task, layer_name=cs.layers, batch_size=rng.int(1, 2), num_repeat=rep, recursion_depth=depth,
                            damping=damp, scaling=sc, mode=rng.pick("rev-rev", "rev-fwd"))
    a.cache(cs.loader)
    for c in list(range(len(cs.sds))) + [0]:
        H = cs.hess(c, (cs.X[:1], cs.Y[:1]))

        def T(v):
            s = v
            for _ in range(depth):
                s = v + (1 - damp) * s - s @ H / sc
            return len(cs.batches()) * s / sc
        v = rng.randn(rng.int(1, 3), len(cs.theta(c)))
        close(a.transform_test_rep(c, v), T(v), "LiSSA", ckpt=c, v=v, depth=depth, damping=damp, scaling=sc, **cs.info())
        denominators(a, c, T, cs)
    torch.set_default_dtype(torch.float64)


@check("datainf", 20, 200)
def f(rng):
    torch.set_default_dtype(torch.float64)
    cs = Case(rng)
    lam, ratio = rng.pick(0.1, 1.0), rng.pick(1.0, 1.0, 0.5, 0.3)
    a = I.IFAttributorDataInf(cs.task, layer_name=cs.layers, regularization=lam, fim_estimate_data_ratio=ratio)
    a.cache(cs.loader)
    n = cs.bs * math.ceil(len(cs.batches()) * ratio)
    one = [(x[None], y[None]) for x, y in zip(cs.X[:n], cs.Y[:n])]
    groups = []
    for k in cs.sel:
        if groups and groups[-1][0].rpartition(".")[0] == k.rpartition(".")[0]:
            groups[-1].append(k)
        else:
            groups.append([k])
    for c in list(range(len(cs.sds))) + [0]:
        G = torch.stack([torch.func.grad(cs.fn(c, b))(cs.theta(c)) for b in one])
        v = rng.randn(rng.int(1, 4), len(cs.theta(c)))
        out, o = [], 0
        for q in groups:
            n = sum(cs.sds[c][k].numel() for k in q)
            vl, g = v[:, o:o + n], G[:, o:o + n]
            out.append(torch.stack([(vl - (vl @ x / (lam + x @ x))[:, None] * x) / lam for x in g]).mean(0))
            o += n
        close(a.transform_test_rep(c, v), torch.cat(out, 1), "DataInf", ckpt=c, v=v, lam=lam, ratio=ratio, **cs.info())
    raises(TypeError, lambda: a.cache(DataLoader(Bad())), "unsupported batch")


@check("arnoldi", 10, 80)
def f(rng):
    torch.set_default_dtype(torch.float64)
    cs = Case(rng)
    ratio, lam = rng.pick(1.0, 1.0, 0.5, 0.3), rng.pick(0.1, 1.0)
    kw = dict(proj_dim=rng.int(1, 3), max_iter=rng.int(2, 6), norm_constant=rng.pick(1.0, 2.0), tol=1e-7, regularization=lam, seed=rng.int(0, 5))
    a = I.IFAttributorArnoldi(cs.task, layer_name=cs.layers, precompute_data_ratio=ratio, **kw)
    raises(ValueError, lambda: a.transform_test_rep(0, torch.ones(1, 2)), "before cache")
    raises(ValueError, lambda: a.transform_train_rep(0, torch.ones(1, 2)), "before cache")
    a.cache(cs.loader)
    n = cs.bs * math.ceil(len(cs.batches()) * ratio)
    for c in range(len(cs.sds)):
        th = cs.theta(c)
        P = arnoldi_project(len(th), cs.fn(c, (cs.X[:n], cs.Y[:n])), th, device="cpu", **kw)
        v = rng.randn(rng.int(1, 3), len(th))
        want = P(v)
        close(a.transform_test_rep(c, v), want, "Arnoldi test side", ckpt=c, v=v, ratio=ratio, **cs.info())
        close(a.transform_train_rep(c, v), want, "Arnoldi training side", ckpt=c, v=v, ratio=ratio, **cs.info())
    raises(TypeError, lambda: a.cache(DataLoader(Bad())), "unsupported batch")


if __name__ == "__main__":
    main()
