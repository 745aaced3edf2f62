"""P18: compressed per-sample gradients of linear layers against autograd."""
from rt.lib import *
import tempfile, shutil, contextlib, logging
import torch._dynamo
from dattri.algorithm.block_projected_if.core.compressor import setup_model_compressors
from dattri.algorithm.block_projected_if.core.hook import HookManager
from dattri.algorithm.logra import LoGraAttributor
from dattri.algorithm.factgrass import FactGraSSAttributor
from dattri.params.projection import FactGrassProjectionParams, GeneralProjectionParams, LoGraProjectionParams
from dattri.task import AttributionTask

torch._dynamo.config.disable = True
logging.disable(logging.CRITICAL)


class Net(nn.Module):
    """linear layers on (batch, features) or (batch, positions, features), one possibly transposing its input, one possibly unused"""

    def __init__(self, rng):
        super().__init__()
        self.seq, self.i, h, self.o = rng.pick(0, rng.int(1, 4)), rng.int(1, 4), rng.int(1, 3), rng.int(1, 3)
        self.flip = bool(self.seq) and rng.int(0, 1) == 1
        self.a = nn.Linear(self.i, h, bias=rng.pick(True, False))
        self.mid = nn.Sequential(nn.Tanh(), nn.Linear(h, h, bias=rng.pick(True, False)))
        self.norm = nn.LayerNorm(h, eps=1.0)
        self.b = nn.Linear(self.seq if self.flip else h, self.o, bias=rng.pick(True, False))
        self.idle = nn.Linear(2, 2)

    def forward(self, x):
        y = self.norm(self.mid(self.a(x)))
        y = self.b(y.transpose(1, 2)) if self.flip else self.b(y)
        return y.mean(1) if self.seq else y


def per_sample(m, names, X, f):
    """row r: gradient of [weight | bias] of every layer for sample r alone (None: the layer is not used)"""
    mods, rows = dict(m.named_modules()), []
    for r in range(len(X)):
        m.zero_grad()
        f(m, X[r:r + 1], r).backward()
        rows.append([None if mods[n].weight.grad is None else (mods[n].weight.grad if mods[n].bias is None else torch.cat(
            [mods[n].weight.grad, mods[n].bias.grad[:, None]], 1)).clone() for n in names])
    return [None if c[0] is None else torch.stack(c) for c in zip(*rows)]


def setup(rng):
    m = Net(rng)
    lin = [n for n, q in m.named_modules() if isinstance(q, nn.Linear) and n != "idle"]
    names = rng.r.sample(lin, rng.int(1, len(lin))) + ([] if rng.int(0, 2) else ["idle"])
    rng.r.shuffle(names)
    shape = (m.seq, m.i) if m.seq else (m.i,)
    return m, names, shape


@check("gradients", 40, 300)
def f(rng):
    m, names, shape = setup(rng)
    kind, kdim = rng.pick(("identity", -1), ("normal", rng.int(1, 4)), ("rademacher", rng.int(1, 4)), ("random_mask", 1))
    pk, pdim = rng.pick(("identity", -1), ("normal", rng.int(1, 5)))
    s1, s2 = rng.int(0, 9), rng.int(0, 9)
    sp = GeneralProjectionParams(proj_dim=kdim, proj_max_batch_size=rng.int(1, 64), proj_type=kind, proj_seed=s1)
    pj = GeneralProjectionParams(proj_dim=pdim, proj_max_batch_size=rng.int(1, 64), proj_type=pk, proj_seed=s2)
    info = dict(model=str(m), names=str(names), sparsifier=kind, projector=pk, dims=(kdim, pdim), seeds=(s1, s2))
    sample = rng.randn(rng.int(1, 5), *shape)
    comps = setup_model_compressors(m, names, sp, pj, sample, "cpu")
    true(all(not q._forward_hooks for q in m.modules()), "no hook is left behind by the setup", **info)
    forwards = {n: q.forward for n, q in m.named_modules()}
    for _ in range(2):
        X = rng.randn(rng.int(1, 6), *shape)
        W = rng.randn(len(X), m.o)
        g = per_sample(m, names, X, lambda mm, x, r: ((mm(x) - W[r]) ** 2).sum())
        m.zero_grad()
        plain = m(X)
        h = HookManager(m, list(names))
        h.set_compressors(comps)
        y = m(X)
        close(y, plain, "forward pass with hooks", **info)
        ((y - W) ** 2).sum(1).mean().backward()
        out = h.get_compressed_grads()
        true(all(q is None for q in h.get_compressed_grads()), "handed out once", **info)
        for n, c, got, gr in zip(names, comps, out, g):
            if gr is None:
                true(got is None and c is None, "an unused layer has neither compressor nor gradient", layer=n, **info)
                continue
            p1, p2 = c.sparsifier.sparsifier_comp
            I1, I2 = torch.eye(gr.shape[1]), torch.eye(gr.shape[2])
            M1, M2 = p1(I1, ensemble_id=0), p2(I2, ensemble_id=0)       # row e: image of the e-th unit vector
            want = c.projector.projector(torch.einsum("bij,ip,jq->bpq", gr, M1, M2).reshape(len(gr), -1), ensemble_id=0)
            close(got, want, "compressed gradient of %s" % n, rtol=2e-3, atol=1e-3, X=X, **info)
            if kind == pk == "identity":
                close(got, gr.reshape(len(gr), -1), "gradient of %s" % n, rtol=2e-3, atol=1e-3, X=X, **info)
        h.remove_hooks()
        true(all(q.forward == forwards[n] for n, q in m.named_modules()), "the layers' own forward is back", **info)
    again = setup_model_compressors(m, names, sp, pj, sample, "cpu")
    for c, d in zip(comps, again):
        if c is not None:
            x = rng.randn(3, c.sparsifier.intermediate_dims[0] * c.sparsifier.intermediate_dims[1])
            close(d.projector.projector(x, ensemble_id=0), c.projector.projector(x, ensemble_id=0), "set up again with the same seeds", **info)


@contextlib.contextmanager
def scratch():
    """the attributor writes batch_metadata.json to the working directory: use a scratch one"""
    d, old = tempfile.mkdtemp(prefix="p18_"), os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@check("attributors", 12, 60)
def f(rng):
    m, names, shape = setup(rng)

    def loss(model, batch, device):
        return ((model(batch[0]) - batch[1]) ** 2).sum(-1).mean()
    task = AttributionTask(loss, m, m.state_dict())
    dim, blow, seed = rng.pick(1, 4, 9), rng.pick(1, 4), rng.int(1, 50)
    X, Z, Y, V = rng.randn(4, *shape), rng.randn(3, *shape), rng.randn(4, m.o), rng.randn(3, m.o)
    train, test = DataLoader(TensorDataset(X, Y), batch_size=2), DataLoader(TensorDataset(Z, V), batch_size=2)
    names = [n for n in names if n != "idle"] or ["a"]
    g = [per_sample(m, names, A, lambda mm, x, r: ((mm(x) - B[r]) ** 2).sum()) for A, B in ((X, Y), (Z, V))]
    for which in ("logra", "factgrass"):
        def make(s):
            if which == "logra":
                return LoGraAttributor(task, layer_names=names, hessian="Identity", offload="none", proj_params=LoGraProjectionParams(
                    proj_dim_per_layer=dim, proj_seed=s, proj_max_batch_size=8))
            return FactGraSSAttributor(task, layer_names=names, hessian="Identity", offload="none", blowup_factor=blow,
                                       proj_params=FactGrassProjectionParams(proj_dim_per_layer=dim, proj_seed=s, proj_max_batch_size=8))
        info = dict(model=str(m), names=str(names), which=which, dim=dim, blowup=blow, seed=seed)
        with scratch():
            a = make(seed)
            true((a.sparsifier_params.proj_seed, a.projector_params.proj_seed) == (seed, seed), "the seed given is used", **info)
            small = which == "factgrass" and any((x.shape[1] < int((dim * blow) ** .5) or x.shape[2] < int((dim * blow) ** .5)) for x in g[0])
            if small:           # a random mask cannot keep more coordinates than there are
                continue
            s = a.attribute(train, test)
            want = 0
            for n, c, x, z in zip(names, a.compressors, *g):
                p1, p2 = c.sparsifier.sparsifier_comp
                M1, M2 = p1(torch.eye(x.shape[1]), ensemble_id=0), p2(torch.eye(x.shape[2]), ensemble_id=0)
                x, z = (c.projector.projector(torch.einsum("bij,ip,jq->bpq", q, M1, M2).reshape(len(q), -1), ensemble_id=0) for q in (x, z))
                true(x.shape[1] == dim, "compressed to the dimension asked for", layer=n, **info)
                want = want + x @ z.T
            close(s, want, "scores", rtol=2e-3, atol=1e-2, **info)
            close(make(seed).attribute(train, test), s, "the same seed again", rtol=1e-4, atol=1e-4, **info)
    raises(ValueError, lambda: LoGraAttributor(task, proj_params=LoGraProjectionParams(proj_dim_per_layer=rng.pick(2, 8, 15, 17, 99))), "no perfect square")
    raises(ValueError, lambda: FactGraSSAttributor(task, blowup_factor=rng.pick(2, 3, 5), proj_params=FactGrassProjectionParams(proj_dim_per_layer=4)), "no perfect square")


if __name__ == "__main__":
    main()
