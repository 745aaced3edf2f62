"""P15: label flipping, subset sampling, dropout activation, final-layer features."""
from rt.lib import *
import numpy as np
from dattri.benchmark.utils import flip_label, SubsetSampler
from dattri.model_util.dropout import activate_dropout
from dattri.model_util.hook import get_final_layer_io


def flipped(y, sp, full, p, known=(), **inp):
    n = len(y)
    before = copy_of(y)
    inp = dict(inp, label=y, p=p)
    try:
        out, ix = flip_label(y, sp, p)
    except (AttributeError, RuntimeError, ValueError) as e:
        if any(type(e) is t and m in str(e) for t, m in known):
            return
        raise
    ix = [int(i) for i in ix]
    true(len(ix) == int(p * n) and len(set(ix)) == len(ix) and all(0 <= i < n for i in ix), "floor(p n) distinct positions", indices=ix, **inp)
    true(type(out) is type(y) and out.dtype == y.dtype and len(out) == n, "same kind of labels", **inp)
    o, b = [int(v) for v in out], [int(v) for v in before]
    true(all(o[i] in full and (o[i] != b[i] or "kept" in known) for i in ix), "flipped labels are other labels of the space", out=o, indices=ix, **inp)
    true(all(o[i] == b[i] for i in range(n) if i not in ix), "the others are unchanged", out=o, indices=ix, **inp)
    true([int(v) for v in y] == b, "the input is not modified", **inp)


NUMPY = (AttributeError, "'numpy.ndarray' object has no attribute 'long'")
DTYPE = (RuntimeError, "Index put requires the source and destination dtypes match")
EMPTY = (ValueError, "cannot call `vectorize` on size 0 inputs")


@check("flip_label", 60, 400)
def f(rng):
    n, k = rng.int(1, 30), rng.int(2, 5)
    lab = rng.ints(0, k, n)
    lab[0], p = 0, rng.pick(0.0, 0.01, 0.1, 0.3, 0.5, 1.0)
    if n > 1:
        lab[1] = 1
    if rng.int(0, 1):   # labels other than 0..k-1
        names = torch.tensor(sorted(rng.r.sample(range(-3, 60), k)))
        lab = names[lab]
    else:
        names = torch.arange(k)
    form = rng.pick("numpy", "long", "long", "int32")
    y = {"numpy": lambda: lab.numpy(), "long": lambda: lab, "int32": lambda: lab.int()}[form]()
    space = rng.pick(None, "list", "array", "tensor") if n > 1 else rng.pick("list", "array", "tensor")
    full = names.tolist() if space else sorted(set(lab.tolist()))
    sp = {None: None, "list": full, "array": np.array(full), "tensor": torch.tensor(full)}[space]
    # exactly the failures that known_findings.json lists
    known = ([EMPTY] if int(p * n) == 0 else []) + {"numpy": [NUMPY], "int32": [DTYPE], "long": []}[form]
    flipped(y, sp, full, p, known + (["kept"] if space == "tensor" else []), form=form, label_space=str(space))


@check("flip-numpy", 1, 1)
def f(rng):
    flipped(np.array([0, 1, 0, 1]), None, [0, 1], 0.5)


@check("flip-dtype", 1, 1)
def f(rng):
    flipped(torch.tensor([0, 1, 0, 1], dtype=torch.int32), None, [0, 1], 0.5)


@check("flip-tensor-space", 1, 1)
def f(rng):
    flipped(torch.tensor([0, 1] * 10), torch.tensor([0, 1]), [0, 1], 1.0)


@check("flip-empty", 1, 1)
def f(rng):
    flipped(torch.tensor([0, 1]), None, [0, 1], 0.1)


def copy_of(x):
    return x.clone() if isinstance(x, torch.Tensor) else x.copy()


@check("SubsetSampler", 10, 50)
def f(rng):
    ix = rng.ints(0, 50, rng.int(0, 20)).tolist()
    s = SubsetSampler(ix)
    true(list(s) == ix and list(s) == ix and len(s) == len(ix), "the given indices in order", indices=ix)


class Block(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.lin = torch.nn.Linear(2, 2)
        self.drop1 = torch.nn.Dropout2d(0.3)


class Net(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.drop1 = torch.nn.Dropout(0.5)
        self.drop10 = torch.nn.Dropout(0.6)
        self.block = Block()
        self.blocks = torch.nn.ModuleList([Block(), torch.nn.Dropout(0.7)])
        self.bn = torch.nn.BatchNorm1d(2)


@check("activate_dropout", 30, 200)
def f(rng):
    net = Net()
    if rng.int(0, 1):
        net.train()
    names = [n for n, _ in net.named_modules() if n]
    ask = rng.pick(None, [], "some")
    if ask == "some":
        ask = [rng.pick(*names) for _ in range(rng.int(1, 2))]
    p0 = {n: getattr(x, "p", None) for n, x in net.named_modules()}
    drop = lambda x: isinstance(x, (torch.nn.Dropout, torch.nn.Dropout2d))
    hit = lambda n: any("." + a + "." in "." + n + "." for a in ask)
    bad = bool(ask) and any(hit(n) and not drop(x) for n, x in net.named_modules())
    prob = rng.pick(0.05, 0.25)
    if bad:
        raises(ValueError, lambda: activate_dropout(net, ask, prob), "a name that is no dropout layer", names=ask)
        return
    out = activate_dropout(net, ask, prob)
    true(out is net, "the model itself")
    for n, x in net.named_modules():
        on = drop(x) and (not ask or hit(n))
        true(x.training == on, "mode of %s" % n, names=ask)
        if drop(x):
            true(x.p == (prob if on else p0[n]), "probability of %s" % n, names=ask)


@check("get_final_layer_io", 10, 60)
def f(rng):
    F, H, C, N = rng.int(1, 4), rng.int(1, 4), rng.int(1, 4), rng.int(1, 9)
    body, final = torch.nn.Linear(F, H), torch.nn.Linear(H, C)

    class M(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.body, self.final = body, final

        def forward(self, x):
            return self.final(torch.relu(self.body(x))) * 2 + 1
    m = M()
    x, y = rng.randn(N, F).float(), rng.ints(0, 2, N)
    ds = torch.utils.data.TensorDataset(x, y)
    if rng.int(0, 1):   # batches of different sizes
        cuts = sorted(rng.r.sample(range(1, N), rng.int(0, N - 1))) + [N]
        groups = [list(range(a, b)) for a, b in zip([0] + cuts, cuts)]
        dl = torch.utils.data.DataLoader(ds, batch_sampler=groups)
    else:
        dl = torch.utils.data.DataLoader(ds, batch_size=rng.int(1, 4))
    feat, out = get_final_layer_io(m, "final", dl)
    h = torch.relu(body(x)).detach()
    close(feat, h, "inputs of the layer", x=x)
    close(out, final(h).detach(), "outputs of the layer", x=x)
    true(not final._forward_hooks and not feat.requires_grad and not out.requires_grad, "nothing is left behind")


if __name__ == "__main__":
    main()
