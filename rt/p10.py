"""P10: parameter vectors against direct concatenation and slicing."""
from rt.lib import *
from dattri.func import utils as U


class Net(torch.nn.Module):
    def __init__(self, rng):
        super().__init__()
        self.ns = []
        for q in range(rng.int(1, 5)):
            shape = tuple(rng.int(1, 3) for _ in range(rng.int(0, 4)))
            p = torch.nn.Parameter(rng.randn(*shape) if shape else rng.randn(1)[0], requires_grad=q == 0 or rng.int(0, 3) > 0)
            self.register_parameter("p%d" % q, p)


def parts(m):
    return {k: p.detach().clone() for k, p in m.named_parameters() if p.requires_grad}


def cat(d):
    return torch.cat([v.reshape(-1) for v in d.values()])


@check("flatten and unflatten", 40, 300)
def f(rng):
    m = Net(rng)
    d = parts(m)
    inp = dict(shapes={k: list(v.shape) for k, v in d.items()})
    close(U.flatten_params(d), cat(d), "flatten_params", **inp)
    v = rng.randn(len(cat(d)))
    o = 0
    got = U._unflatten_params(v, m)
    lay = U._unflatten_params_layerwise(tuple(x * 2 for x in v.split([x.numel() for x in d.values()])), m)
    true(list(got) == list(d) and list(lay) == list(d), "names and order", **inp)
    for k, x in d.items():
        want = v[o:o + x.numel()].reshape(x.shape)
        o += x.numel()
        close(got[k], want, "_unflatten_params: " + k, v=v, **inp)
        close(lay[k], 2 * want, "_unflatten_params_layerwise: " + k, v=v, **inp)
    close(U.flatten_params(got), v, "flatten after unflatten", **inp)


@check("flatten_func", 30, 200)
def f(rng):
    m = Net(rng)
    d = parts(m)
    num = rng.int(0, 2)
    W = {k: rng.randn(*v.shape) if v.dim() else rng.randn(1)[0] for k, v in d.items()}

    def g(*a, s=1.0):
        return s * sum(((W[k] * x) ** 2).sum() for k, x in a[num].items()) + sum(x for q, x in enumerate(a) if q != num)
    v, s = rng.randn(len(cat(d))), rng.pick(1.0, 2.5)
    args = [rng.randn(1)[0] for _ in range(2)]
    want = s * ((cat(W) * v) ** 2).sum() + args[0] + args[1]
    inp = dict(shapes={k: list(x.shape) for k, x in d.items()}, v=v, position=num)
    h = U.flatten_func(m, num)(g)
    a = list(args)
    a.insert(num, v)
    close(h(*a, s=s), want, "the function of the vector", **inp)
    a[num] = tuple(v.split([x.numel() for x in d.values()]))
    close(h(*a, s=s), want, "the function of a tuple of vectors", **inp)
    a[num] = v
    close(torch.func.grad(h, argnums=num)(*a, s=s), 2 * s * cat(W) ** 2 * v, "gradient", **inp)


@check("partial_param", 40, 300)
def f(rng):
    m = Net(rng)
    d = parts(m)
    names = list(d)
    names = [names[q] for q in torch.randperm(len(names), generator=rng.g)[: rng.int(1, len(names))].tolist()]
    num = rng.pick(0, 1)
    W = rng.randn(len(cat(d)))

    def g(*a):
        return (W * a[num] ** 2).sum() + a[1 - num].sum()
    full = {k: x.clone() for k, x in d.items()}
    h = U.partial_param(full, names, num)(g)
    n = sum(d[k].numel() for k in names)
    inp = dict(shapes={k: list(x.shape) for k, x in d.items()}, layers=names, position=num)

    def want(v, x):
        e, o = dict(d), 0
        for k in names:
            e[k] = v[o:o + d[k].numel()]
            o += d[k].numel()
        return (W * cat(e) ** 2).sum() + x.sum()
    for _ in range(2):
        v, x = rng.randn(n), rng.randn(2)
        close(h(*((v, x) if num == 0 else (x, v))), want(v, x), "the listed parameters from the vector", v=v, **inp)
        true(all(full[k] is not None and full[k].shape == d[k].shape and torch.equal(full[k], d[k]) for k in d),
             "the given parameters are left alone", **inp)
    v, X = rng.randn(n), rng.randn(3, 2)
    got = torch.func.vmap(h, in_dims=(None, 0) if num == 0 else (0, None))(*((v, X) if num == 0 else (X, v)))
    close(got, torch.stack([want(v, x) for x in X]), "vmapped over the data", v=v, **inp)
    for _ in range(2):
        v, x = rng.randn(n), rng.randn(2)
        close(torch.func.grad(h, argnums=num)(*((v, x) if num == 0 else (x, v))),
              torch.func.grad(want)(v, x), "gradient after other calls", v=v, **inp)


@check("_vectorize", 30, 200)
def f(rng):
    B = rng.int(1, 4)
    d = {"k%d" % q: rng.randn(B, *[rng.int(1, 3) for _ in range(rng.int(0, 3))]) for q in range(rng.int(1, 4))}
    want = torch.cat([x.reshape(B, -1) for x in d.values()], 1)
    inp = dict(shapes={k: list(x.shape) for k, x in d.items()})
    close(U._vectorize(d, device="cpu"), want, "one row per sample", **inp)
    arr = rng.randn(*want.shape)
    true(U._vectorize(d, arr=arr, device="cpu") is arr, "the given array is returned", **inp)
    close(arr, want, "the given array is filled", **inp)
    d["more"] = rng.randn(B + 1, 2)
    raises(ValueError, lambda: U._vectorize(d, device="cpu"), "different batch sizes", **inp)


if __name__ == "__main__":
    main()
