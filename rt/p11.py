"""P11: attribution tasks against functional calls on the checkpoints themselves."""
import pathlib
import tempfile
from rt.lib import *
from dattri.task import AttributionTask
from torch import nn

torch.set_default_dtype(torch.float64)


def build(rng):
    i, h, o = rng.int(1, 3), rng.int(1, 3), rng.int(1, 3)
    kind = rng.pick("mlp", "norm", "flat")
    if kind == "mlp":
        m = nn.Sequential(nn.Linear(i, h), nn.Tanh(), nn.Linear(h, o, bias=rng.pick(True, False)))
    elif kind == "norm":
        m = nn.Sequential(nn.Linear(i, h, bias=False), nn.LayerNorm(h), nn.Tanh(), nn.Sequential(nn.Linear(h, h), nn.Linear(h, o)))
    else:
        m = nn.Linear(i, o)
    if rng.int(0, 2) == 0 and kind != "flat":
        m[0].weight.requires_grad_(False)
    return m, i, o


class Case:
    def __init__(self, rng, tmp):
        self.rng = rng
        self.m, self.i, self.o = build(rng)
        m = self.m
        self.names = [k for k, p in m.named_parameters() if p.requires_grad]
        n = rng.int(1, 4)
        self.sds = [{k: rng.randn(*v.shape) for k, v in m.state_dict().items()} for _ in range(n)]
        form = rng.pick("dict", "str", "path", "func", "single")
        cks = [{k: v.clone() for k, v in s.items()} for s in self.sds]
        load = None
        if form in ("str", "path"):
            cks = []
            for q, s in enumerate(self.sds):
                f = pathlib.Path(tmp) / ("%d.pt" % q)
                torch.save(s, f)
                cks.append(str(f) if form == "str" else f)
        elif form == "func":
            def load(model, q):
                model = __import__("copy").deepcopy(model) if rng.int(0, 1) else model
                model.load_state_dict(self.sds[q])
                return model.eval()
            cks = list(range(n))
        elif form == "single":
            self.sds = self.sds[:1]
            cks = cks[0]
        self.form = form

        def loss(params, data):
            x, y = data
            return ((torch.func.functional_call(m, params, (x,)) - y) ** 2).sum()

        def target(params, data):
            x, y = data
            return (torch.func.functional_call(m, params, (x,)) * y).sum().tanh()
        self.fns = {"loss": loss, "target": target}
        self.kinds = rng.pick(("loss",), ("loss", "target"))
        self.task = AttributionTask(loss, m, cks, checkpoints_load_func=load,
                                    **({"target_func": target} if len(self.kinds) == 2 else {}))

    def fn(self, kind):
        return self.fns[kind if len(self.kinds) == 2 else "loss"]

    def layers(self):
        r = self.rng
        how = r.pick("all", "name", "list")
        if how == "all":
            return None
        if how == "name":
            return r.pick(*self.names)
        p = torch.randperm(len(self.names), generator=r.g).tolist()
        return [self.names[q] for q in p[: r.int(1, len(p))]]

    def sel(self, ly):
        return self.names if ly is None else [ly] if isinstance(ly, str) else list(ly)

    def vec(self, c, ly):
        return torch.cat([self.sds[c][k].reshape(-1) for k in self.sel(ly)])

    def ref(self, kind, c, ly):
        """function of (vector, data)"""
        shapes = {k: self.sds[0][k].shape for k in self.names}

        def g(v, data):
            d = {k: self.sds[c][k] for k in self.names} if ly is not None else {}
            o = 0
            for k in self.sel(ly):
                d[k] = v[o:o + shapes[k].numel()].reshape(shapes[k])
                o += shapes[k].numel()
            return self.fn(kind)({k: d[k] for k in self.names}, data)
        return g


@check("histories of calls", 60, 500)
def f(rng):
    with tempfile.TemporaryDirectory() as tmp:
        cs = Case(rng, tmp)
        t = cs.task
        hist, fs, vs = [], [], []

        def inp():
            return dict(checkpoints=cs.form, model=str(cs.m), calls=[list(map(str, h)) for h in hist])
        for _ in range(rng.int(2, 7)):
            op, c, ly = rng.pick("param", "split", "f", "g"), rng.int(0, len(cs.sds) - 1), cs.layers()
            kind = rng.pick("loss", "target")
            hist.append((op, c, ly, kind))
            if op == "param":
                p, _ = t.get_param(c, layer_name=ly)
                vs.append((p, cs.vec(c, ly)))
                live = dict(t.get_model().named_parameters())
                for k in cs.names:
                    close(live[k], cs.sds[c][k], "the model holds the checkpoint: " + k, **inp())
            elif op == "split":
                ps, mp = t.get_param(c, layer_name=ly, layer_split=True)
                true(len(ps) == len(cs.sel(ly)) == len(mp), "one vector per parameter", **inp())
                vs += [(p, cs.sds[c][k].reshape(-1)) for p, k in zip(ps, cs.sel(ly))]
                pre = [k.rpartition(".")[0] for k in cs.sel(ly)]
                true(mp[0] == 0 and all(mp[q] - mp[q - 1] == (pre[q] != pre[q - 1]) for q in range(1, len(pre))),
                     "one index per layer", map=mp, **inp())
            elif op == "f":
                get = t.get_loss_func if kind == "loss" else t.get_target_func
                fs.append((get(layer_name=ly, ckpt_idx=c), cs.ref(kind, c, ly), cs.vec(c, ly), None))
            else:
                get = t.get_grad_loss_func if kind == "loss" else t.get_grad_target_func
                ax = rng.pick(0, 1)
                fs.append((get(in_dims=(None, (ax, ax)), layer_name=ly, ckpt_idx=c), cs.ref(kind, c, ly), cs.vec(c, ly), ax))
            for got, want in vs:
                close(got, want, "parameters of their checkpoint", **inp())
            for g, ref, v0, ax in fs:
                v = v0 + 0.1 * rng.randn(*v0.shape)
                if ax is None:
                    data = (rng.randn(2, cs.i), rng.randn(2, cs.o))
                    close(g(v, data), ref(v, data), "function", rtol=1e-3, atol=1e-4, **inp())
                else:
                    X, Y = rng.randn(3, cs.i), rng.randn(3, cs.o)
                    want = torch.stack([torch.func.grad(ref)(v, (x, y)) for x, y in zip(X, Y)])
                    a, b = (X, Y) if ax == 0 else (X.T, Y.T)
                    close(g(v, (a, b)), want, "per-sample gradients", rtol=1e-3, atol=1e-4, **inp())


@check("same request for several checkpoints", 50, 150)
def f(rng):
    with tempfile.TemporaryDirectory() as tmp:
        cs = Case(rng, tmp)
        t, ly, kind, ax = cs.task, cs.layers(), rng.pick("loss", "target"), rng.pick(0, 1)
        for c in [rng.int(0, len(cs.sds) - 1) for _ in range(4)] + list(range(len(cs.sds))):
            v = t.get_param(c, layer_name=ly)[0]
            get = t.get_grad_loss_func if kind == "loss" else t.get_grad_target_func
            g, ref = get(in_dims=(None, (ax, ax)), layer_name=ly, ckpt_idx=c), cs.ref(kind, c, ly)
            X, Y = rng.randn(3, cs.i), rng.randn(3, cs.o)
            want = torch.stack([torch.func.grad(ref)(v.detach(), (x, y)) for x, y in zip(X, Y)])
            a, b = (X, Y) if ax == 0 else (X.T, Y.T)
            close(g(v, (a, b)), want, "per-sample gradients", rtol=1e-3, atol=1e-4, model=str(cs.m), layers=str(ly), kind=kind, ckpt=c)


@check("unflattened and refused", 10, 40)
def f(rng):
    with tempfile.TemporaryDirectory() as tmp:
        cs = Case(rng, tmp)
        t = cs.task
        true(t.get_loss_func(flatten=False) is cs.fns["loss"], "the given loss")
        true(t.get_target_func(flatten=False) is cs.fn("target"), "the given target")
        for get in (t.get_loss_func, t.get_target_func):
            raises(NotImplementedError, lambda: get(flatten=False, layer_name=cs.names[:1], ckpt_idx=0), "layers need the flattened form")
        raises(ValueError, lambda: t.get_param(0, layer_split=True, param_layer_map=[0] * (len(cs.names) + 1)), "map of another length")
        mp = [0] * len(cs.names)
        true(t.get_param(0, layer_split=True, param_layer_map=mp)[1] == mp, "the given map")


if __name__ == "__main__":
    main()
