"""Run-time evaluation of the contracts on the real code (bounded; used for replay).

Every check is a function of a seeded random generator; it draws an input, runs the real code
from /repo and compares with an independent oracle.  A failing draw is printed with its seed."""
import os
os.environ["TQDM_DISABLE"] = "1"
import sys, json, time, random, argparse, traceback, warnings, math
warnings.filterwarnings("ignore")
import torch
import numpy as np
from torch import nn
from torch.utils.data import DataLoader, TensorDataset, Dataset

torch.set_num_threads(1)
CHECKS = []


class Fail(AssertionError):
    pass


def check(key, n=20, deep=200, budget=40):
    def deco(f):
        CHECKS.append((key, f, n, deep, budget))
        return f
    return deco


def fail(msg, **inp):
    raise Fail(json.dumps({"msg": msg, "input": {k: tojson(v) for k, v in inp.items()}}))


def tojson(v):
    if isinstance(v, torch.Tensor):
        return {"shape": list(v.shape), "data": v.detach().flatten()[:40].tolist()}
    if isinstance(v, np.ndarray):
        return {"shape": list(v.shape), "data": v.flatten()[:40].tolist()}
    if isinstance(v, (list, tuple)):
        return [tojson(x) for x in v][:40]
    if isinstance(v, dict):
        return {str(k): tojson(x) for k, x in list(v.items())[:40]}
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return str(v)[:200]


def close(a, b, what, rtol=2e-3, atol=2e-4, **inp):
    a, b = torch.as_tensor(a), torch.as_tensor(b)
    if tuple(a.shape) != tuple(b.shape):
        fail("%s: shape %s instead of %s" % (what, tuple(a.shape), tuple(b.shape)), **inp)
    a, b = a.double(), b.double()
    if a.numel() == 0:
        return
    scale = max(1.0, float(b.abs().nan_to_num(0, 0, 0).max()))
    ok = torch.isclose(a, b, rtol=rtol, atol=atol * scale, equal_nan=True)
    if not bool(ok.all()):
        i = (~ok).nonzero()[0].tolist()
        fail("%s: element %s is %r instead of %r" % (what, i, float(a[tuple(i)]), float(b[tuple(i)])),
             got=a, want=b, **inp)


def true(c, what, **inp):
    if not c:
        fail(what, **inp)


def raises(exc, f, what, **inp):
    try:
        f()
    except exc:
        return
    except Exception as e:      # noqa: BLE001
        fail("%s: raised %s instead of %s" % (what, type(e).__name__, exc), **inp)
    fail("%s: no exception" % what, **inp)


class Rng:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.g = torch.Generator().manual_seed(seed % (2 ** 31))
        self.seed = seed

    def int(self, a, b):
        return self.r.randint(a, b)

    def pick(self, *xs):
        return self.r.choice(xs)

    def randn(self, *s):
        return torch.randn(*s, generator=self.g)

    def rand(self, *s):
        return torch.rand(*s, generator=self.g)

    def ints(self, lo, hi, *s):
        return torch.randint(lo, hi, s, generator=self.g)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only", default=None)
    ap.add_argument("--case", type=int, default=None)
    a = ap.parse_args()
    import dattri
    root = os.environ.get("VERIF_REPO", "/repo")
    assert os.path.abspath(dattri.__file__).startswith(os.path.abspath(root) + os.sep), dattri.__file__
    total, counts = 0, {}
    mult = {"quick": 1, "thorough": 4, "deep": 6}[a.tier]
    for key, f, n, deep, budget in CHECKS:
        if a.only and a.only != key:
            continue
        m = n if a.tier == "quick" else max(deep, n)
        t0 = time.time()
        done = 0
        for i in range(m):
            if time.time() - t0 > budget * mult and i > 0:
                break
            s = a.seed * 1000003 + i * 7919 + (hash_(key) % 1000)
            if a.case is not None:
                s = a.case
            random.seed(s)
            np.random.seed(s % (2 ** 31))
            torch.manual_seed(s)
            try:
                f(Rng(s))
                done += 1
            except Fail as e:
                d = json.loads(str(e))
                print("RTV " + json.dumps({"key": key, "case_seed": s, "detail": d["msg"],
                                           "input": d["input"], "replay": "%s --only %s --case %d" % (
                                               sys.argv[0], key, s)}), flush=True)
                break
            except Exception as e:      # noqa: BLE001
                tb = traceback.extract_tb(e.__traceback__)
                inrepo = [x for x in tb if os.path.abspath(x.filename).startswith(
                    os.path.abspath(root) + os.sep)]
                print("RTV " + json.dumps({
                    "key": key, "case_seed": s,
                    "detail": "%s: %s (at %s)" % (type(e).__name__, str(e)[:300], "%s:%d" % (
                        (inrepo or tb)[-1].filename, (inrepo or tb)[-1].lineno)),
                    "input": {}, "replay": "%s --only %s --case %d" % (sys.argv[0], key, s)}), flush=True)
                break
            if a.case is not None:
                break
        total += done
        counts[key] = done
    print("RTS " + json.dumps({"cases": total, "checks": counts}), flush=True)


def hash_(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) % 1000003
    return h


# ------------------------------------------------------------------ small models and tasks
class Lin(nn.Module):
    def __init__(self, d, k, bias=True):
        super().__init__()
        self.linear = nn.Linear(d, k, bias=bias)

    def forward(self, x):
        return self.linear(x)


class MLP(nn.Module):
    def __init__(self, d, h, k):
        super().__init__()
        self.fc1 = nn.Linear(d, h)
        self.fc2 = nn.Linear(h, k)

    def forward(self, x):
        return self.fc2(torch.tanh(self.fc1(x)))


def loss_of(model):
    def f(params, data):
        x, y = data
        if y.dim() == 0:                # a single sample without the batch axis (vmapped over)
            x, y = x.unsqueeze(0), y.unsqueeze(0)
        out = torch.func.functional_call(model, params, (x,))
        return nn.functional.cross_entropy(out, y.long())
    return f


def target_of(model):
    def f(params, data):
        x, y = data
        if y.dim() == 0:                # a single sample without the batch axis (vmapped over)
            x, y = x.unsqueeze(0), y.unsqueeze(0)
        out = torch.func.functional_call(model, params, (x,))
        return out[:, 0].sum() * 0.7 + (out * out).sum() * 0.3 + nn.functional.cross_entropy(out, y.long())
    return f


def setup(rng, C=None, same_target=None, mlp=None, d=None, k=None):
    """A real task with random checkpoints; returns (task, model, ckpts, loss, target, dims)."""
    from dattri.task import AttributionTask
    d = d or rng.int(2, 3)
    k = k or rng.int(2, 3)
    C = C or rng.int(1, 3)
    mlp = rng.pick(True, False) if mlp is None else mlp
    mk = (lambda: MLP(d, 3, k)) if mlp else (lambda: Lin(d, k))
    model = mk()
    cks = []
    for _ in range(C):
        m = mk()
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(rng.randn(*p.shape) * 0.5)
        cks.append(m.state_dict())
    loss = loss_of(model)
    target = None if (rng.pick(True, False) if same_target is None else same_target) else target_of(model)

    def fresh(model, ckpt):                          # a loading function that returns a new model
        m = mk()
        m.load_state_dict(ckpt)
        return m
    extra = {"checkpoints_load_func": fresh} if rng.pick(True, False) else {}
    task = AttributionTask(loss_func=loss, model=model, checkpoints=cks if C > 1 or rng.pick(0, 1) else cks[0], **extra,
                           **({"target_func": target} if target else {}))
    return task, model, cks, loss, target or loss, (d, k, C)


def data(rng, n, d, k, bs=None):
    x, y = rng.randn(n, d), rng.ints(0, k, n)
    bs = bs or rng.int(1, n + 1)
    return x, y, DataLoader(TensorDataset(x, y), batch_size=bs, shuffle=False), bs


def flat_grad(f, sd, x, y, keys=None):
    """Oracle: gradient of f at parameters sd for the one-sample batch (x, y), flattened."""
    ps = {n: v.clone().detach().requires_grad_(keys is None or n in keys) for n, v in sd.items()}
    l = f(ps, (x.unsqueeze(0), y.unsqueeze(0)))
    names = [n for n in ps if ps[n].requires_grad]
    gs = torch.autograd.grad(l, [ps[n] for n in names], allow_unused=True)
    return torch.cat([(g if g is not None else torch.zeros_like(ps[n])).flatten()
                      for n, g in zip(names, gs)])


def grads(f, sd, X, Y, keys=None):
    return torch.stack([flat_grad(f, sd, x, y, keys) for x, y in zip(X, Y)])


class DictData(Dataset):
    def __init__(self, X, Y):
        self.X, self.Y = X, Y

    def __len__(self):
        return len(self.X)

    def __getitem__(self, i):
        return {"x": self.X[i], "y": self.Y[i]}


def dict_loader(X, Y, bs):
    return DataLoader(DictData(X, Y), batch_size=bs)
