"""P13: metrics and ground truth against their definitions."""
import pathlib
import tempfile
import yaml
from rt.lib import *
from dattri import metric as MT
from dattri.metric import calculate_lds_ground_truth, calculate_loo_ground_truth
from dattri.benchmark.utils import SubsetSampler

torch.set_default_dtype(torch.float64)


def ranks(x):
    """average ranks"""
    x = list(map(float, x))
    return torch.tensor([sum(b < a for b in x) + (sum(b == a for b in x) + 1) / 2 for a in x])


def pearson(a, b):
    a, b = a - a.mean(), b - b.mean()
    d = (a @ a).sqrt() * (b @ b).sqrt()
    return (a @ b) / d if d > 0 else torch.tensor(float("nan"))


def same(got, want, what, **inp):
    close(torch.nan_to_num(got, nan=9.0), torch.nan_to_num(want, nan=9.0), what, rtol=1e-5, atol=1e-6, **inp)


def vals(rng, *s):
    return rng.randn(*s) if rng.int(0, 2) else rng.ints(0, 3, *s).double()


@check("lds", 30, 200)
def f(rng):
    N, M, K = rng.int(2, 6), rng.int(1, 4), rng.int(3, 6)
    m = rng.int(1, N)
    s, g = vals(rng, N, M), vals(rng, K, M)
    ix = torch.stack([torch.randperm(N, generator=rng.g)[:m] for _ in range(K)])
    sums = torch.stack([torch.stack([sum((s[q, t] for q in row.tolist()), torch.tensor(0.0)) for t in range(M)]) for row in ix])
    from scipy.stats import spearmanr
    want = torch.stack([pearson(ranks([round(float(x), 9) for x in sums[:, t]]), ranks(g[:, t])) for t in range(M)])
    got, p = MT.lds(s.round(decimals=3) if False else s, (g, ix))
    inp = dict(score=s, gt=g, indices=ix)
    ties = any(len(set(round(float(x), 9) for x in sums[:, t])) < K for t in range(M))
    if not ties:
        same(got, want, "correlation", **inp)
        same(p, torch.tensor([float(spearmanr(sums[:, t].numpy(), g[:, t].numpy()).pvalue) for t in range(M)]), "p-values", **inp)
    true(tuple(got.shape) == tuple(p.shape) == (M,), "one value per test sample", **inp)


@check("loo_corr", 30, 200)
def f(rng):
    N, M = rng.int(3, 6), rng.int(1, 4)
    n = rng.int(3, N)
    ix = torch.randperm(N, generator=rng.g)[:n]
    s, g = vals(rng, N, M), vals(rng, n, M)
    got, p = MT.loo_corr(s, (g, ix.double() if rng.int(0, 1) else ix))
    want = torch.stack([pearson(s[ix, t], g[:, t]) for t in range(M)])
    same(got, want, "correlation", score=s, gt=g, indices=ix)
    true(tuple(p.shape) == (M,), "one p-value per test sample")


@check("mislabel auc", 40, 300)
def f(rng):
    N = rng.int(2, 9)
    while True:
        bad = rng.ints(0, 2, N)
        if 0 < int(bad.sum()) < N:
            break
    s = rng.randn(N)
    gt = bad.bool() if rng.int(0, 1) else bad
    auc, (fpr, tpr, th) = MT.mislabel_detection_auc(s, gt)
    b = bad.bool()
    want = (s[b][:, None] > s[~b][None]).double().mean()
    inp = dict(score=s, noise=bad)
    close(auc, want, "area = chance that a noisy sample scores above a clean one", rtol=1e-4, atol=1e-5, **inp)
    order = torch.argsort(s, descending=True)
    close(tpr, torch.cat([torch.zeros(1), b[order].double().cumsum(0) / b.sum()]).to(tpr), "tpr", rtol=1e-4, atol=1e-5, **inp)
    close(fpr, torch.cat([torch.zeros(1), (~b)[order].double().cumsum(0) / (~b).sum()]).to(fpr), "fpr", rtol=1e-4, atol=1e-5, **inp)
    true(list(th) == [-torch.inf, *range(1, N + 1)], "thresholds", got=list(th))


class Model(nn.Module):
    def __init__(self, w):
        super().__init__()
        self.w = nn.Parameter(w)


@check("loo ground truth", 12, 80)
def f(rng):
    with tempfile.TemporaryDirectory() as tmp:
        n, M = rng.int(1, 12), rng.int(1, 3)
        ids = sorted(rng.r.sample(range(30), n))
        mk = list(ids)
        rng.r.shuffle(mk)
        ws = {q: rng.randn(M) for q in ids}
        whole = rng.pick(True, False)
        for q in mk:
            d = pathlib.Path(tmp) / ("index_%d" % q)
            d.mkdir()
            torch.save(Model(ws[q]) if whole else ws[q], d / "model_weights.pt")
        (pathlib.Path(tmp) / "other").mkdir()
        (pathlib.Path(tmp) / "index_note").write_text("x")
        loader = DataLoader(TensorDataset(torch.zeros(M, 1)), batch_size=2)
        v, ix = calculate_loo_ground_truth(lambda m, l: (m.w if whole else m).detach() * 2 + len(l.sampler), tmp, loader)
        close(v, torch.stack([ws[q] * 2 + M for q in ids]), "values", ids=ids)
        true(ix.tolist() == ids, "removed indices", ids=ids, got=ix)


@check("lds ground truth", 12, 80)
def f(rng):
    with tempfile.TemporaryDirectory() as tmp:
        K, R, M, m = rng.int(1, 4), rng.int(1, 3), rng.int(1, 3), rng.int(1, 4)
        dirs = [pathlib.Path(tmp) / ("d%d" % q) for q in rng.r.sample(range(20), K)]
        w, ix = rng.randn(K, R, M), rng.ints(0, 9, K, m)
        for i, d in enumerate(dirs):
            d.mkdir()
            (d / "indices.txt").write_text("\n".join(map(str, ix[i].tolist())))
            for j in range(R):
                torch.save({"w": w[i, j]}, d / ("model_weights_%d.pt" % j))
        (pathlib.Path(tmp) / "metadata.yml").write_text(yaml.safe_dump(
            {"num_subsets": K, "num_runs_per_subset": R, "subset_dir_map": {i: str(d) for i, d in enumerate(dirs)}}))
        loader = DataLoader(TensorDataset(torch.zeros(M, 1)), batch_size=2)
        v, got = calculate_lds_ground_truth(lambda p, l: torch.load(p)["w"], tmp, loader)
        close(v, -w.mean(1), "values are the negated means", w=w)
        true(torch.equal(got, ix), "subsets", got=got, want=ix)


@check("brittleness", 30, 200)
def f(rng):
    """the model predicts whether enough weight remains in the training data"""
    N, D = rng.int(3, 8), 12
    ids = rng.r.sample(range(D), N) if rng.int(0, 1) else None
    ds = TensorDataset(torch.arange(D if ids else N).double())
    bs = rng.int(1, 4)
    tr = DataLoader(ds, batch_size=bs, sampler=SubsetSampler(ids)) if ids else DataLoader(ds, batch_size=bs)
    rows = ids or list(range(N))
    s = rng.randn(N)
    weight = {q: rng.int(1, 5) for q in rows}
    need = rng.int(0, sum(weight.values()) + 2)
    seen = []

    class Net(nn.Module):
        def __init__(self, data):
            super().__init__()
            self.data = data

    def train(loader):
        xs = [int(x) for (b,) in loader for x in b]
        true(loader.batch_size == bs, "batch size")
        seen.append(sorted(xs))
        return Net(xs)

    def predict(m, l):
        true(not m.training, "the model is in evaluation mode")
        return torch.tensor(float(sum(weight[q] for q in m.data) >= need))
    te = DataLoader([(torch.zeros(1), 1.0)])
    space = rng.pick(None, list(range(0, N)), [0, 2, 1, 3], [1])
    space_ = list(range(0, 200, 20)) if space is None else space
    sc = rng.pick(s, s[:, None], s.numpy())
    order = [rows[q] for q in torch.argsort(s, descending=True).tolist()]
    want = None
    wseen = []
    for k in space_:
        left = sorted(set(rows) - set(order[:k]))
        if not left:
            return
        wseen.append(left)
        if sum(weight[q] for q in left) < need:
            want = k
            break
    got = MT.brittleness(tr, te, sc, train, predict, search_space=space)
    inp = dict(rows=rows, score=s, space=space, need=need, weight=[weight[q] for q in rows])
    true(got == want, "first number of removals that flips", got=got, want=want, **inp)
    true(seen == wseen, "the remaining training samples", got=seen, want=wseen, **inp)


if __name__ == "__main__":
    main()
