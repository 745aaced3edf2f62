"""P14: retraining directories."""
import pathlib
import tempfile
import yaml
from rt.lib import *
from dattri.model_util.retrain import retrain_lds, retrain_loo
from dattri.metric import calculate_lds_ground_truth, calculate_loo_ground_truth
from dattri.benchmark.utils import SubsetSampler

torch.set_default_dtype(torch.float64)


class Model(nn.Module):
    def __init__(self, data, seed, bs, extra):
        super().__init__()
        self.w = nn.Parameter(torch.tensor(sorted(data)))
        self.register_buffer("seed", torch.tensor(-1.0 if seed is None else seed % 2 ** 40))
        self.register_buffer("conf", torch.tensor([bs, extra]))


def train_func(loader, seed=None, extra=0):
    return Model([float(x) for (b,) in loader for x in b], seed, loader.batch_size, extra)


def loader(rng, N):
    how = rng.pick("plain", "shuffled", "subset", "subset")
    bs = rng.int(1, 4)
    if how == "subset":
        ids = rng.r.sample(range(15), N)
        return DataLoader(TensorDataset(torch.arange(15).double() * 10), batch_size=bs, sampler=SubsetSampler(ids)), ids, bs
    ds = TensorDataset(torch.arange(N).double() * 10)
    return DataLoader(ds, batch_size=bs, shuffle=how == "shuffled"), list(range(N)), bs


def load(p):
    return torch.load(p, weights_only=False)


@check("loo", 15, 100)
def f(rng):
    with tempfile.TemporaryDirectory() as tmp:
        N = rng.int(2, 6)
        dl, ids, bs = loader(rng, N)
        path = pathlib.Path(tmp) / "a" / "b"
        ix = rng.pick(None, rng.r.sample(range(N), rng.int(1, N)))
        seed, ex = rng.pick(None, 3), rng.int(0, 3)
        retrain_loo(train_func, dl, str(path), indices=ix, seed=seed, extra=ex)
        todo = list(range(N)) if ix is None else ix
        inp = dict(ids=ids, indices=ix, seed=seed)
        for q in todo:
            m = load(path / ("index_%d" % q) / "model_weights.pt")
            true(m.w.tolist() == sorted(10.0 * ids[r] for r in range(N) if r != q), "all samples but one", q=q, got=m.w, **inp)
            true(m.conf.tolist() == [bs, ex] and int(m.seed) == (-1 if seed is None else seed), "settings", **inp)
        meta = yaml.safe_load((path / "metadata.yml").read_text())
        true(meta["mode"] == "loo" and meta["data_length"] == N and meta["train_func"] == "train_func" and meta["indices"] == todo
             and meta["map_index_dir"] == {q: "./index_%d" % q for q in todo}, "metadata", got=str(meta), **inp)
        te = DataLoader(TensorDataset(torch.zeros(1)))
        v, got = calculate_loo_ground_truth(lambda m, l: m.w.sum().detach()[None], str(path), te)
        true(got.tolist() == sorted(todo), "ground truth: indices", **inp)
        close(v, torch.tensor([[sum(10.0 * ids[r] for r in range(N) if r != q)] for q in sorted(todo)]), "ground truth", **inp)


def tree(path):
    out = {}
    for p in sorted(path.rglob("*")):
        if p.name == "indices.txt":
            out[str(p.relative_to(path))] = p.read_text()
        elif p.suffix == ".pt":
            out[str(p.relative_to(path))] = {k: v.tolist() for k, v in load(p).items()}
    return out


@check("lds", 15, 100)
def f(rng):
    with tempfile.TemporaryDirectory() as tmp:
        N, R, seed = rng.int(2, 8), rng.int(1, 2), rng.int(0, 99)
        dl, ids, bs = loader(rng, N)
        parts, each, ratio = rng.int(1, 3), rng.int(1, 3), rng.pick(0.5, 0.3, 0.75, 1.0)
        K = parts * each
        ratio = ratio if int(N * ratio) else 0.5
        one, many = pathlib.Path(tmp) / "x" / "one", pathlib.Path(tmp) / "many"
        kw = dict(subset_ratio=ratio, num_runs_per_subset=R, seed=seed, extra=2)
        retrain_lds(train_func, dl, str(one), num_subsets=K, start_id=rng.pick(0, 7), **kw)
        for q in range(parts):
            retrain_lds(train_func, dl, str(many), num_subsets=each, start_id=q * each, total_num_subsets=K, **kw)
        inp = dict(ids=ids, parts=parts, each=each, ratio=ratio, runs=R, seed=seed)
        true(tree(one) == tree(many), "split over several calls", **inp)
        m = int(N * ratio)
        rows = []
        for path in (one, many):
            meta = yaml.safe_load((path / "metadata.yml").read_text())
            true(meta["mode"] == "lds" and meta["data_length"] == N and meta["train_func"] == "train_func" and meta["num_subsets"] == K
                 and meta["subset_ratio"] == ratio and meta["num_runs_per_subset"] == R
                 and meta["subset_dir_map"] == {i: str(path / str(i)) for i in range(K)}, "metadata", got=str(meta), **inp)
            rows = []
            for i in range(K):
                ix = [int(x) for x in (path / str(i) / "indices.txt").read_text().split()]
                true(len(ix) == len(set(ix)) == m and all(0 <= q < N for q in ix), "a subset", got=ix, **inp)
                rows.append(ix)
                for j in range(R):
                    sd = load(path / str(i) / ("model_weights_%d.pt" % j))
                    true(sd["w"].tolist() == sorted(10.0 * ids[q] for q in ix), "trained on the subset", ix=ix, got=sd["w"], **inp)
                    true(int(sd["seed"]) == seed + i * R + j and sd["conf"].tolist() == [bs, 2], "settings", got=str(sd), **inp)
        te = DataLoader(TensorDataset(torch.zeros(1)))
        if m:
            v, got = calculate_lds_ground_truth(lambda p, l: load(p)["w"].sum()[None], str(many), te)
            true(got.tolist() == rows, "ground truth: subsets", **inp)
            close(v, torch.tensor([[-sum(10.0 * ids[q] for q in ix)] for ix in rows]), "ground truth", **inp)


@check("subsets", 6, 30)
def f(rng):
    with tempfile.TemporaryDirectory() as tmp:
        dl, ids, bs = loader(rng, 8)
        for s, sub in ((None, "a"), (1, "b"), (2, "c")):
            retrain_lds(train_func, dl, tmp + "/" + sub, num_subsets=6, seed=s)
            rows = [(pathlib.Path(tmp) / sub / str(i) / "indices.txt").read_text() for i in range(6)]
            true(len(set(rows)) > 1, "subsets differ", seed=s)


@check("refused", 4, 4)
def f(rng):
    with tempfile.TemporaryDirectory() as tmp:
        dl, ids, bs = loader(rng, 3)
        raises(ValueError, lambda: retrain_lds(train_func, dl, tmp, num_subsets=2, total_num_subsets=-2), "negative total")
        raises(ValueError, lambda: retrain_lds(train_func, dl, tmp, num_subsets=2, total_num_subsets=3), "not a multiple")
        true(not list(pathlib.Path(tmp).iterdir()), "nothing written")


if __name__ == "__main__":
    main()
