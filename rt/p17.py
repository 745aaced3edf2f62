"""P17: the stores of block projected influence functions on random histories, and their batch information."""
from rt.lib import *
import tempfile, shutil, logging
from dattri.algorithm.block_projected_if.core.metadata import MetadataManager
from dattri.algorithm.block_projected_if.offload import create_offload_manager

logging.disable(logging.CRITICAL)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="p17_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def manager(kind, names, d, chunk):
    return create_offload_manager(offload_type=kind, device="cpu", layer_names=names, cache_dir=d, chunk_size=chunk)


def eq(got, want, what, **info):
    if len(got) != len(want):
        fail("%s: %d parts instead of %d" % (what, len(got), len(want)), **info)
    for q, (a, b) in enumerate(zip(got, want)):
        close(a, b, "%s (layer %d)" % (what, q), rtol=1e-6, atol=1e-6, **info)


def read(loader, what, **info):
    """batch -> rows, read through the loader"""
    r = {}
    for x, mapping in loader:
        n = 0
        for k, (a, b) in mapping.items():
            true(0 <= a <= b <= len(x) and k not in r, "%s: batch %r" % (what, k), **info)
            r[k] = x[a:b].clone()
            n += b - a
        true(n == len(x), "%s: every row belongs to one batch" % what, **info)
    return r


def history(rng, kind, rows, chunk, d):
    dims = [rng.int(1, 3) for _ in range(rng.int(1, 3))]
    names = ["l%d" % k for k in range(len(dims))]
    s = manager(kind, names, d, chunk)
    for rnd in range(rng.int(1, 2)):
        if rnd:
            dims = [rng.int(1, 3) for _ in dims]
            s.clear_cache()
            if kind != "disk":
                s.layer_dims = s.total_proj_dim = None
            if kind == "disk" and rng.pick(True, False):
                s = manager(kind, names, d, chunk)
        L = rng.int(1, 7)
        sizes = [rng.int(1, rows) for _ in range(L)]
        info = dict(kind=kind, dims=dims, sizes=sizes, chunk=chunk, round=rnd)
        data = {}
        for what, store in (("gradients", s.store_gradients), ("ifvp", s.store_ifvp)):
            data[what] = {}
            if hasattr(s, "start_batch_range_processing"):
                s.start_batch_range_processing(0, L)
            for k in range(L):
                parts = [rng.randn(sizes[k], q) for q in dims]
                gone = rng.int(0, 6) == 0 and len(dims) > 1 and k > 0
                data[what][k] = [torch.zeros_like(p) if gone and q == 0 else p for q, p in enumerate(parts)]
                store(k, [torch.empty(0) if gone and q == 0 else p for q, p in enumerate(parts)])
            if hasattr(s, "finish_batch_range_processing"):
                s.finish_batch_range_processing()
            s.wait_for_async_operations()
            for g in (1, 2, 4):
                got = read(s.create_gradient_dataloader(data_type=what, batch_size=g, pin_memory=False), what, **info)
                true(sorted(got) == list(range(L)), "%s: batches %s of %d" % (what, sorted(got), L), **info)
                for k in range(L):
                    close(got[k], torch.cat(data[what][k], 1), "%s: rows of batch %d" % (what, k), rtol=1e-6, atol=1e-6, **info)
        true(s.has_ifvp(), "products are there", **info)
        for k in rng.r.sample(range(L), L):
            eq(s.retrieve_gradients(k), data["gradients"][k], "gradients", **info)
            eq(s.retrieve_ifvp(k), data["ifvp"][k], "products", **info)
        pre = {q: rng.randn(n, n) for q, n in enumerate(dims) if rng.int(0, 3)}
        for q in range(len(dims)):
            s.store_preconditioner(q, pre.get(q))
        s.wait_for_async_operations()
        true(s.has_preconditioners() == bool(pre), "preconditioners are there", **info)
        for q in range(len(dims)):
            p = s.retrieve_preconditioner(q)
            true((p is None) == (q not in pre), "preconditioner of layer %d" % q, **info)
            if p is not None:
                close(p, pre[q], "preconditioner of layer %d" % q, rtol=1e-6, atol=1e-6, **info)
    s.clear_cache()
    true(not s.has_ifvp() and not s.has_preconditioners(), "nothing is left", **info)


for kind in ("none", "cpu"):
    @check("store-" + kind, 20, 150)
    def f(rng, kind=kind):
        history(rng, kind, 4, 16, None)


@check("store-disk", 8, 40, 60)
def f(rng):
    with Scratch() as d:
        history(rng, "disk", rng.pick(4, 4, 900), rng.pick(1, 2, 3, 16), d)


@check("metadata", 30, 300)
def f(rng):
    with Scratch() as d:
        for rnd in range(rng.int(1, 3)):
            m = MetadataManager(d, ["a"]) if rnd == 0 or rng.pick(True, False) else m
            n, bs, drop = rng.int(1, 12), rng.int(1, 4), rng.pick(True, False)
            dl = DataLoader(TensorDataset(torch.zeros(n, 1)), batch_size=bs, drop_last=drop)
            if rng.pick(True, False):
                dl = DataLoader(TensorDataset(torch.zeros(n + 3, 1)), batch_size=bs, drop_last=drop, sampler=list(range(n)))
            m.initialize_complete_dataset(dl)
            if rng.pick(True, False):
                m.set_layer_dims([2, 3])
                m.save_metadata()
            sizes = [len(b[0]) for b in dl]
            for x in (m, MetadataManager(d, ["a"])):
                at, want = 0, {}
                for k, q in enumerate(sizes):
                    want[k] = (at, at + q)
                    at += q
                true(x.get_batch_to_sample_mapping() == want and x.get_total_samples() == at and x.get_total_batches() == len(sizes),
                     "batch information %s, total %s" % (x.get_batch_to_sample_mapping(), x.get_total_samples()), n=n, bs=bs, drop=drop, rnd=rnd)


if __name__ == "__main__":
    main()
