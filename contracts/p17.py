"""P17: the stores of block projected influence functions and their batch information."""
from contracts.lib import *
from contracts.fs import FS
from engine import tstub
from engine.core import ENG

O = "dattri/algorithm/block_projected_if/offload/"
MANAGERS = {"memory": ("memory", "MemoryOffloadManager"), "cpu": ("cpu", "CPUOffloadManager")}
MD = "dattri/algorithm/block_projected_if/core/metadata.py::MetadataManager."
LAYERS = 3
METHODS = ("__init__", "_ensure_dims_set", "_concatenate_gradients", "_split_tensor", "store_gradients", "retrieve_gradients", "store_ifvp",
           "retrieve_ifvp")


def new(w, which):
    mod, cls = MANAGERS[which]
    m = w.load("dattri.algorithm.block_projected_if.offload." + mod)
    return m, getattr(m, cls)("cpu", ["l%d" % k for k in range(LAYERS)])


def target(which, *names):
    mod, cls = MANAGERS[which]
    return [O + "%s.py::%s.%s" % (mod, cls, n) for n in names]


def same_parts(got, want, what):
    if not isinstance(got, (list, EList)) or len(got) != len(want):
        ENG.fail("post: %s" % what, "%r" % (got,))
        return
    for q, (x, y) in enumerate(zip(got, want)):
        ensure_eq(x, y.pshape, lambda *i: y.at(list(i)), "%s (layer %d)" % (what, q))


def parts(nm, b, dims, empty=()):
    return EList([tensor("%s%d" % (nm, q), b, d) if q not in empty else SymTensor([ZERO], lambda i: ZERO, "f") for q, d in enumerate(dims)])


for which in MANAGERS:
    for dims_set in (False, True):
        @contract("P17", "%s.store[%s]" % (which, "dims known" if dims_set else "dims of the first batch"), target(which, *METHODS))
        def c(w, which=which, dims_set=dims_set):
            m, s = new(w, which)
            dims = [Int("d%d" % k, 1) for k in range(LAYERS)]
            b, b2, b3 = Int("b", 1), Int("b2", 1), Int("b3", 1)
            k, k2 = Int("k", 0), Int("k2", 0)
            if dims_set:
                s.layer_dims, s.total_proj_dim = EList(dims), dims[0] + dims[1] + dims[2]
            A, B, C, D, E = (parts(n, n_b, dims) for n, n_b in (("A", b), ("B", b2), ("C", b3), ("D", b), ("E", b2)))
            s.store_gradients(k, A)
            s.store_gradients(k2, C, is_test=True)
            s.store_ifvp(k, D)
            one = bool(k == k2)
            ensure(s.has_ifvp() is True, "products are there")
            if not one:
                s.store_gradients(k2, B)
                s.store_ifvp(k2, E)
                same_parts(s.retrieve_gradients(k2), B, "the gradients of the other batch")
                same_parts(s.retrieve_ifvp(k2), E, "the products of the other batch")
            same_parts(s.retrieve_gradients(k), A, "the gradients stored for the batch")
            same_parts(s.retrieve_gradients(k2, is_test=True), C, "the test gradients are kept apart")
            same_parts(s.retrieve_ifvp(k), D, "the products stored for the batch")
            # storing a batch again replaces it
            B2 = parts("F", b3, dims)
            s.store_gradients(k, B2)
            same_parts(s.retrieve_gradients(k), B2, "the last gradients stored")
            far = k + k2 + 1
            for got in (s.retrieve_gradients(far), s.retrieve_gradients(far, is_test=True), s.retrieve_ifvp(far)):
                for q, x in enumerate(got):
                    ensure_shape(x, (ZERO, dims[q]), "a batch never stored is empty")

    for gone in range(LAYERS):
        @contract("P17", "%s.store[layer %d without gradient]" % (which, gone), target(which, "_concatenate_gradients"))
        def c(w, which=which, gone=gone):
            m, s = new(w, which)
            dims = [Int("d%d" % k, 1) for k in range(LAYERS)]
            b = Int("b", 1)
            s.layer_dims, s.total_proj_dim = EList(dims), dims[0] + dims[1] + dims[2]
            A = parts("A", b, dims, (gone,))
            s.store_gradients(0, A)
            want = [SymTensor([P(b), P(dims[q])], lambda i: ZERO, "f") if q == gone else x for q, x in enumerate(A)]
            same_parts(s.retrieve_gradients(0), want, "zeros for the layer without gradient")

    @contract("P17", "%s.preconditioners, clear_cache" % which, target(which, "store_preconditioner", "retrieve_preconditioner", "has_preconditioners",
                                                                       "clear_cache", "has_ifvp"))
    def c(w, which=which):
        m, s = new(w, which)
        n = [Int("n%d" % q, 1) for q in range(LAYERS)]
        ps = [tensor("P%d" % q, n[q], n[q]) for q in range(LAYERS)]
        ensure(s.has_preconditioners() is False and s.has_ifvp() is False, "empty at first")
        ensure(all(s.retrieve_preconditioner(q) is None for q in range(LAYERS + 2)), "no preconditioner at first")
        for q in (2, 0):
            s.store_preconditioner(q, ps[q])
        ensure(s.has_preconditioners() is True and s.retrieve_preconditioner(1) is None, "one per layer")
        for q in (0, 2):
            same_parts([s.retrieve_preconditioner(q)], [ps[q]], "the preconditioner of layer %d" % q)
        s.store_preconditioner(2, None)
        ensure(s.retrieve_preconditioner(2) is None, "a preconditioner can be taken back")
        dims = [Int("d%d" % k, 1) for k in range(LAYERS)]
        for st in (s.store_gradients, s.store_ifvp):
            st(0, parts("A", Int("b", 1), dims))
        s.store_gradients(1, parts("B", Int("b", 1), dims), is_test=True)
        s.clear_cache()
        ensure(s.has_preconditioners() is False and s.has_ifvp() is False, "nothing is left")
        ensure(len(s.cached_gradients) == 0 and len(s.cached_test_gradients) == 0, "no gradients are left")
        for x in [x for f in (s.retrieve_gradients, s.retrieve_ifvp) for x in f(0)]:
            ensure_num(x.shape[0], ZERO, "no rows are left")

    for data in ("gradients", "ifvp", "test"):
        for g in (1, 2, 4):
            @contract("P17", "%s.create_gradient_dataloader[%s, %d]" % (which, data, g), target(which, "create_gradient_dataloader"))
            def c(w, which=which, data=data, g=g):
                m, s = new(w, which)
                L, D = Int("L", 1), Int("D", 1)

                def rows(k):
                    ENG.assume(T.lt(ZERO, T.fn("rows", P(k), sort="I")))
                    return T.fn("rows", P(k), sort="I")
                store = EDict()
                store.fam = [(ZERO, P(L), lambda k: SymTensor([rows(k), P(D)], lambda i, k=k: T.fn("G", P(k), *i), "f"))]
                setattr(s, {"gradients": "cached_gradients", "ifvp": "cached_ifvp", "test": "cached_test_gradients"}[data], store)
                got = {}

                def DataLoader(dataset, batch_size=1, shuffle=False, collate_fn=None, **k):
                    got.update(k, dataset=dataset, batch_size=batch_size, shuffle=shuffle, collate=collate_fn)
                    return "loader"
                w.stubs["torch"].utils.data.DataLoader = DataLoader
                r = s.create_gradient_dataloader("ifvp" if data == "ifvp" else "gradients", batch_size=g, is_test=data == "test")
                ensure(r == "loader" and got["batch_size"] == g and not got["shuffle"], "a loader of %d batches at a time, in order" % g)
                ensure(not set(got) - {"dataset", "batch_size", "shuffle", "collate", "pin_memory"}, "nothing else about the loader")
                ds = got["dataset"]
                ensure_num(ds.__len__(), P(L), "one entry per batch stored")
                c0 = Int("c", 0)
                first = T.mul(T.num(g), P(c0))
                ENG.assume(T.lt(first, P(L)))
                n = 1
                while n < g and ENG.branch(T.lt(T.add(first, T.num(n)), P(L))):
                    n += 1
                x, mapping = got["collate"](EList([ds[wrap(T.add(first, T.num(j)))] for j in range(n)]))
                off = [ZERO]
                for j in range(n):
                    off.append(T.add(off[-1], rows(T.add(first, T.num(j)))))
                if not ensure_shape(x, (off[n], D), "all rows of the chunk"):
                    return
                ensure(len(mapping) == n, "one entry per batch of the chunk")
                for j in range(n):
                    k = T.add(first, T.num(j))
                    a, b = mapping[wrap(k)]
                    ensure_num(a, off[j], "first row of batch %d of the chunk" % j)
                    ensure_num(b, off[j + 1], "last row of batch %d of the chunk" % j)
                    part = x[a:b]
                    ensure_eq(part, (rows(k), D), lambda i, d: T.fn("G", k, i, d), "the rows of batch %d of the chunk" % j)

    @contract("P17", "%s.create_gradient_dataloader[range, other]" % which, target(which, "create_gradient_dataloader"))
    def c(w, which=which):
        m, s = new(w, which)
        got = []
        w.stubs["torch"].utils.data.DataLoader = lambda dataset, **k: got.append(dataset)
        s.cached_gradients = EDict()
        for k in (5, 0, 3, 2, 1):
            s.cached_gradients[k] = tensor("G%d" % k, Int("b", 1), Int("D", 1))
        lo, hi = Int("lo", 0), Int("hi", 0)
        ensure(s.create_gradient_dataloader("preconditioners") is None, "no loader for other data")
        s.create_gradient_dataloader("gradients")
        ensure([list(dict.keys(got[0][j][1]))[0] for j in range(len(got[0].batch_indices))] == [0, 1, 2, 3, 5], "batches in order")
        s.create_gradient_dataloader("gradients", batch_range=(lo, hi))
        have = [k for k in (0, 1, 2, 3, 5) if ENG.branch(T.band(T.le(P(lo), T.num(k)), T.lt(T.num(k), P(hi))))]
        ensure(list(got[1].batch_indices) == have, "the batches of the range")


class Any:
    def __len__(self):
        return 7            # the dataset is larger or smaller than the sampler: not to be used


class Sampler:
    def __init__(self, N):
        self.N = N

    def symlen(self):
        return self.N


class LoaderInfo:
    def __init__(self, N, bs, drop):
        self.sampler, self.batch_size, self.dataset = Sampler(N), bs, Any()
        if drop is not None:
            self.drop_last = drop
        n = T.floordiv(P(N), P(bs)) if drop else T.floordiv(T.add(P(N), T.sub(P(bs), ONE)), P(bs))
        self.n = wrap(ENG.simp(n))

    def symlen(self):
        return self.n


for drop in (None, False, True):
    for old in ("new", "used"):
        @contract("P17", "MetadataManager.initialize[%s, drop_last=%s]" % (old, drop),
                  [MD + n for n in ("__init__", "initialize_complete_dataset", "get_batch_to_sample_mapping", "get_total_samples", "set_layer_dims")])
        def c(w, drop=drop, old=old):
            md = w.load("dattri.algorithm.block_projected_if.core.metadata")
            m = md.MetadataManager("", ["a", "b"])
            if old == "used":
                m.initialize_complete_dataset(LoaderInfo(Int("N0", 1), Int("b0", 1), False))
            N, bs = Int("N", 1), Int("b", 1)
            if drop:
                ENG.assume(T.le(P(bs), P(N)))
            dl = LoaderInfo(N, bs, drop)
            m.initialize_complete_dataset(dl)
            total = T.mul(P(dl.n), P(bs)) if drop else P(N)
            ensure_num(m.get_total_samples(), total, "the number of samples the loader yields")
            f = m.get_batch_to_sample_mapping()
            ensure_num(f.symlen() if hasattr(f, "symlen") else len(f), P(dl.n), "one entry per batch")
            k = Int("k", 0, dl.n - 1)
            a, b = f[k]
            ensure_num(a, T.mul(P(k), P(bs)), "first sample of batch k")
            ensure_num(b, T.mul(T.add(P(k), ONE), P(bs)) if drop else T.imin(T.mul(T.add(P(k), ONE), P(bs)), P(N)), "last sample of batch k")


class Disk(FS):
    def __init__(self, w):
        super().__init__(w)
        self.files, self.log = {}, []
        j = w.stubs["json"] if "json" in w.stubs else w.stubs.setdefault("json", tstub.stub("json"))
        j.dump = lambda x, f, **k: f.write(jsonable(x))
        j.load = lambda f: jsonable(f.read())
        t = w.stubs.setdefault("time", tstub.stub("time"))
        t.time = lambda: wrap(T.var("now", "R"))

    def read(self, name):
        if name not in self.files:
            raise FileNotFoundError(name)
        return self.files[name]

    def write(self, name, x, mode):
        self.files[name] = x
        self.log.append(name)

    def exists(self, name):
        return name in self.files

    def replace(self, a, b):
        self.files[b] = self.files.pop(a)

    def unlink(self, name):
        del self.files[name]


def jsonable(x):
    """what json.dump followed by json.load makes of x"""
    if isinstance(x, dict):
        for k in dict.keys(x):
            if not isinstance(k, str):
                raise TypeError("not a JSON object key of this program")
        return EDict({k: jsonable(dict.__getitem__(x, k)) for k in dict.keys(x)})
    if isinstance(x, (list, tuple)):
        return EList([jsonable(y) for y in x])
    return x


@contract("P17", "MetadataManager.save and load", [MD + n for n in ("__init__", "save_metadata", "_load_metadata_if_exists", "_get_metadata_path", "add_batch_info",
                                                                    "_flush_pending_batches", "get_total_batches", "set_layer_dims")])
def c(w):
    fs = Disk(w)
    md = w.load("dattri.algorithm.block_projected_if.core.metadata")
    m = md.MetadataManager("dir", ["a", "b"])
    ensure(len(m.batch_info) == 0 and m.layer_dims is None, "empty without a file")
    n = [Int("n%d" % k, 1) for k in range(3)]
    dims = [Int("d0", 0), Int("d1", 0)]
    for k in (0, 1, 2):
        m.add_batch_info(k, n[k])
    m.add_batch_info(1, n[1])       # known already: nothing changes
    m.set_layer_dims(EList(dims))
    m.save_metadata()
    ensure(set(fs.files) == {"dir/batch_metadata.json"}, "one file, no temporary left")
    ensure(fs.log == ["dir/batch_metadata.json.tmp"], "the file is replaced as a whole")
    q = md.MetadataManager("dir", ["other"])
    for x, what in ((m, "after saving"), (q, "after loading")):
        f = x.get_batch_to_sample_mapping()
        ensure(sorted(dict.keys(f)) == [0, 1, 2] and x.get_total_batches() == 3, "the batches %s" % what)
        at = ZERO
        for k in (0, 1, 2):
            ensure_num(f[k][0], at, "first sample of batch %d %s" % (k, what))
            at = T.add(at, P(n[k]))
            ensure_num(f[k][1], at, "last sample of batch %d %s" % (k, what))
        ensure_num(x.get_total_samples(), at, "total %s" % what)
        for a, b in zip(x.layer_dims, dims):
            ensure_num(a, P(b), "layer dimensions %s" % what)
        ensure_num(x.total_proj_dim, T.add(P(dims[0]), P(dims[1])), "total dimension %s" % what)
        ensure(list(x.layer_names) == ["a", "b"], "layer names %s" % what)
