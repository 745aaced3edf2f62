"""P16: block projected influence functions (LoGra, FactGraSS)."""
from fractions import Fraction
from contracts.lib import *
from engine import tstub
from engine.core import ENG

M = "dattri/algorithm/block_projected_if/block_projected_if.py::"
BA = M + "BlockProjectedIFAttributor."
UT = "dattri/algorithm/block_projected_if/core/utils.py::"
LAYERS = 3


class Span:
    """the layout of the store: N rows in L batches of b rows (the last one possibly smaller)"""

    def __init__(self):
        self.N, self.b = Int("N", 1), Int("b", 1)
        self.L = wrap(ENG.simp(T.floordiv(T.add(P(self.N), T.sub(P(self.b), ONE)), P(self.b))))
        self.dims = [Int("d%d" % k, 1) for k in range(LAYERS)]

    def start(self, k):
        return T.mul(P(k), P(self.b))

    def end(self, k):
        return T.imin(T.mul(T.add(P(k), ONE), P(self.b)), P(self.N))

    def col(self, layer):
        r = ZERO
        for d in self.dims[:layer]:
            r = T.add(r, P(d))
        return r

    @property
    def D(self):
        return self.col(LAYERS)


class Chunks:
    """the loader of a store: chunk c has the rows of batches g*c, ..., g*c+g-1 and maps each batch to its rows in the chunk"""

    def __init__(self, sp, g, cell, rows=False):
        self.sp, self.g, self.cell = sp, T.num(g), cell
        # ceil(ceil(N / b) / g) = ceil(N / (g b)): the form that suits the contract
        size = T.mul(self.g, P(sp.b))
        self.n = ENG.simp(T.floordiv(T.add(P(sp.N), T.sub(size, ONE)), size) if rows else
                          T.floordiv(T.add(P(sp.L), T.sub(self.g, ONE)), self.g))

    def chunk(self, c):
        sp, c = self.sp, P(c)
        first = T.mul(self.g, c)
        count = T.imin(self.g, T.sub(P(sp.L), first))
        lo = sp.start(first)
        n = T.imin(T.mul(self.g, P(sp.b)), T.sub(P(sp.N), lo))
        m = EDict()
        m.fam = [(first, count, lambda k: (wrap(T.sub(sp.start(k), lo)), wrap(T.sub(sp.end(k), lo))))]
        return SymTensor([n, sp.D], lambda i: self.cell(T.add(lo, i[0]), i[1]), "f"), m

    def __symseq__(self):
        return self.n, lambda c: self.chunk(c)

    def symlen(self):
        return wrap(self.n)

    def __bool__(self):
        return True


class Offload:
    """the contract of an offload manager (property P17)"""
    layer_dims = None
    total_proj_dim = None
    by_rows = False

    def __init__(self, sp, ifvp=None, precond=None):
        self.sp, self.has, self.precond = sp, ifvp is not None, precond
        self.rows = [SymTensor([P(sp.N), P(d)], lambda i, q=q: T.fn("stale", T.num(q), *i), "f") for q, d in enumerate(sp.dims)]
        self.stored = {}

    def create_gradient_dataloader(self, data_type, batch_size=1, pin_memory=True, batch_range=None, is_test=False):
        ENG.check("pre: the training data", T.TRUE if not is_test and batch_range is None else T.FALSE)
        if data_type == "gradients":
            return Chunks(self.sp, batch_size, lambda r, c: T.fn("G", r, c), self.by_rows)
        return Chunks(self.sp, batch_size, lambda r, c: T.fn("V", r, c))

    def store_ifvp(self, k, parts):
        sp = self.sp
        ENG.check("pre: a batch of the store", T.in_range(P(k), P(sp.L)))
        ENG.check("pre: one part per layer", T.TRUE if len(parts) == LAYERS else T.FALSE)
        n = T.sub(sp.end(k), sp.start(k))
        for q, x in enumerate(parts):
            ENG.check("pre: part of layer %d" % q, T.band(T.eq(x.pshape[0], n), T.eq(x.pshape[1], P(sp.dims[q]))))
            self.rows[q][wrap(sp.start(k)):wrap(sp.end(k))] = x

    def store_preconditioner(self, layer, x):
        self.stored[layer] = x

    def retrieve_preconditioner(self, layer):
        return self.precond[layer]

    def has_ifvp(self):
        return self.has

    def move_to_device(self, x):
        return x

    def wait_for_async_operations(self):
        pass

    def clear_cache(self):
        self.cleared = True


class Meta:
    """the contract of MetadataManager (property P17)"""

    def __init__(self, sp):
        self.sp = sp
        self.batch_info = {0: {}}
        self.layer_dims = None

    def get_total_samples(self):
        return self.sp.N

    def get_batch_to_sample_mapping(self):
        sp, m = self.sp, EDict()
        m.fam = [(ZERO, P(sp.L), lambda k: (wrap(sp.start(k)), wrap(sp.end(k))))]
        return m

    def set_layer_dims(self, dims):
        self.layer_dims = dims

    def _load_metadata_if_exists(self):
        pass


class Task:
    def __init__(self, model=None):
        self.model = model

    def _load_checkpoints(self, k):
        ENG.check("pre: the first checkpoint", T.TRUE if k == 0 else T.FALSE)

    def get_model(self):
        return self.model


class Model:
    def to(self, device):
        return self


def make(w, hessian="eFIM", damping=None, ifvp=None, precond=None):
    m = w.load("dattri.algorithm.block_projected_if.block_projected_if")
    sp = Span()
    off = Offload(sp, ifvp, precond)
    m.create_offload_manager = lambda **k: off
    m.MetadataManager = lambda d, names: Meta(sp)
    a = m.BlockProjectedIFAttributor(Task(Model()), layer_names=["l%d" % k for k in range(LAYERS)], hessian=hessian, damping=damping,
                                     device="cpu", offload="none")
    a.layer_dims = [d for d in sp.dims]
    a.total_proj_dim = wrap(sp.D)
    return m, a, sp, off


def G(sp, layer, r, c):
    return T.fn("G", P(r), T.add(sp.col(layer), P(c)))


@contract("P16", "compute_ifvp", [BA + "compute_ifvp", BA + "_sync_layer_dims", BA + "__init__"])
def c(w):
    sp0 = Span()
    pre = [tensor("P%d" % k, sp0.dims[k], sp0.dims[k]) for k in range(LAYERS)]
    m, a, sp, off = make(w, precond=pre)
    a.compute_ifvp()
    for q in range(LAYERS):
        ensure_eq(off.rows[q], (sp.N, sp.dims[q]), lambda r, c: S([sp.dims[q]], lambda p: T.mul(T.fn("P%d" % q, c, p), G(sp, q, r, p))),
                  "layer %d: every row times the preconditioner" % q)


@contract("P16", "compute_ifvp[Identity]", [BA + "compute_ifvp", BA + "_copy_gradients_as_ifvp"])
def c(w):
    m, a, sp, off = make(w, hessian="Identity")
    a.compute_ifvp()
    for q in range(LAYERS):
        ensure_eq(off.rows[q], (sp.N, sp.dims[q]), lambda r, c: G(sp, q, r, c), "layer %d: the gradients themselves" % q)


def V(r, c):
    return T.fn("V", P(r), P(c))


for g in ("rows given", "no rows"):
    @contract("P16", "attribute[%s]" % g, [BA + "attribute", BA + "_sync_layer_dims"])
    def c(w, g=g):
        m, a, sp, off = make(w, ifvp="V")
        Tn = Int("T", 1)
        ENG.branch(T.le(P(Tn), T.num(32)))      # proof by cases
        test = tensor("t", Tn, wrap(sp.D))
        train, tl = loader("X", sp.N, sp.b, [Int("F", 1)]), loader("Y", Tn, Int("tb", 1), [Int("F", 1)])
        a.full_train_dataloader = train
        a.compressors = ["comp"] * LAYERS
        seen = []

        def grads(dl):
            seen.append(dl)
            return (test, {}) if g == "rows given" else (SymTensor([ZERO, sp.D], lambda i: ZERO, "f"), {})
        a._compute_test_gradients = grads
        out = a.attribute(train, tl)
        ensure(seen == [tl], "the test gradients are those of the test loader")
        if g == "no rows":
            ensure_eq(out, (sp.N, Tn), lambda i, j: ZERO, "no gradients: all scores zero")
            return
        ensure_eq(out, (sp.N, Tn), lambda i, j: S([wrap(sp.D)], lambda p: T.mul(V(i, p), T.fn("t", j, p))),
                  "score(i, j) = preconditioned training gradient i . test gradient j")


@contract("P16", "attribute[not cached]", [BA + "attribute"])
def c(w):
    m, a, sp, off = make(w)
    Tn = Int("T", 1)
    ENG.branch(T.le(P(Tn), T.num(32)))
    test = tensor("t", Tn, wrap(sp.D))
    train, tl = loader("X", sp.N, sp.b, [Int("F", 1)]), loader("Y", Tn, Int("tb", 1), [Int("F", 1)])
    log = []
    a.cache = lambda dl: log.append(("cache", dl)) or setattr(a, "full_train_dataloader", dl)
    a.compute_ifvp = lambda: log.append(("ifvp", None))
    a._setup_compressors = lambda dl: setattr(a, "compressors", [])
    a._compute_test_gradients = lambda dl: (test, {})
    out = a.attribute(train, tl)
    ensure([k for k, _ in log] == ["cache", "ifvp"] and log[0][1] is train, "the training data are cached, then preconditioned, first")
    ensure_eq(out, (sp.N, Tn), lambda i, j: S([wrap(sp.D)], lambda p: T.mul(V(i, p), T.fn("t", j, p))), "the scores of the cached data")


@contract("P16", "attribute[shuffled]", [BA + "attribute"])
def c(w):
    m, a, sp, off = make(w, ifvp="V")
    tl = loader("Y", Int("T", 1), Int("tb", 1), [Int("F", 1)])
    from engine import tstub as ts
    sh = loader("X", sp.N, sp.b, [Int("F", 1)])
    sh.sampler = ts.RandomSampler(sh.dataset)
    for q in ((sh, tl), (tl, sh)):
        with_warn = []
        m._check_shuffle = lambda dl: with_warn.append(dl)
        a.full_train_dataloader = "cached"
        a.compressors = []
        a._compute_test_gradients = lambda dl: (tensor("t", 1, wrap(sp.D)), {})
        a.attribute(*q)
        ensure(with_warn == list(q), "both loaders are checked for shuffling")


@contract("P16", "compute_self_attribution", [BA + "compute_self_attribution"])
def c(w):
    m, a, sp, off = make(w, ifvp="V")
    out = a.compute_self_attribution()
    ensure_eq(out, (sp.N,), lambda i: S([wrap(sp.D)], lambda p: T.mul(T.fn("G", i, p), V(i, p))), "gradient . preconditioned gradient of the same row")


for damp in ("given", "attributor", "default"):
    @contract("P16", "compute_preconditioners[%s]" % damp, [BA + "compute_preconditioners"])
    def c(w, damp=damp):
        d0, d1 = Real("damping"), Real("given")
        m, a, sp, off = make(w, damping=d0 if damp == "attributor" else None)
        calls = []

        def inverse(M, damping=None):
            calls.append((M, damping))
            return ("inverse", len(calls) - 1)
        m.stable_inverse = inverse
        off.by_rows = True
        a.compute_preconditioners(*([d1] if damp == "given" else []))
        ensure(off.stored == {q: ("inverse", q) for q in range(LAYERS)} and len(calls) == LAYERS, "one inverse for each layer")
        for q, (M, d) in enumerate(calls):
            ensure_eq(M, (sp.dims[q], sp.dims[q]), lambda i, j: T.div(S([sp.N], lambda r: T.mul(G(sp, q, r, i), G(sp, q, r, j))), T.to_real(P(sp.N))),
                      "layer %d: mean of g g^T over all training rows" % q)
            if damp == "default":
                ensure(d is None, "the default damping")
            else:
                ensure_num(d, P(d1 if damp == "given" else d0), "the damping given")


@contract("P16", "compute_preconditioners[Identity]", [BA + "compute_preconditioners"])
def c(w):
    m, a, sp, off = make(w, hessian="Identity")
    a.compute_preconditioners()
    ensure(off.stored == {q: None for q in range(LAYERS)}, "no preconditioner")


for damp in ("given", "default"):
    @contract("P16", "stable_inverse[%s]" % damp, [UT + "stable_inverse"])
    def c(w, damp=damp):
        u = w.load("dattri.algorithm.block_projected_if.core.utils")
        n = Int("n", 1)
        A, d = tensor("A", n, n), Real("damping")
        torch = w.stubs["torch"]
        fails = bool(ENG.branch(T.eq(T.var("cholesky_fails", "I"), ONE)))
        seen = []

        def chol(x):
            if fails:
                raise RuntimeError("not positive definite")
            return ("chol", x)

        def full(x):
            return SymTensor(x.pshape, lambda i: T.fn("Inv", lam2(x), *i), "f")

        def lam2(x):
            p, q = T.fresh("p"), T.fresh("q")
            return T.lam([p, q], list(x.pshape), x.at([T.atom(p), T.atom(q)]))
        torch.linalg.cholesky = chol
        torch.cholesky_inverse = lambda L: full(L[1])
        torch.inverse = full
        out = u.stable_inverse(A, damping=d) if damp == "given" else u.stable_inverse(A)
        lam = P(d) if damp == "given" else T.num(Fraction(1, 10 ** 5), "R")
        tr = S([n], lambda k: T.fn("A", k, k))

        def want(i, j):
            p, q = T.fresh("p"), T.fresh("q")
            x, y = T.atom(p), T.atom(q)
            e = T.add(T.fn("A", x, y), T.mul(T.div(T.mul(lam, tr), T.to_real(P(n))), T.iverson(T.eq(x, y))))
            return T.fn("Inv", T.lam([p, q], [P(n), P(n)], e), i, j)
        ensure_eq(out, (n, n), want, "inverse of M + damping * mean(diag M) * I")


class Hooks:
    """the contract of HookManager (property P18): after the backward pass of a batch, the gradients of its samples, one tensor per layer"""

    def __init__(self, sp, log, used=(True,) * LAYERS):
        self.sp, self.log, self.used, self.now, self.comp = sp, log, used, None, None

    def set_compressors(self, comp):
        self.comp = comp

    def get_compressed_grads(self):
        if self.now is None:
            ENG.fail("pre: gradients are read after a backward pass", "no backward pass")
        (kind, x), self.now = self.now, None
        r = []
        for q in range(LAYERS):
            def body(i, q=q):
                v = T.fresh("f")
                return T.fn("%s%d" % (kind, q), T.lam([v], [x.pshape[1]], x.at([i[0], T.atom(v)])), i[1])
            r.append(SymTensor([x.pshape[0], P(self.sp.dims[q])], body, "f") if self.used[q] else None)
        return r

    def remove_hooks(self):
        self.log.append("removed")


class Loss:
    def __init__(self, hooks, kind, x):
        self.hooks, self.kind, self.x = hooks, kind, x

    def backward(self):
        self.hooks.now = (self.kind, self.x)


class Net(Model):
    def zero_grad(self):
        pass


def first(batch):
    return dict.__getitem__(batch, "x") if isinstance(batch, dict) else batch[0]


def attach(m, a, sp, log, used=(True,) * LAYERS):
    net = a.model
    hooks = Hooks(sp, log, used)
    m.HookManager = lambda model, names, device: hooks if model is net and names == a.layer_names else ENG.fail("pre: hooks", "")
    a.task.original_loss_func = lambda model, batch, device: Loss(hooks, "gl", first(batch))
    a.task.original_target_func = lambda model, batch, device: Loss(hooks, "gt", first(batch))
    return hooks


def grad(kind, q, X, F, r, c):
    return T.fn("%s%d" % (kind, q), rowlam(X, F, r), c)


FORMS = {"tuple": None, "dict": lambda fs: EDict({"x": fs[0], "y": fs[1]})}

for form in FORMS:
    for hess in ("eFIM", "Identity"):
        for dims in ("known", "unknown"):
            if form == "dict" and (hess, dims) != ("eFIM", "known"):
                continue

            @contract("P16", "cache[%s, %s, %s]" % (form, hess, dims), [BA + "cache"])
            def c(w, form=form, hess=hess, dims=dims):
                m, a, sp, off = make(w, hessian=hess)
                F = Int("F", 1)
                a.model = Net()
                log = []
                hooks = attach(m, a, sp, log)
                rows = [SymTensor([P(sp.N), P(d)], lambda i, q=q: T.fn("stale", T.num(q), *i), "f") for q, d in enumerate(sp.dims)]

                def store(k, parts, is_test=False):
                    ENG.check("pre: training data, one part per layer", T.TRUE if not is_test and len(parts) == LAYERS else T.FALSE)
                    for q, x in enumerate(parts):
                        rows[q][wrap(sp.start(k)):wrap(sp.end(k))] = x
                off.store_gradients = store
                off.clear_cache = lambda: log.append("cleared")
                a.metadata.initialize_complete_dataset = lambda dl: log.append("meta")
                a.metadata.add_batch_info = lambda k, n: ENG.check("pre: size of the batch", T.eq(P(n), T.sub(sp.end(k), sp.start(k))))
                a.metadata.save_metadata = lambda: log.append("saved")
                a.compute_preconditioners = lambda: log.append("precond")
                a.compute_ifvp = lambda: log.append("ifvp")
                dl = loader("X", sp.N, sp.b, [F], [], pack=FORMS[form])
                a._setup_compressors = lambda d: log.append("setup") or setattr(a, "compressors", ["comp"] * LAYERS)
                if dims == "unknown":
                    a.layer_dims = None
                a.cache(dl)
                want = ["setup", "cleared", "meta", "saved", "removed"] + (["precond", "ifvp"] if hess == "eFIM" else [])
                ensure([x for x in log] == want, "earlier results are dropped, then gradients, preconditioners and products are computed")
                ensure(a.full_train_dataloader is dl and hooks.comp == ["comp"] * LAYERS and a.hook_manager is None, "compressed gradients; the hooks are removed")
                for q in range(LAYERS):
                    ensure_eq(rows[q], (sp.N, sp.dims[q]), lambda r, c: grad("gl", q, "X0", F, r, c), "layer %d: row r is the loss gradient of sample r" % q)
                    ensure_num(a.layer_dims[q], P(sp.dims[q]), "dimension of layer %d" % q)


for form in FORMS:
    for used in ("all used", "one unused"):
        @contract("P16", "_compute_test_gradients[%s, %s]" % (form, used), [BA + "_compute_test_gradients"])
        def c(w, form=form, used=used):
            m, a, sp, off = make(w)
            F, Tn, tb = Int("F", 1), Int("T", 1), Int("tb", 1)
            a.model = Net()
            log = []
            a.compressors = ["comp"] * LAYERS
            flags = (True,) * LAYERS if used == "all used" else (True, False, True)
            if used != "all used":
                sp.dims[1] = 0
                a.layer_dims[1] = 0
            hooks = attach(m, a, sp, log, flags)
            out, mapping = a._compute_test_gradients(loader("Y", Tn, tb, [F], [], pack=FORMS[form]))
            ensure(hooks.comp == ["comp"] * LAYERS and log == ["removed"] and a.hook_manager is None, "compressed gradients; the hooks are removed")
            if not ensure_shape(out, (Tn, wrap(sp.D)), "test gradients"):
                return
            for q in range(LAYERS):
                if flags[q]:
                    part = out[:, wrap(sp.col(q)):wrap(sp.col(q + 1))]
                    ensure_eq(part, (Tn, sp.dims[q]), lambda r, c: grad("gt", q, "Y0", F, r, c), "layer %d: row j is the target gradient of test sample j" % q)
