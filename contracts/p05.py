"""P05: data value embeddings."""
from contracts.lib import *

A = "dattri/algorithm/dvemb.py::DVEmbAttributor."


class Param:
    def __init__(self):
        self.device = "cpu"


class Model:
    def parameters(self):
        return iter([Param()])

    def eval(self):
        return self

    def zero_grad(self):
        pass


class Task:
    def __init__(self, factor=False):
        def f2(params, data):
            return None

        def f3(model, data, device):
            return None
        self.original_loss_func = f3 if factor else f2
        self.m = Model()

    def get_model(self):
        return self.m


def build(w, **k):
    dv = w.load("dattri.algorithm.dvemb")
    return dv, dv.DVEmbAttributor(Task(), **k)


def steps(w, a, keys, Pd, B):
    """Cached histories with an arbitrary number of steps per epoch and arbitrary contents."""
    Ts = [Int("T%d" % i, 1) for i, _ in enumerate(keys)]
    g = lambda e: (lambda t: SymTensor([P(B), P(Pd)], lambda i, t=P(t): T.fn("G%d" % e, t, *i), "f"))
    ix = lambda e: (lambda t: SymTensor([P(B)], lambda i, t=P(t): T.fn("idx%d" % e, t, *i, sort="I"), "i"))
    lr = lambda e: (lambda t: wrap(T.fn("lr%d" % e, P(t))))
    for e, key in enumerate(keys):
        a.cached_gradients[key] = EList.seq(P(Ts[e]), lambda k, e=e: g(e)(k))
        a.learning_rates[key] = EList.seq(P(Ts[e]), lambda k, e=e: lr(e)(k))
        a.data_indices[key] = EList.seq(P(Ts[e]), lambda k, e=e: ix(e)(k))
    return [(key, Ts[e], lr(e), g(e), ix(e)) for e, key in enumerate(keys)]


def check_cache(w, keys):
    Pd, B = Int("P", 1), Int("B", 1)
    dv, a = build(w)
    eps = steps(w, a, keys, Pd, B)
    a.cache()
    ref = w.spec("dvemb").embed(Pd, wrap(a.embeddings[keys[0]].pshape[0]), EList(sorted(eps, key=lambda e: -e[0])))
    for key in keys:
        t = dict.__getitem__(ref, key)
        ensure_eq(a.embeddings[key], t.shape, lambda i, p: t.at([i, p]), "embedding of epoch %d" % key)


@contract("P05", "cache[one epoch]", [A + "cache"])
def c(w):
    check_cache(w, [3])


@contract("P05", "cache[two epochs]", [A + "cache"])
def c(w):
    check_cache(w, [3, 5])


@contract("P05", "cache[two epochs recorded out of order]", [A + "cache"])
def c(w):
    check_cache(w, [5, 3])


@contract("P05", "cache[three epochs recorded out of order]", [A + "cache"])
def c(w):
    check_cache(w, [4, 9, 0])


@contract("P05", "cache[without data]", [A + "cache"])
def c(w):
    dv, a = build(w)
    expect_raise(ValueError, lambda: a.cache(), "no cached gradients is an error")
    dv, b = build(w)
    expect_raise(RuntimeError, lambda: b.attribute(None), "attribute before cache is an error")


def with_task(w, D, dim=None, seed=None):
    """A real attributor over the task contract; theta is the model's current parameter vector."""
    dv = w.load("dattri.algorithm.dvemb")
    task = Task()
    tc = TaskContract(1, D)
    task.get_grad_loss_func = tc.get_grad_loss_func

    class NP:
        def __init__(self, name, train):
            self.name, self.requires_grad = name, train

        def detach(self):
            return self
    ps = [("w", NP("w", True)), ("frozen", NP("frozen", False)), ("v", NP("v", True))]
    Model.named_parameters = lambda self: EList(list(ps))

    def flat(d):
        # the task's functions take the trainable parameters only
        got = [(k, p.name) for k, p in dict.items(d)]
        nm = "theta" if got == [("w", "w"), ("v", "v")] else "other"
        return SymTensor([P(D)], lambda i: T.fn(nm, ZERO, *i), "f")
    dv.flatten_params = flat
    kw = {}
    if dim is not None:
        dv.random_project = ProjContract(dim, proj_dim=dim, proj_seed=seed)
        dv.RandomProjectionParams = Params
        kw["proj_params"] = Params(proj_dim_per_layer=dim, proj_seed=seed, proj_max_batch_size=32)
    a = dv.DVEmbAttributor(task, **kw)
    return dv, a


class Params:
    def __init__(self, **k):
        self.__dict__.update(k)


def row(D, X, F, r, dim=None, seed=None):
    g = gl(0, D, X, F, r)
    return g if dim is None else proj(g, D, seed, 0)


@contract("P05", "attribute[full gradients]", [A + "attribute", A + "_calculate_full_gradients"])
def c(w):
    attr(w, None, None)


@contract("P05", "attribute[projected gradients]", [A + "attribute", A + "_calculate_full_gradients"])
def c(w):
    attr(w, Int("Q", 1), Int("seed"))


def attr(w, dim, seed):
    D, M, bt, F, N = Int("D", 1), Int("M", 1), Int("bt", 1), Int("F", 1), Int("N", 1)
    dv, a = with_task(w, D, dim, seed)
    if dim is not None:
        # the projector is built once, for the first batch (all further batches are not larger)
        pass
    Q = D if dim is None else dim
    E = {4: tensor("E4", N, Q), 7: tensor("E7", N, Q)}
    for k, v in E.items():
        a.embeddings[k] = v
    te = loader("Xte", M, bt, [F])
    emb = lambda ks: (lambda i, p: T.add(*[T.fn("E%d" % k, i, p) for k in ks]))

    def want(ks):
        return lambda i, j: S([Q], lambda p: T.mul(emb(ks)(i, p), row(D, "Xte0", F, j, dim, seed)(p)))
    ensure_eq(a.attribute(te), (N, M), want([4, 7]), "scores summed over the epochs")
    ensure_eq(a.attribute(te, epoch=7), (N, M), want([7]), "scores of one epoch")
    i0, i1, n = Int("i0", 0), Int("i1", 0), P(N)
    ENG.assume(T.band(T.lt(P(i0), n), T.lt(P(i1), n)))
    sel = a.attribute(te, epoch=4, train_data_indices=EList([i0, i1]))
    ensure_eq(sel, (2, M), lambda i, j: want([4])(T.add(T.mul(T.sub(ONE, i), P(i0)), T.mul(i, P(i1))), j),
              "scores of selected samples")
    expect_raise(ValueError, lambda: a.attribute(te, epoch=5), "an epoch without embeddings is an error")


@contract("P05", "cache_gradients[full]", [A + "cache_gradients", A + "_cache_full_gradients", A + "_calculate_full_gradients"])
def c(w):
    D, B, F = Int("D", 1), Int("B", 1), Int("F", 1)
    dv, a = with_task(w, D)
    lr1, lr2 = Real("lr1"), Real("lr2")
    X = SymTensor([P(B), P(F)], lambda i: T.fn("X1", *i), "f")
    Y = SymTensor([P(B), P(F)], lambda i: T.fn("X2", *i), "f")
    ix1, ix2 = tensor("ix1", B, kind="i"), tensor("ix2", B, kind="i")
    a.cache_gradients(2, (X,), ix1, lr1)
    a.cache_gradients(2, (Y,), ix2, lr2)
    a.cache_gradients(9, (X,), ix1, lr2)
    ensure(len(a.cached_gradients[2]) == 2 and len(a.cached_gradients[9]) == 1, "one entry per step, per epoch")
    for e, q, nm, lr, ix in ((2, 0, "X1", lr1, ix1), (2, 1, "X2", lr2, ix2), (9, 0, "X1", lr2, ix1)):
        ensure_eq(a.cached_gradients[e][q], (B, D), lambda i, p: gl(0, D, nm, F, i)(p), "cached gradients")
        ensure_num(a.learning_rates[e][q], T.div(P(lr), T.to_real(P(B))), "learning rate per sample")
        ensure_eq(a.data_indices[e][q], (B,), lambda i: ix.at([i]), "sample indices")


# ------------------------------------------------------------------ factorised gradients
def factors(B, L, bias):
    """Two linear layers' activations A and output gradients Bg; L = sequence length or None."""
    out, dims = [], []
    for q in range(2):
        di, do = Int("din%d" % q, 1), Int("dout%d" % q, 1)
        sh = (B,) if L is None else (B, L)
        f = {"A": tensor("A%d" % q, *sh, di), "B": tensor("G%d" % q, *sh, do), "has_bias": bias[q]}
        out.append(EDict(f))
        dims.append((di, do))
    return EList(out), dims


def lsum(L, f):
    """sum over the sequence positions (a single one without sequence axis)."""
    if L is None:
        return f(lambda nm, r, p: T.fn(nm, r, p))
    return S([L], lambda l: f(lambda nm, r, p: T.fn(nm, r, l, p)))


def reconstruct(w, seq, bias):
    B, L = Int("B", 1), (Int("L", 1) if seq else None)
    dv, a = build(w)
    fs, dims = factors(B, L, bias)
    t = a._reconstruct_gradients(fs)
    off = ZERO
    r = T.var("r")
    ENG.assume(T.in_range(r, P(B)))
    total = T.num(0)
    for q, (di, do) in enumerate(dims):
        total = T.add(total, T.mul(P(di), P(do)), P(do) if bias[q] else T.num(0))
    ensure_shape(t, (B, wrap(total)), "reconstructed gradients")
    for q, (di, do) in enumerate(dims):
        o, i = T.var("o%d" % q), T.var("n%d" % q)
        ENG.assume(T.band(T.in_range(o, P(do)), T.in_range(i, P(di))))
        got = t.at([r, T.add(off, T.mul(o, P(di)), i)])
        ENG.check("post: weight gradient of layer %d" % q, T.eq(got, lsum(L, lambda at: T.mul(
            at("G%d" % q, r, o), at("A%d" % q, r, i)))))
        off = T.add(off, T.mul(P(di), P(do)))
        if bias[q]:
            got = t.at([r, T.add(off, o)])
            ENG.check("post: bias gradient of layer %d" % q, T.eq(got, lsum(L, lambda at: at("G%d" % q, r, o))))
            off = T.add(off, P(do))


for _seq in (False, True):
    for _b in ((True, True), (True, False), (False, True)):
        def c(w, s=_seq, b=_b):
            reconstruct(w, s, b)
        contract("P05", "_reconstruct_gradients[%s, bias %s]" % ("sequence" if _seq else "vector", _b),
                 [A + "_reconstruct_gradients"])(c)


def projected(w, kind, seq):
    B, L, K, seed = Int("B", 1), (Int("L", 1) if seq else None), Int("K", 1), Int("seed")
    dv, a = build(w)
    fs, dims = factors(B, L, (True, False))
    a.projection_dim_per_layer = K
    a.proj_params = Params(proj_seed=seed, proj_max_batch_size=32)
    a.device = "cpu"

    class Lay:
        def __init__(self, di, do):
            self.weight = tensor("W", do, di)
    a._linear_layers = EList([Lay(*d) for d in dims])
    nb = wrap(P(B)) if L is None else wrap(T.mul(P(B), P(L)))
    dv.random_project = ProjContract(K, proj_dim=K, proj_seed=seed)
    dv.RandomProjectionParams = Params
    a._setup_projectors(nb)
    t = a._project_gradients_factors_kronecker(fs) if kind == "k" else a._project_gradients_factors_elementwise(fs)
    # the layout of the flattened gradient is not observable: only inner products are
    ip = t @ t.T
    k = P(K)

    def pr(nm, D, e, r, l):
        lam = veclam(lambda p: T.fn(nm, r, *([] if l is None else [l]), p), D)
        return T.fn("Proj", P(seed), ZERO, lam, e)

    def grad(q, r, o, i):
        f = lambda l: T.mul(pr("G%d" % q, dims[q][1], o, r, l), pr("A%d" % q, dims[q][0], i, r, l))
        return f(None) if L is None else S([L], f)

    def want(r, s):
        out = T.num(0, "R")
        for q in range(2):
            if kind == "k":
                out = T.add(out, S([k, k], lambda o, i: T.mul(grad(q, r, o, i), grad(q, s, o, i))))
            else:
                out = T.add(out, T.mul(S([k], lambda o: T.mul(grad(q, r, o, o), grad(q, s, o, o))), T.to_real(k)))
        return out
    ensure_eq(ip, (B, B), want, "inner products of projected gradients")


for _seq in (False, True):
    for _k in "ke":
        def c(w, s=_seq, k=_k):
            projected(w, k, s)
        _n = {"k": "kronecker", "e": "elementwise"}[_k]
        contract("P05", "_project_gradients_factors_%s[%s]" % (_n, "sequence" if _seq else "vector"),
                 [A + "_project_gradients_factors_" + _n, A + "_setup_projectors"])(c)


def factorised(w, kind, ctx):
    """Caching in the factorised modes; the hooks are replaced by their contract (activations, output gradients)."""
    B, K = Int("B", 1), Int("K", 1)
    dv, a = build(w)
    a.use_factorization, a.factorization_type = True, ("kronecker" if kind == "none" else kind)
    a.cached_factors = EDict()
    a.projection_dim_per_layer = None if kind == "none" else K
    fs, dims = factors(B, None, (True, False))
    lr, ix = Real("lr"), tensor("ix", B, kind="i")
    seen = []

    def proj_contract(caches):
        seen.append(caches)
        f0 = caches[0]
        return SymTensor([P(B), P(K)], lambda i: T.fn("Projected", i[0], i[1], f0["B"].at([i[0], ZERO])), "f")
    a._project_gradients_factors_kronecker = proj_contract if kind == "kronecker" else None
    a._project_gradients_factors_elementwise = proj_contract if kind == "elementwise" else None
    a._setup_projectors = lambda batch_size: setattr(a, "random_projectors", EList([]))
    G0 = lambda r, o: T.fn("G0", r, o)
    if ctx:
        class H:
            def remove(self):
                seen.append("removed")
        a._register_factorization_hooks = lambda: (EList([H(), H()]), fs)
        with a.cache_gradients_context(3, ix, lr):
            ensure(not seen, "hooks stay while the caller's step runs")
        ensure(seen[:2] == ["removed", "removed"], "the hooks are removed")
        # mean reduction is undone: the output gradients are those of the summed loss
        sc = lambda r, o: T.mul(T.to_real(P(B)), G0(r, o))
    else:
        a._calculate_gradient_factors = lambda batch: fs
        a.cache_gradients(3, (tensor("X", B, 2),), ix, lr)
        sc = G0
    ensure(len(a.learning_rates[3]) == 1 and len(a.data_indices[3]) == 1, "one step recorded")
    ensure_num(a.learning_rates[3][0], T.div(P(lr), T.to_real(P(B))), "learning rate per sample")
    ensure_eq(a.data_indices[3][0], (B,), lambda i: ix.at([i]), "sample indices")
    if kind == "none":
        got = a.cached_factors[3][0]
        for q, (di, do) in enumerate(dims):
            ensure_eq(got[q]["A"], (B, di), lambda r, i: T.fn("A%d" % q, r, i), "cached activations")
            ensure_eq(got[q]["B"], (B, do), lambda r, o: (T.mul(T.to_real(P(B)), T.fn("G%d" % q, r, o)) if ctx
                                                          else T.fn("G%d" % q, r, o)), "cached output gradients")
    else:
        ensure(len(a.cached_gradients[3]) == 1, "one projected gradient recorded")
        ensure_eq(a.cached_gradients[3][0], (B, K), lambda r, p: T.fn("Projected", r, p, sc(r, ZERO)),
                  "cached projected gradients")


for _k in ("none", "kronecker", "elementwise"):
    for _c in (False, True):
        def c(w, k=_k, cx=_c):
            factorised(w, k, cx)
        contract("P05", "cache_gradients%s[%s]" % ("_context" if _c else "", _k),
                 [A + "cache_gradients_context"] if _c else [A + "cache_gradients", A + "_cache_factored_gradients"])(c)


@contract("P05", "cache[factors]", [A + "cache"])
def c(w):
    """Factorised caching without projection: the embeddings of the reconstructed gradients."""
    Pd, B, T0 = Int("P", 1), Int("B", 1), Int("T0", 1)
    dv, a = build(w)
    eps = steps(w, a, [3], Pd, B)
    a.use_factorization, a.projection_dim_per_layer, a._params_dim = True, None, Pd
    a.cached_gradients = EDict({3: EList()})
    a.cached_factors = EDict({3: EList.seq(P(eps[0][1]), lambda k: EList([EDict({"A": eps[0][3](wrap(k))})]))})
    a._reconstruct_gradients = lambda fs: fs[0]["A"]
    a.cache()
    ref = w.spec("dvemb").embed(Pd, wrap(a.embeddings[3].pshape[0]), EList(eps))
    t = dict.__getitem__(ref, 3)
    ensure_eq(a.embeddings[3], t.shape, lambda i, p: t.at([i, p]), "embedding")
    expect_raise(ValueError, lambda: a.cache(gradients=EDict({0: EList()})), "external gradients are refused")
