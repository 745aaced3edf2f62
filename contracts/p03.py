"""P03: TRAK."""
from contracts.lib import *

A = "dattri/algorithm/trak.py::TRAKAttributor."


class NP:
    def __init__(self, n):
        self.n, self.requires_grad = n, True

    def numel(self):
        return self.n


class TrakTask(TaskContract):
    """get_model().named_parameters(): one trainable tensor (p elements) and one frozen one."""

    def get_model(self):
        a, b = NP(wrap(P(self.np_))), NP(wrap(P(self.nf_)))
        b.requires_grad = False
        return Model([("a", a), ("b", b)])

    def get_param(self, ckpt_idx=0, layer_name=None, **k):
        t, m = TaskContract.get_param(self, ckpt_idx, layer_name)
        if layer_name is not None:
            self.part.add(id(t))
            self.keep.append(t)
        return t, m


class Model:
    def __init__(self, l):
        self.l = l

    def named_parameters(self):
        return EList(self.l)

    def parameters(self):
        return EList([x for _, x in self.l])


class Full:
    def __init__(self, t):
        self.t = t


def build(w, C, D, Q, layer, reg):
    tk = w.load("dattri.algorithm.trak")
    pj = w.load("dattri.params.projection")
    seed = Int("seed")
    task = TrakTask(C, D)
    task.np_, task.nf_, task.part, task.keep = Int("p", 1), Int("pf", 1), set(), []
    tk.random_project = ProjContract(Q, proj_dim=Q, proj_seed=seed)

    def unflat(t, model):
        ENG.check("pre: the full parameter vector is unflattened",
                  T.FALSE if id(t) in task.part else T.TRUE)
        return Full(t)
    tk._unflatten_params = unflat

    def vmap(f, in_dims=0, randomness="error", **k):
        ENG.check("pre: the probability is vmapped over the batch", T.TRUE if in_dims == (None, 0) else T.FALSE)

        def g(params, data):
            x = data[0] if not isinstance(data, dict) else dict.__getitem__(data, "x")
            lamt = veclam(lambda p: params.t.at([p]), D)

            def body(i):
                v = T.fresh("f")
                return T.fn("prob", lamt, T.lam([v], [x.pshape[1]], x.at([i[0], T.atom(v)])))
            return SymTensor([x.pshape[0]], body, "f")
        return g
    tk.vmap = vmap
    a = tk.TRAKAttributor(task=task, correct_probability_func=None, layer_name=layer, regularization=reg,
                          proj_params=pj.TRAKProjectionParams(proj_dim=Q, proj_seed=seed))
    return a, seed, task


def feats(g, c, D, X, F, n, Q, seed, p, layer):
    s = T.sqrt(P(p))
    return SymTensor([P(n), P(Q)], lambda i: proj(
        lambda q: T.div(g(c, D, X, F, i[0], key=c if layer else None)(q), s), D, seed, c)(i[1]), "f")


def spec(C, D, F, N, M, Q, seed, reg, task, layer, same=False):
    from engine import tstub

    def f(i, j):
        def term(c):
            L = feats(gl, c, D, "Xtr0", F, N, Q, seed, task.np_, layer)
            G = feats(gt, c, D, "Xte0", F, M, Q, seed, task.np_, layer) if not same else L
            K = SymTensor([P(Q), P(Q)], lambda k: T.add(
                S([N], lambda r: T.mul(L.at([r, k[0]]), L.at([r, k[1]]))),
                T.ite(T.eq(k[0], k[1]), P(reg), T.num(0, "R"))), "f")
            X = tstub.solve(K, L.T)
            return S([Q], lambda q: T.mul(G.at([j, q]), X.at([q, i])))
        avg = T.div(S([C], term), P(C))
        qv = T.div(S([C], lambda c: T.sub(T.num(1, "R"), T.fn("prob", theta(c, D), rowlam("Xtr0", F, i)))), P(C))
        return T.mul(avg, qv)
    return f


def dims():
    return (Int("C", 1), Int("D", 1), Int("F", 1), Int("N", 1), Int("M", 1), Int("bs", 1), Int("bt", 1),
            Int("Q", 1))


for layer in (None, ["l"]):
    nm = "layer" if layer else "all"

    @contract("P03", "attribute[%s]" % nm, [A + "attribute", A + "__init__"])
    def c(w, layer=layer):
        C, D, F, N, M, bs, bt, Q = dims()
        reg = Real("reg")
        a, seed, task = build(w, C, D, Q, layer, reg)
        tr, te = loader("Xtr", N, bs, [F]), loader("Xte", M, bt, [F])
        ensure_eq(a.attribute(te, tr), (N, M), spec(C, D, F, N, M, Q, seed, reg, task, layer), "TRAK score")

    @contract("P03", "cache then attribute[%s]" % nm, [A + "cache", A + "attribute"])
    def c(w, layer=layer):
        C, D, F, N, M, bs, bt, Q = dims()
        reg = Real("reg")
        a, seed, task = build(w, C, D, Q, layer, reg)
        tr, te = loader("Xtr", N, bs, [F]), loader("Xte", M, bt, [F])
        a.cache(tr)
        ensure_eq(a.attribute(te), (N, M), spec(C, D, F, N, M, Q, seed, reg, task, layer), "TRAK score")

    @contract("P03", "self_attribute[%s]" % nm, [A + "self_attribute"])
    def c(w, layer=layer):
        C, D, F, N, M, bs, bt, Q = dims()
        reg = Real("reg")
        a, seed, task = build(w, C, D, Q, layer, reg)
        tr = loader("Xtr", N, bs, [F])
        f = spec(C, D, F, N, N, Q, seed, reg, task, layer, same=True)
        ensure_eq(a.self_attribute(tr), (N,), lambda i: f(i, i), "self score")

    @contract("P03", "cache then self_attribute[%s]" % nm, [A + "self_attribute", A + "cache"])
    def c(w, layer=layer):
        C, D, F, N, M, bs, bt, Q = dims()
        reg = Real("reg")
        a, seed, task = build(w, C, D, Q, layer, reg)
        tr = loader("Xtr", N, bs, [F])
        a.cache(tr)
        f = spec(C, D, F, N, N, Q, seed, reg, task, layer, same=True)
        ensure_eq(a.self_attribute(), (N,), lambda i: f(i, i), "self score")


@contract("P03", "loader protocol", [A + "attribute", A + "self_attribute", A + "cache"])
def c(w):
    C, D, F, N, M, bs, bt, Q = dims()
    a, seed, task = build(w, C, D, Q, None, Real("reg"))
    tr, te = loader("Xtr", N, bs, [F]), loader("Xte", M, bt, [F])
    expect_raise(ValueError, lambda: a.attribute(te), "no loader at all -> ValueError")
    expect_raise(ValueError, lambda: a.self_attribute(), "no loader at all -> ValueError (self)")
    a.cache(tr)
    expect_raise(ValueError, lambda: a.attribute(te, tr), "loader after cache -> ValueError")
    expect_raise(ValueError, lambda: a.self_attribute(tr), "loader after cache -> ValueError (self)")


def dict_setup(w):
    C, D, F, N, M, bs, bt, Q = dims()
    reg = Real("reg")
    a, seed, task = build(w, C, D, Q, None, reg)
    pack = lambda fs: EDict({"x": fs[0], "y": fs[1]})
    tr = loader("Xtr", N, bs, [F], ([], "i"), pack=pack)
    te = loader("Xte", M, bt, [F], ([], "i"), pack=pack)
    return a, tr, te, N, M, spec(C, D, F, N, M, Q, seed, reg, task, None), spec(
        C, D, F, N, N, Q, seed, reg, task, None, same=True)


@contract("P03", "dict batches, attribute", [A + "attribute"])
def c(w):
    a, tr, te, N, M, f, g = dict_setup(w)
    ensure_eq(a.attribute(te, tr), (N, M), f, "dict batches: TRAK score")


@contract("P03", "dict batches, self_attribute", [A + "self_attribute"])
def c(w):
    a, tr, te, N, M, f, g = dict_setup(w)
    ensure_eq(a.self_attribute(tr), (N,), lambda i: g(i, i), "dict batches: self score")


@contract("P03", "dict batches, cache", [A + "cache", A + "attribute", A + "self_attribute"])
def c(w):
    a, tr, te, N, M, f, g = dict_setup(w)
    a.cache(tr)
    ensure_eq(a.self_attribute(), (N,), lambda i: g(i, i), "dict batches: cached self score")
    ensure_eq(a.attribute(te), (N, M), f, "dict batches: cached TRAK score")


@contract("P03", "unsupported batch type", [A + "attribute", A + "self_attribute", A + "cache"])
def c(w):
    C, D, F, N, M, bs, bt, Q = dims()
    a, seed, task = build(w, C, D, Q, None, Real("reg"))
    tr = loader("Xtr", N, bs, [F], pack=lambda fs: fs[0])
    te, ok = loader("Xte", M, bt, [F], pack=lambda fs: fs[0]), loader("Xtr", N, bs, [F])
    expect_raise(TypeError, lambda: a.attribute(loader("Xte", M, bt, [F]), tr), "attribute: TypeError")
    expect_raise(TypeError, lambda: a.attribute(te, ok), "attribute (test): TypeError")
    expect_raise(TypeError, lambda: a.self_attribute(tr), "self_attribute: TypeError")
    expect_raise(TypeError, lambda: a.cache(tr), "cache: TypeError")
