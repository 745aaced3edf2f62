"""P08: Fisher products and the EK-FAC estimators."""
from contracts.lib import *
from engine import tstub
from engine.core import ENG
from engine import solver as sv
from engine.runtime import b_len

M = "dattri/func/fisher.py::"
E = "dattri/algorithm/influence_function.py::IFAttributorEKFAC."


def flam(xs):
    out = []
    for x in xs:
        vs = [T.fresh("a") for _ in x.pshape]
        out.append(T.lam(vs, list(x.pshape), x.at([atom(v) for v in vs])))
    return out


def fun(*xs):
    return SymTensor([], lambda i: T.fn("F", *flam(xs)), "f")


for at in (False, True):
    for rows in (False, True):
        fn = "ifvp_at_x_explicit" if at else "ifvp_explicit"

        @contract("P08", "%s[%s]" % (fn, "rows" if rows else "vector"), [M + fn])
        def c(w, at=at, rows=rows):
            h = w.load("dattri.func.fisher")
            D0, D, R, reg = Int("D0", 1), Int("D1", 1), Int("R", 1), Real("reg")
            xs = (tensor("x0", D0), tensor("x1", D))
            v = tensor("v", R, D) if rows else tensor("v", D)
            if at:
                out = h.ifvp_at_x_explicit(fun, *xs, argnums=1, regularization=reg)(v)
            else:
                out = h.ifvp_explicit(fun, argnums=1, regularization=reg)(xs, v)
            g = tstub.grad(fun, argnums=1)(*xs)
            K = SymTensor([P(D), P(D)], lambda i: T.add(T.mul(g.at([i[0]]), g.at([i[1]])), T.ite(
                T.eq(i[0], i[1]), P(reg), T.num(0, "R"))), "f")
            X = tstub.solve(K, v.T) if rows else tstub.solve(K, v)
            ensure_eq(out, (R, D) if rows else (D,), (lambda i, j: X.at([j, i])) if rows else (lambda i: X.at([i])),
                      "(g g' + reg I)^-1 v")


# ------------------------------------------------------------------ estimators
class Out:
    """a layer's output whose gradient backward() leaves in .grad"""
    def __init__(self, t):
        self.t, self.grad = t, None

    def size(self, d):
        return self.t.size(d)


class Cache:
    """what the hooks leave after a forward pass: name -> (input, output)"""
    def __init__(self):
        self.cur = None

    def items(self):
        if self.cur is None:
            ENG.fail("pre: the layer cache is read after a forward pass", "empty")
        return EList([(k, v) for k, v in self.cur.items()])


class Loss:
    def __init__(self, cache, outs, B):
        self.cache, self.outs, self.f, self.B = cache, outs, ONE, B

    def __imul__(self, k):
        self.f = T.mul(self.f, P(k))
        return self

    def __mul__(self, k):
        r = Loss(self.cache, self.outs, self.B)
        r.f = T.mul(self.f, P(k))
        return r

    __rmul__ = __mul__

    def backward(self, retain_graph=None):
        for k, (o, g) in self.outs.items():
            sn = tstub.snapshot(g)
            # gradient of the batch mean with respect to the layer output
            o.grad = SymTensor(sn.pshape, lambda i, sn=sn: T.div(T.mul(T.to_real(self.f), sn.at(i)), T.to_real(self.B)), "f")


LAYERS = {"fc": None, "seq": "T", "seq2": "T"}


def gl_(nm, X, F, r, *i):
    return T.fn(nm, rowlam(X, F, r), *[P(q) for q in i])


class World_:
    def __init__(self, X, F, layers, Ts, mask=None):
        self.X, self.F, self.layers, self.T, self.mask = X, F, layers, Ts, mask
        self.I = {k: Int("I_" + k, 1) for k in layers}
        self.O = {k: Int("O_" + k, 1) for k in layers}
        self.cache = Cache()

    def func(self, batch):
        x = batch[0]
        B = x.pshape[0]

        def mk(nm, k, D):
            seq = self.layers[k] is not None

            def body(i):
                v = T.fresh("f")
                L = T.lam([v], [x.pshape[1]], x.at([i[0], T.atom(v)]))
                return T.fn(nm + k, L, *i[1:])
            return SymTensor([B] + ([P(self.T)] if seq else []) + [P(D)], body, "f")
        cur, outs = {}, {}
        for k in self.layers:
            o = Out(mk("S", k, self.O[k]))
            cur[k] = (mk("A", k, self.I[k]), o)
            outs[k] = (o, mk("G", k, self.O[k]))
        self.cache.cur = cur
        loss = Loss(self.cache, outs, B)
        if self.mask:
            def mk_(i):
                v = T.fresh("f")
                return T.fn("mask", T.lam([v], [x.pshape[1]], x.at([i[0], T.atom(v)])), i[1], sort="I")
            # precondition: every batch has a valid step
            ENG.assume(T.le(ONE, S([B, self.T], lambda r, t: mk_([r, t]))))
            return loss, SymTensor([B, P(self.T)], mk_, "i")
        return loss

    def steps(self, k):
        return [P(self.T)] if self.layers[k] is not None else []

    def val(self, nm, k, r, t, i):
        return gl_(nm + k, self.X, self.F, r, *([t] if self.layers[k] is not None else []), i)

    def ts(self, k, f):
        """sum over time steps"""
        if self.layers[k] is None:
            return f(None)
        return S([self.T], f)


def used(N, bs, it):
    if it is None:
        return P(N)
    full = T.mul(P(it), P(bs))
    return T.ite(T.le(full, P(N)), full, P(N))


CASES = [(["fc"], None), (["fc", "seq"], None), (["seq", "fc"], None), (["fc"], "it")]
for names, lim in CASES:
    nm = "+".join(names) + (", max_iter" if lim else "")

    @contract("P08", "estimate_covariance[%s]" % nm, [M + "estimate_covariance", M + "_update_covariance"])
    def c(w, names=names, lim=lim):
        h = w.load("dattri.func.fisher")
        N, F, bs, Ts = Int("N", 1), Int("F", 1), Int("bs", 1), Int("T", 1)
        W = World_("Xtr0", F, {k: LAYERS[k] for k in names}, Ts)
        tr = loader("Xtr", N, bs, [F])
        it = None
        if lim:
            it = Int("max_iter", 1)
        cov = h.estimate_covariance(W.func, tr, W.cache, it)
        U = used(N, bs, it)
        ensure(set(dict.keys(cov)) == set(names), "one entry for each layer")
        for k in names:
            a, s = dict.__getitem__(cov, k)
            for t, q, D in ((a, "A", W.I[k]), (s, "G", W.O[k])):
                ensure_eq(t, (D, D), lambda i, j: T.div(S([U], lambda r: W.ts(k, lambda tt: T.mul(
                    W.val(q, k, r, tt, i), W.val(q, k, r, tt, j)))), T.to_real(U)), "%s covariance of %s" % (q, k))

    @contract("P08", "estimate_lambda[%s]" % nm, [M + "estimate_lambda", M + "_update_lambda"])
    def c(w, names=names, lim=lim):
        h = w.load("dattri.func.fisher")
        N, F, bs, Ts = Int("N", 1), Int("F", 1), Int("bs", 1), Int("T", 1)
        W = World_("Xtr0", F, {k: LAYERS[k] for k in names}, Ts)
        tr = loader("Xtr", N, bs, [F])
        it = None
        if lim:
            it = Int("max_iter", 1)
        Q = {k: (tensor("Qa_" + k, W.I[k], W.I[k]), tensor("Qs_" + k, W.O[k], W.O[k])) for k in names}
        qd = EDict()
        for k in names:
            dict.__setitem__(qd, k, Q[k])
        lam = h.estimate_lambda(W.func, tr, qd, W.cache, it)
        U = used(N, bs, it)
        ensure(set(dict.keys(lam)) == set(names), "one entry for each layer")
        for k in names:
            qa, qs = Q[k]

            def grad_(r, o, i):
                return W.ts(k, lambda t: T.mul(W.val("G", k, r, t, o), W.val("A", k, r, t, i)))

            def want(o, i):
                def one(r):
                    x = S([W.O[k], W.I[k]], lambda p, q: T.mul(T.mul(qs.at([p, o]), grad_(r, p, q)), qa.at([q, i])))
                    return T.mul(x, x)
                return T.div(S([U], one), T.to_real(U))
            ensure_eq(dict.__getitem__(lam, k), (W.O[k], W.I[k]), want, "eigenvalues of " + k)


@contract("P08", "estimate_covariance[seq, mask]", [M + "estimate_covariance", M + "_update_covariance"])
def c(w):
    h = w.load("dattri.func.fisher")
    ENG.total_division = True            # a batch without any valid step has no average
    N, F, bs, Ts = Int("N", 1), Int("F", 1), Int("bs", 1), Int("T", 1)
    W = World_("Xtr0", F, {"seq": "T"}, Ts, mask=True)
    sv.FACTS["mask"] = lambda a: [T.le(ZERO, T.fn("mask", *a, sort="I"))]
    sv.NONNEG.add("mask")
    cov = h.estimate_covariance(W.func, loader("Xtr", N, bs, [F]), W.cache, None)
    def im(r, t):
        return T.fn("mask", rowlam("Xtr0", F, r), t, sort="I")

    def mk(r, t):
        return T.to_real(im(r, t))
    tot = T.to_real(S([N, Ts], im))
    a, s = dict.__getitem__(cov, "seq")
    ensure_eq(a, (W.I["seq"], W.I["seq"]), lambda i, j: T.div(S([N, Ts], lambda r, t: T.mul(
        T.mul(T.mul(mk(r, t), mk(r, t)), W.val("A", "seq", r, t, i)), W.val("A", "seq", r, t, j))), tot),
        "average over the steps kept by the mask")
    ensure_eq(s, (W.O["seq"], W.O["seq"]), lambda i, j: T.div(S([N, Ts], lambda r, t: T.mul(
        W.val("G", "seq", r, t, i), W.val("G", "seq", r, t, j))), tot), "average over the steps kept by the mask")


@contract("P08", "estimate_lambda[seq, mask]", [M + "estimate_lambda", M + "_update_lambda"])
def c(w):
    h = w.load("dattri.func.fisher")
    N, F, bs, Ts = Int("N", 1), Int("F", 1), Int("bs", 1), Int("T", 1)
    W = World_("Xtr0", F, {"seq": "T"}, Ts, mask=True)
    sv.FACTS["mask"] = lambda a: [T.le(ZERO, T.fn("mask", *a, sort="I"))]
    sv.NONNEG.add("mask")
    qa, qs = tensor("Qa", W.I["seq"], W.I["seq"]), tensor("Qs", W.O["seq"], W.O["seq"])
    qd = EDict()
    dict.__setitem__(qd, "seq", (qa, qs))
    lam = h.estimate_lambda(W.func, loader("Xtr", N, bs, [F]), qd, W.cache, None)

    def grad_(r, o, i):
        return S([W.T], lambda t: T.mul(T.mul(W.val("G", "seq", r, t, o), W.val("A", "seq", r, t, i)), T.to_real(
            T.fn("mask", rowlam("Xtr0", F, r), t, sort="I"))))

    def want(o, i):
        def one(r):
            x = S([W.O["seq"], W.I["seq"]], lambda p, q: T.mul(T.mul(qs.at([p, o]), grad_(r, p, q)), qa.at([q, i])))
            return T.mul(x, x)
        return T.div(S([N], one), T.to_real(P(N)))
    ensure_eq(dict.__getitem__(lam, "seq"), (W.O["seq"], W.I["seq"]), want, "eigenvalues over samples, masked steps left out")


@contract("P08", "estimate_eigenvector", [M + "estimate_eigenvector"])
def c(w):
    h = w.load("dattri.func.fisher")
    D = {k: (Int("I" + k, 1), Int("O" + k, 1)) for k in "pq"}
    cov = EDict()
    for k in "pq":
        dict.__setitem__(cov, k, (tensor("A" + k, D[k][0], D[k][0]), tensor("S" + k, D[k][1], D[k][1])))
    # precondition: covariances are symmetric
    from engine import tstub as ts
    out = h.estimate_eigenvector(cov)
    ensure(set(dict.keys(out)) == {"p", "q"}, "one entry for each layer")
    for k in "pq":
        qa, qs = dict.__getitem__(out, k)
        a, s = dict.__getitem__(cov, k)
        ea, es = ts.eigh(a, UPLO="U")[1], ts.eigh(s, UPLO="U")[1]
        ensure_eq(qa, (D[k][0], D[k][0]), lambda i, j: ea.at([i, j]), "eigenvectors of the input covariance")
        ensure_eq(qs, (D[k][1], D[k][1]), lambda i, j: es.at([i, j]), "eigenvectors of the output covariance")


# ------------------------------------------------------------------ attributor
class Par:
    requires_grad = True

    def __init__(self, shape):
        self.shape = shape


class Lin:
    def __init__(self, name, bias):
        self.name, self.hooks = name, []
        self.I, self.O = Int("I_" + name, 1), Int("O_" + name, 1)
        self.weight = Par((self.O, self.I))
        self.bias = Par((self.O,)) if bias else None

    def register_forward_hook(self, f):
        self.hooks.append(f)
        m = self

        class H:
            def remove(self):
                if f in m.hooks:
                    m.hooks.remove(f)
        return H()


class Model:
    def __init__(self, mods, other):
        self.mods, self.other = mods, other

    def get_submodule(self, n):
        return {m.name: m for m in self.mods}[n]

    def named_modules(self):
        return [("", self)] + [(m.name, m) for m in self.mods] + [("act", self.other)]

    def named_parameters(self):
        out = []
        for m in self.mods:
            out.append((m.name + ".weight", m.weight))
            if m.bias is not None:
                out.append((m.name + ".bias", m.bias))
        return EList(out)

    def parameters(self):
        return EList([p for _, p in self.named_parameters().items])


class ETask:
    def __init__(self, model, n=1, target=None):
        self.model, self.checkpoints, self.target = model, EList(["c"] * n), target

    def get_checkpoints(self):
        return self.checkpoints

    def get_param(self, ckpt_idx=0, **k):
        ENG.check("pre: checkpoint index", T.eq(P(ckpt_idx), ZERO))
        return ("theta", None)

    def get_target_func(self, **k):
        return self.target


def ekfac(w, spec, n=1, names=None, damping=None, target=None, explicit=True):
    mod = w.load("dattri.algorithm.influence_function")
    torch = w.stubs["torch"]

    torch.nn.Linear = type("Linear", (), {})

    class L(Lin, torch.nn.Linear):
        pass
    mods = [L(nm, b) for nm, b in spec]
    model = Model(mods, object())
    names = [m.name for m in mods] if names is None else names
    kw = {} if damping is None else {"damping": damping}
    a = mod.IFAttributorEKFAC(task=ETask(model, n, target), module_name=(EList(names) if isinstance(names, list) else names)
                              if explicit else None, **kw)
    return a, mods


SPECS = {"bias": [("m", True)], "no bias": [("m", False)], "bias, then none": [("m", True), ("k", False)],
         "two with bias": [("m", True), ("k", True)]}
for nm, spec in SPECS.items():
    for damp in (False, True):
        @contract("P08", "transform_test_rep[%s%s]" % (nm, ", damping" if damp else ""), [E + "transform_test_rep", E + "__init__"])
        def c(w, spec=spec, damp=damp):
            ENG.total_division = True
            d = Real("damping") if damp else None
            # modules in another order than in the model
            a, mods = ekfac(w, spec, names=[n for n, _ in reversed(spec)], damping=d)
            ensure(list(a.layer_name.items if isinstance(a.layer_name, EList) else a.layer_name) ==
                   [n + s for n, b in reversed(spec) for s in ([".weight", ".bias"] if b else [".weight"])],
                   "gradients are taken for the weights and biases of the modules, module by module")
            R = Int("R", 1)
            tot = ZERO
            offs = {}
            for m in reversed(mods):
                offs[m.name] = tot
                tot = T.add(tot, T.mul(P(m.O), P(m.I)), P(m.O) if m.bias is not None else ZERO)
            rep = tensor("V", R, wrap(tot))
            a.cached_q, a.cached_lambdas = EDict(), EDict()
            for m in mods:
                J = T.add(P(m.I), ONE) if m.bias is not None else P(m.I)
                dict.__setitem__(a.cached_q, m.name, (tensor("Qa_" + m.name, wrap(J), wrap(J)),
                                                      tensor("Qs_" + m.name, m.O, m.O)))
                dict.__setitem__(a.cached_lambdas, m.name, tensor("Lam_" + m.name, m.O, wrap(J)))
            out = a.transform_test_rep(0, rep)
            ensure_shape(out, (R, wrap(tot)), "one transformed row per test sample")
            for m in mods:
                off, I_, O_ = offs[m.name], P(m.I), P(m.O)
                J = T.add(I_, ONE) if m.bias is not None else I_
                qa, qs = dict.__getitem__(a.cached_q, m.name)
                lam = dict.__getitem__(a.cached_lambdas, m.name)

                def V(r, o, i):
                    wv = rep.at([r, T.add(off, T.mul(o, I_), i)])
                    if m.bias is None:
                        return wv
                    return T.ite(T.lt(i, I_), wv, rep.at([r, T.add(off, T.mul(O_, I_), o)]))

                def mid(r, p, q):
                    s = S([O_, J], lambda o, i: T.mul(T.mul(qs.at([o, p]), V(r, o, i)), qa.at([i, q])))
                    l = lam.at([p, q])
                    return T.div(s, T.add(l, P(d)) if damp else l)

                def want(r, o, i):
                    return S([O_, J], lambda p, q: T.mul(T.mul(qs.at([o, p]), mid(r, p, q)), qa.at([i, q])))
                ensure_eq(SymTensor([P(R), O_, I_], lambda i: out.at([i[0], T.add(off, T.mul(i[1], I_), i[2])]), "f"),
                          (R, m.O, m.I), want, "weight entries of " + m.name)
                if m.bias is not None:
                    ensure_eq(SymTensor([P(R), O_], lambda i: out.at([i[0], T.add(off, T.mul(O_, I_), i[1])]), "f"),
                              (R, m.O), lambda r, o: want(r, o, I_), "bias entries of " + m.name)


@contract("P08", "EK-FAC construction", [E + "__init__", E + "transform_test_rep"])
def c(w):
    spec = [("m", True), ("k", False)]
    expect_raise(ValueError, lambda: ekfac(w, spec, n=2), "several checkpoints are rejected")
    a, mods = ekfac(w, spec, explicit=False)
    ensure(list(a.module_name) == ["m", "k"], "all linear layers by default")
    ensure(list(a.layer_name) == ["m.weight", "m.bias", "k.weight"], "parameters of the layers")
    a, mods = ekfac(w, spec, names="k")
    ensure(list(a.module_name) == ["k"] and list(a.layer_name) == ["k.weight"], "a single module name")
    expect_raise(ValueError, lambda: a.transform_test_rep(1, tensor("V", Int("R", 1), Int("q", 1))),
                 "only checkpoint 0 exists")


class Rec:
    """a layer's output, recording retain_grad"""
    def __init__(self, io, name):
        self.io, self.name = io, name

    def retain_grad(self):
        self.io.setdefault("kept", set()).add(self.name)


for nm, spec in SPECS.items():
    for lim in (False, True):
        for seq in (False, True):
            @contract("P08", "EK-FAC cache[%s%s%s]" % (nm, ", max_iter" if lim else "", ", sequences" if seq else ""),
                      [E + "cache"])
            def c(w, spec=spec, lim=lim, seq=seq):
                fisher = w.load("dattri.func.fisher")
                B, Tn = Int("B", 1), Int("T", 1)
                lead = [B, Tn] if seq else [B]
                N, bs = Int("N", 1), Int("bs", 1)
                ld = loader("X", N, bs, [Int("F", 1)])
                seen = []
                io = {}

                def target(params, batch):
                    seen.append((params, batch))
                    for m in mods:
                        x = tensor("in_" + m.name, *(lead + [m.I]))
                        y = Rec(io, m.name)
                        io[m.name] = (x, y)
                        for h in list(m.hooks):
                            h(m, (x,), y)
                    return "loss"
                a, mods = ekfac(w, spec, target=target)
                mi = Int("max_iter", 1) if lim else None
                calls = []

                def run(func, dl, cache, it):
                    ensure(dl is ld, "the whole training set is used")
                    ENG.check("post: batches used", T.eq(P(it), P(mi) if lim else P(b_len(ld))))
                    io.clear()
                    out = func("batch")
                    ensure(out == "loss" and seen[-1] == ("theta", "batch"), "target function at the model's parameters")
                    ensure(set(dict.keys(cache)) == {m.name for m in mods}, "every module is recorded")
                    ensure(io.get("kept") == {m.name for m in mods}, "output gradients are kept")
                    for m in mods:
                        ci, co = dict.__getitem__(cache, m.name)
                        x, y = io[m.name]
                        ensure(co is y, "output of " + m.name)
                        J = wrap(T.add(P(m.I), ONE)) if m.bias is not None else m.I
                        ensure_eq(ci, tuple(lead + [J]), lambda *i: T.ite(T.lt(i[-1], P(m.I)), x.at(list(i)), T.num(1, "R"))
                                  if m.bias is not None else x.at(list(i)), "input of %s, with a one for the bias" % m.name)

                def cov(func, dl, cache, max_iter=None, device="cpu"):
                    run(func, dl, cache, max_iter)
                    calls.append("cov")
                    return "COV"

                def eig(x):
                    ensure(x == "COV", "eigenvectors of the covariances")
                    return "Q"

                def lam(func, dl, q, cache, max_iter=None, device="cpu"):
                    ensure(q == "Q", "eigenvalues in that basis")
                    run(func, dl, cache, max_iter)
                    return "LAM"
                fisher.estimate_covariance, fisher.estimate_eigenvector, fisher.estimate_lambda = cov, eig, lam
                if lim:
                    a.cache(ld, mi)
                else:
                    a.cache(ld)
                ensure(a.cached_q == "Q" and a.cached_lambdas == "LAM", "results are kept")
                ensure(a.full_train_dataloader is ld, "training set is remembered")
                ensure(all(not m.hooks for m in mods), "no hook is left on the model")
