"""P12: the transforms of the influence-function attributors."""
from fractions import Fraction
from contracts.lib import *
from engine import tstub
from engine import solver as sv
from engine.core import ENG

A = "dattri/algorithm/influence_function.py::IFAttributor"
SOLVER = {"Explicit": "ihvp_explicit", "CG": "ihvp_cg", "LiSSA": "ihvp_lissa"}
LAYERS = {"all": None, "layers": "some layers"}


def lam_of(x):
    vs = [T.fresh("a") for _ in x.pshape]
    return T.lam(vs, list(x.pshape), x.at([T.atom(v) for v in vs]))


def const(x):
    """a setting as a term"""
    if isinstance(x, str):
        return T.var("str_" + x.replace("-", "_"))
    return P(x)


def lemma(what, c):
    """proved, then used"""
    if ENG.check("lemma: " + what, c):
        ENG.assume(c)


class LossFn:
    """task.get_loss_func(layer_name, ckpt_idx): loss of (vector, data) at that checkpoint"""

    def __init__(self, ckpt, layers):
        self.ckpt, self.layers = ckpt, layers

    def __call__(self, *a, **k):
        raise AssertionError("the loss is only called by the solver")


class Task:
    loss_func_data_key = "data"

    def __init__(self, C, D, layers):
        self.C, self.D, self.layers = C, D, layers

    def get_checkpoints(self):
        return EList.seq(P(self.C), lambda k: ("ckpt", wrap(k)))

    def _ck(self, c, layers):
        ENG.check("pre: checkpoint index within range", T.band(T.le(ZERO, P(c)), T.lt(P(c), P(self.C))))
        ENG.check("pre: the selected layers", T.TRUE if layers is self.layers else T.FALSE)

    def get_param(self, ckpt_idx=0, layer_name=None, **k):
        self._ck(ckpt_idx, layer_name)
        return SymTensor([P(self.D)], lambda i: T.fn("theta", P(ckpt_idx), *i), "f"), None

    def get_loss_func(self, flatten=True, layer_name=None, ckpt_idx=0):
        self._ck(ckpt_idx, layer_name)
        return LossFn(P(ckpt_idx), layer_name)

    def get_target_func(self, *a, **k):
        ENG.fail("pre: the Hessian of the loss", "target function used")


def settings(name):
    if name == "Explicit":
        return {"regularization": Real("reg")}
    if name == "CG":
        return {"max_iter": Int("max_iter", 1), "tol": Real("tol"), "mode": "rev-fwd", "regularization": Real("reg")}
    return {"batch_size": Int("lbs", 1), "num_repeat": Int("rep", 1), "recursion_depth": Int("depth", 1),
            "damping": Real("damp"), "scaling": Real("scale"), "mode": "rev-fwd"}


def fields(data):
    return [dict.__getitem__(data, k) for k in sorted(dict.keys(data))] if isinstance(data, dict) else list(data)


def ihvp_term(name, conf, ckpt, theta, data, v, p):
    """entry p of the solver's answer for vector v (a lambda): what it may depend on"""
    return T.fn("ihvp_" + name, *[const(conf[k]) for k in sorted(conf)], ckpt, theta, *[lam_of(x) for x in data], v, p)


def answer(name, conf, ckpt, theta, data, v):
    """the solver applied row by row (property P07)"""
    def body(i):
        q = T.fresh("p")
        return ihvp_term(name, conf, ckpt, theta, data, T.lam([q], [v.pshape[1]], v.at([i[0], T.atom(q)])), i[1])
    return SymTensor(v.pshape, body, "f")


def stub_solver(w, name, conf, log):
    h = w.load("dattri.func.hessian")

    def direct(func, argnums=0, **kw):
        same = set(kw) == set(conf) and argnums == 0
        ENG.check("pre: the solver's settings are forwarded", T.TRUE if same else T.FALSE)
        for k in conf:
            if k in kw:
                ENG.check("pre: setting %s is forwarded" % k, T.TRUE if isinstance(conf[k], str) and kw[k] == conf[k] else
                          T.FALSE if isinstance(conf[k], str) else T.eq(P(kw[k]), P(conf[k])))
        ok = isinstance(func.func, LossFn) and not func.args and set(func.keywords) == {"data"}
        ENG.check("pre: the loss on the given batch", T.TRUE if ok else T.FALSE)
        data = fields(func.keywords["data"])
        log.append(func.keywords["data"])

        def solve(x, v):
            ENG.check("pre: the parameters are the function's only argument", T.TRUE if isinstance(x, tuple) and len(x) == 1 else T.FALSE)
            return answer(name, conf, func.func.ckpt, lam_of(x[0]), data, v)
        return solve

    def lissa(func, argnums=0, collate_fn=None, **kw):
        same = set(kw) == set(conf) and argnums == 0 and isinstance(func, LossFn)
        ENG.check("pre: the solver's settings are forwarded", T.TRUE if same else T.FALSE)
        for k in conf:
            if k in kw:
                ENG.check("pre: setting %s is forwarded" % k, T.TRUE if isinstance(conf[k], str) and kw[k] == conf[k] else
                          T.FALSE if isinstance(conf[k], str) else T.eq(P(kw[k]), P(conf[k])))

        def solve(x, v, in_dims=None):
            ENG.check("pre: parameters shared, data batched", T.TRUE if tuple(in_dims) == (None,) + (0,) * (len(x) - 1) else T.FALSE)
            # a sampled mini-batch (here: the whole batch) in the form of the loss function
            a = collate_fn(list(x))
            ENG.check("pre: parameters and data of the loss", T.TRUE if isinstance(a, tuple) and len(a) == 2 else T.FALSE)
            log.append(a[1])
            return answer(name, conf, func.ckpt, lam_of(a[0]), fields(a[1]), v)
        return solve
    setattr(h, SOLVER[name], lissa if name == "LiSSA" else direct)


def make(w, name, layers, pack=None):
    f = w.load("dattri.algorithm.influence_function")
    C, D, F = Int("C", 1), Int("D", 1), Int("F", 1)
    conf, log = settings(name), []
    task = Task(C, D, layers)
    a = getattr(f, "IFAttributor" + name)(task, layer_name=layers, **conf)
    stub_solver(w, name, conf, log)
    full = loader("Xf", Int("L", 1), Int("bl", 1), [F], [], pack=pack)
    a.cache(full)
    return a, task, conf, full, C, D, log


def total(name, conf, c, D, full, v, p):
    """the sum over the batches of the full training data"""
    def term(b):
        data = fields(full.batch(b))
        return ihvp_term(name, conf, P(c), theta(c, D), [x if x.kind == "f" else x for x in data], v, p)
    return S([wrap(full.A)], lambda b: term(b))


def rowv(nm, D, i, *pre):
    q = T.fresh("p")
    return T.lam([q], [P(D)], T.fn(nm, *pre, P(i), T.atom(q)))


PACK = {"tuple": lambda fs: tuple(fs), "list": None, "dict": lambda fs: EDict({"x": fs[0], "y": fs[1]})}


for name in SOLVER:
    for form in PACK:
        for ln, layers in LAYERS.items():
            if ln == "layers" and form != "list":
                continue

            @contract("P12", "%s.transform_test_rep[%s, %s]" % (name, form, ln), [A + name + ".transform_test_rep", A + name + ".__init__"]
                      + ([A + name + ".lissa_collate_fn"] if name == "LiSSA" else []))
            def c(w, name=name, form=form, layers=layers):
                a, task, conf, full, C, D, log = make(w, name, layers, PACK[form])
                R, ck = Int("R", 1), Int("c", 0, C - 1)
                out = a.transform_test_rep(ck, tensor("v", R, D))
                ensure_eq(out, (R, D), lambda i, p: total(name, conf, ck, D, full, rowv("v", D, i), p),
                          "sum over the training batches of the solver's answers")
                ensure(log and all(isinstance(d, dict) == (form == "dict") for d in log), "the loss gets its data in the loader's form")
                if form == "dict":
                    ensure(all(set(dict.keys(d)) == {"x", "y"} for d in log), "the data keep their names")

    for rel in ("l", "theta", "bogus"):
        @contract("P12", "%s._compute_denom[%s]" % (name, rel), [A + name + "._compute_denom"])
        def c(w, name=name, rel=rel):
            a, task, conf, full, C, D, log = make(w, name, None)
            R, ck = Int("R", 1), Int("c", 0, C - 1)
            tr, te = tensor("g", R, D), tensor("t", R, D)
            tf = rowfun("transform")        # contract of transform_test_rep (above)
            a.transform_test_rep = lambda ckpt_idx, test_rep: tf(ckpt_idx, test_rep, D)
            if rel == "bogus":
                expect_raise(ValueError, lambda: a._compute_denom(ck, tr, te, relatif_method=rel), "unknown methods are refused")
                return
            out = a._compute_denom(ck, tr, te if rel == "l" else None, relatif_method=rel)

            def want(i):
                def tv(p):
                    return T.fn("transform", P(ck), rowv("g", D, i), p)
                small = T.num(Fraction(1, 10 ** 12), "R")

                def clamp(x):
                    return T.ite(T.lt(x, small), small, x)
                if rel == "l":
                    return T.sqrt(clamp(S([D], lambda p: T.mul(T.fn("t", i, p), tv(p)))))
                return clamp(T.sqrt(S([D], lambda p: T.mul(tv(p), tv(p)))))
            ensure_eq(out, (R,), want, "denominator of the relative influence")

    @contract("P12", "%s.transform_test_rep[unsupported batch]" % name, [A + name + ".transform_test_rep"])
    def c(w, name=name):
        a, task, conf, full, C, D, log = make(w, name, None, lambda fs: fs[0])
        expect_raise(TypeError, lambda: a.transform_test_rep(0, tensor("v", Int("R", 1), D)), "unsupported batch type")

    @contract("P12", "%s.transform_train_rep" % name, ["dattri/algorithm/base.py::BaseInnerProductAttributor.transform_train_rep"])
    def c(w, name=name):
        a, task, conf, full, C, D, log = make(w, name, None)
        v = tensor("v", Int("R", 1), D)
        ensure(a.transform_train_rep(0, v) is v, "training gradients are used as they are")


# ------------------------------------------------------------------ DataInf
class LayerTask(Task):
    """four parameters in three layers; layer_split gives one vector per parameter"""
    MAP = [0, 0, 1, 2]

    def __init__(self, C, sizes, layers):
        Task.__init__(self, C, sum(sizes[1:], sizes[0]), layers)
        self.sizes = sizes

    def get_param(self, ckpt_idx=0, layer_name=None, layer_split=False, param_layer_map=None):
        if not layer_split:
            return Task.get_param(self, ckpt_idx, layer_name)
        self._ck(ckpt_idx, layer_name)
        out, o = [], ZERO
        for s in self.sizes:
            out.append(SymTensor([P(s)], lambda i, o=o: T.fn("theta", P(ckpt_idx), T.add(o, i[0])), "f"))
            o = T.add(o, P(s))
        return tuple(out), EList(list(self.MAP))


def datainf(w, layers, ratio):
    f = w.load("dattri.algorithm.influence_function")
    C = Int("C", 1)
    sizes = [Int("s%d" % q, 1) for q in range(4)]
    lam = Real("lam")
    ENG.assume(T.lt(ZERO, P(lam)))
    task = LayerTask(C, sizes, layers)
    a = f.IFAttributorDataInf(task, layer_name=layers, regularization=lam, fim_estimate_data_ratio=ratio)
    return a, task, C, sizes, lam


for R in (1, "any"):
    for ln, layers in LAYERS.items():
        @contract("P12", "DataInf.transform_test_rep[%s rows, %s]" % (R, ln), [A + "DataInf.transform_test_rep", A + "DataInf._get_layer_wise_reps"])
        def c(w, R=R, layers=layers):
            a, task, C, sizes, lam = datainf(w, layers, 1.0)
            ck, N = Int("c", 0, C - 1), Int("N", 1)
            rows = Int("R", 1) if R == "any" else 1
            g = tensor("g", N, task.D)
            d = EDict()
            d[ck] = g
            a._cached_train_reps = d
            v = tensor("v", rows, task.D)
            out = a.transform_test_rep(ck, v)
            s = [P(x) for x in sizes]
            starts = [ZERO, T.add(s[0], s[1]), T.add(T.add(s[0], s[1]), s[2])]
            lens = [T.add(s[0], s[1]), s[2], s[3]]

            def want(i, p):
                r = None
                for o, n in reversed(list(zip(starts, lens))):
                    def term(m):
                        dot = S([wrap(n)], lambda q: T.mul(T.fn("v", i, T.add(o, q)), T.fn("g", m, T.add(o, q))))
                        sq = S([wrap(n)], lambda q: T.mul(T.fn("g", m, T.add(o, q)), T.fn("g", m, T.add(o, q))))
                        return T.div(T.sub(T.fn("v", i, p), T.mul(T.div(dot, T.add(P(lam), sq)), T.fn("g", m, p))), P(lam))
                    val = T.div(S([N], term), P(N))
                    r = val if r is None else T.ite(T.lt(p, T.add(o, n)), val, r)
                return r
            ensure_eq(out, (rows, task.D), want, "mean over the cached training gradients of the layer-wise closed form")


@contract("P12", "DataInf.cache", [A + "DataInf.cache", A + "DataInf.__init__"])
def c(w):
    ratio = Real("ratio")
    sv.FACTS["ceil"] = lambda x: [T.le(x[0], T.fn("ceil", *x, sort="I")), T.lt(T.fn("ceil", *x, sort="I"), T.add(x[0], ONE))]
    ENG.assume(T.band(T.lt(ZERO, P(ratio)), T.le(P(ratio), ONE)))
    a, task, C, sizes, lam = datainf(w, None, ratio)
    F = Int("F", 1)
    L, bl = Int("L", 1), Int("bl", 1)
    full = loader("Xf", L, bl, [F])

    def rep(ckpt_idx, data):
        return per_sample("Gl", P(ckpt_idx), data[0], task.D, True, theta(ckpt_idx, task.D))
    a.generate_train_rep = rep
    K = tstub.ceil_term(wrap(T.mul(T.to_real(full.A), P(ratio))))
    lemma("no more batches than there are", T.le(P(K), P(full.A)))
    lemma("the batch before the end starts within the data", T.lt(T.mul(T.sub(P(K), ONE), P(bl)), P(L)))
    a.cache(full)
    ck = Int("c", 0, C - 1)
    got = a._cached_train_reps[ck]
    n = T.imin(T.mul(P(K), P(bl)), P(L))
    ensure_eq(got, (wrap(n), task.D), lambda i, p: gl(ck, task.D, "Xf0", F, i, key=ck)(p),
              "the training gradients of the first batches at the checkpoint")


# ------------------------------------------------------------------ Arnoldi
class Projector(tuple):
    """(parameters, settings..., data...) as given to arnoldi_project; applies a row map"""

    def __call__(self, g):
        args = [lam_of(x) if isinstance(x, SymTensor) else const(x) for x in self]
        E = const(self[2])

        def body(i):
            q = T.fresh("p")
            return T.fn("arnoldi", *args, T.lam([q], [g.pshape[1]], g.at([i[0], T.atom(q)])), i[1])
        return SymTensor([g.pshape[0], E], body, "f")


CONF = ["proj_dim", "max_iter", "norm_constant", "tol", "regularization", "seed"]

for form in PACK:
    for ln, layers in LAYERS.items():
        if ln == "layers" and form != "list":
            continue

        @contract("P12", "Arnoldi.cache and transforms[%s, %s]" % (form, ln), [A + "Arnoldi." + n for n in (
            "cache", "transform_test_rep", "transform_train_rep", "__init__")])
        def c(w, form=form, layers=layers):
            f = w.load("dattri.algorithm.influence_function")
            pj = w.load("dattri.func.projection")
            C, D, F, L, bl = Int("C", 1), Int("D", 1), Int("F", 1), Int("L", 1), Int("bl", 1)
            ratio = Real("ratio")
            sv.FACTS["ceil"] = lambda x: [T.le(x[0], T.fn("ceil", *x, sort="I")), T.lt(T.fn("ceil", *x, sort="I"), T.add(x[0], ONE))]
            ENG.assume(T.band(T.lt(ZERO, P(ratio)), T.le(P(ratio), ONE)))
            conf = {"proj_dim": Int("proj_dim", 1), "max_iter": Int("max_iter", 1), "norm_constant": Real("nc"),
                    "tol": Real("tol"), "regularization": Real("reg"), "seed": Int("seed")}
            task = Task(C, D, layers)
            a = f.IFAttributorArnoldi(task, layer_name=layers, precompute_data_ratio=ratio, **conf)
            full = loader("Xf", L, bl, [F], [], pack=PACK[form])

            def project(feature_dim, func, x, **kw):
                ENG.check("pre: as many features as parameters", T.eq(P(feature_dim), P(D)))
                ENG.check("pre: settings", T.TRUE if set(kw) == set(CONF) | {"device"} else T.FALSE)
                ok = isinstance(func.func, LossFn) and not func.args and set(func.keywords) == {"data"}
                ENG.check("pre: the loss on the given data", T.TRUE if ok else T.FALSE)
                d = func.keywords["data"]
                ENG.check("pre: the loss gets its data in the loader's form", T.TRUE if isinstance(d, dict) == (form == "dict") else T.FALSE)
                return Projector([x, wrap(func.func.ckpt)] + [kw[k] for k in CONF] + fields(d))
            pj.arnoldi_project = project
            v = tensor("v", Int("R", 1), D)
            for t in (a.transform_test_rep, a.transform_train_rep):
                expect_raise(ValueError, lambda: t(0, v), "not cached yet")
            K = tstub.ceil_term(wrap(T.mul(T.to_real(full.A), P(ratio))))
            lemma("no more batches than there are", T.le(P(K), P(full.A)))
            lemma("the batch before the end starts within the data", T.lt(T.mul(T.sub(P(K), ONE), P(bl)), P(L)))
            a.cache(full)
            n = wrap(T.imin(T.mul(P(K), P(bl)), P(L)))
            ck = Int("c", 0, C - 1)
            want = Projector([SymTensor([P(D)], lambda i: T.fn("theta", P(ck), *i), "f"), ck] + [conf[k] for k in CONF]
                             + [tensor("Xf0", n, F), tensor("Xf1", n)])(v)
            for t, what in ((a.transform_test_rep, "test"), (a.transform_train_rep, "training")):
                ensure_eq(t(ck, v), tuple(wrap(x) for x in want.pshape), lambda i, e: want.at([i, e]),
                          what + " gradients are projected by the checkpoint's projector")


@contract("P12", "Arnoldi.cache[unsupported batch]", [A + "Arnoldi.cache"])
def c(w):
    f = w.load("dattri.algorithm.influence_function")
    a = f.IFAttributorArnoldi(Task(Int("C", 1), Int("D", 1), None))
    full = loader("Xf", Int("L", 1), Int("bl", 1), [Int("F", 1)], pack=lambda fs: fs[0])
    expect_raise(TypeError, lambda: a.cache(full), "unsupported batch type")
