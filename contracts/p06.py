"""P06: representer point selection."""
from fractions import Fraction

from contracts.lib import *

A = "dattri/algorithm/rps.py::RPSAttributor."
U = "dattri/algorithm/utils.py::"


class Layer:
    def __init__(self, w):
        self.weight = w
        self.hooks = []

    def register_forward_hook(self, h):
        self.hooks.append(h)
        me = self

        class H:
            def remove(self):
                me.hooks.remove(h)
        return H()


def lossgrad(w, ut):
    """torch.func.grad(loss)(phi, y): an arbitrary function of both arguments, of phi's shape."""
    def grad(f):
        def g(phi, y):
            n, k = phi.pshape

            def lam2(t):
                a, b = T.fresh("a"), T.fresh("b")
                return T.lam([a, b], list(t.pshape), t.at([T.atom(a), T.atom(b)]))
            lp, ly = lam2(phi), lam2(y)
            return SymTensor([n, k], lambda i: T.fn("dL", lp, ly, *i), "f")
        return g
    ut.grad = grad


def prob(nm, N, K, one, r, c):
    """softmax over the classes / sigmoid of output row r."""
    if one:
        return T.fn("sigmoid", T.fn(nm + "_out", r, c))
    return T.fn("softmax1", lam2(nm + "_out", N, K), r, c)


def build(w, D, K, one, norm, lam):
    rp = w.load("dattri.algorithm.rps")
    ut = w.load("dattri.algorithm.utils")
    W = tensor("W0", K, D)

    class Model:
        fc = Layer(W)
    model = Model()

    class Task:
        def get_target_func(self, flatten=True):
            ensure(flatten is False, "the target function takes raw pre-activations")
            return "target"

        def get_model(self):
            return model

        def get_param(self, ckpt_idx=0):
            ensure(ckpt_idx == 0, "the checkpoint is loaded")
    calls = []

    def io(m, name, dl, device="cpu"):
        ENG.check("pre: the attributed model and layer", T.TRUE if m is model and name == "fc" else T.FALSE)
        nm = dl.dataset_name
        n = P(dl.nrows)
        return (SymTensor([n, P(D)], lambda i: T.fn(nm + "_f", *i), "f"),
                SymTensor([n, P(K)], lambda i: T.fn(nm + "_out", *i), "f"))
    rp.get_final_layer_io = io

    def finetune(x, y, init_theta, loss_func, lambda_l2, num_epoch, device="cpu"):
        ensure_eq(init_theta, (K, D), lambda i, j: T.fn("W0", i, j), "pre: fine-tuning starts from the model's own last layer")
        ENG.check("pre: fine-tuning minimises the target function", T.TRUE if loss_func == "target" else T.FALSE)
        ENG.check("pre: regularisation strength is forwarded", T.eq(P(lambda_l2), P(lam)))
        ENG.check("pre: number of epochs is forwarded", T.eq(P(num_epoch), P(77)))
        calls.append((x, y))
        a, b = T.fresh("a"), T.fresh("b")
        lx = T.lam([a, b], list(x.pshape), x.at([T.atom(a), T.atom(b)]))
        ly = T.lam([a, b], list(y.pshape), y.at([T.atom(a), T.atom(b)]))
        return SymTensor([P(K), P(D)], lambda i: T.fn("Theta", lx, ly, *i), "f")
    rp.rps_finetune_theta = finetune
    lossgrad(w, ut)
    a = rp.RPSAttributor(Task(), "fc", normalize_preactivate=norm, l2_strength=lam, epoch=77)
    return a, calls


def mx(a, b):
    return T.ite(T.le(b, a), a, b)


def lam2(nm, n, k):
    a, b = T.fresh("a"), T.fresh("b")
    return T.lam([a, b], [P(n), P(k)], T.fn(nm, T.atom(a), T.atom(b)))


def run(w, one, norm, cached):
    N, M, bs, bt, D, F = (Int(x, 1) for x in ("N", "M", "bs", "bt", "D", "F"))
    K = 1 if one else Int("K", 2)
    lam = Real("lam")
    ENG.assume(T.lt(T.num(0, "R"), P(lam)))
    a, calls = build(w, D, K, one, norm, lam)
    tr, te = loader("Xtr", N, bs, [F], ([], "i")), loader("Xte", M, bt, [F], ([], "i"))
    tr.dataset_name, te.dataset_name, tr.nrows, te.nrows = "tr", "te", N, M
    nf, full = N, "tr"
    if cached:
        nf, full = Int("NF", 1), "full"
        fl = loader("Xfull", nf, bs, [F], ([], "i"))
        fl.dataset_name, fl.nrows = "full", nf
        a.cache(fl)
    for rep in range(2):
        r = a.attribute(tr, te)
        th = lambda c, d: T.fn("Theta", lam2(full + "_f", nf, D), lam2(full + "_out", nf, K), c, d)
        x, y = T.fresh("a"), T.fresh("b")
        phi = T.lam([x, y], [P(N), P(K)], S([D], lambda d: T.mul(T.fn("tr_f", T.atom(x), d), th(T.atom(y), d))))
        x2, y2 = T.fresh("a"), T.fresh("b")
        pr = T.lam([x2, y2], [P(N), P(K)], prob("tr", N, K, one, T.atom(x2), T.atom(y2)))

        def want(i, j):
            c = ZERO if one else T.fn("Xte1", j, sort="I")
            f = lambda d: T.mul(T.fn("tr_f", i, d), T.fn("te_f", j, d))
            v = S([D], f)
            if norm:
                ni = mx(T.sqrt(S([D], lambda d: T.pow_(T.fn("tr_f", i, d), 2))), T.num("1e-12", "R"))
                nj = mx(T.sqrt(S([D], lambda d: T.pow_(T.fn("te_f", j, d), 2))), T.num("1e-12", "R"))
                v = T.div(T.div(v, ni), nj)
            al = T.div(T.fn("dL", phi, pr, i, c), T.scale(T.mul(P(lam), T.to_real(P(N))), -2))
            return T.mul(v, al)
        ensure_eq(r, (N, M), want, "RPS score")
    ensure(len(calls) == (1 if cached else 2), "the cached fine-tuned layer is used")


from engine import solver as _sv
for _one in (True, False):
    for _norm in (False, True):
        for _c in (False, True):
            def c(w, o=_one, n=_norm, ca=_c):
                if not o:
                    # precondition: test labels are class numbers
                    _sv.FACTS["Xte1"] = lambda args: [T.in_range(T.fn("Xte1", *args, sort="I"), T.var("K", "I"))]
                run(w, o, n, ca)
            contract("P06", "attribute[%s%s%s]" % ("one output" if _one else "classes", ", normalised" if _norm else "",
                                                   ", cached" if _c else ""),
                     [A + "attribute", A + "cache", U + "get_rps_weight"])(c)


# ---- the layer's inputs and outputs ----
@contract("P06", "get_final_layer_io: row r is the layer's input and output for sample r; the hook is gone afterwards",
          ["dattri/model_util/hook.py::get_final_layer_io"])
def c(w):
    N, bs, D, K, F = (Int(x, 1) for x in ("N", "bs", "D", "K", "F"))
    hk = w.load("dattri.model_util.hook")
    layer = Layer(tensor("W0", K, D))

    class Model:
        fc = layer

        def __call__(self, x):
            f = SymTensor([x.pshape[0], P(D)], lambda i: T.fn("feat", row(x, i[0]), i[1]), "f")
            o = SymTensor([x.pshape[0], P(K)], lambda i: T.fn("out", row(x, i[0]), i[1]), "f")
            for h in list(layer.hooks):
                ENG.check("pre: forward hooks return nothing", T.TRUE if h(layer, (f,), o) is None else T.FALSE)
            return SymTensor([x.pshape[0], P(K)], lambda i: T.fn("final", row(x, i[0]), i[1]), "f")
    f, o = hk.get_final_layer_io(Model(), "fc", loader("X", N, bs, [F], ([], "i")))
    ensure_eq(f, (N, D), lambda r, d: T.fn("feat", rowlam("X0", F, r), d), "layer inputs")
    ensure_eq(o, (N, K), lambda r, d: T.fn("out", rowlam("X0", F, r), d), "layer outputs")
    ensure(len(layer.hooks) == 0, "the hook is removed")


def row(x, r):
    v = T.fresh("f")
    return T.lam([v], [x.pshape[1]], x.at([r, T.atom(v)]))


# ---- fine-tuning ----
def lamt(t):
    a, b = T.fresh("a"), T.fresh("b")
    return T.lam([a, b], list(t.pshape), t.at([T.atom(a), T.atom(b)]))


class Var(SymTensor):
    """A leaf variable: a tensor with a gradient."""
    grad = None


def scalar(f):
    return SymTensor([], lambda i: f, "f")


def lossval(phi, y):
    return scalar(T.fn("L", lamt(phi), lamt(y)))


def objective(th, N, D, K, lam, ylam):
    """L(x thetaT, y) + lam |theta|^2"""
    a, b = T.fresh("a"), T.fresh("b")
    phi = T.lam([a, b], [P(N), P(K)], S([D], lambda d: T.mul(T.fn("x", T.atom(a), d), th(T.atom(b), d))))
    reg = S([K, D], lambda k, d: T.mul(th(k, d), th(k, d)))
    return T.add(T.fn("L", phi, ylam), T.mul(P(lam), reg))


def model_contract(x, theta):
    """rps_finetune_model through its contract (proved below)."""
    (n, d), (k, d2) = x.pshape, theta.pshape
    ENG.check("pre: features and layer have the same width", T.eq(d, d2))
    sx, st = x.at, theta.at
    phi = SymTensor([n, k], lambda i: S([d], lambda q: T.mul(sx([i[0], q]), st([i[1], q]))), "f")
    return phi, scalar(S([k, d], lambda a, b: T.pow_(st([a, b]), 2)))


for _one in (True, False):
    @contract("P06", "rps_finetune_model: pre-activations and squared norm [%s]" % ("one output" if _one else "classes"),
              [U + "rps_finetune_model"])
    def c(w, one=_one):
        N, D = Int("N", 1), Int("D", 1)
        K = 1 if one else Int("K", 2)
        ut = w.load("dattri.algorithm.utils")
        x, th = tensor("x", N, D), tensor("th", K, D)
        phi, l2 = ut.rps_finetune_model(x, th)
        ensure_eq(phi, (N, K), lambda i, k: S([D], lambda d: T.mul(T.fn("x", i, d), T.fn("th", k, d))), "pre-activations")
        ensure_eq(l2, (), lambda: S([K, D], lambda k, d: T.pow_(T.fn("th", k, d), 2)), "squared norm")

    @contract("P06", "backtracking_line_search: the first step of 10, 5, 2.5, ... that decreases the objective enough, or "
              "a step below 1e-10 [%s]" % ("one output" if _one else "classes"), [U + "backtracking_line_search"])
    def c(w, one=_one):
        N, D = Int("N", 1), Int("D", 1)
        K = 1 if one else Int("K", 2)
        lam, val = Real("lam"), Real("val")
        ut = w.load("dattri.algorithm.utils")
        ut.Variable = lambda t, requires_grad=False: t
        x, th, g, y = tensor("x", N, D), tensor("th", K, D), tensor("g", K, D), tensor("y", N, K)
        tried = []

        def loss(phi, y_):
            tried.append(1)
            return lossval(phi, y_)
        ut.rps_finetune_model = model_contract
        r = ut.backtracking_line_search(th, g, loss, x, y, val, lam)
        steps = []
        t = 10.0
        while True:
            steps.append(t)
            if t < 1e-10:
                break
            t *= 0.5
        step = lambda t: (lambda k, d: T.sub(T.fn("th", k, d), T.mul(T.fn("g", k, d), P(t))))
        gg = S([K, D], lambda k, d: T.pow_(T.fn("g", k, d), 2))

        def decreases(t):
            return T.lt(T.add(T.sub(objective(step(t), N, D, K, lam, lamt(y)), P(val)), T.scale(T.mul(gg, P(t)), Fraction(1, 2))),
                        ZERO)
        # every path tries the first k steps in vain and takes step k; that step k - 1 was rightly rejected is checked
        # here, steps before that on the paths that share this prefix
        k = len(tried) - 1
        ensure(k < len(steps), "at most %d steps are tried" % len(steps))
        if k < len(steps) - 1:
            ensure(decreases(steps[k]), "the step taken decreases the objective enough")
        if k:
            ensure(T.bnot(decreases(steps[k - 1])), "a rejected step does not decrease the objective enough")
        ensure_eq(r, (K, D), step(steps[k]), "iterate after the first acceptable step")

    for _E in (1, 2, 3):
        @contract("P06", "rps_finetune_theta: the visited iterate with the smallest gradient [%s, %d epochs, bounded]" % (
            "one output" if _one else "classes", _E), [U + "rps_finetune_theta"],
                  note="BOUNDED: %d fine-tuning epochs; autograd's gradient is an uninterpreted function of the objective" % _E)
        def c(w, one=_one, E=_E):
            N, D = Int("N", 1), Int("D", 1)
            K = 1 if one else Int("K", 2)
            lam = Real("lam")
            ut = w.load("dattri.algorithm.utils")
            x, th0, y = tensor("x", N, D), tensor("th", K, D), tensor("y", N, K)
            leaf = [None]
            yl = lam2y(N, K, one)
            th = lambda e: (lambda k, d: T.fn("Th%d" % e, k, d)) if e else (lambda k, d: T.fn("th", k, d))
            gr = lambda e: (lambda k, d: T.fn("grad", T.num(e), k, d))
            count = [0]

            class Opt:
                def __init__(self, ps, lr=None):
                    pass

                def zero_grad(self):
                    pass

                def step(self):
                    ENG.fail("pre: the line search alone moves theta", "optimizer.step called")

            def variable(t, requires_grad=False):
                t = Var(t.pshape, t.at, "f")
                leaf[0] = t
                return t

            def backward(self):
                e = count[0]
                ensure_num(self.at([]), objective(th(e), N, D, K, lam, yl), "objective of epoch %d" % e)
                leaf[0].grad = SymTensor([P(K), P(D)], lambda i: gr(e)(*i), "f")

            def search(theta_, g, loss_func, x_, y_, val, l2):
                e = count[0]
                ensure_eq(theta_, (K, D), th(e), "the line search starts from the current iterate")
                ensure_eq(g, (K, D), gr(e), "the line search follows the current gradient")
                ENG.check("pre: the line search gets the same data and loss", T.TRUE if loss_func is lossval and x_ is x else T.FALSE)
                ensure_eq(y_, (N, K), lambda i, k: yv(N, K, one, i, k), "the line search uses the predicted probabilities")
                ensure_num(val.at([]), objective(th(e), N, D, K, lam, yl), "the line search gets the current objective")
                ensure_num(l2, P(lam), "the line search gets the regularisation")
                count[0] += 1
                e = count[0]
                leaf[0] = Var([P(K), P(D)], lambda i: th(e)(*i), "f")
                return leaf[0]
            ut.Variable = variable
            ut.rps_finetune_model = model_contract
            ut.optim = type("optim", (), {"SGD": Opt})
            ut.backtracking_line_search = search
            SymTensor.backward = backward
            try:
                r = ut.rps_finetune_theta(x, y, th0, lossval, lam, E)
            finally:
                del SymTensor.backward
            m = lambda e: T.div(S([K, D], lambda k, d: T.ite(T.le(ZERO, gr(e)(k, d)), gr(e)(k, d), T.neg(gr(e)(k, d)))),
                                T.to_real(T.mul(P(K), P(D))))
            last = min(count[0], E - 1)
            best = 0
            for e in range(1, last + 1):
                if ENG.known(T.lt(m(e), m(best))):
                    best = e
                else:
                    ensure(T.le(m(best), m(e)), "iterates are compared by their mean absolute gradient")
            if count[0] < E:
                ensure(T.lt(m(best), T.scale(m(0), Fraction(1, 200))), "stops early only once the gradient fell 200-fold")
            ensure_eq(r, (K, D), th(best), "fine-tuned layer")


def yv(N, K, one, i, k):
    if one:
        return T.fn("sigmoid", T.fn("y", i, k))
    return T.fn("softmax1", lam2("y", N, K), i, k)


def lam2y(N, K, one):
    a, b = T.fresh("a"), T.fresh("b")
    return T.lam([a, b], [P(N), P(K)], yv(N, K, one, T.atom(a), T.atom(b)))
