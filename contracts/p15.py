"""P15: label flipping, subset sampling, dropout activation and final-layer features."""
from contracts.lib import *
from engine import tstub, sym, loops
from engine import solver as sv
from engine.sym import ENG, EList, SymSet, SetList, boolterm, as_tensor

B_ = "dattri/benchmark/utils.py::"
D_ = "dattri/model_util/"


def same(what, a, b):
    ENG.check(what, T.TRUE if a is b else T.FALSE)


# ------------------------------------------------------------------ flip_label
class Labels(SymSet):
    """a set of labels that can lose and regain one"""
    def discard(self, x):
        p, h = P(x), self._has
        self._has = lambda e: T.band(h(e), T.ne(e, p))

    def add(self, x):
        p, h = P(x), self._has
        self._has = lambda e: T.bor(h(e), T.eq(e, p))


class Drawn:
    """one draw from a set: any of its elements"""
    pending = None

    def __init__(self, seed=None):
        self.indices = None

    def choice(self, a, size=None, replace=True, **k):
        if size is not None:
            same("positions are drawn without repetition", replace, False)
            ENG.check("no more positions than labels", T.band(T.le(ZERO, P(size)), T.le(P(size), P(a))))
            return sym.NpVector([P(size)], lambda i: T.fn("noisy", i[0], sort="I"), "i")
        st = getattr(a, "symset", None)
        if st is None:
            raise TypeError("drawn from something that is not the label space")
        z = T.atom(T.fresh("z"))
        ENG.assume(st().has(z))
        Drawn.pending.append((z, st()._has))
        return wrap(z)


class Vectorize:
    """np.vectorize: the function is applied to each element"""
    def __init__(self, f, otypes=None, **k):
        self.f, self.otypes = f, otypes

    def __call__(self, x):
        n = x.pshape[0]
        if self.otypes is None and ENG.branch(T.eq(n, ZERO)):
            raise ValueError("cannot call `vectorize` on size 0 inputs unless `otypes` is set")
        v = T.fresh("k")
        k = T.atom(v)
        pc = list(ENG.pc)
        ENG.assume(T.in_range(k, n))
        sp = Drawn.space
        before = sp._has
        Drawn.pending = []
        sn = tstub.snapshot(x)
        body = P(self.f(wrap(sn.at([k]))))
        e = T.atom(T.fresh("e"))
        ENG.check("a flip leaves the label space as it was", T.band(T.implies(before(e), sp.has(e)), T.implies(sp.has(e), before(e))))
        (z, has), = Drawn.pending
        ENG.pc[:] = pc
        pick = lambda a: T.fn("pick", a, sort="I")
        zv = T.as_atom(z)
        sub = lambda t, a: T.subst(t, {zv: pick(a), v: a})
        cond = has(z)
        sv.FACTS["pick"] = lambda a: [T.implies(T.in_range(a[0], n), sub(cond, a[0]))]
        return sym.NpVector([n], lambda i: sub(body, i[0]), "i")


def flips(w):
    nr = tstub.stub("numpy.random")
    nr.default_rng = Drawn
    n = w.stubs["numpy"]
    n.random, n.vectorize = nr, Vectorize
    w.stubs["copy"].deepcopy = lambda x: x.clone()
    T.INJECTIVE.add("noisy")
    return w.load("dattri.benchmark.utils")


for given in (True, False):
    @contract("P15", "flip_label: exactly floor(p n) labels get another label of the %s" % (
        "given label space" if given else "labels present"), [B_ + "flip_label", B_ + "_random_flip"])
    def c(w, given=given):
        m = flips(w)
        N = Int("N", 1)
        sv.FACTS["noisy"] = lambda a: [T.in_range(T.fn("noisy", *a, sort="I"), P(N))]
        y = tensor("y", N, kind="i")
        L = Int("L", 2)
        a, b = Int("num", 0), Int("den", 1)
        ENG.assume(T.le(P(a), P(b)))
        size = P(N * a // b)
        ENG.assume(T.le(ONE, size))     # known finding: fails when p n is below one
        space = lambda e: T.mk_app("isLabel", (e,), "B")
        sv.FACTS["y"] = lambda a_: [T.implies(T.in_range(a_[0], P(N)), space(T.fn("y", *a_, sort="I")))]
        st = Labels(P(L), lambda k: T.fn("space", k, sort="I"), None, space)
        Drawn.space = st

        class Given:
            def symset(self):
                return st
        gv = Given()

        def unique(x):
            same("the label space is that of the labels", x, y)
            return gv
        w.stubs["numpy"].unique = unique
        out, ix = m.flip_label(y, gv if given else None, a / b)
        n, item = sym.seq_of(ix)
        ENG.check("post: floor(p n) positions are reported", T.eq(n, size))
        k, i = T.atom(T.fresh("k")), T.atom(T.fresh("i"))
        pc = list(ENG.pc)
        ENG.assume(T.in_range(k, size))
        pos = P(item(k))
        new, old = out.at([pos]), T.fn("y", pos, sort="I")
        ENG.check("post: a reported position carries another label", T.ne(new, old))
        ENG.check("post: the new label is in the label space", space(new))
        ENG.pc[:] = pc
        ENG.assume(T.in_range(i, P(N)))
        # a position that is not among the reported ones
        sv.FACTS["noisy"] = lambda a: [T.in_range(T.fn("noisy", *a, sort="I"), P(N)), T.implies(
            T.in_range(a[0], size), T.ne(T.fn("noisy", *a, sort="I"), i))]
        sv._cache.clear()
        ENG.check("post: every other label is unchanged", T.eq(out.at([i]), T.fn("y", i, sort="I")))
        ENG.check("post: the labels passed in are not modified", T.eq(y.at([i]), T.fn("y", i, sort="I")))


@contract("P15", "SubsetSampler yields the given indices in order", [B_ + "SubsetSampler." + n for n in ("__init__", "__iter__", "__len__")])
def c(w):
    m = w.load("dattri.benchmark.utils")
    N = Int("N", 0)
    s = m.SubsetSampler(EList.seq(P(N), lambda k: wrap(T.fn("idx", k, sort="I"))))
    n, item = m.SubsetSampler.__iter__(s).s
    k = T.atom(T.fresh("k"))
    ENG.check("post: one index per given index", T.eq(P(n), P(N)))
    ENG.check("post: the length is their number", T.eq(P(m.SubsetSampler.__len__(s)), P(N)))
    ENG.check("post: the k-th index", T.eq(P(item(k)), T.fn("idx", k, sort="I")))


# ------------------------------------------------------------------ dropout
def tree(prob):
    """modules of one model: (dotted name, class name)"""
    return [("", "Net"), ("drop1", "Dropout"), ("drop10", "Dropout"), ("block", "Sequential"), ("block.lin", "Linear"),
            ("block.drop1", "Dropout2d"), ("my_drop", "AlphaDropout"), ("block.drop", "DropoutX")]


class Mod:
    def __init__(self, name, p):
        self.name, self.p, self.training = name, p, None
        self.p0 = p

    def train(self, mode=True):
        self.training = mode

    def eval(self):
        self.train(False)


@contract("P15", "activate_dropout: exactly the named dropout layers (one tree of modules, names of up to two layers)",
          [D_ + "dropout.py::activate_dropout"])
def c(w):
    from itertools import combinations
    m = w.load("dattri.model_util.dropout")
    names = tree(None)
    asked = [None, []] + [[n] for n, _ in names[1:]] + [["nosuch"], ["drop"]] + [
        list(x) for x in combinations([n for n, _ in names[1:]], 2)]
    prob = Real("prob")
    for a in asked:
        mods = []
        for n, cl in names:
            x = type(cl, (Mod,), {})(n, Real("p_" + n))
            x.training = True
            mods.append(x)

        class Model:
            def eval(self):
                for x in mods:
                    x.training = False
                return self

            def modules(self):
                return EList(mods)

            def named_modules(self):
                return EList([(x.name, x) for x in mods])
        model = Model()
        is_drop = lambda x: type(x).__name__.startswith("Dropout")
        hit = lambda x, l: (".%s." % l) in (".%s." % x.name)
        bad = a and any(hit(x, l) and not is_drop(x) for x in mods for l in a)
        try:
            out = m.activate_dropout(model, None if a is None else EList(a), prob)
        except ValueError:
            ENG.check("post: an error only when a name is no dropout layer", T.TRUE if bad else T.FALSE)
            continue
        ENG.check("post: names that are no dropout layers are refused", T.FALSE if bad else T.TRUE)
        same("the model itself is returned", out, model)
        for x in mods:
            on = is_drop(x) and (not a or any(hit(x, l) for l in a))
            same("post: %s active exactly when asked for (%s)" % (x.name or "the model", a), bool(x.training), bool(on))
            ENG.check("post: probability of %s (%s)" % (x.name or "the model", a), T.eq(P(x.p), P(prob) if on else P(x.p0)))


@contract("P15", "get_final_layer_io: inputs and outputs of the layer for every sample, in order",
          [D_ + "hook.py::get_final_layer_io"])
def c(w):
    N, F, H, C = Int("N", 1), Int("F", 1), Int("H", 1), Int("C", 1)
    grad = [True]

    class NoGrad:
        def __enter__(self):
            grad[0] = False

        def __exit__(self, *a):
            grad[0] = True
            return False
    w.stubs["torch"].no_grad = NoGrad
    m = w.load("dattri.model_util.hook")
    hooks, ncalls = [], []

    class Layer:
        def register_forward_hook(self, f):
            hooks.append(f)

            class Handle:
                def remove(self):
                    hooks.remove(f)
            return Handle()

    class Net:
        final = Layer()

        def __call__(self, x):
            ENG.check("the forward passes run without gradients", T.FALSE if grad[0] else T.TRUE)
            h = SymTensor([x.pshape[0], P(H)], lambda i: T.fn("feature", rowlam_of(x, F, i[0]), i[1]), "f")
            o = SymTensor([x.pshape[0], P(C)], lambda i: T.fn("output", rowlam_of(x, F, i[0]), i[1]), "f")
            for f in list(hooks):
                f(self.final, (h,), o)
            return SymTensor([x.pshape[0], P(C)], lambda i: T.fn("model", i[1]), "f")
    hooks.clear()
    dl = loader("x", N, Int("bs", 1), (F,), ((), "i"))
    feat, out = m.get_final_layer_io(Net(), "final", dl, "cpu")
    ensure_eq(feat, (N, H), lambda r, h: T.fn("feature", rowlam("x0", F, r), h), "inputs of the layer, sample by sample")
    ensure_eq(out, (N, C), lambda r, k: T.fn("output", rowlam("x0", F, r), k), "outputs of the layer, sample by sample")
    ENG.check("post: no hook is left behind", T.TRUE if not hooks else T.FALSE)


def rowlam_of(x, F, i):
    v = T.fresh("f")
    return T.lam([v], [P(F)], x.at([i, T.atom(v)]))
