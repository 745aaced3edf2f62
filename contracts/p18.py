"""P18: compressed per-sample layer gradients (compressors, linear hooks) and the attributors built on them (LoGra, FactGraSS)."""
from contracts.lib import *
from engine import tstub
from engine.core import ENG

B_ = "dattri/algorithm/block_projected_if/"
CO = B_ + "core/compressor.py::"
HO = B_ + "core/hook.py::"
BA = B_ + "block_projected_if.py::BlockProjectedIFAttributor."


def same(what, a, b):
    ENG.check(what if what.startswith("post") else "post: " + what, T.TRUE if a == b else T.FALSE)


def row_map(name, k):
    """the contract of a projector (property P09): a function of each row alone, applied at ensemble 0"""
    def f(x, ensemble_id=None):
        ENG.check("pre: rows of a matrix, ensemble 0", T.TRUE if x.ndim == 2 and ensemble_id == 0 else T.FALSE)

        def body(i):
            v = T.fresh("f")
            return T.fn(name, T.lam([v], [x.pshape[1]], x.at([i[0], T.atom(v)])), i[1])
        return SymTensor([x.pshape[0], P(k)], body, "f")
    return f


def vec(f, n):
    v = T.fresh("f")
    return T.lam([v], [P(n)], f(T.atom(v)))


def compressor(m, c1, c2, pr):
    sp, pj, c = m.Sparsifier("l", 0), m.Projector("l", 0), m.Compressor("l", 0)
    sp.sparsifier_comp, pj.projector = (c1, c2), pr
    c.sparsifier, c.projector = sp, pj
    return c


for dim in (2, 3):
    @contract("P18", "Compressor.forward[%d-D]" % dim, [CO + n for n in (
        "Compressor.forward", "Compressor.__init__", "Sparsifier.forward", "Sparsifier.__init__", "Projector.forward", "Projector.__init__")])
    def c(w, dim=dim):
        m = w.load("dattri.algorithm.block_projected_if.core.compressor")
        B, L, d1, d2, k1, k2, k = (Int(n, 1) for n in ("B", "L", "d1", "d2", "k1", "k2", "k"))
        mid = (L,) if dim == 3 else ()
        g, a = tensor("g", B, *mid, d1), tensor("a", B, *mid, d2)
        out = compressor(m, row_map("S1", k1), row_map("S2", k2), row_map("PR", k)).forward(g, a)

        def inner(b, p):
            i, j = T.floordiv(p, P(k2)), T.mod(p, P(k2))

            def term(*s):
                return T.mul(T.mul(T.fn("S1", vec(lambda f: T.fn("g", b, *s, f), d1), i), T.to_real(P(B))),
                             T.fn("S2", vec(lambda f: T.fn("a", b, *s, f), d2), j))
            return S([L], term) if dim == 3 else term()
        ensure_eq(out, (B, k), lambda b, j: T.fn("PR", vec(lambda p: inner(b, p), P(T.mul(P(k1), P(k2)))), j),
                  "row b projects the batch size times the sum over positions of S1(g) x S2(a)")

    @contract("P18", "Compressor.forward[%d-D, no compression]" % dim, [CO + "Compressor.forward"])
    def c(w, dim=dim):
        m = w.load("dattri.algorithm.block_projected_if.core.compressor")
        B, L, d1, d2 = (Int(n, 1) for n in ("B", "L", "d1", "d2"))
        mid = (L,) if dim == 3 else ()
        g, a = tensor("g", B, *mid, d1), tensor("a", B, *mid, d2)
        ident = lambda x, ensemble_id: x
        out = compressor(m, ident, ident, ident).forward(g, a)

        def want(b, p):
            i, j = T.floordiv(p, P(d2)), T.mod(p, P(d2))
            term = lambda *s: T.mul(T.mul(T.fn("g", b, *s, i), T.to_real(P(B))), T.fn("a", b, *s, j))
            return S([L], term) if dim == 3 else term()
        ensure_eq(out, (B, wrap(T.mul(P(d1), P(d2)))), want, "row b: batch size times the gradient g^T a of sample b, flattened")

    for bias in (True, False):
        @contract("P18", "_compute_compressed_grad[%d-D, bias=%s]" % (dim, bias), [HO + "_compute_compressed_grad"])
        def c(w, dim=dim, bias=bias):
            m = w.load("dattri.algorithm.block_projected_if.core.hook")
            B, L, d1, d2 = (Int(n, 1) for n in ("B", "L", "d1", "d2"))
            mid = (L,) if dim == 3 else ()
            g, a = tensor("g", B, *mid, d1), tensor("a", B, *mid, d2)
            seen = []

            class C:
                def forward(self, x, y):
                    seen.append((x, y))
                    return "compressed"
            out = m._compute_compressed_grad(g, a, bias, C())
            ensure(out == "compressed" and len(seen) == 1, "the compressor's answer")
            ensure_eq(seen[0][0], (B, *mid, d1), lambda *i: T.fn("g", *i), "the output gradient as it is")
            e = wrap(T.add(P(d2), ONE)) if bias else d2
            ensure_eq(seen[0][1], (B, *mid, e), lambda *i: T.ite(T.lt(i[-1], P(d2)), T.fn("a", *i), T.num(1, "R")) if bias else T.fn("a", *i),
                      "the input" + (" and a column of ones for the bias" if bias else ""))


# ------------------------------------------------------------------ hooks
def linear(x, W, b=None):
    """torch.nn.functional.linear"""
    I = W.pshape[1]
    ENG.check("pre: linear: number of input features", T.eq(x.pshape[-1], I))

    def body(i):
        r = S([wrap(I)], lambda f: T.mul(x.at([*i[:-1], f]), W.at([i[-1], f])))
        return r if b is None else T.add(r, b.at([i[-1]]))
    return SymTensor([*x.pshape[:-1], W.pshape[0]], body, "f")


class Linear:
    def __init__(self, name, I, O, bias=True):
        self.name, self.I, self.O = name, I, O
        self.weight = tensor("W" + name, O, I)
        self.bias = tensor("b" + name, O) if bias else None

    def forward(self, x):
        return linear(x, self.weight, self.bias)


class Tanh:
    name = "act"

    def forward(self, x):
        return x


class Norm(Tanh):
    name = "norm"


class Net:
    def __init__(self, mods):
        self.mods = mods

    def named_modules(self):
        return EList([("", self)] + [(x.name, x) for x in self.mods])


class Ctx:
    saved_tensors = ()

    def save_for_backward(self, *a):
        self.saved_tensors = a


def load_hook(w, tape):
    class Function:
        @classmethod
        def apply(cls, *a):
            ctx = Ctx()
            out = cls.forward(ctx, *a)
            tape.append((cls, ctx))
            return out
    w.stubs["torch"].autograd.Function = Function
    nn = w.stubs["torch"].nn
    nn.Linear, nn.LayerNorm = Linear, Norm
    nn.functional.linear = linear
    m = w.load("dattri.algorithm.block_projected_if.core.hook")
    m.CompressedLinearBackward.apply = classmethod(lambda cls, *a: Function.apply.__func__(cls, *a))
    m.F.linear = linear
    m.nn.Linear = Linear
    return m


class Rec:
    """a compressor of its own for every layer"""

    def __init__(self, name):
        self.name = name

    def forward(self, g, a):
        return (self.name, g, a)


for dim in (2, 3):
    for bias in (True, False):
        @contract("P18", "CompressedLinearBackward[%d-D, bias=%s]" % (dim, bias), [HO + n for n in (
            "CompressedLinearBackward.forward", "CompressedLinearBackward.backward", "HookManager._custom_linear_forward",
            "HookManager.__init__", "HookManager._register_hooks", "HookManager.set_compressors", "HookManager.get_compressed_grads")])
        def c(w, dim=dim, bias=bias):
            tape = []
            m = load_hook(w, tape)
            B, L, I, O, H = (Int(n, 1) for n in ("B", "L", "I", "O", "H"))
            mid = (L,) if dim == 3 else ()
            other, lin, third = Linear("other", O, H), Linear("lin", I, O, bias), Linear("third", I, I)
            net = Net([Tanh(), other, lin, third])
            h = m.HookManager(net, ["lin", "other", "third"], device="cpu")
            h.set_compressors([Rec("lin"), Rec("other"), Rec("third")])
            x = tensor("x", B, *mid, I)
            y = lin.forward(x)
            want_y = lambda *i: T.add(S([I], lambda f: T.mul(T.fn("x", *i[:-1], f), T.fn("Wlin", i[-1], f))), T.fn("blin", i[-1]) if bias else T.num(0, "R"))
            ensure_eq(y, (B, *mid, O), want_y, "the forward pass is the layer's own")
            z = other.forward(y)
            ensure(len(tape) == 2, "two layers are used")
            gz, gy = tensor("gz", B, *mid, H), tensor("gy", B, *mid, O)
            cls, ctx = tape[1]
            back = cls.backward(ctx, gz)
            ensure(len(back) == 5 and all(q is None for q in back[1:]), "no gradient but that of the input")
            ensure_eq(back[0], (B, *mid, O), lambda *i: S([H], lambda f: T.mul(T.fn("gz", *i[:-1], f), T.fn("Wother", f, i[-1]))), "gradient of the input: g W")
            cls, ctx = tape[0]
            back = cls.backward(ctx, gy)
            ensure_eq(back[0], (B, *mid, I), lambda *i: S([O], lambda f: T.mul(T.fn("gy", *i[:-1], f), T.fn("Wlin", f, i[-1]))), "gradient of the input: g W (first layer)")
            r = h.get_compressed_grads()
            ensure(len(r) == 3 and r[0][0] == "lin" and r[1][0] == "other" and r[2] is None, "one compressed gradient per layer, in the order of the names; none for an unused layer")
            ensure_eq(r[0][1], (B, *mid, O), lambda *i: T.fn("gy", *i), "the layer's output gradient")
            e = wrap(T.add(P(I), ONE)) if bias else I
            ensure_eq(r[0][2], (B, *mid, e), lambda *i: T.ite(T.lt(i[-1], P(I)), T.fn("x", *i), T.num(1, "R")) if bias else T.fn("x", *i), "the layer's input")
            ensure_eq(r[1][1], (B, *mid, H), lambda *i: T.fn("gz", *i), "the other layer's output gradient")
            ensure_eq(r[1][2], (B, *mid, wrap(T.add(P(O), ONE))), lambda *i: T.ite(T.lt(i[-1], P(O)), want_y(*i), T.num(1, "R")), "the other layer's input")
            ensure(all(q is None for q in h.get_compressed_grads()), "a batch's gradients are handed out once")


@contract("P18", "HookManager wraps exactly the chosen linear layers and restores them", [HO + "HookManager." + n for n in (
    "_register_hooks", "remove_hooks", "enable_hooks", "disable_hooks", "_custom_linear_forward", "__del__")])
def c(w):
    tape = []
    m = load_hook(w, tape)
    I = Int("I", 1)
    for names in (["a"], ["c", "a"], ["b", "norm"], [], ["a", "b", "c"], ["nosuch", "b"]):
        mods = [Linear("a", I, I), Tanh(), Linear("b", I, I), Norm(), Linear("c", I, I, False)]
        net = Net(mods)
        h = m.HookManager(net, list(names))
        hid = h._hook_manager_id
        recs = [Rec(n) for n in names]
        h.set_compressors(recs)
        for x in mods:
            same("%s: %s is wrapped exactly when chosen" % (names, x.name), "forward" in x.__dict__, x.name in names and isinstance(x, Linear))
        tape.clear()
        h.disable_hooks()
        X = tensor("x", I, I)
        for x in mods:
            x.forward(X)
        same("%s: nothing is recorded while disabled" % names, len(tape), 0)
        h.enable_hooks()
        for x in mods:
            x.forward(X)
        used = [x.name for x in mods if isinstance(x, Linear) and x.name in names]
        same("%s: the chosen layers are recorded" % names, [ctx.layer_idx for _, ctx in tape], [names.index(n) for n in used])
        for cls, ctx in reversed(tape):
            cls.backward(ctx, tensor("g%d" % ctx.layer_idx, I, I))
        got = h.get_compressed_grads()
        same("%s: gradients in the order of the names" % names, [None if q is None else q[0] for q in got], [n if n in used else None for n in names])
        h.remove_hooks()
        same("%s: the layers' own forward is back" % names, [x.__dict__.get("forward", x.forward).__func__ for x in mods],
             [type(x).forward for x in mods])
        same("%s: nothing is left on the layers" % names, [hasattr(x, "_original_forward") for x in mods], [False] * len(mods))
        same("%s: the manager is forgotten" % names, hid in m._HOOK_MANAGER_REGISTRY, False)


# ------------------------------------------------------------------ compressor setup
class Handle:
    def __init__(self, l, f):
        self.l, self.f = l, f

    def remove(self):
        self.l.remove(self.f)


def hooked(x):
    x.hooks = []
    x.register_forward_hook = lambda f: (x.hooks.append(f), Handle(x.hooks, f))[1]
    return x


class Probe(Net):
    """a model whose layers see symbolic inputs of given sizes"""

    def __init__(self, mods, ios, log):
        Net.__init__(self, mods)
        self.ios, self.log = ios, log

    def parameters(self):
        return iter([tstub_param()])

    def to(self, device):
        return self

    def __call__(self, *a, **k):
        self.log.append((a, sorted(k)))
        for x in self.mods:
            for f in list(x.hooks):
                i, o = self.ios[x.name]
                f(x, (i,), o)


def tstub_param():
    class Param:
        device = "cpu"
    return Param


class Shape:
    """what random_project may look at: the number of rows and columns of the sample it is given"""


def projectors(m, log):
    class Made:
        def __init__(self, feature, pp):
            self.feature, self.pp = feature, pp
            log.append(self)

        def __call__(self, x, ensemble_id=0):
            ENG.check("pre: the projector is used for features of its size", T.eq(x.pshape[-1], self.feature.pshape[-1]))
            return SymTensor([x.pshape[0], P(self.pp.proj_dim)], lambda i: T.num(0, "R"), "f")
    m.random_project = lambda feature, proj_params: Made(feature, proj_params)
    return Made


def params(m, tag, kind, dim):
    class Pp:
        pass
    G = m.GeneralProjectionParams
    return G(proj_dim=dim, proj_max_batch_size=Int("mb" + tag, 1), proj_seed=Int("seed" + tag), proj_type=kind)


for kind, dims in (("normal", "given"), ("identity", "none")):
    for dim in (2, 3):
        @contract("P18", "setup_model_compressors[%d-D, %s]" % (dim, kind), [CO + n for n in (
            "setup_model_compressors", "_setup_linear_sparsifier", "_setup_linear_projector")])
        def c(w, dim=dim, kind=kind):
            nn = w.stubs["torch"].nn
            nn.Linear, nn.LayerNorm = Linear, Norm
            m = w.load("dattri.algorithm.block_projected_if.core.compressor")
            m.nn.Linear, m.nn.LayerNorm = Linear, Norm
            made, calls = [], []
            projectors(m, made)
            B, L = Int("B", 1), Int("L", 1)
            sizes = {"a": (Int("Ia", 1), Int("Oa", 1)), "b": (Int("Ib", 1), Int("Ob", 1)), "c": (Int("Ic", 1), Int("Oc", 1))}
            mods = [hooked(x) for x in (Linear("a", *sizes["a"]), Tanh(), Linear("b", *sizes["b"], False), Linear("c", *sizes["c"]))]
            mid = (L,) if dim == 3 else ()
            ios = {n: (tensor("i" + n, B, *mid, i), tensor("o" + n, B, *mid, o)) for n, (i, o) in sizes.items()}
            ios["act"] = (None, None)
            net = Probe(mods, ios, calls)
            names = ["c", "a", "b"]
            ks, kp = Int("ks", 1), Int("kp", 1)
            sp, pj = params(m, "s", kind, ks if kind == "normal" else -1), params(m, "p", kind, kp if kind == "normal" else -1)
            sample = tensor("sample", B, Int("F", 1))
            out = m.setup_model_compressors(net, names, sparsifier_params=sp, projector_params=pj, sample_inputs=sample, device="cpu")
            ensure(len(out) == 3 and [q.name for q in out] == names and [q.index for q in out] == [0, 1, 2], "one compressor per layer, in the order of the names")
            ensure(not any(x.hooks for x in mods), "no hook is left behind")
            pos = {"a": 1, "b": 3, "c": 4}
            rows = T.mul(P(B), P(L)) if dim == 3 else P(B)
            for q, n in zip(out, names):
                i, o = sizes[n]
                e = T.add(P(i), ONE) if n != "b" else P(i)
                c1, c2 = q.sparsifier.sparsifier_comp
                pr = q.projector.projector
                base = T.mul(T.num(10000), T.num(pos[n]))
                d1, d2 = (P(ks), P(ks)) if kind == "normal" else (P(o), e)
                for what, x, width, k, seed, mb in (("output-gradient sparsifier", c1, P(o), d1, T.add(P(sp.proj_seed), base), sp.proj_max_batch_size),
                                                    ("input sparsifier", c2, e, d2, T.add(T.add(P(sp.proj_seed), base), ONE), sp.proj_max_batch_size),
                                                    ("projector", pr, T.mul(d1, d2), P(kp) if kind == "normal" else T.mul(d1, d2),
                                                     T.add(T.add(P(pj.proj_seed), base), ONE), pj.proj_max_batch_size)):
                    w_ = "%s of %s: " % (what, n)
                    ensure_num(wrap(x.feature.pshape[-1]), width, w_ + "number of features")
                    ensure_num(x.pp.proj_dim, k, w_ + "dimension")
                    ensure_num(x.pp.proj_seed, seed, w_ + "seed")
                    ensure_num(x.pp.proj_max_batch_size, P(mb), w_ + "largest batch")
                    ensure_num(wrap(x.feature.pshape[0]), P(B) if what == "projector" else rows, w_ + "rows of the sample")
                    ensure_num(x.pp.feature_batch_size, P(B) if what == "projector" else rows, w_ + "batch size")
                    same(w_ + "kind and device", (x.pp.proj_type, str(x.pp.device)), (kind, "cpu"))
                ensure_num(q.sparsifier.intermediate_dims[0], d1, "%s: first intermediate dimension" % n)
                ensure_num(q.sparsifier.intermediate_dims[1], d2, "%s: second intermediate dimension" % n)
            ensure_num(sp.proj_dim, P(ks) if kind == "normal" else T.num(-1), "the parameters passed in are not modified")


@contract("P18", "setup_model_compressors[no sample, other layers]", [CO + "setup_model_compressors"])
def c(w):
    nn = w.stubs["torch"].nn
    nn.Linear, nn.LayerNorm = Linear, Norm
    m = w.load("dattri.algorithm.block_projected_if.core.compressor")
    m.nn.Linear, m.nn.LayerNorm = Linear, Norm
    made, calls = [], []
    projectors(m, made)
    B, I, O = Int("B", 1), Int("I", 1), Int("O", 1)
    mods = [hooked(Linear("a", I, O)), hooked(Tanh()), hooked(Linear("idle", I, O))]
    net = Probe(mods, {"a": (tensor("i", B, I), tensor("o", B, O)), "act": (tensor("i", B, I), tensor("o", B, O)), "idle": (None, None)}, calls)
    sp, pj = params(m, "s", "normal", Int("ks", 1)), params(m, "p", "normal", Int("kp", 1))
    same("no sample: no compressors", list(m.setup_model_compressors(net, ["a"], sp, pj, None, "cpu")), [])
    x = tensor("x", B, I)
    try:
        m.setup_model_compressors(net, ["act"], sp, pj, x, "cpu")
        ENG.check("post: other kinds of layer are refused", T.FALSE)
    except ValueError:
        ENG.check("post: other kinds of layer are refused", T.TRUE)
    for z in mods:
        z.hooks.clear()
    calls.clear()
    net.ios["idle"] = (None, None)
    out = m.setup_model_compressors(net, ["idle", "a"], sp, pj, EDict({"x": x, "y": x}), "cpu")
    ensure(out[0] is None and out[1].name == "a", "a layer the sample does not reach has no compressor")
    same("the entries of a dict batch are passed by name", all(k == (tuple(), ["x", "y"]) for k in calls) and len(calls) > 0, True)


# ------------------------------------------------------------------ the attributors
class Model(Net):
    def to(self, device):
        self.device = device
        return self


class Task:
    def __init__(self, model):
        self.model, self.loaded = model, []

    def _load_checkpoints(self, k):
        self.loaded.append(k)

    def get_model(self):
        return self.model


def load_attributor(w, which=None):
    nn = w.stubs["torch"].nn
    nn.Linear, nn.LayerNorm = Linear, Norm
    m = w.load("dattri.algorithm.block_projected_if.block_projected_if")
    m.nn.Linear = Linear
    log = {}
    m.create_offload_manager = lambda **k: log.__setitem__("offload", k) or "OFF"
    m.MetadataManager = lambda d, names: log.__setitem__("meta", (d, list(names))) or "META"
    m.setup_model_compressors = lambda *a, **k: log.__setitem__("setup", (a, k)) or ["compressors"]
    return m, (w.load("dattri.algorithm." + which) if which else m), log


def model():
    return Model([Linear("a", 2, 2), Tanh(), Linear("b", 2, 2), Norm()])


@contract("P18", "BlockProjectedIFAttributor: layers, stores, compressor setup", [BA + "__init__", BA + "_setup_compressors"])
def c(w):
    m, _, log = load_attributor(w)
    for names, want in ((None, ["a", "b"]), ("b", ["b"]), (["b", "a"], ["b", "a"])):
        t = Task(model())
        log.clear()
        a = m.BlockProjectedIFAttributor(t, layer_names=names, hessian="Identity", damping=Real("dm"), device="cpu", offload="disk",
                                         cache_dir="/d", chunk_size=7, sparsifier_params="SP", projector_params="PP")
        same("%s: the layers" % names, list(a.layer_names), want)
        same("%s: the first checkpoint's model on the device" % names, (t.loaded, a.model is t.model, t.model.device), ([0], True, "cpu"))
        same("%s: the stores" % names, dict(log["offload"], layer_names=list(log["offload"]["layer_names"])),
             dict(offload_type="disk", device="cpu", layer_names=want, cache_dir="/d", chunk_size=7))
        same("%s: the metadata" % names, log["meta"], ("/d", want))
        X, Y = tensor("X", Int("B", 1), Int("F", 1)), tensor("Y", Int("B", 1))
        for form, batch in (("tuple", (X, Y)), ("list", EList([X, Y])), ("dict", EDict({"x": X, "y": Y}))):
            a._setup_compressors(EList([batch, "another batch"]))
            args, k = log["setup"]
            same("%s, %s: set up for the model and its layers" % (names, form), (args[0] is t.model, list(args[1]), k["sparsifier_params"],
                 k["projector_params"], k["device"], a.compressors), (True, want, "SP", "PP", "cpu", ["compressors"]))
            s = k["sample_inputs"]
            if form == "dict":
                same("%s, dict: by name" % names, sorted(s), ["x", "y"])
                s = dict.__getitem__(s, "x")
            ensure_eq(s, tuple(wrap(d) for d in X.pshape), lambda *i: T.fn("X", *i), "%s, %s: the first batch" % (names, form))
    try:
        m.BlockProjectedIFAttributor(Task(model()), offload="disk")
        ENG.check("post: the disk store needs a directory", T.FALSE)
    except ValueError:
        ENG.check("post: the disk store needs a directory", T.TRUE)


class Root:
    """math: the exact square root"""

    def __init__(self, n, s, t):
        self.n, self.s, self.t = n, s, t

    def sqrt(self, x):
        ENG.check("pre: the root of the intermediate dimension", T.eq(P(x), P(self.n)))
        r = Real("root")
        ENG.assume(T.implies(T.eq(P(self.t), ZERO), T.eq(P(r), T.to_real(P(self.s)))))
        ENG.assume(T.implies(T.lt(ZERO, P(self.t)), T.band(T.lt(T.to_real(P(self.s)), P(r)), T.lt(P(r), T.to_real(T.add(P(self.s), ONE))))))
        ENG.assume(T.eq(T.fn("floor", P(r), sort="I"), P(self.s)))      # a consequence of the two lines above
        return r


for which in ("logra", "factgrass"):
    for given in (True, False):
        @contract("P18", "%s: two-stage projection parameters[%s]" % (which, "given" if given else "default"), [
            "dattri/algorithm/%s.py::%sAttributor.__init__" % (which, {"logra": "LoGra", "factgrass": "FactGraSS"}[which])])
        def c(w, which=which, given=given):
            _, m, log = load_attributor(w, which)
            pm = w.load("dattri.params.projection")
            fact = which == "factgrass"
            s, t = Int("s", 1), Int("t", 0)
            ENG.assume(T.le(P(t), T.mul(T.num(2), P(s))))
            blow = Int("blow", 1) if fact and given else None
            dim = Int("dim", 1) if given else wrap(T.num(4096))
            n = wrap(T.mul(P(dim), P(blow))) if blow is not None else wrap(T.mul(P(dim), T.num(4 if fact else 1)))
            # n = s^2 + t with 0 <= t <= 2 s: every positive number is of this form for exactly one s
            ENG.assume(T.eq(P(n), T.add(T.mul(P(s), P(s)), P(t))))
            if not given:
                ENG.assume(T.eq(P(s), T.num(128 if fact else 64)))
                ENG.assume(T.eq(P(t), ZERO))
            square = ENG.branch(T.eq(P(t), ZERO))
            m.math = Root(n, s, t)
            kind = pm.FactGrassProjectionParams if fact else pm.LoGraProjectionParams
            seed, mb = Int("seed"), Int("mb", 1)
            pp = kind(proj_dim_per_layer=dim, proj_seed=seed, proj_max_batch_size=mb) if given else None
            cls = m.FactGraSSAttributor if fact else m.LoGraAttributor
            for device in ("cpu", "cuda"):
                task = Task(model())
                try:
                    a = cls(task, layer_names=["b"], hessian="Identity", damping=Real("dm"), device=device, proj_params=pp, offload="disk",
                            cache_dir="/d", chunk_size=3, **({"blowup_factor": blow} if blow is not None else {}))
                except ValueError:
                    ENG.check("post: only dimensions that are no perfect square are refused", T.FALSE if square else T.TRUE)
                    continue
                ENG.check("post: dimensions that are no perfect square are refused", T.TRUE if square else T.FALSE)
                sp, pj = a.sparsifier_params, a.projector_params
                ensure_num(sp.proj_dim, P(s), "%s: each component is reduced to the root" % device)
                ensure_num(pj.proj_dim, P(dim) if fact else T.num(-1), "%s: the second stage" % device)
                same("kinds of the stages on %s" % device, (plain(sp.proj_type), plain(pj.proj_type)),
                     ("random_mask", "sjlt" if device == "cuda" else "normal") if fact else ("normal", "identity"))
                for x, what in ((sp, "first"), (pj, "second")):
                    ensure_num(x.proj_seed, P(seed) if given else ZERO, "%s: the seed given is used in the %s stage" % (device, what))
                    ensure_num(x.proj_max_batch_size, P(mb) if given else T.num(64), "%s: the batch size given is used in the %s stage" % (device, what))
                same("%s: everything else is forwarded" % device, (list(a.layer_names), a.hessian, a.device, a.offload, a.cache_dir, a.chunk_size, a.task is task),
                     (["b"], "Identity", device, "disk", "/d", 3, True))


def plain(x):
    return getattr(x, "value", x)
