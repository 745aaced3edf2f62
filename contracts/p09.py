"""P09: random projections are fixed linear maps per (seed, ensemble)."""
from contracts.lib import *
from engine import tstub
from engine.core import ENG

M = "dattri/func/projection.py::"
BP = M + "BasicProjector."
CP = M + "CudaProjector."
DRAWS = ("normal", "bernoulli", "randint", "randperm", "randn", "rand")


def draws(t, name):
    """the draws of the given kind a term depends on"""
    return sorted({x for x in T.subterms(t) if x.k == "Fn" and x.a[0] == name}, key=lambda x: x.uid)


def dev(kind="cpu"):
    return tstub.Device(kind)


def havoc_generator(g):
    g.manual_seed(wrap(T.var("any_seed", "I")))
    g.count = wrap(T.var("any_count", "I"))


KINDS = {"normal": "normal", "rademacher": "bernoulli"}


def entry(kind, out, what):
    """the random draw every entry of the map is made of: (feature i, column c) -> its arguments"""
    b, c = T.var("b"), T.var("c")
    d = draws(out.at([b, c]), KINDS[kind])
    if len(d) != 1:
        ENG.fail("post: %s" % what, "%d draws: %s" % (len(d), [T.show(x) for x in d][:3]))
        return None
    bound = [k for k, a in enumerate(d[0].a[1]) if T.as_atom(a) is not None and T.as_atom(a).k == "B"]
    if len(bound) != 1:
        ENG.fail("post: %s" % what, "entry %s" % T.show(d[0]))
        return None

    def args(i, col):
        return [P(i) if k == bound[0] else T.subst(a, {T.as_atom(c): P(col)}) for k, a in enumerate(d[0].a[1])]
    return args


for kind in KINDS:
    for blocks in ("one block", "several blocks"):
        @contract("P09", "BasicProjector[%s, %s]" % (kind, blocks),
                  [BP + n for n in ("__init__", "project", "get_generator_states", "_gen_randomness_dense", "free_memory")] +
                  [M + "_preprocess_features", M + "_rademacher"])
        def c(w, kind=kind, blocks=blocks):
            h = w.load("dattri.func.projection")
            B, B2, D, Pd, bs = (Int(n, 1) for n in ("B", "B2", "D", "proj_dim", "block"))
            seed, e1, e2 = (Int(n, 0) for n in ("seed", "e1", "e2"))
            if blocks == "one block":
                ENG.assume(T.le(P(Pd), P(bs)))
            else:
                ENG.assume(T.lt(P(bs), P(Pd)))
            F, G = tensor("F", B, D), tensor("G", B2, D)
            ty = h.ProjectionType(kind)

            def new(e):
                return h.BasicProjector(D, Pd, seed, ty, dev(), block_size=bs, ensemble_id=e)
            fresh = new(e2).project(F, e2)
            p = new(e1)
            p.project(G, e1)
            havoc_generator(p.generator)
            again = p.project(F, e2)
            ensure_eq(again, (B, Pd), lambda b, c: fresh.at([b, c]), "the same map whatever was projected before")
            if blocks == "one block":
                p.free_memory()
                freed = p.project(F, e2)
                ensure_eq(freed, (B, Pd), lambda b, c: fresh.at([b, c]), "the same map after free_memory")
            # fixed entries: the draw's arguments do not involve the features or the batch
            what = "project = F R / sqrt(proj_dim), every entry of R one random draw"
            a = entry(kind, fresh, what)
            if a is None:
                return

            def val(i, c):
                d = T.fn(KINDS[kind], *a(i, c))
                return T.sub(T.scale(d, 2), ONE) if kind == "rademacher" else d
            ensure_eq(fresh, (B, Pd), lambda b, c: T.div(S([D], lambda i: T.mul(F.at([b, i]), val(i, c))), T.sqrt(P(Pd))), what)
            # different entries, and the entries of different ensembles, are different draws
            a3 = entry(kind, new(e1).project(F, e1), what)
            i, i2, c, c2 = (T.var(n) for n in ("i", "i2", "c", "c2"))
            for v, n in ((i, D), (i2, D), (c, Pd), (c2, Pd)):
                ENG.assume(T.in_range(v, P(n)))
            same = T.band(*[T.eq(x, y) for x, y in zip(a(i, c), a3(i2, c2))])
            ensure(T.implies(same, T.band(T.eq(i, i2), T.eq(c, c2), T.eq(P(e1), P(e2)))),
                   "different entries and different ensembles use different random draws")


@contract("P09", "BasicProjector[random_mask]", [BP + "__init__", BP + "project", BP + "_gen_randomness_mask", M + "_mask"])
def c(w):
    h = w.load("dattri.func.projection")
    B, B2, D, Pd, bs = (Int(n, 1) for n in ("B", "B2", "D", "proj_dim", "block"))
    ENG.assume(T.le(P(Pd), P(D)))
    seed, e1, e2 = (Int(n, 0) for n in ("seed", "e1", "e2"))
    F, G = tensor("F", B, D), tensor("G", B2, D)
    sv_perm(D)

    def new(e):
        return h.BasicProjector(D, Pd, seed, h.ProjectionType("random_mask"), dev(), block_size=bs, ensemble_id=e)
    fresh = new(e2).project(F, e2)
    p = new(e1)
    p.project(G, e1)
    havoc_generator(p.generator)
    again = p.project(F, e2)
    ensure_eq(again, (B, Pd), lambda b, c: fresh.at([b, c]), "the same map whatever was projected before")
    s2 = selection(fresh, F, B, Pd, D)
    s1 = selection(new(e1).project(F, e1), F, B, Pd, D)
    if s1 is not None and s2 is not None:
        ensure(T.implies(T.band(*[T.eq(x, y) for x, y in zip(s1, s2)]), T.eq(P(e1), P(e2))), "different ensembles use different draws")


def sv_perm(D):
    """torch.randperm(n) is a permutation of range(n)"""
    from engine import solver as sv
    sv.FACTS["randperm"] = lambda a: [T.le(ZERO, T.fn("randperm", *a, sort="I")), T.lt(T.fn("randperm", *a, sort="I"), a[2])]


def column(out, F):
    """the feature a column of the output is copied from, as a function of the column"""
    b, c = T.var("b"), T.var("c")
    a = T.as_atom(out.at([b, c]))
    if a is None or a.k != "Fn" or a.a[0] != "F":
        return None
    return lambda col: T.subst(a.a[1][1], {T.as_atom(c): P(col)}), T.eq(a.a[1][0], b)


def selection(out, F, B, Pd, D):
    """each column of the output is one feature; the features are the first proj_dim of a random permutation, sorted"""
    r = column(out, F)
    if r is None:
        ENG.fail("post: every output column is one feature", T.show(out.at([T.var("b"), T.var("c")]))[:200])
        return
    col, row = r
    ensure(row, "every output row comes from its own feature row")
    c = T.var("c")
    heads = {x.a[1][:3] for x in draws(col(c), "randperm")}
    if len(heads) != 1 or any(T.as_atom(a) is not None and T.as_atom(a).k == "V" and T.as_atom(a) is T.as_atom(c) for a in list(heads)[0][:2]):
        ENG.fail("post: the features come from one random permutation", T.show(col(c))[:200])
        return
    perm = SymTensor([P(Pd)], lambda i: T.fn("randperm", *list(heads)[0], i[0], sort="I"), "i")
    want = perm.sort()[0]
    ENG.assume(T.in_range(c, P(Pd)))
    ensure(T.eq(col(c), want.at([c])), "the features are the first proj_dim of a random permutation, in order")
    ENG.pc.pop()
    return list(heads)[0]


@contract("P09", "BasicProjector[identity]", [BP + "__init__", BP + "project"])
def c(w):
    h = w.load("dattri.func.projection")
    B, D, Pd = (Int(n, 1) for n in ("B", "D", "proj_dim"))
    F = tensor("F", B, D)
    p = h.BasicProjector(D, Pd, Int("seed", 0), h.ProjectionType("identity"), dev(), block_size=Int("block", 1))
    for e in (Int("e1", 0), Int("e2", 0)):
        ensure_eq(p.project(F, e), (B, D), lambda b, c: F.at([b, c]), "the features themselves")


# ------------------------------------------------------------------ CUDA
class SJLT:
    """the sjlt package's projection, as the matrix it applies"""
    def __init__(self, i, o, c, device=None):
        self.i, self.o, self.c = i, o, c
        self.rand_indices = tensor("stale_indices", i, c, kind="i")
        self.rand_signs = tensor("stale_signs", i, c, kind="i")

    def __call__(self, x):
        ENG.check("pre: features of the dimension the SJLT was made for", T.eq(x.pshape[1], P(self.i)))
        ix, sg, sn = tstub.snapshot(self.rand_indices), tstub.snapshot(self.rand_signs), tstub.snapshot(x)
        return SymTensor([x.pshape[0], P(self.o)], lambda q: S([self.i, self.c], lambda j, k: T.mul(T.mul(
            sn.at([q[0], j]), T.to_real(sg.at([j, k]))), T.to_real(T.iverson(T.eq(ix.at([j, k]), q[1]))))), "f")


def with_sjlt(w):
    m = tstub.stub("sjlt")
    m.SJLTProjection = SJLT
    w.stubs["sjlt"] = m


for kind in ("normal", "rademacher", "random_mask", "sjlt", "grass", "identity"):
    @contract("P09", "CudaProjector[%s]" % kind, [CP + n for n in (
        "__init__", "project", "_generate_randomness", "_gen_randomness_dense", "_gen_randomness_mask", "_gen_randomness_sjlt",
        "_gen_randomness_grass")])
    def c(w, kind=kind):
        with_sjlt(w)
        h = w.load("dattri.func.projection")
        B, B2, D, Pd, mult = (Int(n, 1) for n in ("B", "B2", "D", "proj_dim", "mult"))
        seed, e1, e2 = (Int(n, 0) for n in ("seed", "e1", "e2"))
        F, G = tensor("F", B, D), tensor("G", B2, D)
        sv_perm(D)
        if kind in ("random_mask", "grass"):
            ENG.assume(T.le(P(Pd), P(D)))
        k = {"grass_multiplier": mult}

        def new():
            return h.CudaProjector(D, Pd, seed, h.ProjectionType(kind), dev("cuda"), **k)
        fresh = new().project(F, e2)
        p = new()
        p.project(G, e1)
        havoc_generator(p.generator)
        again = p.project(F, e2)
        W = D if kind == "identity" else Pd
        ensure_eq(again, (B, W), lambda b, c: fresh.at([b, c]), "the same map whatever was projected before")
        if kind == "identity":
            ensure_eq(fresh, (B, D), lambda b, c: F.at([b, c]), "the features themselves")
        if kind in KINDS:
            what = "project = F R / sqrt(proj_dim), every entry of R one random draw"
            a = entry(kind, fresh, what)
            a3 = entry(kind, new().project(F, e1), what)
            if a is None or a3 is None:
                return

            def val(i, c):
                d = T.fn(KINDS[kind], *a(i, c))
                return T.sub(T.scale(d, 2), ONE) if kind == "rademacher" else d
            ensure_eq(fresh, (B, Pd), lambda b, c: T.div(S([D], lambda i: T.mul(F.at([b, i]), val(i, c))), T.sqrt(P(Pd))), what)
            i, i2, c, c2 = (T.var(n) for n in ("i", "i2", "c", "c2"))
            for v, n in ((i, D), (i2, D), (c, Pd), (c2, Pd)):
                ENG.assume(T.in_range(v, P(n)))
            same = T.band(*[T.eq(x, y) for x, y in zip(a(i, c), a3(i2, c2))])
            ensure(T.implies(same, T.band(T.eq(i, i2), T.eq(c, c2), T.eq(P(e1), P(e2)))),
                   "different entries and different ensembles use different random draws")
        if kind == "random_mask":
            s2, s1 = selection(fresh, F, B, Pd, D), selection(new().project(F, e1), F, B, Pd, D)
            if s1 is not None and s2 is not None:
                ensure(T.implies(T.band(*[T.eq(x, y) for x, y in zip(s1, s2)]), T.eq(P(e1), P(e2))),
                       "different ensembles use different draws")
        if kind in ("sjlt", "grass"):
            # a signed sum: every (kept) feature goes to one column, with a random sign
            n = D if kind == "sjlt" else wrap(T.imin(T.mul(P(Pd), P(mult)), P(D)))
            i = T.var("i")
            term = fresh.at([T.var("b"), T.var("c")])
            ri = {x.a[1][:-2] for x in draws(term, "randint")}
            if len(ri) != 2:
                ENG.fail("post: one bucket and one sign per feature", "%d draws" % len(ri))
                return
            bk = [x for x in ri if x[2] is ZERO and x[3] is P(Pd)]
            sg = [x for x in ri if x[2] is ZERO and x[3] is P(2)]
            rp = {x.a[1][:3] for x in draws(term, "randperm")}
            if not ((len(bk) == 1 or Pd == 2) and len(sg) >= 1 and len(rp) == (kind == "grass")):
                ENG.fail("post: one bucket and one sign per feature", "%s" % [[T.show(y) for y in x] for x in ri])
                return
            if rp:
                perm = SymTensor([P(n)], lambda i: T.fn("randperm", *list(rp)[0], i[0], sort="I"), "i")
                kept = perm.sort()[0]
                feat = lambda j: kept.at([j])       # noqa: E731
            else:
                feat = lambda j: j      # noqa: E731
            ensure_eq(fresh, (B, Pd), lambda b, c: S([n], lambda j: T.mul(T.mul(F.at([b, feat(j)]), T.to_real(T.sub(T.scale(
                T.fn("randint", *sg[0], j, ZERO, sort="I"), 2), ONE))), T.to_real(T.iverson(T.eq(T.fn(
                    "randint", *bk[0], j, ZERO, sort="I"), c))))), "every kept feature goes to one column with a random sign")


# ------------------------------------------------------------------ random_project
class Params:
    def __init__(self, **k):
        self.__dict__.update(k)


def feats(B, form, k=""):
    """(features, their vectorised form, total dimension)"""
    a1, a2, a3 = Int("a1", 1), Int("a2", 1), Int("a3", 1)
    if form == "tensor":
        D = Int("D", 1)
        F = tensor("F" + k, B, D)
        return F, (lambda b, i: F.at([b, i])), D
    X, Y = tensor("F1" + k, B, a1, a2), tensor("F2" + k, B, a3)
    Z = tensor("F3" + k, B)
    d = EDict()
    dict.__setitem__(d, "one", X)
    dict.__setitem__(d, "two", Y)
    dict.__setitem__(d, "three", Z)
    n1 = T.mul(P(a1), P(a2))
    n2 = T.add(n1, P(a3))

    def at(b, i):
        return T.ite(T.lt(i, n1), X.at([b, T.floordiv(i, P(a2)), T.mod(i, P(a2))]),
                     T.ite(T.lt(i, n2), Y.at([b, T.sub(i, n1)]), Z.at([b])))
    return d, at, wrap(T.add(n2, ONE))


for form in ("tensor", "dict"):
    for device in ("cpu", "cuda"):
        @contract("P09", "random_project[%s, %s]" % (form, device), [M + "random_project", M + "make_random_projector",
                                                                    M + "_preprocess_features", "dattri/func/utils.py::_vectorize"])
        def c(w, form=form, device=device):
            h = w.load("dattri.func.projection")
            B, Pd = Int("B", 1), Int("proj_dim", 1)
            seed, e, pb = Int("seed", 0), Int("e", 0), Int("proj_max_batch_size", 1)
            F, at, D = feats(B, form)
            if device == "cuda":
                # fewer features than one chunk holds
                h.get_parameter_chunk_sizes = lambda sizes, n: (Int("max_chunk", 1), EList([wrap(P(sum(sizes)))]))
            ENG.assume(T.le(P(Pd), T.num(100)))
            pp = Params(proj_dim=Pd, proj_max_batch_size=pb, proj_seed=seed, feature_batch_size=B, device=device, proj_type="normal")
            f = h.random_project(F, pp)
            cls = h.BasicProjector if device == "cpu" else h.CudaProjector
            V = SymTensor([P(B), P(D)], lambda i: at(*i), "f")
            k = {} if device == "cpu" else {"grass_multiplier": 4}
            ref = cls(D, Pd, seed, h.ProjectionType.normal, dev(device), **k).project(V, e)
            out = f(F, ensemble_id=e)
            ensure_eq(out, (B, Pd), lambda b, c: ref.at([b, c]),
                      "random_project projects the vectorised features with the projector of its parameters")


@contract("P09", "random_project validation", [M + "random_project", M + "_parse_grass_projection_type"])
def c(w):
    h = w.load("dattri.func.projection")
    made = []
    h.make_random_projector = lambda **k: made.append(k) or "p"
    F = tensor("F", Int("B", 1), Int("D", 1))

    def go(device, ty):
        del made[:]
        h.random_project(F, Params(proj_dim=2, proj_max_batch_size=8, proj_seed=0, feature_batch_size=1, device=device, proj_type=ty))
        return made[0]["proj_type"], made[0]["grass_multiplier"]
    for ty in ("identity", "rademacher", "normal", "random_mask"):
        for d in ("cpu", "cuda"):
            ensure(go(d, ty)[0] is h.ProjectionType(ty), "%s on %s" % (ty, d))
    ensure(go("cuda", "sjlt")[0] is h.ProjectionType.sjlt, "sjlt on cuda")
    ensure(go("cuda", "grass") == (h.ProjectionType.grass, 4), "grass on cuda")
    ensure(go("cuda", "grass_7") == (h.ProjectionType.grass, 7), "grass with a multiplier")
    for d, ty in (("cpu", "sjlt"), ("cpu", "grass"), ("cpu", "grass_2"), ("cpu", "gaussian"), ("cuda", "gaussian"), ("mps", "normal"),
                  ("cuda", "grass_x")):
        expect_raise(ValueError, lambda: go(d, ty), "%s is refused on %s" % (ty, d))


# ------------------------------------------------------------------ chunks
class Piece:
    """the projector of chunk k, as the linear map it applies"""
    def __init__(self, k, dim, Pd, ty=None):
        self.k, self.dim, self.proj_dim, self.proj_type = k, dim, Pd, ty

    def project(self, x, ensemble_id):
        ENG.check("pre: the chunk's projector gets the chunk's features", T.eq(x.pshape[1], P(self.dim)))
        sn = tstub.snapshot(x)
        return SymTensor([x.pshape[0], P(self.proj_dim)], lambda i: S([self.dim], lambda j: T.mul(
            sn.at([i[0], j]), T.fn("R%d" % self.k, P(ensemble_id), j, i[1]))), "f")


for form in ("2 parameters", "3 parameters", "2 parameters, one of several chunks"):
    @contract("P09", "ChunkedCudaProjector[%s]" % form, [M + "ChunkedCudaProjector." + n for n in ("__init__", "project", "dict_project",
                                                                                                "allocate_input", "free_memory")] +
              ["dattri/func/utils.py::get_parameter_chunk_sizes"], budget=400)
    def c(w, form=form):
        np = w.stubs["numpy"]
        np.array = lambda x, **k: x
        np.iinfo = lambda t: Params(max=Int("UMAX", 1))
        np.uint32 = "uint32"
        u = w.load("dattri.func.utils")
        h = w.load("dattri.func.projection")
        B, B2, fb, Pd, pb = (Int(n, 1) for n in ("B", "B2", "feature_batch_size", "proj_dim", "proj_max_batch_size"))
        ENG.assume(T.le(P(B), P(fb)))
        ENG.assume(T.le(P(B2), P(fb)))
        n = int(form[0])
        sizes = [Int("s%d" % k, 1) for k in range(n)]
        # every parameter fits into a chunk; in the last case one spans up to three
        cap = T.floordiv(T.var("UMAX", "I"), T.scale(P(pb), 2))
        for s in sizes:
            ENG.assume(T.lt(P(s), cap))
        if "several" in form:
            sizes[1] = wrap(T.add(P(sizes[1]), cap, cap, T.num(-1)))      # 2 cap <= size < 3 cap - 1
        mx, chunks = u.get_parameter_chunk_sizes(EList(sizes), pb)
        chunks = list(chunks)
        ensure(T.eq(P(sum(chunks)), P(sum(sizes))), "the chunks cover the features")
        for c in chunks:
            ensure(T.band(T.le(P(c), P(mx)), T.lt(ZERO, P(c))), "a chunk holds at most max_chunk_size features")
        X = [tensor("F%d" % k, B, s) if k % 2 else tensor("F%d" % k, B, s, 1) for k, s in enumerate(sizes)]
        G = [tensor("G%d" % k, B2, s) for k, s in enumerate(sizes)]

        def mk():
            return h.ChunkedCudaProjector(EList([Piece(k, c, Pd) for k, c in enumerate(chunks)]), mx, EList(chunks), fb, dev("cuda"), None)

        def dct(ts):
            d = EDict()
            for k, t in enumerate(ts):
                dict.__setitem__(d, "p%d" % k, t)
            return d
        at, off = [], ZERO
        for k, s in enumerate(sizes):
            at.append((off, s, X[k]))
            off = T.add(off, P(s))

        def vec(b, i):
            r = ZERO
            for o, s, t in at:
                r = T.ite(T.le(o, i), t.at([b, T.sub(i, o)] + ([ZERO] if t.ndim == 3 else [])), T.to_real(r))
            return r
        e, e1 = Int("e", 0), Int("e1", 0)

        def want(b, c):
            r, o = T.num(0, "R"), ZERO
            for k, d in enumerate(chunks):
                r = T.add(r, S([d], lambda j: T.mul(vec(b, T.add(o, j)), T.fn("R%d" % k, P(e), j, c))))
                o = T.add(o, P(d))
            return r
        p = mk()
        p.dict_project(dct(G), e1)
        ensure_eq(p.dict_project(dct(X), e), (B, Pd), want, "a dict: the sum of the chunks' projections")
        p.free_memory()
        ensure_eq(p.dict_project(dct(X), e), (B, Pd), want, "a dict after free_memory")
        V = SymTensor([P(B), off], lambda i: vec(*i), "f")
        ensure_eq(p.project(V, e), (B, Pd), want, "a tensor: the sum of the chunks' projections")
        expect_raise(TypeError, lambda: p.project(dct(X), e), "project refuses a dict")


# ------------------------------------------------------------------ Arnoldi
for form in ("tensor", "dict"):
    @contract("P09", "arnoldi_project[%s]" % form, [M + "arnoldi_project"] + [M + "ArnoldiProjector." + n for n in (
        "__init__", "get_eigenspace", "project")])
    def c(w, form=form):
        h = w.load("dattri.func.projection")
        B, K, Pd, it, seed = (Int(n, 1) for n in ("B", "K", "proj_dim", "max_iter", "seed"))
        nc, tol, reg = Real("norm_constant"), Real("tol"), Real("reg")
        ENG.assume(T.lt(ZERO, P(nc)))
        ENG.assume(T.lt(ZERO, P(tol)))
        ENG.assume(T.le(P(K), P(Pd)))
        F, at, D = feats(B, form)
        G, gt_, _ = feats(B, form, "g")
        calls = []

        def hv(func, x, argnums=0, mode="rev-rev", regularization=0.0):
            return ("hvp", func, x, argnums, mode, regularization)
        h.hvp_at_x = hv

        def iter_(self, hvp_func, start_vec, n_iters, norm_constant, tol, device="cpu"):
            calls.append((hvp_func, start_vec, n_iters, norm_constant, tol))
            return "H", "Q"

        def distill(self, appr, proj, top_k, force_hermitian=True):
            ensure((appr, proj, top_k) == ("H", "Q", Pd) if not isinstance(top_k, SNum) else T.eq(P(top_k), P(Pd)),
                   "the proj_dim largest eigenvalues are kept")
            return tensor("ev", K), tensor("vec", K, D)
        h.ArnoldiProjector._arnoldi_iter = iter_
        h.ArnoldiProjector._distill = distill
        f = h.arnoldi_project(D, "fun", "x", argnums=2, proj_dim=Pd, max_iter=it, norm_constant=nc, tol=tol, mode="rev-fwd",
                              regularization=reg, seed=seed)
        f(G)
        out = f(F)
        ensure(len(calls) == 1, "one eigenspace for all features")
        hf, sv_, n, c0, t0 = calls[0]
        ensure(hf[0] == "hvp" and hf[1] == "fun" and hf[2] == ("x",) and hf[3] == 2 and hf[4] == "rev-fwd", "the function's Hessian at x")
        ensure_num(hf[5], reg, "the regularization")
        for a, b, m in ((n, it, "max_iter"), (c0, nc, "norm_constant"), (t0, tol, "tol")):
            ensure_num(a, b, m)
        ensure_shape(sv_, (D,), "start vector")
        if not ensure_shape(out, (B, K), "projection"):
            return
        b, k = T.var("b"), T.var("k")
        for v, m in ((b, B), (k, K)):
            ENG.assume(T.in_range(v, P(m)))
        ev = T.fn("ev", k)
        d = S([D], lambda i: T.mul(at(b, i), T.fn("vec", k, i)))
        ENG.assume(T.lt(T.mul(P(tol), P(tol)), ev))
        ensure(T.eq(out.at([b, k]), T.div(d, T.mul(P(nc), T.sqrt(ev)))), "g.u / (norm_constant sqrt(eigenvalue)) for a positive eigenvalue")
