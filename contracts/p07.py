"""P07: Hessian- and inverse-Hessian-vector products."""
from contracts.lib import *
from engine import tstub
from engine.diff import diff

M = "dattri/func/hessian.py::"


def flam(xs):
    """the tensors as closed λ-arguments of an uninterpreted function"""
    out = []
    for x in xs:
        vs = [T.fresh("a") for _ in x.pshape]
        out.append(T.lam(vs, list(x.pshape), x.at([atom(v) for v in vs])))
    return out


def fun(*xs):
    """an arbitrary scalar function of its tensor arguments"""
    return SymTensor([], lambda i: T.fn("F", *flam(xs)), "f")


def pick(k):
    """k arguments, of lengths D0..Dk-1"""
    Ds = [Int("D%d" % q, 1) for q in range(k)]
    return Ds, tuple(tensor("x%d" % q, d) for q, d in enumerate(Ds))


def hess(xs, a):
    return tstub.hessian(fun, argnums=a)(*xs)


for mode in ("rev-rev", "rev-fwd"):
    for k, a in ((1, 0), (2, 0), (2, 1), (3, 1)):
        nm = "%s, argument %d of %d" % (mode, a, k)

        @contract("P07", "hvp[%s]" % nm, [M + "hvp"])
        def c(w, mode=mode, k=k, a=a):
            h = w.load("dattri.func.hessian")
            Ds, xs = pick(k)
            v, reg = tensor("v", Ds[a]), Real("reg")
            out = h.hvp(fun, argnums=a, mode=mode, regularization=reg)(xs, v)
            Hm = hess(xs, a)
            ensure_eq(out, (Ds[a],), lambda i: T.add(S([Ds[a]], lambda j: T.mul(Hm.at([i, j]), v.at([j]))),
                                                     T.mul(P(reg), v.at([i]))), "H v + reg v")

        @contract("P07", "hvp_at_x[%s]" % nm, [M + "hvp_at_x"])
        def c(w, mode=mode, k=k, a=a):
            h = w.load("dattri.func.hessian")
            Ds, xs = pick(k)
            reg = Real("reg")
            f = h.hvp_at_x(fun, xs, argnums=a, mode=mode, regularization=reg)
            Hm = hess(xs, a)
            for q in range(2):
                v = tensor("v%d" % q, Ds[a])
                ensure_eq(f(v), (Ds[a],), lambda i: T.add(
                    S([Ds[a]], lambda j: T.mul(Hm.at([i, j]), v.at([j]))), T.mul(P(reg), v.at([i]))),
                    "H v + reg v, call %d" % q)


    for form in ("tuple", "dict"):
        @contract("P07", "hvp[%s, constants in a %s]" % (mode, form), [M + "hvp"])
        def c(w, mode=mode, form=form):
            h = w.load("dattri.func.hessian")
            Ds, xs = pick(3)
            v, reg = tensor("v", Ds[0]), Real("reg")
            if form == "dict":
                data = EDict()
                data["a"], data["b"] = xs[1:]
            else:
                data = tuple(xs[1:])
            out = h.hvp(lambda p, d: fun(p, *(d.values() if form == "dict" else d)), mode=mode, regularization=reg)((xs[0], data), v)
            Hm = hess(xs, 0)
            ensure_eq(out, (Ds[0],), lambda i: T.add(S([Ds[0]], lambda j: T.mul(Hm.at([i, j]), v.at([j]))),
                                                     T.mul(P(reg), v.at([i]))), "H v + reg v")


@contract("P07", "unknown mode", [M + "hvp", M + "hvp_at_x"])
def c(w):
    h = w.load("dattri.func.hessian")
    Ds, xs = pick(1)
    expect_raise(h.IHVPUsageError, lambda: h.hvp(fun, mode="fwd-rev"), "hvp refuses it")
    expect_raise(h.IHVPUsageError, lambda: h.hvp_at_x(fun, xs, mode="fwd-rev"), "hvp_at_x refuses it")


for k, a in ((1, 0), (2, 1)):
    for rows in (False, True):
        for at in (False, True):
            fn = "ihvp_at_x_explicit" if at else "ihvp_explicit"

            @contract("P07", "%s[argument %d of %d, %s]" % (fn, a, k, "rows" if rows else "vector"), [M + fn])
            def c(w, k=k, a=a, rows=rows, at=at):
                h = w.load("dattri.func.hessian")
                Ds, xs = pick(k)
                R, reg = Int("R", 1), Real("reg")
                D = Ds[a]
                v = tensor("v", R, D) if rows else tensor("v", D)
                if at:
                    out = h.ihvp_at_x_explicit(fun, *xs, argnums=a, regularization=reg)(v)
                else:
                    out = h.ihvp_explicit(fun, argnums=a, regularization=reg)(xs, v)
                Hm = hess(xs, a)
                K = SymTensor([P(D), P(D)], lambda i: T.add(Hm.at(i), T.ite(T.eq(i[0], i[1]), P(reg), T.num(0, "R"))), "f")
                X = tstub.solve(K, v.T) if rows else tstub.solve(K, v)
                ensure_eq(out, (R, D) if rows else (D,), (lambda i, j: X.at([j, i])) if rows else (lambda i: X.at([i])),
                          "(H + reg I)^-1 v")


def opq(nm, v, *pre):
    """an arbitrary vector-valued function of v"""
    sn = tstub.snapshot(v)
    D = sn.pshape[0]
    x = T.fresh("q")
    L = T.lam([x], [D], sn.at([atom(x)]))
    return SymTensor([D], lambda i: T.fn(nm, *pre, L, i[0]), "f")


def one_row(name="row"):
    """vmap for an arbitrary single row: the other rows of the result stay unknown"""
    r = Int(name, 0)

    def vmap(f, in_dims=0, out_dims=0, **k):
        ENG.check("pre: mapped over the leading dimension", T.TRUE if in_dims == 0 and out_dims == 0 else T.FALSE)

        def g(v):
            ENG.assume(T.lt(P(r), v.pshape[0]))
            o = tstub.snapshot(f(v[r]))
            return SymTensor([v.pshape[0]] + list(o.pshape),
                             lambda i: T.ite(T.eq(i[0], P(r)), o.at(i[1:]), T.fn("other_row", *i)), "f")
        return g
    return r, vmap


for one in (False, True):
    @contract("P07", "ihvp_at_x_cg[%s]" % ("vector" if one else "rows"), [M + "ihvp_at_x_cg"])
    def c(w, one=one):
        h = w.load("dattri.func.hessian")
        Ds, xs = pick(2)
        reg, tol, D, R = Real("reg"), Real("tol"), Ds[1], Int("R", 1)
        it = Int("max_iter", 0)

        def hvp_at_x(func, x, argnums=0, mode="rev-rev", regularization=0.0):
            ENG.check("pre: hvp_at_x gets the function, inputs, argnums, mode and regularization",
                      T.TRUE if func is fun and len(x) == 2 and all(p is q for p, q in zip(x, xs)) and argnums == 1
                      and mode == "rev-fwd" and regularization is reg else T.FALSE)
            return lambda v: opq("Hv", v)
        h.hvp_at_x = hvp_at_x
        ENG.total_division = True       # steps whose denominators vanish: arbitrary value, unless 0/0 is guarded
        r, h.vmap = one_row()
        v = tensor("v", D) if one else tensor("v", R, D)
        out = h.ihvp_at_x_cg(fun, *xs, argnums=1, max_iter=it, tol=tol, mode="rev-fwd", regularization=reg)(v)
        ref = w.spec("ihvp").cg(lambda d: opq("Hv", d), v if one else v[r], it)
        if ensure_shape(out, (1 if one else R, D), "ihvp"):
            if one:
                ensure_eq(out, (1, D), lambda i, j: ref.at([j]), "conjugate gradient")
            else:
                ensure_eq(out[r], (D,), lambda j: ref.at([j]), "conjugate gradient of the row")
        ensure_eq(v, (D,) if one else (R, D), lambda *i: T.fn("v", *i), "the input vectors are unchanged")


def forwards(fn, inner, kw):
    @contract("P07", "%s forwards its options" % fn, [M + fn])
    def c(w):
        h = w.load("dattri.func.hessian")
        Ds, xs = pick(2)
        o = {k: (Real(k) if k in ("tol", "regularization", "damping", "scaling") else
                 Int(k, 1)) for k in kw if k not in ("mode", "argnums", "collate_fn")}
        o.update(mode="rev-fwd", argnums=1)
        seen = []

        def target(func, *x, **k):
            seen.append((func, x, k))
            return lambda v: opq("inner", v)
        setattr(h, inner, target)
        v = tensor("v", Ds[1])
        out = getattr(h, fn)(fun, **o)(xs, v)
        ensure(len(seen) == 1 and seen[0][0] is fun and len(seen[0][1]) == 2 and
               all(p is q for p, q in zip(seen[0][1], xs)), "called with the function and the inputs")
        for k, q in o.items():
            got = seen[0][2].get(k)
            ensure(got is q or isinstance(q, str) and got == q or isinstance(q, int) and got == q, "%s is handed on" % k)
        ensure_eq(out, (Ds[1],), lambda i: opq("inner", v).at([i]), "the inner result")


forwards("ihvp_cg", "ihvp_at_x_cg", ("argnums", "max_iter", "tol", "mode", "regularization"))
forwards("ihvp_arnoldi", "ihvp_at_x_arnoldi", ("argnums", "max_iter", "tol", "mode", "regularization"))


for one in (False, True):
    for coll in (False, True):
        @contract("P07", "ihvp_lissa[%s%s]" % ("vector" if one else "rows", ", collate_fn" if coll else ""),
                  [M + "ihvp_lissa"])
        def c(w, one=one, coll=coll):
            h = w.load("dattri.func.hessian")
            D, N, F, R, b = Int("D", 1), Int("N", 1), Int("F", 1), Int("R", 1), Int("batch", 1)
            th, X = tensor("th", D), tensor("X", N, F)
            damp, scal = Real("damping"), Real("scaling")
            rep, depth = Int("repeats", 1), Int("depth", 1)
            ENG.assume(T.ne(P(scal), T.num(0, "R")))

            def sample(*x, num_samples, in_dims=None, batch_size=1):
                ENG.check("pre: batches are drawn from the inputs",
                          T.TRUE if len(x) == 2 and x[0] is th and x[1] is X and in_dims == (None, 0) else T.FALSE)
                ENG.check("pre: sample count and batch size",
                          T.band(T.eq(P(num_samples), P(N)), T.eq(P(batch_size), P(b))))
                idx = tstub.randperm(num_samples)[:batch_size]
                return th, X.index_select(0, idx)

            def H(x, v):
                q1, q2 = T.fresh("r"), T.fresh("f")
                Xb = x[1]
                L = T.lam([q1, q2], list(Xb.pshape), Xb.at([atom(q1), atom(q2)]))
                return opq("Hb", v, L)

            def hvp(func, argnums=0, mode="rev-rev", regularization=0.0):
                ENG.check("pre: hvp of the function, argument 0, in the asked mode, without regularization",
                          T.TRUE if func is fun and argnums == 0 and mode == "rev-fwd" and regularization == 0.0
                          else T.FALSE)

                def g(x, v):
                    if coll:
                        ENG.check("pre: hvp on the collated batch", T.TRUE if x[0] == "collated" else T.FALSE)
                        x = x[1]
                    ENG.check("pre: the Hessian is taken at the given parameters", T.TRUE if x[0] is th else T.FALSE)
                    return H(x, v)
                return g
            h._sample_random_batch, h.hvp = sample, hvp
            r, vm = one_row()
            h.vmap = vm
            w.stubs["torch"].vmap = vm
            v = tensor("v", D) if one else tensor("v", R, D)
            tstub.manual_seed(Int("seed"))
            out = h.ihvp_lissa(fun, argnums=0, batch_size=b, num_repeat=rep, recursion_depth=depth, damping=damp,
                               scaling=scal, collate_fn=(lambda x: ("collated", x)) if coll else None,
                               mode="rev-fwd")((th, X), v, in_dims=(None, 0))
            tstub.manual_seed(Int("seed"))
            ref = w.spec("ihvp").lissa(lambda: sample(th, X, num_samples=N, in_dims=(None, 0), batch_size=b), H,
                                       v if one else v[r], rep, depth, damp, scal)
            if ensure_shape(out, (1 if one else R, D), "ihvp"):
                if one:
                    ensure_eq(out, (1, D), lambda i, j: ref.at([j]), "LiSSA estimate")
                else:
                    ensure_eq(out[r], (D,), lambda j: ref.at([j]), "LiSSA estimate of the row")


@contract("P07", "ihvp_at_x_lissa forwards its options", [M + "ihvp_at_x_lissa"])
def c(w):
    h = w.load("dattri.func.hessian")
    Ds, xs = pick(2)
    o = dict(argnums=1, batch_size=Int("b", 1), num_repeat=Int("rep", 1), recursion_depth=Int("depth", 1),
             damping=Real("damping"), scaling=Real("scaling"), collate_fn=lambda x: x, mode="rev-fwd")
    seen = []

    def ihvp_lissa(func, argnums=0, batch_size=1, num_repeat=1, recursion_depth=5000, damping=0.0, scaling=50.0,
                   collate_fn=None, mode="rev-rev"):
        seen.append((func, dict(argnums=argnums, batch_size=batch_size, num_repeat=num_repeat, damping=damping,
                                recursion_depth=recursion_depth, scaling=scaling, collate_fn=collate_fn, mode=mode)))

        def g(x, v, in_dims=None):
            seen.append((x, in_dims))
            return opq("inner", v)
        return g
    h.ihvp_lissa = ihvp_lissa
    v = tensor("v", Ds[1])
    out = h.ihvp_at_x_lissa(fun, *xs, in_dims=(0, None), **o)(v)
    ensure(len(seen) == 2 and seen[0][0] is fun, "the function is handed on")
    for k, q in o.items():
        ensure(seen[0][1][k] is q or isinstance(q, (int, str)) and seen[0][1][k] == q, "%s is handed on" % k)
    ensure(len(seen[1][0]) == 2 and all(p is q for p, q in zip(seen[1][0], xs)) and seen[1][1] == (0, None),
           "inputs and in_dims are handed on")
    ensure_eq(out, (Ds[1],), lambda i: opq("inner", v).at([i]), "the inner result")


@contract("P07", "_sample_random_batch", [M + "_sample_random_batch"])
def c(w):
    h = w.load("dattri.func.hessian")
    N, F, G, K, b = Int("N", 1), Int("F", 1), Int("G", 1), Int("K", 1), Int("b", 1)
    ENG.assume(T.le(P(b), P(N)))
    X, Y, Z = tensor("X", N, F), tensor("Y", G, N), tensor("Z", K)
    for dims in ((0, 1, None), None):
        tstub.manual_seed(Int("seed"))
        if dims is None:
            Y = tensor("W", N)
            out = h._sample_random_batch(X, Y, num_samples=N, in_dims=None, batch_size=b)
        else:
            out = h._sample_random_batch(X, Y, Z, num_samples=N, in_dims=dims, batch_size=b)
        tstub.manual_seed(Int("seed"))
        pm = tstub.randperm(N)
        if not ensure(isinstance(out, tuple) and len(out) == (3 if dims else 2), "one part for each input"):
            return
        ensure_eq(out[0], (b, F), lambda i, j: X.at([pm.at([i]), j]), "the drawn rows, without replacement")
        if dims:
            ensure_eq(out[1], (G, b), lambda i, j: Y.at([i, pm.at([j])]), "the same samples along the given dimension")
            ensure_eq(out[2], (K,), lambda i: Z.at([i]), "a shared input is kept")
        else:
            ensure_eq(out[1], (b,), lambda i: Y.at([pm.at([i])]), "the same samples")


@contract("P07", "_check_input_size", [M + "_check_input_size"])
def c(w):
    h = w.load("dattri.func.hessian")
    N, F = Int("N", 1), Int("F", 1)
    X, Y, W = tensor("X", N, F), tensor("Y", F, N), tensor("W", wrap(T.add(P(N), ONE)))
    f = h._check_input_size
    ensure_num(f(X, Y, in_dims=(0, 1)), N, "the common size")
    ensure_num(f(X), N, "the size along dimension 0")
    ensure_num(f(W, X, in_dims=(None, 0)), N, "shared inputs are ignored")
    ensure_num(f(X, in_dims=(None,)), 1, "1 when every input is shared")
    expect_raise(h.IHVPUsageError, lambda: f(X, W), "different sizes are refused")
    expect_raise(h.IHVPUsageError, lambda: f(W, Y, in_dims=(0, 1)), "different sizes along in_dims are refused")
    expect_raise(h.IHVPUsageError, lambda: f(X, Y, in_dims=(0,)), "in_dims of another length is refused")

