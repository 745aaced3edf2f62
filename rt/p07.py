"""P07: Hessian and inverse-Hessian products against explicitly built Hessians."""
from rt.lib import *
from dattri.func import hessian as H


def problem(rng, pd=False):
    """scalar function of 1-3 vectors, the argument number and the explicit Hessian"""
    k = rng.pick(1, 2, 3)
    a = rng.int(0, k - 1)
    ds = [rng.int(1, 4) for _ in range(k)]
    xs = tuple(rng.randn(d).double() for d in ds)
    Bs = [rng.randn(d, d).double() for d in ds]
    C = [[rng.randn(p, q).double() * 0.3 for q in ds] for p in ds]

    def f(*x):
        t = 0.0
        for q, (y, B) in enumerate(zip(x, Bs)):
            t = t + 0.5 * ((B @ y) ** 2).sum() + 0.75 * (y ** 2).sum()
            if not pd:
                t = t + torch.sin(B @ y).sum() + (y ** 3).sum() * 0.2
            for r in range(q):
                t = t + torch.tanh(x[r] @ C[r][q] @ y)
        return t
    x = list(xs)

    def one(y):
        z = list(x)
        z[a] = y
        return f(*z)
    Hm = torch.autograd.functional.hessian(one, xs[a])
    if pd:
        ev = torch.linalg.eigvalsh(Hm)
        if ev[0] < 0.2 or ev[-1] / ev[0] > 50:
            return problem(rng, pd)
    return f, xs, a, Hm, ds[a]


def info(xs, a, Hm, **k):
    return dict(x=list(xs), argnums=a, hessian=Hm, **k)


@check("hvp", 40, 300)
def f(rng):
    g, xs, a, Hm, d = problem(rng)
    mode, reg = rng.pick("rev-rev", "rev-fwd"), rng.pick(0.0, 0.3)
    inp = info(xs, a, Hm, mode=mode, regularization=reg)
    fx = H.hvp_at_x(g, xs, argnums=a, mode=mode, regularization=reg)
    for _ in range(2):
        v = rng.randn(d).double()
        want = Hm @ v + reg * v
        close(H.hvp(g, argnums=a, mode=mode, regularization=reg)(xs, v), want, "hvp", v=v, **inp)
        close(fx(v), want, "hvp_at_x", v=v, **inp)


@check("hvp, constants in a tuple or dict", 12, 100)
def f(rng):
    d, n = rng.int(1, 4), rng.int(1, 3)
    x, A, y = rng.randn(d).double(), rng.randn(n, d).double(), rng.randn(n).double()
    dic = rng.pick(True, False)
    data = {"a": A, "y": y} if dic else (A, y)

    def g(w, b):
        a, t = b.values() if dic else b
        return (torch.sin(a @ w) * t).sum() + (w ** 4).sum()
    Hm = torch.autograd.functional.hessian(lambda w: g(w, data), x)
    v, mode, reg = rng.randn(d).double(), rng.pick("rev-rev", "rev-fwd"), rng.pick(0.0, 0.3)
    close(H.hvp(g, mode=mode, regularization=reg)((x, data), v), Hm @ v + reg * v, "hvp", x=x, v=v, mode=mode, dic=dic)


@check("cg far past convergence", 12, 60)
def f(rng):
    g, xs, a, Hm, d = problem(rng, pd=True)
    v = rng.randn(2, d).double()
    got = H.ihvp_cg(g, argnums=a, max_iter=rng.pick(40, 120))(xs, v)
    close(got, torch.linalg.solve(Hm, v.T).T, "CG", v=v, **info(xs, a, Hm))


@check("bad mode", 2, 4)
def f(rng):
    raises(H.IHVPUsageError, lambda: H.hvp(lambda x: x.sum(), mode="fwd"), "mode of hvp")
    raises(H.IHVPUsageError, lambda: H.hvp_at_x(lambda x: x.sum(), (torch.ones(2),), mode="fwd"), "mode of hvp_at_x")


@check("explicit", 40, 200)
def f(rng):
    g, xs, a, Hm, d = problem(rng, pd=True)
    torch.set_default_dtype(torch.float64)
    reg = rng.pick(0.0, 0.4)
    v = rng.pick(rng.randn(d).double(), rng.randn(rng.int(1, 4), d).double())
    want = torch.linalg.solve(Hm + reg * torch.eye(d), v.T).T
    inp = info(xs, a, Hm, v=v, regularization=reg)
    close(H.ihvp_explicit(g, argnums=a, regularization=reg)(xs, v), want, "ihvp_explicit", **inp)
    close(H.ihvp_at_x_explicit(g, *xs, argnums=a, regularization=reg)(v), want, "ihvp_at_x_explicit", **inp)


def cg(A, b, n):
    x = b.clone()
    r = b - A @ x
    p = r.clone()
    for _ in range(n):
        if r @ r < 1e-24:
            break
        al = (r @ r) / (p @ A @ p)
        x = x + al * p
        s = r - al * (A @ p)
        p = s + (s @ s) / (r @ r) * p
        r = s
    return x


@check("conjugate gradient", 60, 300)
def f(rng):
    g, xs, a, Hm, d = problem(rng, pd=True)
    kind = rng.int(0, 5)
    if kind == 0:
        g, xs, a, d = (lambda x: 0.5 * (x ** 2).sum()), (rng.randn(3).double(),), 0, 3
        Hm = torch.eye(3).double()
    reg, it, mode = rng.pick(0.0, 0.4), rng.pick(0, 1, 2, d, d + 1), rng.pick("rev-rev", "rev-fwd")
    v = rng.pick(rng.randn(d).double(), rng.randn(rng.int(1, 4), d).double())
    if kind == 1 and v.ndim == 2:
        v[0] = 0
    keep = v.clone()
    A = Hm + reg * torch.eye(d).double()
    want = torch.stack([cg(A, r, it) for r in (v[None] if v.ndim == 1 else v)])
    kw = dict(argnums=a, max_iter=it, mode=mode, regularization=reg)
    inp = info(xs, a, Hm, v=keep, max_iter=it, regularization=reg, mode=mode)
    close(H.ihvp_cg(g, **kw)(xs, v), want, "ihvp_cg", **inp)
    fx = H.ihvp_at_x_cg(g, *xs, **kw)
    close(fx(v), want, "ihvp_at_x_cg", **inp)
    close(fx(v), want, "ihvp_at_x_cg, second call", **inp)
    close(v, keep, "the vectors are unchanged", **inp)


@check("arnoldi", 60, 300)
def f(rng):
    torch.set_default_dtype(torch.float64)
    d = rng.int(1, 4)
    Q, _ = torch.linalg.qr(rng.randn(d, d).double())
    ev = torch.tensor([1.0, 2.5, -4.0, 6.0][:d]).double()
    Hm = Q @ torch.diag(ev) @ Q.T
    g = (lambda y, x: 0.5 * x @ Hm @ x + y.sum() * x.sum())
    xs = (rng.randn(2).double(), rng.randn(d).double())
    reg, nc = rng.pick(0.0, 0.5), rng.pick(1.0, 1.0, 3.0, 0.2)
    v = rng.pick(rng.randn(d).double(), rng.randn(rng.int(1, 4), d).double())
    mode = rng.pick("rev-rev", "rev-fwd")
    torch.manual_seed(rng.int(0, 10 ** 6))
    kr = torch.stack([torch.linalg.matrix_power(Hm, q) @ torch.ones(d) for q in range(d)])
    A = Hm + reg * torch.eye(d)
    want = torch.linalg.solve(A, (v[None] if v.ndim == 1 else v).T).T
    inp = info(xs, 1, Hm, v=v, regularization=reg, norm_constant=nc, mode=mode)
    keep = v.clone()
    # the Krylov space of a random start is everything (up to ill-conditioned starts: draw again)
    ok = False
    for _ in range(6):
        got = H.ihvp_at_x_arnoldi(g, *xs, argnums=1, max_iter=d + 1 + rng.int(0, 3), norm_constant=nc, mode=mode,
                                  regularization=reg)(v)
        if tuple(got.shape) == tuple(want.shape) and (got - want).abs().max() < 1e-4 * (1 + want.abs().max()):
            ok = True
            break
    true(ok, "full Arnoldi iteration is not the inverse", got=got, want=want, **inp)
    close(v, keep, "the vectors are unchanged", **inp)
    if nc == 1.0:
        ok = any((H.ihvp_arnoldi(g, argnums=1, max_iter=d + 2, mode=mode, regularization=reg)(xs, v) - want).abs().max()
                 < 1e-4 * (1 + want.abs().max()) for _ in range(6))
        true(ok, "ihvp_arnoldi is not the inverse", want=want, **inp)
    # top_k: the k eigenvalues of largest magnitude only
    k = rng.int(1, d)
    w, U = torch.linalg.eigh(A)
    o = torch.argsort(w.abs())[-k:]
    want = ((v[None] if v.ndim == 1 else v) @ U[:, o] / w[o]) @ U[:, o].T
    ok = False
    for _ in range(6):
        got = H.ihvp_at_x_arnoldi(g, *xs, argnums=1, max_iter=d + 1, top_k=k, norm_constant=nc, mode=mode,
                                  regularization=reg)(v)
        ok = ok or (got - want).abs().max() < 1e-4 * (1 + want.abs().max())
    true(ok, "Arnoldi with the largest eigenvalues", got=got, want=want, top_k=k, **inp)


def arnoldi_oracle(A, start, v, n, k):
    """Galerkin projection on the Krylov space of the start vector (n steps), its k largest eigenvalues."""
    B = [start / start.norm()]
    for _ in range(n - 1):
        h = A @ B[-1]
        for _ in range(2):
            for b in B:
                h = h - (h @ b) * b
        B.append(h / h.norm())
    B = torch.stack(B)
    w, U = torch.linalg.eigh(B @ A @ B.T)
    o = torch.argsort(w.abs())[-k:]
    R = U[:, o].T @ B
    return (v @ R.T / w[o]) @ R


@check("arnoldi, few steps", 60, 300)
def f(rng):
    torch.set_default_dtype(torch.float64)
    d = rng.int(3, 6)
    Q, _ = torch.linalg.qr(rng.randn(d, d).double())
    ev = torch.tensor([1.0, 2.5, 4.0, 6.0, 7.5, 9.0][:d]).double()
    A = Q @ torch.diag(ev) @ Q.T
    n, k, nc = rng.int(1, d - 1), rng.int(1, 3), rng.pick(1.0, 4.0)
    v = rng.randn(rng.int(1, 3), d).double()
    s = rng.int(0, 10 ** 6)
    torch.manual_seed(s)
    start = torch.rand(d)
    want = arnoldi_oracle(A, start, v, n, k)
    if want.abs().max() > 20:
        return
    torch.manual_seed(s)
    got = H.ihvp_at_x_arnoldi(lambda x: 0.5 * x @ A @ x, rng.randn(d).double(), max_iter=n + 1, top_k=k,
                              norm_constant=nc)(v)
    close(got, want, "Arnoldi with %d steps" % n, A=A, v=v, top_k=k, norm_constant=nc, seed=s)


@check("lissa", 60, 300)
def f(rng):
    torch.set_default_dtype(torch.float64)
    d, N = rng.int(1, 3), rng.int(1, 6)
    same = rng.pick(True, False)
    X = rng.randn(1, d).double().expand(N, d).contiguous() if same else rng.randn(N, d).double()
    th = rng.randn(d).double()
    b = rng.int(1, N) if same else N
    rep, depth = rng.int(1, 3), rng.pick(0, 1, 4, 9)
    damp, scal = rng.pick(0.0, 0.1), rng.pick(10.0, 40.0)
    mode = rng.pick("rev-rev", "rev-fwd")
    sizes = []
    last = rng.pick(True, False)

    def loss(p, x):
        sizes.append(x.shape[1 if last else 0])
        x = x.T if last else x
        return 0.5 * ((x @ p) ** 2).mean() + 0.25 * (p ** 2).sum() + 0.05 * (p ** 4).sum()
    Hm = X.T @ X / N + 0.5 * torch.eye(d) + torch.diag(0.6 * th ** 2)
    v = rng.pick(rng.randn(d).double(), rng.randn(rng.int(1, 3), d).double())
    keep = v.clone()
    want = []
    for r in (v[None] if v.ndim == 1 else v):
        e = r
        for _ in range(depth):
            e = r + (1 - damp) * e - Hm @ e / scal
        want.append(e / scal)
    want = torch.stack(want)
    kw = dict(batch_size=b, num_repeat=rep, recursion_depth=depth, damping=damp, scaling=scal, mode=mode)
    coll = rng.pick(True, False)
    g = loss
    if coll:
        kw["collate_fn"] = lambda t: (t[0], {"x": t[1]}["x"])
    inp = dict(X=X, th=th, v=keep, **{k: q for k, q in kw.items() if k != "collate_fn"})
    dims = (None, 1) if last else (None, 0)
    data = X.T.contiguous() if last else X
    close(H.ihvp_lissa(g, **kw)((th, data), v, in_dims=dims), want, "ihvp_lissa", **inp)
    true(not sizes or set(sizes) == {b}, "batches have batch_size samples", sizes=sizes[:5], **inp)
    close(H.ihvp_at_x_lissa(g, th, data, in_dims=dims, **kw)(v), want, "ihvp_at_x_lissa", **inp)
    true(not sizes or set(sizes) == {b}, "batches have batch_size samples", sizes=sizes[:5], **inp)
    true(len(sizes) == 2 * depth * rep or len(sizes) == 0, "number of Hessian products", n=len(sizes), **inp)
    close(v, keep, "the vectors are unchanged", **inp)


@check("random batches", 20, 100)
def f(rng):
    N, b = rng.int(2, 8), rng.int(1, 8)
    b = min(b, N)
    X, Y, Z = torch.arange(N)[:, None] * torch.ones(1, 3), torch.arange(N).double(), rng.randn(4)
    seen = set()
    for _ in range(60 * N):
        x, y, z = H._sample_random_batch(X, Y, Z, num_samples=N, in_dims=(0, 0, None), batch_size=b)
        true(tuple(x.shape) == (b, 3) and len(set(y.tolist())) == b and (x[:, 0] == y).all() and z is Z,
             "a batch of distinct, matching samples", x=x, y=y)
        seen |= {(p, q) for p in y.tolist() for q in y.tolist()}
    true(len({p for p, _ in seen}) == N, "every sample can be drawn", seen=sorted(seen), N=N)
    true(b == 1 or len(seen) == N * N, "every two samples can be drawn together", seen=sorted(seen), N=N, b=b)


@check("input sizes", 2, 4)
def f(rng):
    a, b = torch.zeros(3, 2), torch.zeros(4)
    c = H._check_input_size
    true(c(a) == 3 and c(a, b, in_dims=(0, None)) == 3 and c(a, b, in_dims=(None, 0)) == 4 and
         c(a, in_dims=(1,)) == 2 and c(a, in_dims=(None,)) == 1, "common size")
    raises(H.IHVPUsageError, lambda: c(a, b), "different sizes")
    raises(H.IHVPUsageError, lambda: c(a, b, in_dims=(0,)), "in_dims of another length")


if __name__ == "__main__":
    main()
