"""P09: projections are fixed linear maps."""
from rt.lib import *
from dattri.func import projection as PR
from dattri.func.utils import get_parameter_chunk_sizes
from dattri.params.projection import RandomProjectionParams

CPU = torch.device("cpu")


def params(**k):
    return RandomProjectionParams(**{**dict(proj_dim=3, proj_max_batch_size=8, proj_seed=0, feature_batch_size=1, device="cpu",
                                            proj_type="normal"), **k})


@check("random_project", 40, 300)
def f(rng):
    B, shapes = rng.int(1, 4), [(rng.int(1, 3), rng.int(1, 4)), (rng.int(1, 5),), ()]
    ts = [rng.randn(B, *s) for s in shapes]
    V = torch.cat([t.reshape(B, -1) for t in ts], 1)
    D = V.shape[1]
    ty = rng.pick("normal", "rademacher", "random_mask", "identity")
    p = rng.int(1, D if ty == "random_mask" else 260)
    seed = rng.int(0, 999)
    form = rng.pick("tensor", "dict")
    F = V if form == "tensor" else {"p%d" % k: t for k, t in enumerate(ts)}
    pp = dict(proj_dim=p, proj_seed=seed, proj_type=ty)
    inp = dict(B=B, D=D, proj_dim=p, type=ty, seed=seed, form=form)
    fn = PR.random_project(F, params(feature_batch_size=B, **pp))
    es = [rng.int(0, 3) for _ in range(4)]
    eye = torch.eye(D)
    maps = {}
    for e in es:
        R = maps.setdefault(e, PR.random_project(eye, params(feature_batch_size=D, **pp))(eye, e))
        close(fn(F, ensemble_id=e), V @ R, "F R for ensemble %d after %s" % (e, es), **inp)
        close(PR.random_project(F, params(feature_batch_size=B, **pp))(F, ensemble_id=e), V @ R, "a new projector", **inp)
    close(fn(F), V @ PR.random_project(eye, params(feature_batch_size=D, **pp))(eye, 0), "ensemble 0 by default", **inp)
    R = maps[es[0]]
    if ty == "identity":
        close(R, eye, "identity", **inp)
    elif ty == "random_mask":
        true(bool(((R == 0) | (R == 1)).all()) and R.shape == (D, p) and bool((R.sum(0) == 1).all()) and bool((R.sum(1) <= 1).all()),
             "distinct features are kept", **inp)
    else:
        M = R * math.sqrt(p)
        if ty == "rademacher":
            true(bool((M.abs() - 1).abs().max() < 1e-5), "entries are +-1/sqrt(proj_dim)", **inp)
        if D * p > 200:
            true(float(M.mean().abs()) < 6 / math.sqrt(D * p) and abs(float(M.var()) - 1) < 12 / math.sqrt(D * p), "mean 0, variance 1",
                 mean=float(M.mean()), var=float(M.var()), **inp)
        if D > 6:
            true(len({tuple(M[:, k].tolist()) for k in range(p)}) == p or ty == "rademacher", "columns are different draws", **inp)
    if D > 10 and ty in ("normal",):
        cols = [tuple(m[:, k].tolist()) for m in maps.values() for k in range(p)]
        true(len(set(cols)) == len(cols), "ensembles are different draws", **inp)


@check("ensembles of many blocks", 1, 2)
def f(rng):
    p = PR.BasicProjector(12, 10100 + rng.int(0, 300), rng.int(0, 9), PR.ProjectionType.normal, CPU)
    eye = torch.eye(12)
    a = torch.cat([p.project(eye, e) for e in range(3)], 1)
    true(len({tuple(x) for x in a.T.tolist()}) == a.shape[1], "every column of every ensemble is a different draw", dim=p.proj_dim)


@check("free_memory", 4, 10)
def f(rng):
    bs = rng.int(1, 6)
    p = PR.BasicProjector(5, rng.int(1, 8), 3, PR.ProjectionType(rng.pick("normal", "rademacher")), CPU, block_size=bs)
    F = rng.randn(2, 5)
    a = p.project(F, 1)
    p.free_memory()
    close(p.project(F, 1), a, "the same after free_memory", block_size=bs)


@check("validation", 1, 2)
def f(rng):
    F = rng.randn(2, 3)
    for ty in ("sjlt", "grass"):
        raises(ValueError, lambda: PR.random_project(F, params(proj_type=ty, feature_batch_size=2)), "%s on the CPU" % ty)
    raises(ValueError, lambda: params(proj_type="gaussian"), "unknown type")
    true(params(proj_type="grass_8").proj_type == "grass_8", "grass with a multiplier is accepted")
    true(PR._parse_grass_projection_type("grass_8") == ("grass", 8) and PR._parse_grass_projection_type("grass") == ("grass", 4)
         and PR._parse_grass_projection_type("normal") == ("normal", 4), "grass multipliers")
    raises(ValueError, lambda: PR._parse_grass_projection_type("grass_x"), "bad multiplier")


@check("chunks", 40, 400)
def f(rng):
    mx = rng.int(2, 9)
    sizes = [rng.int(1, rng.pick(3, 12, 30)) for _ in range(rng.int(1, 6))]
    big = np.iinfo(np.uint32).max
    # a batch size for which a chunk holds exactly mx features does not exist for small mx: scale the sizes instead
    scale = big // 2 // mx
    m0, ch = get_parameter_chunk_sizes([s * scale for s in sizes], 1)
    true(sum(ch) == sum(sizes) * scale and all(0 < c <= m0 for c in ch), "chunks cover the features", sizes=sizes, chunks=[int(c) for c in ch])
    # the same rule with a chunk of mx features
    old, PRnp = np.iinfo, None
    import dattri.func.utils as U

    class fake:
        max = mx * 2
    np.iinfo = lambda t: fake
    try:
        m, ch = get_parameter_chunk_sizes(sizes, 1)
    finally:
        np.iinfo = old
    B, fb, p = rng.int(1, 3), 3, rng.int(1, 4)
    ty = rng.pick("normal", "rademacher")
    pieces = [PR.BasicProjector(int(c), p, 7 + k, PR.ProjectionType(ty), CPU) for k, c in enumerate(ch)]
    pr = PR.ChunkedCudaProjector(pieces, m, ch, fb, "cpu", torch.float32)
    ts = [rng.randn(B, s) if rng.int(0, 1) else rng.randn(B, s, 1) for s in sizes]
    if sizes[0] == 1:
        ts[0] = rng.randn(B)
    V = torch.cat([t.reshape(B, -1) for t in ts], 1)
    inp = dict(sizes=sizes, max_chunk_size=m, chunks=[int(c) for c in ch], B=B)
    for e in (0, 2, 0):
        want, o = torch.zeros(B, p), 0
        for k, c in enumerate(ch):
            want += PR.BasicProjector(int(c), p, 7 + k, PR.ProjectionType(ty), CPU).project(V[:, o:o + c], e)
            o += int(c)
        close(pr.dict_project({"p%d" % k: t for k, t in enumerate(ts)}, e), want, "dict_project", **inp)
        close(pr.project(V, e), want, "project", **inp)
        if rng.int(0, 1):
            pr.free_memory()
    raises(TypeError, lambda: pr.project({"p0": V}, 0), "project of a dict", **inp)


@check("arnoldi", 20, 150)
def f(rng):
    D = rng.int(2, 6)
    A = rng.randn(D, D).double()
    A = (A + A.T) / 2
    if rng.int(0, 1):
        A = A @ A + 0.3 * torch.eye(D)
    ev, U = torch.linalg.eigh(A)
    if float(ev.abs().min()) < 0.15 or float((ev[1:] - ev[:-1]).min()) < 0.05:
        return
    reg = rng.pick(0.0, 0.5)
    ev = ev + reg
    if float(ev.abs().min()) < 0.15 or len({round(float(x), 2) for x in ev.abs()}) < D:
        return
    k = rng.int(1, D + 1)
    nc = rng.pick(1.0, 2.0, 0.5)
    A_, U = A, U
    torch.set_default_dtype(torch.float64)
    try:
        fn = PR.arnoldi_project(D, lambda x: x @ A_ @ x / 2, rng.randn(D).double(), proj_dim=k, max_iter=D + rng.int(1, 5), norm_constant=nc,
                                regularization=reg, seed=rng.int(0, 9))
        a, b = rng.randn(3, D).double(), rng.randn(2, D).double()
        got = fn(a) @ fn({"w": b}).T
    finally:
        torch.set_default_dtype(torch.float32)
    keep = torch.argsort(ev.abs())[-k:]
    W = torch.zeros(D, D, dtype=torch.float64)
    for i in keep:
        if ev[i] > 0:
            W += torch.outer(U[:, i], U[:, i]) / ev[i]
    close(got, a @ W @ b.T, "inner products: the inverse on the kept positive eigenspace", rtol=1e-3, A=A, k=k, norm_constant=nc, reg=reg)


if __name__ == "__main__":
    main()
