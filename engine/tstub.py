"""Assumed contracts of torch / numpy / tqdm / ... on symbolic values."""
from __future__ import annotations
import types, math as _math
from fractions import Fraction
from . import terms as T
from .terms import (ZERO, ONE, RONE, TRUE, FALSE, atom, as_const, add, sub, mul, neg, le, lt, eq,
                    band, bor, bnot, iverson, in_range, sum_, subst, num, to_real)
from .core import ENG, Unsupported
from . import sym
from .sym import (SymTensor, SNum, SBool, P, wrap, wrapb, EList, EDict, Seg, SymIter, as_tensor,
                  snapshot, lam_of, lam_op, free_tensor, full, shape_args, isnumlike, norm_dim,
                  broadcast_to, bshape, pick, same_dim, numel_poly, cast, Device, DType, seq_of,
                  need_eq)
from .diff import diff


class Stub(types.ModuleType):
    """Module whose unknown attributes are Unsupported on use."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        full_ = self.__name__ + "." + n
        if n[0].isupper():
            c = type(n, (UnsupportedClass,), {"_full": full_})
            setattr(self, n, c)
            return c
        f = UnsupportedFn(full_)
        setattr(self, n, f)
        return f


class UnsupportedClass:
    _full = "?"

    def __init__(self, *a, **k):
        raise Unsupported("constructor %s" % self._full)

    def __class_getitem__(cls, k):
        return cls


class UnsupportedFn:
    def __init__(self, nm):
        self.__name__ = nm

    def __call__(self, *a, **k):
        raise Unsupported("call of %s" % self.__name__)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return UnsupportedFn(self.__name__ + "." + n)


def stub(name):
    return Stub(name)


# ------------------------------------------------------------------ construction
def zeros(*s, size=None, **k):
    return full(shape_args(s if size is None else (size,)), 0, kind_of(k))


def ones(*s, size=None, **k):
    return full(shape_args(s if size is None else (size,)), 1, kind_of(k))


def kind_of(k):
    d = k.get("dtype")
    return d.kind if isinstance(d, DType) else "f"


def full_(size, v, **k):
    kd = k.get("dtype")
    return full(shape_args((size,)), v, kd.kind if isinstance(kd, DType) else
                ("f" if isinstance(v, float) or (isinstance(v, SNum) and not v.isint) else "i"))


_fresh = [0]


def empty(*s, size=None, **k):
    """Arbitrary contents."""
    n = ENG.new_uid()
    return free_tensor("uninit!%d" % n, shape_args(s if size is None else (size,)), kind_of(k))


def zeros_like(t, **k):
    return full([wrap(x) for x in t.pshape], 0, kind_of(k) if "dtype" in k else t.kind)


def ones_like(t, **k):
    return full([wrap(x) for x in t.pshape], 1, kind_of(k) if "dtype" in k else t.kind)


def empty_like(t, **k):
    return empty(*[wrap(x) for x in t.pshape], **k)


def full_like(t, v, **k):
    return full([wrap(x) for x in t.pshape], v, t.kind)


def eye(n, m=None, **k):
    m = n if m is None else m
    return SymTensor([P(n), P(m)], lambda i: iverson(eq(i[0], i[1])), "f")


def arange(*a, **k):
    lo, hi, st = 0, None, 1
    if len(a) == 1:
        hi = a[0]
    else:
        lo, hi = a[0], a[1]
        if len(a) > 2:
            st = a[2]
    if st == -1:
        n = ENG.simp(sub(P(lo), P(hi)))
        if ENG.known(le(ZERO, n)) is not True:
            n = ENG.simp(T.imax(n, ZERO))
        return SymTensor([n], lambda i: sub(P(lo), i[0]), "i")
    if st != 1:
        raise Unsupported("arange step")
    n = ENG.simp(sub(P(hi), P(lo)))
    if ENG.known(le(ZERO, n)) is not True:
        n = ENG.simp(T.imax(n, ZERO))
    return SymTensor([n], lambda i: add(P(lo), i[0]), "i")


def tensor(x, dtype=None, device=None, requires_grad=False, **k):
    if isinstance(x, SymTensor):
        x = x.clone()
    r = as_tensor(x)
    if isinstance(dtype, DType):
        r = cast(r, dtype.kind)
    return r.clone() if isinstance(x, SymTensor) else r


def from_numpy(x):
    return x


# ------------------------------------------------------------------ random
class Generator:
    def __init__(self, device=None):
        self.device = device
        self.seed = wrap(atom(T.Var("gen_initial_state", "I")))
        self.count = wrap(ZERO)
        ENG.obj_uid(self)

    def manual_seed(self, s):
        ENG.setattr(self, "seed", wrap(P(s)))
        ENG.setattr(self, "count", wrap(ZERO))
        return self

    def initial_seed(self):
        return wrap(self.seed)

    def get_state(self):
        return wrap(T.fn("gen_state", P(self.seed), P(self.count), sort="I"))

    def set_state(self, s):
        t = P(s)
        a = T.as_atom(t)
        if a is not None and a.k == "Fn" and a.a[0] == "gen_state":
            sd, ct = a.a[1]
        else:
            sd, ct = T.fn("gen_seed", t, sort="I"), T.fn("gen_count", t, sort="I")
        ENG.setattr(self, "seed", wrap(sd))
        ENG.setattr(self, "count", wrap(ct))
        return self

    def take(self):
        c = P(self.count)
        ENG.setattr(self, "count", wrap(add(c, ONE)))
        return P(self.seed), c


def global_gen():
    g = getattr(ENG, "rng", None)
    if g is None or getattr(ENG, "rng_run", None) is not ENG.taken:
        g = Generator()
        g.seed = wrap(atom(T.Var("global_rng_state", "I")))
        ENG.rng, ENG.rng_run = g, ENG.taken
    return g


def manual_seed(s):
    return global_gen().manual_seed(s)


def draw(name, shape, generator=None, kind="f", extra=()):
    g = generator if generator is not None else global_gen()
    s, c = g.take()
    sort = "R" if kind == "f" else "I"
    sh = [P(x) for x in shape]
    return SymTensor(sh, lambda i: T.fn(name, s, c, *extra, *i, sort=sort), kind)


def randn(*s, generator=None, size=None, **k):
    return draw("randn", shape_args(s if size is None else (size,)), generator)


def rand(*s, generator=None, size=None, **k):
    return draw("rand", shape_args(s if size is None else (size,)), generator)


def randint(lo, hi=None, size=None, generator=None, **k):
    if size is None and isinstance(hi, (tuple, EList)):
        lo, hi, size = 0, lo, hi
    elif hi is None:
        lo, hi = 0, lo
    return draw("randint", shape_args((size,)), generator, "i", (P(lo), P(hi)))


def randperm(n, generator=None, **k):
    return draw("randperm", [n], generator, "i", (P(n),))


# ------------------------------------------------------------------ combination
def cat(ts, dim=0, axis=None):
    dim = axis if axis is not None else dim
    if isinstance(ts, EList) and ts.symbolic() or isinstance(ts, SymIter):
        return cat_seq(ts, dim)
    ts = [as_tensor(t) for t in ts]
    if not ts:
        raise RuntimeError("torch.cat(): expected a non-empty list of Tensors")
    # legacy: 1-d empty tensors are skipped
    if len(ts) > 1:
        ts2 = [t for t in ts if not (t.ndim == 1 and as_const(t.pshape[0]) == 0)]
        ts = ts2 or ts[:1]
    if len(ts) == 1:
        return ts[0].clone()
    d = norm_dim(dim, ts[0].ndim)
    for t in ts[1:]:
        if t.ndim != ts[0].ndim:
            raise RuntimeError("Tensors must have same number of dimensions")
        for k in range(t.ndim):
            if k != d:
                need_eq(ts[0].pshape[k], t.pshape[k], "cat")
    kd = max((t.kind for t in ts), key=sym.rank)
    ts = [cast(t, kd) for t in ts]
    offs = [ZERO]
    for t in ts:
        offs.append(add(offs[-1], t.pshape[d]))
    sn = [snapshot(t) for t in ts]

    def f(i):
        r = sn[-1].at(list(i[:d]) + [sub(i[d], offs[len(sn) - 1])] + list(i[d + 1:]))
        for q in reversed(range(len(sn) - 1)):
            x = sn[q].at(list(i[:d]) + [sub(i[d], offs[q])] + list(i[d + 1:]))
            c = lt(i[d], offs[q + 1])
            r = T.ite(c, x, r) if x.k == "P" else bor(band(c, x), band(bnot(c), r))
        return r
    sh = list(ts[0].pshape)
    sh[d] = offs[-1]
    return SymTensor(sh, f, kd)


def cat_seq(ts, dim):
    """cat of a symbolic run of tensors: equal sizes, or the batches of a loader."""
    n, item = ts.as_seq() if isinstance(ts, EList) else (ts.n, ts.item)
    if isinstance(ts, EList) and len(ts.items) > 1:
        parts = []
        for x in ts.items:
            if isinstance(x, Seg):
                parts.append(cat_seq(SymIter(x.n, x.item), dim))
            else:
                parts.append(x)
        return cat(parts, dim)
    if ENG.known(lt(ZERO, n)) is not True:
        if not ENG.branch(lt(ZERO, n)):
            raise RuntimeError("torch.cat(): expected a non-empty list of Tensors")
    k = T.fresh("k")
    saved = list(ENG.pc)
    ENG.assume(in_range(atom(k), n))
    try:
        t = as_tensor(item(atom(k)))
        d = norm_dim(dim, t.ndim)
        sz = ENG.simp(t.pshape[d])
        sn = snapshot(t)
    finally:
        ENG.pc = saved
    for q, s in enumerate(t.pshape):
        if q != d and k in T.fv(s):
            raise Unsupported("cat of tensors of varying shape")
    if k not in T.fv(sz):
        tot = ENG.simp(mul(n, sz))

        def f(i):
            b = ENG.simp_under(T.floordiv(i[d], sz), [in_range(i[d], tot)])
            r = sub(i[d], mul(b, sz))
            return subst(sn.at(list(i[:d]) + [r] + list(i[d + 1:])), {k: b})
        sh = list(t.pshape)
        sh[d] = tot
        return SymTensor(sh, f, t.kind)
    # batch pattern: size(k) = min(bs, N - k*bs), n = ceil(N/bs)
    for (N, bs) in [(sub(N, T.scale(bs, c)), bs) for c in (0, 1) for N, bs in getattr(ENG, "loader_shapes", [])]:
        want = T.imin(bs, sub(N, mul(atom(k), bs)))
        pc = ENG.pc + [in_range(atom(k), n)]
        from . import solver as S
        if S.decide(eq(sz, want), pc) is True and \
                S.decide(lt(mul(sub(n, ONE), bs), N), ENG.pc) is True:
            tot = N if S.decide(le(N, mul(n, bs)), ENG.pc) is True else T.imin(mul(n, bs), N)
            def f2(i, bs=bs):
                b = T.floordiv(i[d], bs)
                r = sub(i[d], mul(b, bs))
                return subst(sn.at(list(i[:d]) + [r] + list(i[d + 1:])), {k: b})
            sh = list(t.pshape)
            sh[d] = tot
            return SymTensor(sh, f2, t.kind)
    raise Unsupported("cat of a symbolic run of ragged tensors")


def stack(ts, dim=0):
    if isinstance(ts, EList) and ts.symbolic():
        n, item = ts.as_seq()
        k = T.fresh("k")
        saved = list(ENG.pc)
        ENG.assume(in_range(atom(k), n))
        t = as_tensor(item(atom(k)))
        sn = snapshot(t)
        ENG.pc = saved
        if dim != 0:
            raise Unsupported("stack dim of symbolic list")
        return SymTensor([n] + list(t.pshape),
                         lambda i: subst(sn.at(i[1:]), {k: i[0]}), t.kind)
    ts = [as_tensor(t) for t in ts]
    if not ts:
        raise RuntimeError("stack expects a non-empty TensorList")
    d = norm_dim(dim, ts[0].ndim + 1)
    return cat([t.unsqueeze(d) for t in ts], d)


def split(t, n, dim=0):
    d = norm_dim(dim, t.ndim)
    key = [slice(None)] * t.ndim
    if isinstance(n, (list, tuple, EList)):
        out, o = [], 0
        for s in n:
            key[d] = slice(o, o + s)
            out.append(t[tuple(key)])
            o = o + s
        if ENG.branch(eq(P(o), t.pshape[d])) is False:
            raise RuntimeError("split_with_sizes expects split_sizes to sum exactly")
        return tuple(out)
    tot = as_const(t.pshape[d])
    if tot is not None and isinstance(n, int):
        out = []
        for o in range(0, max(int(tot), 1), n):
            key[d] = slice(o, min(o + n, int(tot)))
            out.append(t[tuple(key)])
        return tuple(out)
    bs, N = P(n), t.pshape[d]
    A = ENG.simp(T.floordiv(add(N, sub(bs, ONE)), bs))

    def item(k):
        base = mul(k, bs)
        rows = ENG.simp(T.imin(bs, sub(N, base)))       # the form of a loader's batches
        sh = list(t.pshape)
        sh[d] = rows

        def fwd(i):
            return list(i[:d]) + [add(base, i[d])] + list(i[d + 1:])

        def inv(i):
            q = sub(i[d], base)
            return in_range(q, rows), list(i[:d]) + [q] + list(i[d + 1:])
        return t.mkview(sh, fwd, inv)
    return EList.seq(A, item)


def chunk(t, n, dim=0):
    d = norm_dim(dim, t.ndim)
    if isinstance(n, int):
        sz = wrap(T.floordiv(add(t.pshape[d], num(n - 1)), num(n)))
        if isinstance(sz, int):
            return split(t, sz, dim)
        ex = T.exact_div(t.pshape[d], num(n))
        if ex is not None and ex.sort == "I" and T._divide(t.pshape[d], num(n)) is not None and \
                all(c.denominator == 1 for _, c in ex.a):
            key = [slice(None)] * t.ndim
            out = []
            for j in range(n):
                key[d] = slice(wrap(mul(num(j), ex)), wrap(mul(num(j + 1), ex)))
                out.append(t[tuple(key)])
            return tuple(out)
    raise Unsupported("chunk of symbolic size")


def unbind(t, dim=0):
    n = as_const(t.pshape[norm_dim(dim, t.ndim)])
    if n is None:
        raise Unsupported("unbind of symbolic dim")
    key = [slice(None)] * t.ndim
    out = []
    for j in range(int(n)):
        key[dim] = j
        out.append(t[tuple(key)])
    return tuple(out)


def diag(t, diagonal=0):
    if t.ndim == 2:
        return t.diagonal().clone()
    n = t.pshape[0]
    s = snapshot(t)
    return SymTensor([n, n], lambda i: mul(iverson(eq(i[0], i[1])), s.vat([i[0]])), "f")


def where(c, a=None, b=None):
    if a is None:
        c = snapshot(as_tensor(c))
        if c.ndim != 1:
            raise Unsupported("where with one argument")
        return (sym.Nonzero(c.pshape[0], lambda k: c.at([k]) if c.kind == "b" else bnot(eq(c.at([k]), num(0, c.at([k]).sort)))),)
    c, a, b = as_tensor(c), as_tensor(a), as_tensor(b)
    sh = bshape(bshape(c.pshape, a.pshape), b.pshape)
    kd = max(a.kind, b.kind, key=sym.rank)
    a, b = cast(a, kd), cast(b, kd)

    def f(i):
        cc, x, y = c.at(pick(c.pshape, i)), a.at(pick(a.pshape, i)), b.at(pick(b.pshape, i))
        if x.k != "P":
            return bor(band(cc, x), band(bnot(cc), y))
        return T.ite(cc, x, y)
    return SymTensor(sh, f, kd)


def trapz(y, x):
    y, x = snapshot(as_tensor(y)), snapshot(as_tensor(x))
    if y.ndim != 1 or x.ndim != 1:
        raise Unsupported("trapz")
    need_eq(y.pshape[0], x.pshape[0], "trapz")

    def f(i):
        v = T.fresh("t")
        a, b = atom(v), add(atom(v), ONE)
        g = lambda t, k: to_real(t.at([k]))
        return sum_(v, sub(x.pshape[0], ONE), T.scale(mul(sub(g(x, b), g(x, a)), add(g(y, a), g(y, b))), Fraction(1, 2)))
    return SymTensor([], f, "f")


trapezoid = trapz


def outer(a, b):
    return a.unsqueeze(1) * b.unsqueeze(0)


def bmm(a, b):
    return a @ b


def elementwise(name):
    def f(x, *a, **k):
        if isinstance(x, SymTensor):
            return getattr(x, name)(*a, **k)
        if isnumlike(x):
            return getattr(as_tensor(x), name)(*a, **k)
        return getattr(as_tensor(x), name)(*a, **k)
    f.__name__ = name
    return f


def cdist(a, b, p=2.0):
    D = a.pshape[-1]
    need_eq(D, b.pshape[-1], "cdist")
    sa, sb = snapshot(a), snapshot(b)

    def f(i):
        v = T.fresh("d")
        d = sub(sa.at([i[0], atom(v)]), sb.at([i[1], atom(v)]))
        return T.sqrt(sum_(v, D, mul(d, d)))
    return SymTensor([a.pshape[0], b.pshape[0]], f, "f")


def normalize(t, p=2.0, dim=1, eps=1e-12):
    nrm = t.norm(p=p, dim=dim, keepdim=True)
    e = num(eps, "R")
    n = nrm.new(lambda i: T.ite(le(e, nrm.at(i)), nrm.at(i), e))
    return SymTensor(t.pshape, lambda i: T.div(t.at(i), n.at(pick(n.pshape, i))), "f")


# linear algebra: uninterpreted with defining facts --------------------------------
def solve(A, B):
    """linalg.solve(A, B): x with A x = B (A assumed invertible)."""
    n = A.pshape[-1]
    need_eq(A.pshape[-1], A.pshape[-2], "linalg.solve")
    LA = lam_of(A)
    vec = B.ndim == 1
    need_eq(n, B.pshape[0], "linalg.solve")
    Bs = snapshot(B)

    def f(i):
        v = T.fresh("v")
        # column-wise: (A^-1 B)[i, j] = Σ_v inv(A)[i, v] B[v, j]
        return sum_(v, n, mul(T.fn("matinv", LA, i[0], atom(v)),
                              Bs.at([atom(v)] + list(i[1:]))))
    return SymTensor(B.pshape, f, "f")


def matinv(A):
    LA = lam_of(A)
    return SymTensor(A.pshape, lambda i: T.fn("matinv", LA, *i), "f")


def eigh(A, UPLO="L"):
    LA = lam_of(A)
    n = A.pshape[-1]
    w = SymTensor([n], lambda i: T.fn("eigval", LA, *i), "f")
    V = SymTensor([n, n], lambda i: T.fn("eigvec", LA, *i), "f")
    return NT((w, V))


class NT(tuple):
    eigenvalues = property(lambda s: s[0])
    eigenvectors = property(lambda s: s[1])


# ------------------------------------------------------------------ functional transforms
_dx = [0]


def head_tensor(t):
    _dx[0] += 1
    h = "X!%d" % _dx[0]
    x = free_tensor(h, [wrap(s) for s in t.pshape])
    return h, x


def tree_map(f, v):
    if isinstance(v, SymTensor):
        return f(v)
    if isinstance(v, tuple):
        return tuple(tree_map(f, x) for x in v)
    if isinstance(v, EList):
        return EList([tree_map(f, x) for x in v])
    if isinstance(v, EDict):
        d = EDict()
        for k in dict.keys(v):
            dict.__setitem__(d, k, tree_map(f, dict.__getitem__(v, k)))
        return d
    if isinstance(v, dict):
        return EDict({k: tree_map(f, x) for k, x in v.items()})
    return v


def inst(t, binds):
    """Replace heads by actual tensors: binds head -> snapshot."""
    fm = {h: (lambda a, s=s: to_real(s.at(list(a)))) for h, s in binds.items()}
    return subst(t, {}, fm)


def with_heads(v):
    binds = {}

    def f(t):
        h, x = head_tensor(t)
        binds[h] = snapshot(t)
        return x
    return tree_map(f, v), binds


def grad(func, argnums=0, has_aux=False):
    def g(*args, **kw):
        an = (argnums,) if isinstance(argnums, int) else tuple(argnums)
        args = list(args)
        heads = {}
        for a in an:
            x, b = with_heads(args[a])
            args[a] = x
            heads[a] = (x, b)
        out = func(*args, **kw)
        aux = None
        if has_aux:
            out, aux = out
        out = as_tensor(out)
        if as_const(numel_poly(out.pshape)) != 1:
            raise RuntimeError("Expected f(*args) to return a scalar tensor")
        if out.ndim != 0:
            raise RuntimeError("Expected f(*args) to return a scalar tensor, got tensor with %d dims"
                               % out.ndim)
        t = to_real(out.at(()))
        allb = {}
        for a in an:
            allb.update(heads[a][1])
        res = []
        for a in an:
            def one(x):
                h = head_of(x)
                return SymTensor(x.pshape, lambda i: inst(diff(t, h, i), allb), "f")
            res.append(tree_map(one, heads[a][0]))
        r = res[0] if isinstance(argnums, int) else tuple(res)
        return (r, aux) if has_aux else r
    return g


def head_of(x):
    b = x.store.body
    return b.a[0][0][0][0].a[0]


def grad_and_value(func, argnums=0):
    g = grad(func, argnums)
    return lambda *a, **k: (g(*a, **k), func(*a, **k))


def jvp(func, primals, tangents, **kw):
    xs, binds = with_heads(tuple(primals))
    out = func(*xs)
    hs = []
    collect_heads(xs, tuple(tangents), hs)

    def one(o):
        sn = snapshot(o)

        def f(i):
            t = to_real(sn.at(i))
            acc = num(0, "R")
            for h, tan in hs:
                vs = [T.fresh("j") for _ in tan.pshape]
                js = [atom(v) for v in vs]
                d = mul(inst(diff(t, h, js), binds), to_real(tan.at(js)))
                for v, n in reversed(list(zip(vs, tan.pshape))):
                    d = sum_(v, n, d)
                acc = add(acc, d)
            return acc
        return SymTensor(o.pshape, f, "f")

    def prim(o):
        sn = snapshot(o)
        return SymTensor(o.pshape, lambda i: inst(sn.at(i), binds), "f")
    return tree_map(prim, out), tree_map(one, out)


def collect_heads(xs, tans, out):
    if isinstance(xs, SymTensor):
        if isinstance(tans, SymTensor) and len(tans.pshape) == len(xs.pshape):
            for a, b in zip(xs.pshape, tans.pshape):
                need_eq(a, b, "jvp: primal and tangent shapes")
        else:
            raise RuntimeError("jvp: primals and tangents must have the same structure")
        out.append((head_of(xs), tans))
    elif isinstance(xs, dict):
        for k in dict.keys(xs):
            collect_heads(dict.__getitem__(xs, k), dict.__getitem__(tans, k), out)
    elif isinstance(xs, (tuple, EList)):
        if len(xs) != len(tans):
            raise RuntimeError("jvp: primals and tangents must have the same structure")
        for a, b in zip(xs, tans):
            collect_heads(a, b, out)
    else:
        raise Unsupported("jvp input")


def vjp(func, *primals, has_aux=False):
    xs, binds = with_heads(tuple(primals))
    out = func(*xs)

    def prim(o):
        sn = snapshot(o)
        return SymTensor(o.pshape, lambda i: inst(sn.at(i), binds), "f")

    def back(ct, *rest):
        cts, outs = [], []
        flat(ct, cts)
        flat(out, outs)
        if len(cts) != len(outs):
            raise RuntimeError("vjp: cotangent structure mismatch")
        for c, o in zip(cts, outs):
            for a, b in zip(c.pshape, o.pshape):
                need_eq(a, b, "vjp: cotangent shape")

        def one(x):
            h = head_of(x)

            def f(i):
                acc = num(0, "R")
                for c, o in zip(cts, outs):
                    vs = [T.fresh("j") for _ in o.pshape]
                    js = [atom(v) for v in vs]
                    d = mul(inst(diff(to_real(o.at(js)), h, i), binds), to_real(c.at(js)))
                    for v, n in reversed(list(zip(vs, o.pshape))):
                        d = sum_(v, n, d)
                    acc = add(acc, d)
                return acc
            return SymTensor(x.pshape, f, "f")
        return tree_map(one, xs)
    return tree_map(prim, out), back


def flat(v, out):
    if isinstance(v, SymTensor):
        out.append(v)
    elif isinstance(v, dict):
        for k in dict.keys(v):
            flat(dict.__getitem__(v, k), out)
    else:
        for x in v:
            flat(x, out)


def hessian(func, argnums=0):
    if not isinstance(argnums, int):
        raise Unsupported("hessian with several argnums")

    def g(*args, **kw):
        args = list(args)
        x, b = with_heads(args[argnums])
        if not isinstance(x, SymTensor):
            raise Unsupported("hessian of a structured argument")
        args[argnums] = x
        out = as_tensor(func(*args, **kw))
        if out.ndim != 0:
            raise Unsupported("hessian of non-scalar")
        t = to_real(out.at(()))
        h = head_of(x)
        r = x.ndim
        return SymTensor(list(x.pshape) * 2,
                         lambda i: inst(diff(diff(t, h, i[:r]), h, i[r:]), b), "f")
    return g


def jacrev(func, argnums=0):
    def g(*args, **kw):
        args = list(args)
        x, b = with_heads(args[argnums])
        args[argnums] = x
        out = as_tensor(func(*args, **kw))
        h = head_of(x)
        sn = snapshot(out)
        r = out.ndim
        return SymTensor(list(out.pshape) + list(x.pshape),
                         lambda i: inst(diff(to_real(sn.at(i[:r])), h, i[r:]), b), "f")
    return g


def vmap(func, in_dims=0, out_dims=0, randomness="error", chunk_size=None):
    def g(*args, **kw):
        dims = in_dims if isinstance(in_dims, tuple) else (in_dims,) * len(args)
        if len(dims) != len(args):
            raise ValueError("vmap: in_dims is not compatible with the structure of inputs")
        size = [None]
        v = T.fresh("vm")

        def take(x, d):
            if d is None:
                return x
            if isinstance(x, SymTensor):
                dd = norm_dim(d, x.ndim)
                n = x.pshape[dd]
                if size[0] is None:
                    size[0] = n
                else:
                    need_eq(size[0], n, "vmap: inconsistent batch sizes")
                sn = snapshot(x)
                sh = list(x.pshape[:dd]) + list(x.pshape[dd + 1:])
                return ("defer", sn, dd, sh, x.kind)
            if isinstance(x, dict):
                dd = d if isinstance(d, dict) else None
                return {k: take(y, dd[k] if dd is not None else d) for k, y in x.items()}
            if isinstance(x, (tuple, EList)):
                ds = d if isinstance(d, (tuple, EList)) else [d] * len(x)
                if len(ds) != len(x):
                    raise ValueError("vmap: in_dims is not compatible with the structure of inputs")
                return tuple(take(y, e) for y, e in zip(x, ds))
            if d is not None and isnumlike(x):
                raise ValueError("vmap: in_dims %r for an input that is not a Tensor" % (d,))
            return x
        taken = [take(a, d) for a, d in zip(args, dims)]
        if size[0] is None:
            raise ValueError("vmap: at least one input must be mapped")
        n = size[0]

        def real(x):
            if isinstance(x, tuple) and x and x[0] == "defer":
                _, sn, dd, sh, kd = x
                return SymTensor(sh, lambda i: sn.at(list(i[:dd]) + [atom(v)] + list(i[dd:])), kd)
            if isinstance(x, tuple):
                return tuple(real(y) for y in x)
            if isinstance(x, dict):
                return EDict({k: real(y) for k, y in x.items()})
            return x
        saved = list(ENG.pc)
        nz = len(ENG.taken)
        ENG.assume(in_range(atom(v), n))
        out = func(*[real(x) for x in taken], **kw)
        if len(ENG.taken) != nz:
            raise Unsupported("data dependent branch under vmap")
        ENG.pc = saved

        def lift(o, od):
            if not isinstance(o, SymTensor):
                o = as_tensor(o)
            sn = snapshot(o)
            od = norm_dim(od, o.ndim + 1)
            sh = list(o.pshape)
            if any(v in T.fv(s) for s in sh):
                raise Unsupported("vmap output shape depends on the sample")
            sh.insert(od, n)
            return SymTensor(sh, lambda i: subst(sn.at(list(i[:od]) + list(i[od + 1:])), {v: i[od]}),
                             o.kind)

        def go(o, od):
            if isinstance(o, (tuple, EList)):
                ods = od if isinstance(od, tuple) else (od,) * len(o)
                return tuple(go(x, e) for x, e in zip(o, ods))
            if isinstance(o, dict):
                return EDict({k: go(x, od) for k, x in o.items()})
            return lift(o, od)
        return go(out, out_dims)
    return g


def functional_call(module, params, args=(), kwargs=None, **k):
    f = getattr(module, "__functional_call__", None)
    if f is None:
        raise Unsupported("functional_call on a module without contract")
    return f(params, args if isinstance(args, (tuple, EList)) else (args,), kwargs or {})


class NoGrad:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f=None):
        return f if f is not None else self


# ------------------------------------------------------------------ modules
class Module:
    def __init__(self, *a, **k):
        pass

    def eval(self):
        return self
    train = to = cuda = cpu = lambda self, *a, **k: self

    def __call__(self, *a, **k):
        return self.forward(*a, **k)


class Dataset:
    def __class_getitem__(cls, k):
        return cls


class Sampler(Dataset):
    def __init__(self, *a, **k):
        pass


class SequentialSampler(Sampler):
    def __init__(self, ds=None):
        self.data_source = ds

    def __symlen__(self):
        return sym_len(self.data_source)


class RandomSampler(SequentialSampler):
    pass


def sym_len(x):
    f = getattr(x, "symlen", None) or getattr(x, "__symlen__", None)
    return f() if f else len(x)


class DataLoader:
    """Model of torch DataLoader over N samples in ceil(N/bs) batches.

    batch(a) -> python batch (tuple of tensors) of rows a*bs .. min((a+1)*bs, N)."""

    def __init__(self, dataset=None, batch_size=1, shuffle=False, sampler=None, drop_last=False,
                 **k):
        if drop_last:
            raise Unsupported("drop_last loaders")
        self.dataset = dataset
        self.batch_size = batch_size
        self.sampler = sampler if sampler is not None else (
            RandomSampler(dataset) if shuffle else SequentialSampler(dataset))
        self.drop_last = drop_last
        fields = getattr(dataset, "__fields__", None)
        if fields is None:
            raise Unsupported("DataLoader over an unmodelled dataset")
        self.N = P(sym_len(self.sampler))
        self.bs = P(batch_size)
        self.A = ENG.simp(T.floordiv(add(self.N, sub(self.bs, ONE)), self.bs))
        note_loader(self.N, self.bs)

    def index(self, r):
        f = getattr(self.sampler, "__index_of__", None)
        return f(r) if f else r

    def batch(self, a):
        rows = ENG.simp(T.imin(self.bs, sub(self.N, mul(a, self.bs))))
        base = mul(a, self.bs)
        out = []
        for fn_, shape, kind in self.dataset.__fields__:
            out.append(SymTensor([rows] + list(shape),
                                 lambda i, fn_=fn_: fn_(self.index(add(base, i[0])), i[1:]), kind))
        return self.dataset.__pack__(out) if hasattr(self.dataset, "__pack__") else EList(out)

    def __symseq__(self):
        return self.A, self.batch

    def symlen(self):
        return wrap(self.A)

    def __iter__(self):
        c = as_const(self.A)
        if c is None:
            raise Unsupported("native iteration of a symbolic loader")
        return iter([self.batch(num(i)) for i in range(int(c))])

    def __class_getitem__(cls, k):
        return cls


def note_loader(N, bs):
    ls = getattr(ENG, "loader_shapes", None)
    if ls is None or ENG.ls_run is not ENG.taken:
        ENG.loader_shapes, ENG.ls_run = [], ENG.taken
        ls = ENG.loader_shapes
    if (N, bs) not in ls:
        ls.append((N, bs))


class SymDataset(Dataset):
    """N samples; fields: list of (fn(row, idx)->term, trailing shape, kind)."""

    def __init__(self, N, fields, pack=None):
        self.N = P(N)
        self.__fields__ = fields
        if pack:
            self.__pack__ = pack

    def symlen(self):
        return wrap(self.N)

    def __getitem__(self, k):
        p = P(k)
        out = []
        for fn_, shape, kind in self.__fields__:
            out.append(SymTensor(list(shape), lambda i, fn_=fn_: fn_(p, list(i)), kind))
        return tuple(out)


class Subset(SymDataset):
    def __init__(self, ds, idx):
        self.dataset, self.indices = ds, idx

    def symlen(self):
        return sym_len(self.indices)

    @property
    def __fields__(self):
        idx = self.indices

        def mk(fn_):
            def f(r, i):
                return fn_(P(idx[wrap(r)]), i)
            return f
        return [(mk(f), s, k) for f, s, k in self.dataset.__fields__]


class tqdm_:
    def __new__(cls, it=None, *a, **k):
        return it


def make_torch():
    t = stub("torch")
    t.Tensor = SymTensor
    t.Size = sym.Size
    for n in ("float32", "float64", "int64", "bool"):
        setattr(t, n, getattr(sym, n if n != "bool" else "bool_"))
    t.float = t.float32
    t.double = t.float64
    t.long = t.int64
    t.int = t.int32 = DType("int32", "i")
    t.int8 = DType("int8", "i")
    t.uint8 = DType("uint8", "i")
    t.float16 = t.half = DType("float16", "f")
    t.bfloat16 = DType("bfloat16", "f")
    t.dtype, t.device = DType, Device
    t.inf = float("inf")
    t.Generator = Generator
    g = globals()
    for n in ("zeros ones empty zeros_like ones_like empty_like full_like eye arange tensor "
              "from_numpy randn rand randint randperm cat stack split chunk unbind diag where outer trapz trapezoid "
              "bmm cdist manual_seed vmap").split():
        setattr(t, n, g[n])
    t.full = full_
    t.concat = t.concatenate = cat
    t.as_tensor = lambda x, **k: as_tensor(x)
    t.einsum = sym.einsum
    t.matmul = t.mm = sym.matmul
    t.dot = lambda a, b: a.dot(b)
    for n in ("sum mean norm sqrt exp log abs sigmoid softmax argsort argmax argmin max min any all "
              "square isnan nan_to_num clone squeeze unsqueeze transpose permute reshape flatten "
              "clamp tril triu trace cumsum sign rsqrt reciprocal pow add sub mul div diagonal "
              "numel mv gather index_select").split():
        setattr(t, n, elementwise(n))
    t.bool = sym.bool_
    t.allclose = lambda a, b, **k: UnsupportedFn("torch.allclose")()
    t.is_tensor = lambda x: isinstance(x, SymTensor)
    t.compile = lambda f=None, **k: f if f is not None else (lambda g: g)
    t.no_grad = lambda *a: NoGrad()
    t.inference_mode = t.enable_grad = lambda *a: NoGrad()
    t.set_grad_enabled = lambda *a: NoGrad()
    t.is_grad_enabled = lambda: True
    t.set_default_dtype = lambda *a: None
    la = stub("torch.linalg")
    la.solve, la.eigh, la.inv, la.norm = solve, eigh, matinv, elementwise("norm")
    t.linalg = la
    t.inverse = matinv
    fn = stub("torch.func")
    fn.grad, fn.vmap, fn.jvp, fn.vjp, fn.hessian, fn.jacrev = grad, vmap, jvp, vjp, hessian, jacrev
    fn.jacfwd = jacrev
    fn.grad_and_value = grad_and_value
    fn.functional_call = functional_call
    t.func = fn
    nn = stub("torch.nn")
    nn.Module = Module
    F = stub("torch.nn.functional")
    F.normalize = normalize
    F.softmax = elementwise("softmax")
    nn.functional = F
    t.nn = nn
    ut = stub("torch.utils")
    ud = stub("torch.utils.data")
    ud.DataLoader, ud.Dataset, ud.Sampler, ud.RandomSampler = DataLoader, Dataset, Sampler, RandomSampler
    ud.SequentialSampler, ud.Subset = SequentialSampler, Subset
    ut.data = ud
    t.utils = ut
    ag = stub("torch.autograd")
    ag.Variable = lambda x, **k: x.alias()
    ag.Function = type("Function", (), {})
    t.autograd = ag
    cu = stub("torch.cuda")
    cu.is_available = lambda: False
    cu.empty_cache = lambda: None
    cu.manual_seed_all = lambda s: None
    t.cuda = cu
    op = stub("torch.optim")
    op.Optimizer = type("Optimizer", (), {})
    t.optim = op
    return t


def make_numpy():
    n = stub("numpy")
    n.ndarray = SymTensor
    n.inf = float("inf")
    n.array = lambda x, **k: as_tensor(x)
    n.asarray = n.array
    for nm in ("abs", "mean", "sum", "sqrt", "argsort"):
        setattr(n, nm, elementwise(nm))
    n.ravel = lambda x: as_tensor(x).flatten()
    n.flip = lambda x, axis=0: as_tensor(x).flip(axis)
    n.float32, n.float64, n.int64 = sym.float32, sym.float64, sym.int64
    n.integer = type("integer", (), {})
    n.floating = type("floating", (), {})
    return n


def make_math():
    m = stub("math")
    m.pi, m.inf, m.e = _math.pi, _math.inf, _math.e

    def sqrt(x):
        if isinstance(x, (int, float)):
            c = sym.ssqrt(x)
            return _math.sqrt(x) if as_const(c.p) is None and False else c
        if isinstance(x, SNum) or isinstance(x, SymTensor):
            return sym.ssqrt(wrap(P(x)))
        raise TypeError("must be real number")

    def prod(xs):
        r = 1
        for x in xs:
            r = r * x
        return r

    def ceil(x):
        if isinstance(x, (int, float)):
            return _math.ceil(x)
        return ceil_term(x)

    def floor(x):
        if isinstance(x, (int, float)):
            return _math.floor(x)
        p = P(x)
        d = ratio(p)
        if d is None:
            return SNum(T.fn("floor", p, sort="I"))
        return sym.sfloordiv(wrap(d[0]), wrap(d[1]))

    def log(x, *a):
        if isinstance(x, (int, float)) and not a:
            return _math.log(x)
        return SNum(T.fn("log", to_real(P(x))))
    m.sqrt, m.prod, m.ceil, m.floor, m.log = sqrt, prod, ceil, floor, log
    m.isclose = lambda a, b, **k: UnsupportedFn("math.isclose")()
    m.gcd = _math.gcd
    m.isnan = lambda x: x != x if isinstance(x, float) else False
    m.isinf = lambda x: False if isinstance(x, SNum) else _math.isinf(x)
    return m


def ratio(p):
    """p = a/b with integer polynomials a, b."""
    from fractions import Fraction
    dens = {}
    for mm, c in p.a:
        for x, e in mm:
            if e < 0:
                dens[x] = max(dens.get(x, 0), -e)
            elif x.k == "Inv":
                return None
    b = ONE
    for x, e in dens.items():
        if x.sort != "I":
            return None
        b = mul(b, T.pow_(atom(x), e))
    den = 1
    for _, c in p.a:
        den = den * c.denominator // _math.gcd(den, c.denominator)
    b = mul(b, num(den))
    a = mul(p, to_real(b))
    ok = all(c.denominator == 1 for _, c in a.a) and all(
        x.sort == "I" and e > 0 for mm, _ in a.a for x, e in mm)
    if not ok:
        return None
    return T._poly(dict(a.a), "I"), b


def ceil_term(x):
    p = P(x)
    if p.sort == "I":
        return x
    d = ratio(p)
    if d is None:
        return SNum(T.fn("ceil", p, sort="I"))
    a, b = d
    q = sym.sfloordiv(wrap(sub(add(a, b), ONE)), wrap(b))
    return q
