"""Vocabulary for contracts."""
from __future__ import annotations
from . import terms as T, sym, tstub
from .terms import *      # noqa: F401,F403
from .core import ENG, Unsupported
from .sym import *        # noqa: F401,F403
from .sym import P, wrap, SymTensor, SNum, free_tensor, EList, EDict
from .tstub import SymDataset, DataLoader


def Int(name, lo=None, hi=None):
    """Arbitrary integer (universally quantified)."""
    p = T.var(name, "I")
    if lo is not None:
        ENG.assume(T.le(P(lo), p))
    if hi is not None:
        ENG.assume(T.le(p, P(hi)))
    return wrap(p)


def Real(name):
    return SNum(T.var(name, "R"))


def tensor(name, *shape, kind="f"):
    return free_tensor(name, shape, kind)


def loader(name, N, bs, *fields, pack=None, dataset_only=False):
    """fields: trailing shapes; row r of field f is name_f(r, ...)."""
    fl = []
    for q, sh in enumerate(fields):
        kind = "f"
        if isinstance(sh, tuple) and len(sh) == 2 and sh[1] in ("f", "i"):
            sh, kind = sh
        nm = "%s%d" % (name, q)
        sort = "R" if kind == "f" else "I"
        fl.append((lambda r, i, nm=nm, sort=sort: T.fn(nm, r, *i, sort=sort), [P(s) for s in sh], kind))
    ds = SymDataset(N, fl, pack)
    if dataset_only:
        return ds
    return DataLoader(ds, batch_size=bs)


def S(ranges, body):
    """Σ over fresh variables: S([n1, n2], lambda i, j: term)."""
    vs = [T.fresh("s") for _ in ranges]
    b = body(*[T.atom(v) for v in vs])
    b = P(b)
    for v, n in reversed(list(zip(vs, ranges))):
        b = T.sum_(v, P(n), b)
    return b


def el(t, *idx):
    return t.at([P(i) for i in idx])


def ensure_shape(t, shape, what):
    if not isinstance(t, SymTensor):
        ENG.fail("post: %s is a tensor" % what, "got %r" % type(t).__name__)
        return False
    if len(t.pshape) != len(shape):
        ENG.fail("post: shape of %s" % what, "rank %d instead of %d" % (len(t.pshape), len(shape)))
        return False
    ok = True
    for k, (a, b) in enumerate(zip(t.pshape, shape)):
        ok &= bool(ENG.check("post: dim %d of %s" % (k, what), T.eq(a, P(b))))
    return ok


def ensure_eq(t, shape, f, what):
    """t has the given shape and equals f pointwise."""
    if not ensure_shape(t, shape, what):
        return False
    vs = [T.var("i%d" % k) for k in range(len(shape))]
    hyps = [T.in_range(v, P(s)) for v, s in zip(vs, shape)]
    saved = list(ENG.pc)
    for h in hyps:
        ENG.assume(h)
    want = f(*vs)
    want = P(want) if not isinstance(want, T.Node) else want
    got = t.at(vs)
    r = ENG.check("post: %s" % what, T.eq(got, want) if want.k == "P" else
                  T.band(T.bor(T.bnot(got), want), T.bor(got, T.bnot(want))))
    ENG.pc = saved
    return r


def ensure_num(x, want, what):
    return ENG.check("post: %s" % what, T.eq(P(x), P(want)))


def ensure(c, what):
    if isinstance(c, bool):
        c = T.TRUE if c else T.FALSE
    if isinstance(c, SBool):
        c = c.c
    return ENG.check("post: %s" % what, c)


def expect_raise(exc, f, what):
    try:
        f()
    except exc:
        ensure(True, what)
        return True
    except Exception as e:     # noqa: BLE001
        ENG.fail("post: %s" % what, "raised %s instead" % type(e).__name__)
        return False
    ENG.fail("post: %s" % what, "no exception raised")
    return False


def positive(name, sort="R", note=None):
    """Precondition: every value of the uninterpreted function `name` is > 0."""
    from . import solver
    solver.FACTS[name] = lambda args: [T.lt(T.num(0, sort), T.fn(name, *args, sort=sort))]
    if note:
        ENG.assumptions.add(note)


def nonneg(name, sort="R", note=None):
    from . import solver
    solver.FACTS[name] = lambda args: [T.le(T.num(0, sort), T.fn(name, *args, sort=sort))]
    if note:
        ENG.assumptions.add(note)
