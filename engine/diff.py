"""Symbolic differentiation of terms with respect to a tensor head."""
from __future__ import annotations
from . import terms as T
from .terms import (ZERO, ONE, RONE, atom, add, mul, neg, num, eq, band, iverson, sum_, to_real,
                    open_binder, as_const)
from .core import Unsupported


def diff(t, head, idx):
    """d t / d head[idx]  (t a numeric Poly)."""
    memo = {}

    def P_(p):
        acc = [num(0, "R")]
        for m, c in p.a:
            for pos, (x, e) in enumerate(m):
                if head not in T.fnames(x):
                    continue
                dx = A(x)
                if as_const(dx) == 0:
                    continue
                rest = num(c, "R")
                for q, (y, f) in enumerate(m):
                    ee = f - 1 if q == pos else f
                    if ee:
                        rest = mul(rest, T._poly({((y, ee),): num(1).a[0][1]}, "R"))
                acc.append(mul(T.scale(rest, e), dx))
        return add(*acc)

    def A(x):
        r = memo.get(x)
        if r is None:
            r = A_(x)
            memo[x] = r
        return r

    def A_(x):
        k = x.k
        if head not in T.fnames(x):
            return num(0, "R")
        if k == "Fn":
            name, args = x.a
            if name == head:
                c = band(*[eq(a, i) for a, i in zip(args, idx)])
                return iverson(c)
            if name == "sqrt":
                return mul(T.scale(T.inv(T.sqrt(args[0])), num(1).a[0][1] / 2), P_(args[0]))
            if name == "exp":
                return mul(atom(x), P_(args[0]))
            if name == "log":
                return mul(T.inv(args[0]), P_(args[0]))
            if name == "sigmoid":
                return mul(mul(atom(x), add(RONE, neg(atom(x)))), P_(args[0]))
            acc = [num(0, "R")]
            for pos, a in enumerate(args):
                if head not in T.fnames(a):
                    continue
                if a.k == "P":
                    if a.sort == "I":
                        raise Unsupported("differentiating an integer argument")
                    acc.append(mul(deriv_app(name, args, pos, ()), P_(a)))
                elif a.k == "L":
                    vs, rs, body = open_binder(a)
                    js = tuple(atom(v) for v in vs)
                    t2 = mul(deriv_app(name, args, pos, js), P_(body))
                    for v, r in reversed(list(zip(vs, rs))):
                        t2 = sum_(v, r, t2)
                    acc.append(t2)
                else:
                    raise Unsupported("differentiating %s" % a.k)
            return add(*acc)
        if k == "S":
            vs, rs, body = open_binder(x)
            b = P_(body)
            for v, r in reversed(list(zip(vs, rs))):
                b = sum_(v, r, b)
            return b
        if k == "Inv":
            return neg(mul(mul(atom(x), atom(x)), P_(x.a[0])))
        if k == "Iv":
            return num(0, "R")
        raise Unsupported("differentiating %s" % k)
    return P_(t)


def deriv_app(name, args, pos, js):
    """Application of the derivative of `name` in argument `pos` at component js."""
    base, nb, groups = _info(name, len(args))
    new = name + "'%d" % pos
    T.DERIV_RANK[new] = (nb, groups + [(pos, len(js))])
    # canonical name: positions sorted
    g2 = sorted(p for p, _ in groups + [(pos, len(js))])
    cname = base + "".join("'%d" % p for p in g2)
    gs = []
    rest = list(args[nb:])
    for p, r in groups:
        gs.append((p, tuple(rest[:r])))
        rest = rest[r:]
    gs.append((pos, tuple(js)))
    gs.sort(key=lambda g: (g[0], tuple(a.uid for a in g[1])))
    T.DERIV_RANK[cname] = (nb, [(p, len(g)) for p, g in gs])
    out = list(args[:nb])
    for _p, g in gs:
        out.extend(g)
    return atom(T.Fn(cname, tuple(out), "R"))


def _info(name, nargs):
    if "'" in name:
        nb, groups = T.DERIV_RANK[name]
        return name.split("'")[0], nb, list(groups)
    return name, nargs, []
