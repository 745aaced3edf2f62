"""Term language of the verifier: hash-consed, eagerly normalised.

Numeric terms are polynomials (sum of monomials with rational coefficients) over
atoms.  Atoms: variables, uninterpreted applications, finite sums, Iverson brackets,
inverses, integer if-then-else, floor division and modulus.
Every constructor returns a normal form; structural equality is term identity.
"""
from __future__ import annotations
from fractions import Fraction
from itertools import permutations, count

_uid = count(1)
_table: dict = {}


class Node:
    __slots__ = ("k", "a", "sort", "uid", "_fv", "_ht", "_fn", "__weakref__")

    def __repr__(self):
        return show(self)


def _mk(k, a, sort):
    key = (k, a, sort)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.k, n.a, n.sort = k, a, sort
        n.uid = next(_uid)
        n._fv = None
        n._ht = None
        n._fn = None
        _table[key] = n
    return n


# ------------------------------------------------------------------ structure
def children(n):
    k = n.k
    if k in ("V", "B", "T", "F"):
        return ()
    if k == "P":
        return tuple(x for m, _ in n.a for x, _e in m)
    if k == "Fn":
        return n.a[1]
    if k == "S":
        return tuple(n.a[0]) + (n.a[1],)
    if k == "L":
        return tuple(n.a[0]) + (n.a[1],)
    return tuple(x for x in n.a if isinstance(x, Node))


def fv(n):
    """Free variables (Var nodes) and, for convenience, bound-placeholder nodes."""
    if n._fv is None:
        if n.k in ("V",):
            n._fv = frozenset((n,))
        else:
            s = frozenset()
            for c in children(n):
                s = s | fv(c)
            n._fv = s
    return n._fv


def fnames(n):
    if n._fn is None:
        s = frozenset()
        if n.k == "Fn":
            s = frozenset((n.a[0],))
        for c in children(n):
            s = s | fnames(c)
        n._fn = s
    return n._fn


def height(n):
    if n._ht is None:
        h = 0
        for c in children(n):
            h = max(h, height(c))
        if n.k in ("S", "L"):
            h += len(n.a[0])
        n._ht = h
    return n._ht


def Var(name, sort="I"):
    return _mk("V", (name,), sort)


_fresh = count(1)


def fresh(prefix="v", sort="I"):
    return Var("%s!%d" % (prefix, next(_fresh)), sort)


def beta(i):
    return _mk("B", (i,), "I")


TRUE = _mk("T", (), "B")
FALSE = _mk("F", (), "B")


# ------------------------------------------------------------------ polynomials
def _poly(d, sort):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0),
                         key=lambda mc: tuple((x.uid, e) for x, e in mc[0])))
    return _mk("P", items, sort)


def of_float(c):
    """the number a float was written as (0.1 is 1/10, 1/3 is 1/3), else its exact value"""
    t = repr(c).split("e")[0].replace("-", "").replace(".", "").strip("0")
    if len(t) <= 15:
        return Fraction(repr(c))
    q = Fraction(c).limit_denominator(1000)
    return q if q and q.numerator / q.denominator == c else Fraction(c)


def num(c, sort=None):
    if isinstance(c, float):
        c = of_float(c) if c == c and c not in (float("inf"), float("-inf")) else c
        if isinstance(c, float):
            raise ValueError("non-finite constant")
        sort = sort or "R"
    c = Fraction(c)
    if sort is None:
        sort = "I" if c.denominator == 1 else "R"
    return _poly({(): c}, sort)


ZERO = num(0)
ONE = num(1)
RZERO = num(0, "R")
RONE = num(1, "R")


def atom(n, sort=None):
    """Poly holding the single atom n."""
    if n.k == "P":
        return n
    return _poly({((n, 1),): Fraction(1)}, sort or ("I" if n.sort == "I" else "R"))


def var(name, sort="I"):
    return atom(Var(name, sort))


def as_const(p):
    if p.k == "P":
        if not p.a:
            return Fraction(0)
        if len(p.a) == 1 and p.a[0][0] == ():
            return p.a[0][1]
    return None


def as_atom(p):
    if p.k == "P" and len(p.a) == 1:
        m, c = p.a[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def _join(s, t):
    return "I" if s == "I" and t == "I" else "R"


def add(*ps):
    d: dict = {}
    sort = "I"
    for p in ps:
        sort = _join(sort, p.sort)
        for m, c in p.a:
            d[m] = d.get(m, 0) + c
    return _poly(d, sort)


def scale(p, c):
    c = Fraction(c)
    sort = p.sort if c.denominator == 1 else "R"
    if c == 0:
        return _poly({}, sort)
    return _poly({m: k * c for m, k in p.a}, sort)


def neg(p):
    return scale(p, -1)


def sub(a, b):
    return add(a, neg(b))


def to_real(p):
    return p if p.sort == "R" else _poly(dict(p.a), "R")


def _norm_mono(mono_d):
    """mono dict atom->exp  ->  Poly (special powers expanded)."""
    extra = []
    out = {}
    for x, e in mono_d.items():
        if e == 0:
            continue
        if x.k == "Iv":
            if e >= 1:
                out[x] = 1
                continue
            out[x] = e
            continue
        if x.k == "Fn" and x.a[0] == "sqrt" and (e >= 2 or e <= -2):
            q, r = divmod(abs(e), 2)
            base = pow_(to_real(x.a[1][0]), q if e > 0 else -q)
            extra.append(base)
            if r:
                out[x] = out.get(x, 0) + (r if e > 0 else -r)
            continue
        out[x] = e
    # contradictory iverson pairs are left to the solver
    return out, extra


def _zero_under(c, mono):
    """x * [x == 0] = 0 for an atom x"""
    if c.k != "eq0" or len(c.a[0].a) != 1:
        return False
    (m, _), = c.a[0].a
    return len(m) == 1 and m[0][1] >= 1 and mono.get(m[0][0], 0) >= 1


def mul(a, b):
    ca, cb = as_const(a), as_const(b)
    sort = _join(a.sort, b.sort)
    if ca is not None:
        r = scale(b, ca)
        return r if r.sort == sort else _poly(dict(r.a), sort)
    if cb is not None:
        r = scale(a, cb)
        return r if r.sort == sort else _poly(dict(r.a), sort)
    d: dict = {}
    extras = []
    for m1, c1 in a.a:
        for m2, c2 in b.a:
            md: dict = {}
            for x, e in m1:
                md[x] = md.get(x, 0) + e
            for x, e in m2:
                md[x] = md.get(x, 0) + e
            out, extra = _norm_mono(md)
            if any(x.k == "Iv" and _zero_under(x.a[0], out) for x in out):
                continue
            m = tuple(sorted(((x, e) for x, e in out.items() if e), key=lambda t: t[0].uid))
            if extra:
                q = _poly({m: c1 * c2}, sort)
                for ex in extra:
                    q = mul(q, ex)
                extras.append(q)
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = _poly(d, sort)
    if extras:
        r = add(r, *extras)
    return r


def prod(ps):
    r = ONE
    for p in ps:
        r = mul(r, p)
    return r


def pow_(p, e):
    if e == 0:
        return num(1, p.sort)
    if e < 0:
        return pow_(inv(p), -e)
    r = p
    for _ in range(e - 1):
        r = mul(r, p)
    return r


def inv(p):
    """1/p.  The non-zero obligation is raised by the caller."""
    if not p.a:
        return fn("inv0")       # some value: only reached where a guard rules the division out
    if len(p.a) == 1:
        m, c = p.a[0]
        if c == 0:
            raise ZeroDivisionError
        out, extra = _norm_mono({x: -e for x, e in m})
        mm = tuple(sorted(((x, e) for x, e in out.items() if e), key=lambda t: t[0].uid))
        r = _poly({mm: 1 / c}, "R")
        for ex in extra:
            r = mul(r, ex)
        return r
    # common monomial factoring keeps 1/(a*x+a*y) canonical
    lead = p.a[0][1]
    q = scale(p, 1 / lead)
    q = to_real(q)
    common = None
    for m, _ in q.a:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {x: min(e, dm.get(x, 0)) for x, e in common.items()
                      if min(e, dm.get(x, 0)) > 0}
        if not common:
            break
    res = None
    if common:
        common = {x: e for x, e in common.items() if e > 0 and x.k != "Iv"}
    if common:
        cm = tuple(sorted(common.items(), key=lambda t: t[0].uid))
        q2 = mul(q, _poly({tuple((x, -e) for x, e in cm): Fraction(1)}, "R"))
        res = _poly({tuple((x, -e) for x, e in cm): Fraction(1)}, "R")
        q = q2
        if len(q.a) == 1:
            return scale(mul(res, inv(q)), 1 / lead)
    node = _mk("Inv", (q,), "R")
    r = _poly({((node, 1),): 1 / lead}, "R")
    return mul(r, res) if res is not None else r


def div(a, b):
    r = mul(to_real(a), inv(b))
    # exact cancellation of a polynomial denominator that also is the numerator
    return _cancel(r)


def _cancel(p):
    """Cancel q * Inv(q) patterns:  sum_i c_i m_i Inv(q)  where the cofactor is a
    multiple of q."""
    invs = set()
    for m, _ in p.a:
        for x, e in m:
            if x.k == "Inv" and e > 0:
                invs.add(x)
    for x in invs:
        q = x.a[0]
        # collect the part of p with Inv(q)^1 exactly
        part, rest = {}, {}
        for m, c in p.a:
            dm = dict(m)
            if dm.get(x, 0) >= 1:
                if dm[x] == 1:
                    del dm[x]
                else:
                    dm[x] -= 1
                part[tuple(sorted(dm.items(), key=lambda t: t[0].uid))] = c
            else:
                rest[m] = c
        if not part:
            continue
        pp = _poly(part, "R")
        quot, rem = _divide(pp, q)
        if quot is not None and as_const(quot) != 0 and as_const(rem) == 0:
            p = add(_poly(rest, "R"), quot)
    return p


def _divide(p, q):
    """Multivariate division of p by q (single divisor); returns (quot, rem)."""
    if not q.a:
        return None, p

    def order(mc):
        m, _ = mc
        return (sum(abs(e) for _x, e in m), tuple((x.uid, e) for x, e in m))
    lm, lc = max(q.a, key=order)
    ld = dict(lm)
    quot = ZERO
    rem = p
    for _ in range(64):
        hit = None
        for m, c in sorted(rem.a, key=order, reverse=True):
            dm = dict(m)
            if all(dm.get(x, 0) >= e for x, e in ld.items()):
                hit = (m, c)
                break
        if hit is None:
            break
        m, c = hit
        dm = dict(m)
        for x, e in ld.items():
            dm[x] -= e
            if dm[x] == 0:
                del dm[x]
        t = _poly({tuple(sorted(dm.items(), key=lambda t: t[0].uid)): c / lc},
                  p.sort if (c / lc).denominator == 1 else "R")
        quot = add(quot, t)
        rem = sub(rem, mul(t, q))
        if len(rem.a) > 60:
            return None, p
        if as_const(rem) == 0:
            break
    return quot, rem


def exact_div(p, q):
    """p / q when q divides p as polynomials, else None."""
    if as_const(q) == 1:
        return p
    quot, rem = _divide(p, q)
    if quot is not None and as_const(rem) == 0:
        return quot
    return None


# ------------------------------------------------------------------ applications
def Fn(name, args, sort="R"):
    """Uninterpreted application node (atom or Bool)."""
    return _mk("Fn", (name, tuple(args)), sort)


def fn(name, *args, sort="R"):
    return atom(Fn(name, args, sort))


def sqrt(p):
    c = as_const(p)
    if c is not None and c >= 0:
        from math import isqrt
        n, d = c.numerator, c.denominator
        if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
            return num(Fraction(isqrt(n), isqrt(d)), "R")
    return atom(Fn("sqrt", (to_real(p),), "R"))


def ite_int(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "R" or b.sort == "R":
        return ite_real(c, a, b)
    if a.k == "P" and b.k == "P":
        com = {m: q for m, q in set(a.a) & set(b.a) if m != ()}
        if com:
            com = _poly(com, "I")
            return add(com, ite_int(c, sub(a, com), sub(b, com)))
    return atom(_mk("Ite", (c, a, b), "I"))


def ite_real(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    i = iverson(c)
    return add(mul(i, a), b, neg(mul(i, b)))


def ite(c, a, b):
    if a.sort == "I" and b.sort == "I":
        return ite_int(c, a, b)
    return ite_real(c, to_real(a), to_real(b))


def imin(a, b):
    return ite(le(a, b), a, b)


def imax(a, b):
    return ite(le(a, b), b, a)


def iverson(c):
    """[c] as a real polynomial over literal brackets."""
    if c is TRUE:
        return RONE
    if c is FALSE:
        return RZERO
    if c.k == "not":
        return sub(RONE, iverson(c.a[0]))
    if c.k == "and":
        r = RONE
        for x in c.a:
            r = mul(r, iverson(x))
        return r
    if c.k == "or":
        r = RONE
        for x in c.a:
            r = mul(r, sub(RONE, iverson(x)))
        return sub(RONE, r)
    return atom(_mk("Iv", (c,), "R"))


def floordiv(a, b):
    ca, cb = as_const(a), as_const(b)
    if cb == 1:
        return a
    if ca is not None and cb is not None and cb != 0:
        return num(ca // cb)
    if ca == 0:
        return a
    q = exact_div(a, b) if cb is None else None
    if q is not None and q.sort == "I":
        return q
    # pull out exact multiples of b:  (b*q + r) div b = q + r div b
    if len(a.a) > 1:
        whole, rest = ZERO, ZERO
        for m, c in a.a:
            t = _poly({m: c}, a.sort)
            if cb is not None:
                qq = Fraction(c, cb)
                if qq.denominator == 1:
                    whole = add(whole, _poly({m: qq}, a.sort))
                else:
                    rest = add(rest, t)
            else:
                e = exact_div(t, b) if m != () else None
                if e is not None and e.sort == "I":
                    whole = add(whole, e)
                else:
                    rest = add(rest, t)
        if as_const(whole) != 0:
            return add(whole, floordiv(rest, b))
    elif cb is not None and len(a.a) == 1:
        m, c = a.a[0]
        qq = Fraction(c, cb)
        if qq.denominator == 1:
            return _poly({m: qq}, a.sort)
    return atom(_mk("FD", (a, b), "I"))


def mod(a, b):
    return sub(a, mul(b, floordiv(a, b)))


# ------------------------------------------------------------------ booleans
def _prim(p):
    """Scale an integer/real poly to primitive integer coefficients (positive factor)."""
    from math import gcd
    den = 1
    for _, c in p.a:
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for _, c in p.a:
        g = gcd(g, int(c * den))
    if g == 0:
        return p
    return scale(p, Fraction(den, g))


def minmax_of(x):
    """('min'|'max', a, b) when the integer Ite node x is a minimum / maximum."""
    c, a, b = x.a
    if c.k != "le0":
        return None
    if c is le(a, b) or c is lt(a, b):
        return ("min", a, b)
    if c is le(b, a) or c is lt(b, a):
        return ("max", a, b)
    return None


def _le_minmax(p):
    for m, c in p.a:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].k == "Ite":
            x = m[0][0]
            mm = minmax_of(x)
            if mm is None:
                continue
            rest = add(p, neg(_poly({m: c}, p.sort)))
            q1 = le0(add(rest, scale(mm[1], c)))
            q2 = le0(add(rest, scale(mm[2], c)))
            if (mm[0] == "min") == (c < 0):
                return band(q1, q2)
            return bor(q1, q2)
    return None


def le0(p):
    c = as_const(p)
    if c is not None:
        return TRUE if c <= 0 else FALSE
    p = _prim(p)
    if p.sort == "I":
        r = _le_minmax(p)
        if r is not None:
            return r
    if p.sort == "I":
        # integer tightening: sum + c <= 0 after dividing the non constant part by its gcd
        from math import gcd
        g, c0 = 0, Fraction(0)
        for m, c in p.a:
            if m == ():
                c0 = c
            else:
                g = gcd(g, int(c))
        if g > 1:
            rest = scale(sub(p, num(c0)), Fraction(1, g))
            import math
            p = add(rest, num(math.ceil(c0 / g)))
    return _mk("le0", (p,), "B")


def lt0(p):
    if p.sort == "I":
        return le0(add(p, ONE))
    c = as_const(p)
    if c is not None:
        return TRUE if c < 0 else FALSE
    return _mk("lt0", (_prim(p),), "B")


def eq0(p):
    c = as_const(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    p = _prim(p)
    if p.a[-1][1] < 0:
        p = neg(p)
    if p.sort == "I":
        for m, co in p.a:
            # permutations (argsort, extended by the identity outside the range) are bijections:
            # t == perm(e)  <=>  rank(t) == e
            if len(m) == 1 and m[0][1] == 1 and co in (1, -1) and m[0][0].k == "Fn" and \
                    m[0][0].a[0] in PERMS:
                x = m[0][0]
                t = scale(sub(p, scale(atom(x), co)), -co)
                return eq0(sub(mk_app(PERMS[x.a[0]], (x.a[1][0], t), "I"), x.a[1][1]))
        if len(p.a) == 2 and INJECTIVE:
            (m, c), (n, d) = p.a
            if len(m) == len(n) == 1 and m[0][1] == n[0][1] == 1 and c == -d:
                x, y = m[0][0], n[0][0]
                if x.k == y.k == "Fn" and x.a[0] == y.a[0] and x.a[0] in INJECTIVE and \
                        len(x.a[1]) == len(y.a[1]) and x.a[1][:-1] == y.a[1][:-1]:
                    return eq0(sub(x.a[1][-1], y.a[1][-1]))
    return _mk("eq0", (p,), "B")


INJECTIVE = set()        # functions assumed one-to-one in their last argument


PERMS = {"argsort": "rank", "argsortd": "rankd"}


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    return eq0(sub(a, b))


def ne(a, b):
    return bnot(eq(a, b))


def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.k == "not":
        return c.a[0]
    if c.k == "le0":
        return lt0(neg(c.a[0]))
    if c.k == "lt0":
        return le0(neg(c.a[0]))
    if c.k == "and":
        return bor(*[bnot(x) for x in c.a])
    if c.k == "or":
        return band(*[bnot(x) for x in c.a])
    return _mk("not", (c,), "B")


def band(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.k == "and":
            out.extend(c.a)
        else:
            out.append(c)
    out = sorted(set(out), key=lambda n: n.uid)
    s = set(out)
    for c in out:
        if bnot(c) in s:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out), "B")


def bor(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.k == "or":
            out.extend(c.a)
        else:
            out.append(c)
    out = sorted(set(out), key=lambda n: n.uid)
    s = set(out)
    for c in out:
        if bnot(c) in s:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(out), "B")


def implies(a, b):
    return bor(bnot(a), b)


def in_range(i, n):
    return band(le(ZERO, i), lt(i, n))


# ------------------------------------------------------------------ substitution
def subst(n, m, fnmap=None):
    """Substitute Var nodes (dict Node->Poly) and, optionally, application heads
    (fnmap: name -> callable(args)->Poly)."""
    if not m and not fnmap:
        return n
    memo: dict = {}
    keys = frozenset(m)
    fkeys = frozenset(fnmap or ())

    def go(x):
        if not (fv(x) & keys) and not (fkeys and (fnames(x) & fkeys)):
            return x
        r = memo.get(x)
        if r is None:
            r = step(x)
            memo[x] = r
        return r

    def step(x):
        k = x.k
        if k == "V":
            return m.get(x, atom(x) if x.sort != "B" else x)
        return rebuild(x, go, fnmap)
    return go(n)


def subterms(n):
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo.extend(children(x))
    return seen


def subst_atoms(n, m):
    """Replace whole atoms (application nodes) by polynomials."""
    memo: dict = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = m[x] if x in m else (x if x.k in ("V", "B", "T", "F") else rebuild(x, go))
            if x.k == "V" and r is x:
                r = atom(x) if x.sort != "B" else x
            memo[x] = r
        return r
    return go(n)


def rebuild(x, go, fnmap=None):
    """Reconstruct x with `go` applied to children (binders are opened)."""
    k = x.k
    if k == "P":
        r = num(0, x.sort)
        acc = [r]
        for mono, c in x.a:
            t = num(c, x.sort if c.denominator == 1 else "R")
            for at, e in mono:
                b = go(at)
                if b.k != "P":
                    b = atom(b)
                if b is atom(at):
                    t = mul(t, _poly({((at, e),): Fraction(1)},
                                     "I" if at.sort == "I" and e > 0 else "R"))
                else:
                    t = mul(t, pow_(b, e))
            acc.append(t)
        r = add(*acc)
        return _cancel(r) if r.sort == "R" else r
    if k in ("V",):
        return atom(x) if x.sort != "B" else x
    if k == "B":
        return atom(x)
    if k in ("T", "F"):
        return x
    if k == "Fn":
        args = tuple(go(c) for c in x.a[1])
        if fnmap and x.a[0] in fnmap:
            return fnmap[x.a[0]](args)
        return mk_app(x.a[0], args, x.sort)
    if k == "Inv":
        return inv(go(x.a[0]))
    if k == "Iv":
        return iverson(go(x.a[0]))
    if k == "Ite":
        return ite_int(go(x.a[0]), go(x.a[1]), go(x.a[2]))
    if k == "FD":
        return floordiv(go(x.a[0]), go(x.a[1]))
    if k == "le0":
        return le0(go(x.a[0]))
    if k == "lt0":
        return lt0(go(x.a[0]))
    if k == "eq0":
        return eq0(go(x.a[0]))
    if k == "not":
        return bnot(go(x.a[0]))
    if k == "and":
        return band(*[go(c) for c in x.a])
    if k == "or":
        return bor(*[go(c) for c in x.a])
    if k == "S":
        vs, ranges, body = open_binder(x)
        ranges2 = [go(r) for r in ranges]
        body2 = go(body)
        r = body2
        for v, n in reversed(list(zip(vs, ranges2))):
            r = sum_(v, n, r)
        return r
    if k == "L":
        vs, ranges, body = open_binder(x)
        return lam(vs, [go(r) for r in ranges], go(body))
    raise AssertionError(k)


def mk_app(name, args, sort):
    """Rebuild an application, re-running evaluation rules attached to the head."""
    if name == "sqrt":
        return sqrt(args[0])
    f = APP_RULES.get(name)
    if f is None and "'" in name:
        args = canon_deriv_args(name, args)
    if f is not None:
        r = f(args)
        if r is not None:
            return r
    n = Fn(name, args, sort)
    return n if sort == "B" else atom(n)


APP_RULES: dict = {}


def _inverse_rule(name):
    def f(args):
        x = as_atom(args[1])
        if x is not None and x.k == "Fn" and x.a[0] == name and x.a[1][0] is args[0]:
            return x.a[1][1]
        return None
    return f


for _a, _b in (("argsort", "rank"), ("argsortd", "rankd")):
    APP_RULES[_a] = _inverse_rule(_b)
    APP_RULES[_b] = _inverse_rule(_a)


def canon_deriv_args(name, args):
    """Symmetry of second derivatives: name = base'pos'pos..., trailing index groups are
    sorted among equal positions.  The arity of each index group is kept in DERIV_RANK."""
    info = DERIV_RANK.get(name)
    if not info:
        return args
    nbase, groups = info          # groups: list of (pos, rank)
    base = list(args[:nbase])
    rest = list(args[nbase:])
    gs = []
    for pos, rank in groups:
        gs.append((pos, tuple(rest[:rank])))
        rest = rest[rank:]
    gs.sort(key=lambda g: (g[0], tuple(a.uid for a in g[1])))
    for _p, g in gs:
        base.extend(g)
    return tuple(base)


DERIV_RANK: dict = {}


# ------------------------------------------------------------------ binders
_bmemo: dict = {}


def _replace(n, frm_to):
    """Structural replacement of leaf nodes (Var/Beta) by leaf nodes, re-sorting the
    polynomials but *not* re-running binder constructors."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in frm_to:
            r = frm_to[x]
        elif x.k in ("V", "B", "T", "F"):
            r = x
        elif x.k == "P":
            d = {}
            for mono, c in x.a:
                mm = tuple(sorted(((go(y), e) for y, e in mono), key=lambda t: t[0].uid))
                d[mm] = d.get(mm, 0) + c
            r = _poly(d, x.sort)
        elif x.k == "Fn":
            args = tuple(go(c) for c in x.a[1])
            if "'" in x.a[0]:
                args = canon_deriv_args(x.a[0], args)
            r = _mk("Fn", (x.a[0], args), x.sort)
        elif x.k in ("S", "L"):
            r = _mk(x.k, (tuple(go(c) for c in x.a[0]), go(x.a[1])), x.sort)
        elif x.k in ("and", "or"):
            r = _mk(x.k, tuple(sorted((go(c) for c in x.a), key=lambda t: t.uid)), "B")
        elif x.k == "eq0":
            r = eq0(go(x.a[0]))
        else:
            r = _mk(x.k, tuple(go(c) if isinstance(c, Node) else c for c in x.a), x.sort)
        memo[x] = r
        return r
    return go(n)


def open_binder(x):
    """Return (fresh vars, ranges, body) of a Sum or Lam node."""
    ranges, body = x.a
    h = height(x)
    m = len(ranges)
    base = h - m
    vs = [fresh("b") for _ in range(m)]
    mp = {beta(base + i + 1): v for i, v in enumerate(vs)}
    return vs, [_replace(r, mp) for r in ranges], _replace(body, mp)


def _close(kind, vs, ranges, body):
    h = max([height(body)] + [height(r) for r in ranges])
    mp = {v: beta(h + i + 1) for i, v in enumerate(vs)}
    return _mk(kind, (tuple(_replace(r, mp) for r in ranges), _replace(body, mp)),
               body.sort)


def lam(vs, ranges, body):
    """Closed tensor argument  λ vs<ranges. body  (used only inside applications)."""
    vs = [as_atom(v) if v.k == "P" else v for v in vs]
    one = {v: ZERO for v, r in zip(vs, ranges) if as_const(r) == 1}
    if one:
        body = subst(body, one)
    return _close("L", vs, ranges, body)


_MARK: dict = {}


def _mark(c):
    if c not in _MARK:
        _MARK[c] = Var("?%s" % (c,), "I")
    return _MARK[c]


def _orders(vs, ranges, body, cap=24):
    """Orders of the binders that depend only on the sum up to renaming: partition refinement by
    how each binder occurs, branching over what stays tied."""
    m = len(vs)
    idx = {v: i for i, v in enumerate(vs)}
    deps = [frozenset(idx[u] for u in fv(r) if u in idx) for r in ranges]
    if m == 2:
        if deps[0]:
            return [(1, 0)]
        if deps[1]:
            return [(0, 1)]
        return [(0, 1), (1, 0)]
    facts = []                       # (node, binders occurring)
    for mono, c in body.a:
        for x, e in mono:
            o = [idx[u] for u in fv(x) if u in idx]
            if o:
                facts.append((x, e, o))
    if not body.a or len(body.a) != 1:
        facts = [(body, 1, list(range(m)))]
    occ = [[] for _ in vs]
    for f in facts:
        for i in f[2]:
            occ[i].append(f)

    def refine(col):
        n = len(set(col))
        while True:
            sig = []
            for i in range(m):
                s_ = []
                for x, e, o in occ[i]:
                    s_.append((_replace(x, {vs[j]: _mark("s" if j == i else col[j]) for j in o}).uid, e))
                d = tuple(sorted(_replace(ranges[j], {vs[q]: _mark("s" if q == i else col[q]) for q in deps[j]}).uid
                                 for j in range(m) if i in deps[j]))
                r = _replace(ranges[i], {vs[q]: _mark(col[q]) for q in deps[i]}).uid
                sig.append((col[i], r, d, tuple(sorted(s_))))
            rank = {q: t for t, q in enumerate(sorted(set(sig)))}
            col = [rank[q] for q in sig]
            if len(rank) == n:
                return col
            n = len(rank)

    out = []

    def go(col, chosen):
        if len(out) >= cap:
            return
        if len(chosen) == m:
            out.append(tuple(chosen))
            return
        ready = [i for i in range(m) if i not in chosen and deps[i] <= set(chosen)]
        c = min(col[i] for i in ready)
        tie = [i for i in ready if col[i] == c]
        for i in tie:
            if len(tie) == 1:
                go(col, chosen + [i])
            else:
                go(refine([q * 2 + (0 if j == i else 1) if q == c else q * 2 for j, q in enumerate(col)]),
                   chosen + [i])
    go(refine([0] * m), [])
    return out


def _close_sum(vs, ranges, body):
    m = len(vs)
    if m == 1:
        return _close("S", vs, ranges, body)
    best = None
    for perm in _orders(vs, ranges, body):
        c = _close("S", [vs[i] for i in perm], [ranges[i] for i in perm], body)
        if best is None or c.uid < best.uid:
            best = c
    return best


def sum_(v, n, body):
    """Σ_{v<n} body   (v: Var node or atom poly)."""
    if v.k == "P":
        v = as_atom(v)
    out = num(0, body.sort)
    acc = [out]
    for mono, c in body.a:
        acc.append(scale(_sum_mono(v, n, mono, body.sort), c))
    return add(*acc)


def _sum_mono(v, n, mono, sort):
    dep = [(x, e) for x, e in mono if v in fv(x)]
    ind = [(x, e) for x, e in mono if v not in fv(x)]
    indp = _poly({tuple(ind): Fraction(1)}, sort)
    if not dep:
        return mul(indp, n)      # ranges are non-negative (well-formed shapes)
    cn = as_const(n)
    if cn is not None and cn.denominator == 1 and cn <= 0:
        return num(0, sort)
    if cn is not None and cn.denominator == 1 and 0 <= cn <= 3:
        depp = _poly({tuple(dep): Fraction(1)}, sort)
        return mul(indp, add(num(0, sort), *[subst(depp, {v: num(i)}) for i in range(int(cn))]))
    # Σ_v [v = e] f(v)  ->  [0<=e<n] f(e)
    for x, e in dep:
        if x.k == "Iv" and x.a[0].k == "eq0":
            q = x.a[0].a[0]
            sol = solve_for(q, v)
            if sol is not None:
                rest = _poly({tuple((y, f) for y, f in dep if y is not x): Fraction(1)}, sort)
                g = iverson(in_range(sol, n))
                return mul(mul(indp, g), subst(rest, {v: sol}))
    # Σ_v [g v <= q] [q <= g v + g - 1] f(v)  ->  the one v = q div g
    for x, e in dep:
        up = _bound(x, v, 1)
        for y, f in dep if up is not None else ():
            lo = _bound(y, v, -1)
            if lo is not None and lo[0] == up[0] and add(lo[1], num(up[0] - 1)) is neg(up[1]):
                sol = floordiv(neg(up[1]), num(up[0]))
                rest = _poly({tuple((z, h) for z, h in dep if z is not x and z is not y): Fraction(1)}, sort)
                return mul(mul(indp, iverson(in_range(sol, n))), subst(rest, {v: sol}))
    # merge with inner sums: dependent Sum atoms are opened and merged
    sums = [(x, e) for x, e in dep if x.k == "S" and e > 0]
    vs, ranges, factors = [v], [n], []
    for x, e in dep:
        if x.k == "S" and e > 0:
            for _ in range(e):
                bvs, brs, bb = open_binder(x)
                vs += bvs
                ranges += brs
                factors.append(bb)
        else:
            factors.append(_poly({((x, e),): Fraction(1)}, sort))
    body = num(1, sort)
    for f in factors:
        body = mul(body, f)
    if len(body.a) != 1:
        r = body
        for b, rn in reversed(list(zip(vs, ranges))):
            r = sum_(b, rn, r)
        return mul(indp, r)
    (mm, c) = body.a[0]
    # connected components over binder variables
    return mul(indp, scale(_components(vs, ranges, mm, sort), c))


def _bound(x, v, sign):
    """x = [sign*g*v + e <= 0] over the integers, g >= 1 constant, v not in e: (g, e)"""
    if x.k != "Iv" or x.a[0].k != "le0" or x.a[0].a[0].sort != "I":
        return None
    coef, rest = None, {}
    for m, c in x.a[0].a[0].a:
        if m == ((v, 1),):
            coef = c * sign
        elif any(v in fv(y) for y, _ in m):
            return None
        else:
            rest[m] = c
    if coef is None or coef < 1 or coef.denominator != 1:
        return None
    return coef, _poly(rest, "I")


def _components(vs, ranges, mono, sort):
    vset = set(vs)
    parent = {v: v for v in vs}

    def find(a):
        while parent[a] is not a:
            a = parent[a]
        return a

    def union(a, b):
        parent[find(a)] = find(b)
    for x, e in mono:
        f = [w for w in fv(x) if w in vset]
        for w in f[1:]:
            union(f[0], w)
    for w, r in zip(vs, ranges):
        for u in fv(r):
            if u in vset:
                union(w, u)
    groups: dict = {}
    for w, r in zip(vs, ranges):
        groups.setdefault(find(w), []).append((w, r))
    res = _poly({tuple((x, e) for x, e in mono if not (fv(x) & vset)): Fraction(1)}, sort)
    for root, members in groups.items():
        gvs = [w for w, _ in members]
        gs = set(gvs)
        gm = tuple((x, e) for x, e in mono if fv(x) & gs)
        if not gm:
            # no dependence: product of ranges (only possible for a single var or
            # dependent ranges)
            r = ONE
            for w, rn in reversed(members):
                r = sum_(w, rn, r) if fv(r) & {w} else mul(r, rn)
            res = mul(res, r)
            continue
        res = mul(res, atom(_close_sum(gvs, [r for _, r in members],
                                       _poly({gm: Fraction(1)}, sort))))
    return res


def solve_for(q, v):
    """q == 0 linear in v with coefficient ±1 and v nowhere else: return the solution."""
    coef = None
    rest = {}
    for m, c in q.a:
        if m == ((v, 1),):
            coef = c
        else:
            if any(v in fv(x) for x, _ in m):
                return None
            rest[m] = c
    if coef not in (1, -1):
        return None
    r = _poly(rest, "I" if q.sort == "I" else q.sort)
    return scale(r, -coef)


# ------------------------------------------------------------------ printing
def show(n, depth=0):
    if n.k == "V":
        return str(n.a[0])
    if n.k == "B":
        return "β%d" % n.a[0]
    if n.k == "T":
        return "true"
    if n.k == "F":
        return "false"
    if n.k == "P":
        if not n.a:
            return "0"
        out = []
        for m, c in n.a:
            f = []
            for x, e in m:
                s = show(x)
                f.append(s if e == 1 else "%s^%s" % (s, e))
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append("*".join(f))
            elif c == -1:
                out.append("-" + "*".join(f))
            else:
                out.append("%s*%s" % (c, "*".join(f)))
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if n.k == "Fn":
        return "%s(%s)" % (n.a[0], ", ".join(show(c) for c in n.a[1]))
    if n.k == "S":
        return "Σ[%s]{%s}" % (",".join("<" + show(c) for c in n.a[0]), show(n.a[1]))
    if n.k == "L":
        return "λ[%s]{%s}" % (",".join("<" + show(c) for c in n.a[0]), show(n.a[1]))
    if n.k == "Iv":
        return "[%s]" % show(n.a[0])
    if n.k == "Inv":
        return "1/(%s)" % show(n.a[0])
    if n.k == "Ite":
        return "(%s ? %s : %s)" % tuple(show(c) for c in n.a)
    if n.k == "FD":
        return "(%s div %s)" % tuple(show(c) for c in n.a)
    if n.k in ("le0", "lt0", "eq0"):
        return "%s %s 0" % (show(n.a[0]), {"le0": "<=", "lt0": "<", "eq0": "=="}[n.k])
    if n.k == "not":
        return "!(%s)" % show(n.a[0])
    return "(" + (" & " if n.k == "and" else " | ").join(show(c) for c in n.a) + ")"
