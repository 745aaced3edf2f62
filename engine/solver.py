"""Discharging: simplification under a path condition, equality prover, z3/cvc5."""
from __future__ import annotations
import time
from fractions import Fraction
import z3
from . import terms as T
from .terms import (ZERO, ONE, RZERO, RONE, TRUE, FALSE, atom, as_const, as_atom, add, sub,
                    mul, scale, neg, iverson, band, bnot, bor, le, lt, eq, le0, lt0, eq0,
                    fv, in_range, sum_, _poly, num, subst, rebuild, open_binder, floordiv)

STATS = {"z3_queries": 0, "z3_time": 0.0, "normalizer_equalities": 0, "case_splits": 0,
         "cvc5_queries": 0, "z3_unknown": 0}

# facts about uninterpreted heads: name -> fn(args) -> list of Bool terms
FACTS: dict = {}


def _perm_facts(name):
    def f(args):
        L, e = args
        n = L.a[0][0] if L.k == "L" else as_atom(L).a[0][0]
        r = T.in_range(e, n)
        return [T.implies(r, T.in_range(T.fn(name, L, e, sort="I"), n))]
    return f


for _n in ("argsort", "argsortd", "rank", "rankd"):
    FACTS[_n] = _perm_facts(_n)
FACTS["randperm"] = lambda a: [T.implies(T.in_range(a[3], a[2]), T.in_range(T.fn("randperm", *a, sort="I"), a[2]))]
Z3_TIMEOUT = 2500


# ------------------------------------------------------------------ z3 translation
class Z:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.decls = {}
        self.seen_facts = set()
        self.pending = []

    def leaf(self, x):
        if x.k == "V":
            nm = x.a[0]
        else:
            nm = "%s#%d" % (x.k, x.uid)
        s = x.sort
        if s == "I":
            return z3.Int(nm)
        if s == "B":
            return z3.Bool(nm)
        return z3.Real(nm)

    def num(self, p):
        """Poly -> z3 arith"""
        r = self.memo.get(p)
        if r is not None:
            return r
        isint = p.sort == "I"
        acc = []
        for m, c in p.a:
            fac = []
            for x, e in m:
                t = self.atom(x)
                if not isint and t.sort() == z3.IntSort():
                    t = z3.ToReal(t)
                if e > 0:
                    fac += [t] * e
                else:
                    iv = z3.Real("inv#%d" % x.uid)
                    tr = t if t.sort() == z3.RealSort() else z3.ToReal(t)
                    self.side.append(z3.Implies(tr != 0, iv * tr == 1))
                    fac += [iv] * (-e)
            cc = z3.IntVal(int(c)) if isint else z3.RealVal("%d/%d" % (c.numerator, c.denominator))
            t = cc
            for f in fac:
                t = f if (t is cc and c == 1) else t * f
            acc.append(t)
        if not acc:
            r = z3.IntVal(0) if isint else z3.RealVal(0)
        else:
            r = acc[0]
            for t in acc[1:]:
                r = r + t
        self.memo[p] = r
        return r

    def atom(self, x):
        r = self.memo.get(x)
        if r is not None:
            return r
        k = x.k
        if k in ("V", "S", "L", "B"):
            r = self.leaf(x)
            if k == "S" and nonneg_poly(x.a[1]):
                self.side.append(r >= 0)
        elif k == "Fn":
            name, args = x.a
            if name == "sqrt":
                r = z3.Real("sqrt#%d" % x.uid)
                p = self.num(args[0])
                self.side.append(r >= 0)
                self.side.append(z3.Implies(p >= 0, r * r == p))
            elif not args:
                r = self.leaf(T.Var(name, x.sort))
            else:
                za = []
                for a in args:
                    if a.k == "P":
                        za.append(self.num(a))
                    elif a.sort == "B" and a.k != "L":
                        za.append(self.boolean(a))
                    else:
                        za.append(z3.Int("arg#%d" % a.uid))
                if x.sort == "B":       # predicates: the same for an integer and the equal real
                    za = [z3.ToReal(a) if a.sort() == z3.IntSort() else a for a in za]
                key = (name, tuple(str(a.sort()) for a in za), x.sort)
                f = self.decls.get(key)
                if f is None:
                    rng = {"I": z3.IntSort(), "B": z3.BoolSort()}.get(x.sort, z3.RealSort())
                    f = z3.Function(name + "/%d" % len(self.decls), *[a.sort() for a in za], rng)
                    self.decls[key] = f
                r = f(*za)
            base = name.split("'")[0] if name not in FACTS else name
            if name in FACTS and x not in self.seen_facts:
                self.seen_facts.add(x)
                self.pending.append((name, args))
        elif k == "Inv":
            r = z3.Real("Inv#%d" % x.uid)
            p = self.num(x.a[0])
            if p.sort() == z3.IntSort():
                p = z3.ToReal(p)
            self.side.append(z3.Implies(p != 0, r * p == 1))
        elif k == "Iv":
            c = self.boolean(x.a[0])
            r = z3.If(c, z3.RealVal(1), z3.RealVal(0))
        elif k == "Ite":
            r = z3.If(self.boolean(x.a[0]), self.num(x.a[1]), self.num(x.a[2]))
        elif k == "FD":
            a, b = x.a
            za, zb = self.num(a), self.num(b)
            cb = as_const(b)
            if cb is not None and cb > 0:
                r = za / zb
            else:
                r = z3.Int("fd#%d" % x.uid)
                self.side.append(z3.Implies(zb > 0, z3.And(zb * r <= za, za < zb * r + zb)))
                self.side.append(z3.Implies(z3.And(zb > 0, za >= 0), r >= 0))
        else:
            raise AssertionError(k)
        self.memo[x] = r
        return r

    def boolean(self, c):
        r = self.memo.get(c)
        if r is not None:
            return r
        k = c.k
        if k == "T":
            r = z3.BoolVal(True)
        elif k == "F":
            r = z3.BoolVal(False)
        elif k == "le0":
            r = self.num(c.a[0]) <= 0
        elif k == "lt0":
            r = self.num(c.a[0]) < 0
        elif k == "eq0":
            r = self.num(c.a[0]) == 0
        elif k == "not":
            r = z3.Not(self.boolean(c.a[0]))
        elif k == "and":
            r = z3.And(*[self.boolean(x) for x in c.a])
        elif k == "or":
            r = z3.Or(*[self.boolean(x) for x in c.a])
        else:
            r = self.atom(c)
        self.memo[c] = r
        return r

    def flush_facts(self):
        out = []
        rounds = 0
        while self.pending and rounds < 3:
            rounds += 1
            todo, self.pending = self.pending, []
            for name, args in todo:
                for f in FACTS[name](args):
                    out.append(self.boolean(f))
        self.pending = []
        return out


NONNEG: set = set()        # functions whose values are assumed to be >= 0


def nonneg_poly(p):
    """p is a combination with positive coefficients of factors that are visibly >= 0."""
    return all(c > 0 and all(e % 2 == 0 or x.k == "Iv" or (x.k == "Fn" and x.a[0] in NONNEG) or
                             (x.k == "S" and nonneg_poly(x.a[1])) for x, e in m) for m, c in p.a)


_cache: dict = {}


def z3_check(assumps, timeout=None):
    """sat / unsat / unknown for a conjunction of Bool terms (plus facts)."""
    z = Z()
    cs = [z.boolean(a) for a in assumps]
    cs += z.flush_facts()
    s = z3.Solver()
    s.set("timeout", timeout or Z3_TIMEOUT)
    for c in cs + z.side:
        s.add(c)
    t = time.time()
    r = s.check()
    STATS["z3_queries"] += 1
    STATS["z3_time"] += time.time() - t
    if r == z3.unknown:
        STATS["z3_unknown"] += 1
    return str(r), s


def prove_z3(pc, goal, timeout=None):
    if goal is TRUE:
        return True
    if goal is FALSE and not pc:
        return False
    if goal in pc:
        return True
    key = (frozenset(pc), goal)
    r = _cache.get(key)
    if r is None:
        r, _ = z3_check(list(pc) + [bnot(goal)], timeout)
        r = r == "unsat"
        _cache[key] = r
    return r


def relevant(pc, goal):
    """Slice the path condition to the conjuncts connected with the goal."""
    want = set(fv(goal)) | set(n for n in T.fnames(goal))
    pcs = []
    for c in pc:
        if c.k == "and":
            pcs.extend(c.a)
        else:
            pcs.append(c)
    out = []
    changed = True
    rest = [(c, set(fv(c)) | set(T.fnames(c))) for c in pcs]
    while changed:
        changed = False
        nxt = []
        for c, s in rest:
            if s & want:
                out.append(c)
                want |= s
                changed = True
            else:
                nxt.append((c, s))
        rest = nxt
    return out


def decide(c, pc):
    """True/False/None: is Bool term c determined by pc?"""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    rel = relevant(pc, c)
    k = (frozenset(rel), c, "dec")
    if k in _cache:
        return _cache[k]
    r = None
    if c in rel:
        r = True
    elif bnot(c) in rel:
        r = False
    elif prove_z3(rel, c):
        r = True
    elif prove_z3(rel, bnot(c)):
        r = False
    _cache[k] = r
    return r


def feasible(pc):
    key = (frozenset(pc), "feas")
    r = _cache.get(key)
    if r is None:
        st, _ = z3_check(list(pc))
        r = st != "unsat"
        _cache[key] = r
    return r


# ------------------------------------------------------------------ simplification
class Simp:
    """Simplify a term under pc."""

    def __init__(self, pc):
        self.pc = list(pc)
        self.memo = {}

    def under(self, *extra):
        ex = [e for e in extra if e is not TRUE and e not in self.pc]
        return Simp(self.pc + ex) if ex else self

    def dec(self, c):
        return decide(c, self.pc)

    def go(self, x):
        r = self.memo.get(x)
        if r is None:
            r = self.step(x)
            self.memo[x] = r
        return r

    def step(self, x):
        k = x.k
        if k == "P":
            return self.poly(x)
        if k in ("V", "B"):
            return atom(x) if x.sort != "B" else x
        if k == "Iv":
            c = self.go(x.a[0])
            if c.k in ("T", "F"):
                return iverson(c)
            d = self.dec(c)
            if d is not None:
                return RONE if d else RZERO
            return iverson(c)
        if k == "Ite":
            c = self.go(x.a[0])
            d = self.dec(c)
            if d is True:
                return self.go(x.a[1])
            if d is False:
                return self.go(x.a[2])
            return T.ite_int(c, self.under(c).go(x.a[1]), self.under(bnot(c)).go(x.a[2]))
        if k == "FD":
            return self.fd(self.go(x.a[0]), self.go(x.a[1]))
        if k in ("le0", "lt0", "eq0"):
            p = self.go(x.a[0])
            if k == "le0" and p.sort == "I" and len(p.a) > 2:
                p = self.digit(p)
            return {"le0": le0, "lt0": lt0, "eq0": eq0}[k](p)
        if k == "S":
            return self.summ(x)
        if k == "L":
            vs, ranges, body = open_binder(x)
            rs = [self.go(r) for r in ranges]
            s = self.under(*[in_range(atom(v), r) for v, r in zip(vs, rs)])
            return T.lam(vs, rs, s.go(body))
        return rebuild(x, self.go)

    def digit(self, p):
        """K*e + r <= 0 with 1 <= r <= K (or -K < r <= 0): decided by e alone."""
        cand = set()
        for m, c in p.a:
            if len(m) >= 2 or (m and m[0][1] >= 2):
                cand.update(x for x, e in m if x.k == "V")
        for K in sorted(cand, key=lambda x: x.uid):
            e, rest = {}, {}
            for m, c in p.a:
                d = dict(m)
                if K in d:
                    d[K] -= 1
                    if not d[K]:
                        del d[K]
                    e[tuple(sorted(d.items(), key=lambda t: t[0].uid))] = c
                else:
                    rest[m] = c
            ee, r = _poly(e, "I"), _poly(rest, "I")
            if as_const(r) is not None and as_const(r) == 0:
                continue
            if self.dec(band(le(ONE, r), le(r, atom(K)))) is True:
                return add(ee, ONE)
            if self.dec(band(le(r, ZERO), lt(neg(atom(K)), r))) is True:
                return ee
        return p

    def fd(self, a, b):
        r = floordiv(a, b)
        at = as_atom(r)
        if at is not None and at.k == "FD":
            a2, b2 = at.a
            if self.dec(band(le(ZERO, a2), lt(a2, b2))) is True:
                return ZERO
        elif at is None:
            # q + (rest div b)
            out = ZERO
            for m, c in r.a:
                t = _poly({m: c}, r.sort)
                for x, e in m:
                    if x.k == "FD" and e == 1 and x.a[1] is b:
                        if self.dec(band(le(ZERO, x.a[0]), lt(x.a[0], b))) is True:
                            t = ZERO
                        break
                out = add(out, t)
            return out
        return r

    def poly(self, p):
        acc = [num(0, p.sort)]
        for mono, c in p.a:
            ivs = [x for x, e in mono if x.k == "Iv"]
            if ivs:
                # decide brackets, each under the others
                conds = []
                dead = False
                for x in ivs:
                    cc = self.go(x.a[0])
                    d = self.dec(cc) if cc.k not in ("T", "F") else (cc is TRUE)
                    if d is False:
                        dead = True
                        break
                    if d is None:
                        conds.append(cc)
                if dead:
                    continue
                if len(conds) > 1:
                    keep = list(conds)
                    for cc in conds:
                        others = [k for k in keep if k is not cc]
                        d = decide(cc, self.pc + others)
                        if d is True:
                            keep = others
                        elif d is False:
                            dead = True
                            break
                    conds = keep
                if dead:
                    continue
                sub_ = self.under(*conds)
                t = num(c, p.sort if c.denominator == 1 else "R")
                eqs = eq_substs(conds)
                for x, e in mono:
                    if x.k == "Iv":
                        continue
                    if eqs:
                        x = (T.subst_atoms if eqs[1] else subst)(x, eqs[0])
                    b = sub_.go(x)
                    if b.k != "P":
                        b = atom(b)
                    t = mul(t, T.pow_(b, e))
                for cc in conds:
                    t = mul(t, iverson(cc))
                acc.append(t)
            else:
                t = num(c, p.sort if c.denominator == 1 else "R")
                for x, e in mono:
                    b = self.go(x)
                    if b.k != "P":
                        b = atom(b)
                    if p.sort == "R" and e > 0:
                        b = ite_real(b)
                    t = mul(t, T.pow_(b, e))
                acc.append(t)
        r = add(*acc)
        if r.sort == "R":
            r = T._cancel(r)
        return r

    # -------------------------------------------------------------- sums
    def summ(self, x):
        vs, ranges, body = open_binder(x)
        rs = []
        s = self
        for v, r in zip(vs, ranges):
            r2 = s.go(r)
            rs.append(r2)
            s = s.under(in_range(atom(v), r2))
        b2 = s.go(body)
        # rebuild from the inside out, applying range rules per binder
        r = b2
        for i in reversed(range(len(vs))):
            pcs = self
            for v, rr in zip(vs[:i], rs[:i]):
                pcs = pcs.under(in_range(atom(v), rr))
            r = self.sum1(vs[i], rs[i], r, pcs)
        if r.k == "P" and len(r.a) == 1 and len(r.a[0][0]) == 1 and r.a[0][0][0][0] is x:
            return r
        return r

    def sum1(self, v, n, body, s):
        if as_const(n) == 0 or s.dec(le(n, ZERO)) is True:
            return num(0, body.sort)
        acc = [num(0, body.sort)]
        for mono, c in body.a:
            acc.append(scale(self.sum_mono(v, n, mono, body.sort, s), c))
        return add(*acc)

    def sum_mono(self, v, n, mono, sort, s):
        V = atom(v)
        # merge/flattened-index rule: Σ_{k<a*b} f(k div b, k mod b)
        for x, e in mono:
            for fdn in find_fd(x, v):
                a, b = fdn.a
                if a is V:
                    q = T.exact_div(n, b)
                    if q is not None and q.sort == "I" and s.dec(lt(ZERO, b)) is True:
                        i, j = T.fresh("i"), T.fresh("j")
                        t = subst(_poly({mono: Fraction(1)}, sort),
                                  {v: add(mul(b, atom(i)), atom(j))})
                        s2 = s.under(in_range(atom(i), q), in_range(atom(j), b))
                        t = s2.go(t)
                        inner = self.sum1(j, b, t, s.under(in_range(atom(i), q)))
                        return self.sum1(i, q, inner, s)
        # bracket rules
        for x, e in mono:
            if x.k != "Iv" or v not in fv(x):
                continue
            c = x.a[0]
            rest = tuple((y, f) for y, f in mono if y is not x)
            if c.k == "le0":
                p = c.a[0]
                co, other = linear_coef(p, v)
                if co == 1:
                    # v <= -other =: e1
                    e1 = neg(other)
                    hi = add(e1, ONE)       # v < hi
                    lo_ok = s.dec(le(ZERO, hi))
                    if s.dec(le(n, hi)) is True:
                        return self.sum_mono(v, n, rest, sort, s)
                    if lo_ok is True and s.dec(le(hi, n)) is True:
                        return self.sum_mono(v, hi, rest, sort, s)
                    if s.dec(le(hi, ZERO)) is True:
                        return num(0, sort)
                elif co == -1:
                    lo = other              # lo <= v
                    if s.dec(le(lo, ZERO)) is True:
                        return self.sum_mono(v, n, rest, sort, s)
                    if s.dec(band(le(ZERO, lo), le(lo, n))) is True:
                        t = subst(_poly({rest: Fraction(1)}, sort), {v: add(V, lo)})
                        m = sub(n, lo)
                        t = s.under(in_range(V, m)).go(t)
                        return self.sum1(v, m, t, s)
                    if s.dec(le(n, lo)) is True:
                        return num(0, sort)
                elif co is None:
                    r = self.block(v, n, mono, sort, s)
                    if r is not None:
                        return r
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].k == "Ite":
            from engine.loops import seg_batch
            br = seg_batch([atom(mono[0][0])], v)
            if br is not None and v not in fv(br[0]) | fv(br[1]):
                r = capped(n, br[0], br[1], s.dec)
                if r is not None:
                    return r if sort == "I" else T.to_real(r)
        return sum_(v, n, _poly({mono: Fraction(1)}, sort))

    def block(self, v, n, mono, sort, s):
        """Σ_v [v*b + o <= i][i < (v+1)*b + o] f(v) = f((i-o) div b) when it is in range."""
        los, his = [], []
        for x, e in mono:
            if x.k == "Iv" and x.a[0].k == "le0" and v in fv(x):
                p = x.a[0].a[0]
                b, other = multi_coef(p, v)
                if b is None:
                    continue
                los.append((x, b, other))
        for x, b, o in los:                      # b*v + o <= 0
            for y, b2, o2 in los:
                if y is x:
                    continue
                if add(b, b2) is not ZERO and as_const(add(b, b2)) != 0:
                    continue
                # x: b*v + o <= 0 ; y: -b*v + o2 <= 0  i.e.  o2 <= b*v <= -o
                # block iff -o - o2 == b - 1  : exactly one multiple of b in the window
                w = sub(neg(o), o2)
                if s.dec(lt(ZERO, b)) is not True:
                    continue
                if as_const(sub(w, sub(b, ONE))) != 0 and s.dec(eq(w, sub(b, ONE))) is not True:
                    continue
                q = s.go(floordiv(neg(o), b))
                g = s.go(band(le(ZERO, q), lt(q, n)))
                rest = tuple((z, f) for z, f in mono if z is not x and z is not y)
                t = subst(_poly({rest: Fraction(1)}, sort), {v: q})
                return s.go(mul(iverson(g), t))
        return None


def ite_real(b):
    at = as_atom(b)
    if at is not None and at.k == "Ite" and as_const(at.a[1]) is not None and as_const(at.a[2]) is not None:
        return add(mul(iverson(at.a[0]), T.to_real(sub(at.a[1], at.a[2]))), T.to_real(at.a[2]))
    return b


def eq_substs(conds):
    """[v == e] f(v) = [v == e] f(e): the youngest variable is eliminated (canonical)."""
    for c in conds:
        if c.k == "eq0" and c.a[0].sort == "I":
            vs = sorted((x for x in T.fv(c.a[0]) if x.k == "V" and not x.a[0].startswith("k_")), key=lambda x: -x.uid)
            for v in vs:
                r = T.solve_for(c.a[0], v)
                if r is not None:
                    return {v: r}, False
    for c in conds:
        if c.k == "eq0" and c.a[0].sort == "I":
            r = solve_app(c.a[0])
            if r is not None:
                return r, True
    return None


def solve_app(p):
    """p == 0 with an integer application f(..) of coefficient ±1: {f(..): rest}."""
    for m, co in p.a:
        if co in (1, -1) and len(m) == 1 and m[0][1] == 1 and m[0][0].k == "Fn":
            x = m[0][0]
            rest = scale(sub(p, _poly({m: co}, p.sort)), -co)
            if not any(y is x for y in T.subterms(rest)):
                return {x: rest}
    return None


def find_fd(x, v):
    out = []
    seen = set()

    def go(y):
        if y in seen or v not in fv(y):
            return
        seen.add(y)
        if y.k == "FD":
            out.append(y)
        for c in T.children(y):
            go(c)
    go(x)
    return out


def linear_coef(p, v):
    """(coef, rest) when p = coef*v + rest with constant coef and v not in rest;
    (None, None) when v occurs multiplied."""
    co, rest = Fraction(0), {}
    for m, c in p.a:
        if m == ((v, 1),):
            co = c
        elif any(v in fv(x) for x, _ in m):
            return None, None
        else:
            rest[m] = c
    return co, _poly(rest, p.sort)


def multi_coef(p, v):
    """p = b*v + rest with polynomial b free of v."""
    b, rest = {}, {}
    for m, c in p.a:
        d = dict(m)
        if v in d:
            if d[v] != 1:
                return None, None
            del d[v]
            b[tuple(sorted(d.items(), key=lambda t: t[0].uid))] = c
            if any(v in fv(x) for x in d):
                return None, None
        elif any(v in fv(x) for x, _ in m):
            return None, None
        else:
            rest[m] = c
    if not b:
        return None, None
    return _poly(b, p.sort), _poly(rest, p.sort)


def simplify(t, pc):
    prev = None
    for _ in range(4):
        if t is prev:
            break
        prev = t
        t = Simp(pc).go(t)
    return t


# ------------------------------------------------------------------ equality prover
EXTRA_RULES: list = []      # callables(poly, pc) -> poly or None


def split_last(p, pc):
    """Σ_{v<c+r} f = Σ_{v<r} f + f(r) + ...   for constants c>0 and r >= 0."""
    out = []
    hit = False
    for m, c in p.a:
        t = num(c, p.sort if c.denominator == 1 else "R")
        for x, e in m:
            y = atom(x)
            if x.k == "S" and e > 0:
                z = _split1(x, pc)
                if z is not None:
                    y, hit = z, True
            t = mul(t, T.pow_(y, e))
        out.append(t)
    return add(*out) if hit else None


def _split1(x, pc):
    for i, r in enumerate(x.a[0]):
        if len(r.a) < 2:
            continue
        c0 = dict(r.a).get((), 0)
        if c0 == 0 or abs(c0) > 3 or c0.denominator != 1:
            continue
        if any(y.k != "V" for m, _ in r.a for y, _ in m):
            continue
        vs, rs, body = open_binder(x)
        rest = sub(rs[i], num(c0))
        if fv(rest) & set(vs) or decide(le(ZERO, rest), pc) is not True:
            continue
        b = body
        for j in reversed(range(i + 1, len(vs))):
            b = sum_(vs[j], rs[j], b)
        if c0 > 0:
            tot = sum_(vs[i], rest, b)
            for q in range(int(c0)):
                tot = add(tot, subst(b, {vs[i]: add(rest, num(q))}))
        else:
            # Σ_{v<n-c} g(v) = Σ_{v<n} g(v-c) - Σ_{q<c} g(q-c)     (n >= c)
            if decide(le(num(-c0), rest), pc) is not True:
                continue
            g = subst(b, {vs[i]: add(atom(vs[i]), num(c0))})
            tot = sum_(vs[i], rest, g)
            for q in range(int(-c0)):
                tot = sub(tot, subst(g, {vs[i]: num(q)}))
        for j in reversed(range(i)):
            tot = sum_(vs[j], rs[j], tot)
        return tot
    return None


EXTRA_RULES.append(split_last)


def sum_diff(p, pc):
    """Σ_{v<b} f - Σ_{v<a} f = Σ_{v<b-a} f(v+a)   for 0 <= a <= b."""
    ms = [(m, c) for m, c in p.a if any(x.k == "S" and e == 1 for x, e in m)]
    if len(ms) < 2 or len(ms) > 40:
        return None
    for i, (m1, c1) in enumerate(ms):
        for m2, c2 in ms[i + 1:]:
            if c1 + c2 != 0:
                continue
            s1, s2 = set(m1), set(m2)
            d1, d2 = s1 - s2, s2 - s1
            if len(d1) != 1 or len(d2) != 1:
                continue
            (x, e), (y, f) = next(iter(d1)), next(iter(d2))
            if x.k != "S" or y.k != "S" or e != 1 or f != 1 or len(x.a[0]) != len(y.a[0]):
                continue
            hit = None
            vs, rs, body = open_binder(x)
            ws, qs, yb = open_binder(y)
            for perm in _perms(len(vs)):
                mp = {ws[perm[t]]: atom(vs[t]) for t in range(len(vs))}
                q2 = [subst(qs[perm[t]], mp) for t in range(len(vs))]
                diff = [t for t in range(len(vs)) if rs[t] is not q2[t]]
                if len(diff) == 1 and subst(yb, mp) is body:
                    hit = diff[0], rs[diff[0]], q2[diff[0]]
                    break
            if hit is None:
                continue
            q, b, a = hit
            if T.fv(b) & set(vs) or T.fv(a) & set(vs):
                continue
            co = c1
            if decide(band(le(ZERO, b), le(b, a)), pc) is True:
                a, b, co = b, a, c2
            elif decide(band(le(ZERO, a), le(a, b)), pc) is not True:
                continue
            t = subst(body, {vs[q]: add(atom(vs[q]), a)})
            for j in reversed(range(len(vs))):
                t = sum_(vs[j], sub(b, a) if j == q else rs[j], t)
            rest = _poly({tuple(sorted(s1 & s2, key=lambda t: t[0].uid)): co}, "R")
            p = sub(sub(p, _poly({m1: c1}, p.sort)), _poly({m2: c2}, p.sort))
            p = add(p, mul(rest, t))
            return sum_diff(p, pc) or p
    return None


EXTRA_RULES.append(sum_diff)


def _rebuild(vs, rs, body):
    for v, r in zip(reversed(vs), reversed(rs)):
        body = sum_(v, r, body)
    return body


def capped(K, b, R, dec):
    """Σ_{k<K} min(b, R - b*k) = min(K*b, R)   (K, b >= 0 and block K-1 starts before R)."""
    if dec(band(le(ZERO, K), le(ZERO, b), le(ZERO, R), le(mul(b, sub(K, ONE)), R))) is not True:
        return None
    c = le(mul(K, b), R)
    d = dec(c)
    return mul(K, b) if d is True else R if d is False else T.ite_int(c, mul(K, b), R)


def _flat1(x, pc):
    """Σ_{k<K, j<b} f(b*k + j) = Σ_{q<K*b} f(q)   (K, b >= 0; b may be cut to min(b, R - b*k)
    when exactly the last block is cut)."""
    vs, rs, body = open_binder(x)
    m = len(vs)
    for i in range(m):
        for j in range(m):
            if i == j or any(fv(rs[t]) & {vs[i], vs[j]} for t in range(m) if t not in (i, j)) or \
                    fv(rs[i]) & {vs[j]}:
                continue
            V, J = atom(vs[i]), atom(vs[j])
            b, R = rs[j], None
            if vs[i] in fv(b):
                from engine.loops import seg_batch
                br = seg_batch([b], vs[i])
                if br is None:
                    continue
                b, R = br
                if fv(R) & set(vs):
                    continue
            if fv(b) & set(vs) or any(fv(r) & {vs[i], vs[j]} for r in (rs[i],)):
                continue
            if vs[i] not in fv(body) or vs[j] not in fv(body):
                continue
            t = subst(body, {vs[j]: sub(J, mul(b, V))})
            if vs[i] in fv(t) or any(find_fd(y, vs[j]) for mo, _ in t.a for y, _ in mo):
                continue
            K = rs[i]
            if R is None:
                if decide(band(le(ZERO, K), le(ZERO, b)), pc) is not True:
                    continue
                n = mul(K, b)
            else:
                n = capped(K, b, R, lambda c: decide(c, pc))
                if n is None:
                    continue
            w = [v for q, v in enumerate(vs) if q != i]
            r = [n if q == j else y for q, y in enumerate(rs) if q != i]
            return _rebuild(w, r, t)
    return None


def flat_sums(p, pc):
    out, hit = [], False
    for m, c in p.a:
        t = num(c, p.sort if c.denominator == 1 else "R")
        for x, e in m:
            y = atom(x)
            if x.k == "S" and e > 0 and len(x.a[0]) > 1:
                z = _flat1(x, pc)
                if z is not None:
                    y, hit = z, True
            t = mul(t, T.pow_(y, e))
        out.append(t)
    return add(*out) if hit else None


_MV = T.Var('M?', 'I')


def concat_sums(p, pc):
    """Σ_{v<a} f(v) + Σ_{v<b} f(a + v) = Σ_{v<a+b} f(v)   for a, b >= 0."""
    ms = [(m, c) for m, c in p.a if any(x.k == "S" and e == 1 for x, e in m)]
    if len(ms) < 2 or len(ms) > 40:
        return None
    for i, (m1, c1) in enumerate(ms):
        for k, (m2, c2) in enumerate(ms):
            if i == k or c1 != c2:
                continue
            s1, s2 = set(m1), set(m2)
            d1, d2 = s1 - s2, s2 - s1
            if len(d1) != 1 or len(d2) != 1:
                continue
            (x, e), (y, f) = next(iter(d1)), next(iter(d2))
            if x.k != "S" or y.k != "S" or e != 1 or f != 1 or len(x.a[0]) != len(y.a[0]):
                continue
            vs, rs, body = open_binder(x)
            ws, qs, yb = open_binder(y)
            free = [d for d in range(len(vs)) if not fv(rs[d]) & set(vs) and vs[d] in fv(body)
                    and not any(vs[d] in fv(r) for r in rs)]
            other = [d for d in range(len(ws)) if not fv(qs[d]) & set(ws) and
                     not any(ws[d] in fv(r) for r in qs)]
            M = atom(_MV)
            for d in free:
                a = rs[d]
                left = sorted(r.uid for t, r in enumerate(rs) if t != d and not fv(r) & set(vs))
                want = None
                for d2 in other:
                    if sorted(r.uid for t, r in enumerate(qs) if t != d2 and not fv(r) & set(ws)) != left:
                        continue
                    if want is None:
                        want = _rebuild(vs, [M if t == d else r for t, r in enumerate(rs)], body)
                    y2 = subst(yb, {ws[d2]: sub(atom(ws[d2]), a)})
                    if _rebuild(ws, [M if t == d2 else r for t, r in enumerate(qs)], y2) is not want:
                        continue
                    b = qs[d2]
                    if decide(band(le(ZERO, a), le(ZERO, b)), pc) is not True:
                        continue
                    t = _rebuild(vs, [add(a, b) if j == d else r for j, r in enumerate(rs)], body)
                    rest = _poly({tuple(sorted(s1 & s2, key=lambda t: t[0].uid)): c1}, "R")
                    p = sub(sub(p, _poly({m1: c1}, p.sort)), _poly({m2: c2}, p.sort))
                    p = add(p, mul(rest, t))
                    return concat_sums(p, pc) or p
    return None


def _isv(r):
    x = as_atom(r)
    return x is not None and x.k == "V"


def same_ranges(p, pc):
    """Use one name for ranges that are equal under pc (sums with many indices)."""
    rs = []
    for m, _ in p.a:
        for x, e in m:
            if x.k == "S":
                for r in x.a[0]:
                    if r not in rs and not T.height(r):
                        rs.append(r)
    if not any(x.k == "S" and (len(x.a[0]) > 3 or e < 0) for m, _ in p.a for x, e in m) or not 2 <= len(rs) <= 12:
        return None
    rep = {}
    for i, r in enumerate(rs):
        for q in rs[:i]:
            if q not in rep and r is not q and (len(r.a) > 1 or len(q.a) > 1 or not _isv(r) or not _isv(q)) and decide(eq(r, q), pc) is True:
                rep[r] = q
                break
    if not rep:
        return None
    out, hit = [], False
    for m, c in p.a:
        t = num(c, p.sort if c.denominator == 1 else "R")
        for x, e in m:
            y = atom(x)
            if x.k == "S" and any(r in rep for r in x.a[0]):
                vs, qs, body = open_binder(x)
                y, hit = _rebuild(vs, [rep.get(r, r) for r in qs], body), True
            t = mul(t, T.pow_(y, e))
        out.append(t)
    return add(*out) if hit else None


EXTRA_RULES.append(flat_sums)
EXTRA_RULES.append(concat_sums)


def inside_inv(p, pc):
    """The rules for sums, inside denominators."""
    mp = {}
    for m, _ in p.a:
        for x, _ in m:
            if x.k == "Inv" and x not in mp:
                q = x.a[0]
                for rule in (flat_sums, concat_sums):
                    r = rule(q, pc)
                    if r is not None and r is not q:
                        q = simplify(r, pc)
                if q is not x.a[0]:
                    mp[x] = T.inv(T.to_real(q))
    return T.subst_atoms(p, mp) if mp else None


EXTRA_RULES.append(inside_inv)
EXTRA_RULES.append(same_ranges)


def _split_atom(p, pc):
    """A condition worth splitting on: free bracket / integer ite in p."""
    best = []

    def go(x, bound_ok):
        if x.k in ("S", "L"):
            vs, ranges, body = open_binder(x)
            for r in ranges:
                go(r, bound_ok)
            go2(body, set(vs))
            return
        if x.k in ("Iv", "Ite"):
            best.append(x.a[0])
        for c in T.children(x):
            go(c, bound_ok)

    def go2(x, banned):
        if x.k in ("S", "L"):
            vs, ranges, body = open_binder(x)
            for r in ranges:
                go2(r, banned)
            go2(body, banned | set(vs))
            return
        if x.k in ("Iv", "Ite") and not (fv(x.a[0]) & banned):
            best.append(x.a[0])
        for c in T.children(x):
            go2(c, banned)
    go(p, True)
    for c in best:
        lits = c.a if c.k in ("and", "or") else (c,)
        for l in lits:
            if decide(l, pc) is None:
                return l
    return None


class Budget(Exception):
    pass


def fixed_vars(pc):
    """Integer variables the path condition pins to a constant (c <= v and v <= c)."""
    lo, hi, out = {}, {}, {}
    for c in pc:
        for l in (c.a if c.k == "and" else (c,)):
            if l.k not in ("le0", "eq0") or l.a[0].sort != "I":
                continue
            d = dict(l.a[0].a)
            k = d.pop((), Fraction(0))
            if len(d) != 1:
                continue
            (m, co), = d.items()
            if len(m) != 1 or m[0][1] != 1 or m[0][0].k != "V" or co not in (1, -1):
                continue
            v = m[0][0]
            if l.k == "eq0" or co == 1:
                hi[v] = min(hi.get(v, -k / co), -k / co)
            if l.k == "eq0" or co == -1:
                lo[v] = max(lo.get(v, k if co == -1 else -k), k if co == -1 else -k)
    for v in lo:
        if v in hi and lo[v] == hi[v]:
            out[v] = num(lo[v])
    return out


def shift_pair(p, pc):
    """Σ_{v<r+k} f - Σ_{v<r} f(v+k) = Σ_{q<k} f(q)   for r >= 0 and a small constant k > 0."""
    ms = [(m, c) for m, c in p.a if any(x.k == "S" and e == 1 for x, e in m)]
    if len(ms) < 2 or len(ms) > 12:
        return None
    for m1, c1 in ms:
        for m2, c2 in ms:
            if c1 + c2 != 0:
                continue
            s1, s2 = set(m1), set(m2)
            d1, d2 = s1 - s2, s2 - s1
            if len(d1) != 1 or len(d2) != 1:
                continue
            (x, e), (y, f) = next(iter(d1)), next(iter(d2))
            if x.k != "S" or y.k != "S" or e != 1 or f != 1 or len(x.a[0]) != len(y.a[0]):
                continue
            vs, rs, body = open_binder(x)
            ws, qs, yb = open_binder(y)
            for t, r in enumerate(rs):
                k = as_const(sub(r, qs[t])) if not (fv(qs[t]) & set(ws)) else None
                if k is None or not 0 < k <= 3 or k.denominator != 1:
                    continue
                mp = {w: atom(v) for w, v in zip(ws, vs)}
                if any(a is not subst(b, mp) for u, (a, b) in enumerate(zip(rs, qs)) if u != t):
                    continue
                sh = subst(body, {vs[t]: add(atom(vs[t]), num(k))})
                yc = subst(yb, mp)
                if sh is not yc and simplify(sub(sh, yc), pc).a:
                    continue
                if decide(le(ZERO, qs[t]), pc) is not True:
                    continue
                tot = ZERO
                for q in range(int(k)):
                    b = subst(body, {vs[t]: num(q)})
                    for u in reversed(range(len(vs))):
                        if u != t:
                            b = sum_(vs[u], rs[u], b)
                    tot = add(tot, b)
                rest = _poly({tuple(sorted(s1 & s2, key=lambda z: z[0].uid)): c1}, "R")
                p = sub(sub(p, _poly({m1: c1}, p.sort)), _poly({m2: c2}, p.sort))
                return add(p, mul(rest, tot))
    return None


EXTRA_RULES.append(shift_pair)


def zero(p, pc, depth=0, budget=None):
    """Prove p == 0 under pc."""
    if budget is None:
        budget = [400]
        fx = fixed_vars(pc)
        if fx:
            p = subst(p, fx)
    budget[0] -= 1
    if budget[0] < 0:
        return False
    for c in pc:
        for l in (c.a if c.k == "and" else (c,)):
            if l.k == "eq0" and l.a[0].sort == "R" and len(l.a[0].a) == 1:
                (mono, _), = l.a[0].a
                if len(mono) == 1 and mono[0][1] >= 1 and mono[0][0].k != "Iv":
                    p = T.subst_atoms(p, {mono[0][0]: num(0, "R")})
            if l.k == "eq0" and l.a[0].sort == "I":
                r = solve_app(l.a[0])
                if r is not None:
                    p = T.subst_atoms(p, r)
                else:
                    for v in sorted((x for x in T.fv(l.a[0]) if x.k == "V"), key=lambda x: -x.uid):
                        r = T.solve_for(l.a[0], v)
                        if r is not None:
                            p = subst(p, {v: r})
                            break
    p = simplify(p, pc)
    if as_const(p) == 0:
        STATS["normalizer_equalities"] += 1
        return True
    if as_const(p) is not None:
        return not feasible(pc)
    for rule in EXTRA_RULES:
        q = rule(p, pc)
        if q is not None and q is not p:
            q = simplify(q, pc)
            if as_const(q) == 0:
                return True
            p = q
    if depth > 14:
        return False
    # merge sums with provably equal ranges
    r = merge_sums(p, pc, depth, budget)
    if r is True:
        return True
    c = _split_atom(p, pc)
    if c is not None:
        STATS["case_splits"] += 1
        a = feasible(pc + [c])
        b = feasible(pc + [bnot(c)])
        return ((not a or zero_case(p, pc, c, depth, budget)) and
                (not b or zero_case(p, pc, bnot(c), depth, budget)))
    if prove_z3(pc, eq0(p)):
        return True
    # clear denominators
    q = clear_denominators(p)
    if q is not None:
        q = simplify(q, pc)
        if as_const(q) == 0:
            return True
        if prove_z3(pc, eq0(q)):
            return True
        if merge_sums(q, pc, depth + 1, budget) is True:
            return True
        if depth < 3 and any(x.k == "S" for m, _ in q.a for x, _ in m):
            if zero(q, pc, 10, [40]):
                return True
    if arg_congruence(p, pc, depth, budget):
        return True
    return False


def zero_case(p, pc, c, depth, budget):
    if zero(p, pc + [c], depth + 1, budget):
        return True
    # x <= 0 where the rest of the path condition gives 0 <= x: use x == 0
    if c.k == "le0" and c.a[0].sort == "I" and decide(le(ZERO, c.a[0]), pc + [c]) is True:
        return zero(p, pc + [c, eq0(c.a[0])], depth + 1, budget)
    return False


def clear_denominators(p):
    """Multiply by all inverse atoms (each was proved non-zero when it was created)."""
    invs: dict = {}
    for m, _ in p.a:
        for x, e in m:
            if x.k == "Inv" and e > 0:
                invs[x] = max(invs.get(x, 0), e)
    if not invs:
        negs: dict = {}
        for m, _ in p.a:
            for x, e in m:
                if e < 0:
                    negs[x] = min(negs.get(x, 0), e)
        if not negs:
            return None
        q = p
        for x, e in negs.items():
            q = mul(q, T.pow_(atom(x), -e))
        return q
    acc = [num(0, "R")]
    for m, c in p.a:
        t = num(c, "R")
        d = dict(m)
        for x, k in invs.items():
            have = d.pop(x, 0)
            if k - have > 0:
                t = mul(t, T.pow_(x.a[0], k - have))
        t = mul(t, _poly({tuple(sorted(d.items(), key=lambda z: z[0].uid)): Fraction(1)}, "R"))
        acc.append(t)
    return add(*acc)


def merge_sums(p, pc, depth, budget):
    """Group Sum atoms (linear occurrences) with equal ranges and prove the merged bodies
    zero pointwise."""
    groups: dict = {}
    rest = num(0, p.sort)
    for m, c in p.a:
        ss = [(x, e) for x, e in m if x.k == "S"]
        ss.sort(key=lambda q: q[1] < 0)
        if not ss:
            rest = add(rest, _poly({m: c}, p.sort))
            continue
        # choose every sum of the monomial in turn; take the first
        x, e = ss[0]
        d = dict(m)
        if d[x] == 1:
            del d[x]
        else:
            d[x] -= 1
        cof = _poly({tuple(sorted(d.items(), key=lambda t: t[0].uid)): c}, p.sort)
        groups.setdefault(len(x.a[0]), []).append((x, cof))
    if not groups:
        return False
    if as_const(rest) != 0 and not zero(rest, pc, depth + 1, budget):
        return False
    for k, lst in groups.items():
        # cluster by first range
        clusters: list = []
        for x, cof in lst:
            vs, rs, body = open_binder(x)
            done = False
            for cl in clusters:
                cvs, crs, terms = cl
                for perm in _perms(k):
                    mp = {vs[perm[i]]: atom(cvs[i]) for i in range(k)}
                    ok = True
                    hyp = list(pc)
                    for i in range(k):
                        a = subst(rs[perm[i]], mp)
                        if a is not crs[i] and decide(eq(a, crs[i]), hyp) is not True:
                            ok = False
                            break
                        hyp.append(in_range(atom(cvs[i]), crs[i]))
                    if ok:
                        b = subst(body, mp)
                        # prefer the permutation that cancels
                        tt = simplify(add(mul(cof, b), *[t for t in terms]), hyp)
                        if as_const(tt) == 0 or k == 1:
                            terms.append(mul(cof, b))
                            done = True
                            break
                if not done and k > 1:
                    for perm in _perms(k):
                        mp = {vs[perm[i]]: atom(cvs[i]) for i in range(k)}
                        hyp = list(pc)
                        ok = True
                        for i in range(k):
                            a = subst(rs[perm[i]], mp)
                            if a is not crs[i] and decide(eq(a, crs[i]), hyp) is not True:
                                ok = False
                                break
                            hyp.append(in_range(atom(cvs[i]), crs[i]))
                        if ok:
                            b = subst(body, mp)
                            if zero(add(mul(cof, b), *terms), hyp, depth + 2, budget):
                                terms.append(mul(cof, b))
                                done = True
                                break
                if done:
                    break
            if not done:
                clusters.append((vs, rs, [mul(cof, body)]))
        for cvs, crs, terms in clusters:
            hyp = list(pc)
            for v, r in zip(cvs, crs):
                hyp.append(in_range(atom(v), r))
            if not zero(add(*terms), hyp, depth + 1, budget):
                return False
    return True


def _perms(k):
    from itertools import permutations
    return list(permutations(range(k))) if k <= 3 else [tuple(range(k))]


def arg_congruence(p, pc, depth, budget):
    """p = c*f(a) - c*f(b) + ... : prove args equal pointwise (also inside λ)."""
    if len(p.a) != 2 or depth > 10:
        return False
    (m1, c1), (m2, c2) = p.a
    if c1 + c2 != 0:
        return False
    d1, d2 = dict(m1), dict(m2)
    for x in list(d1):
        if x in d2 and d1[x] == d2[x]:
            del d1[x]
            del d2[x]
    if len(d1) != len(d2):
        return False
    used = set()
    for x, e in d1.items():
        ok = False
        for y, f in d2.items():
            if y in used or e != f or x.k != y.k:
                continue
            if node_equal(x, y, pc, depth + 1, budget):
                used.add(y)
                ok = True
                break
        if not ok:
            return False
    return True


def node_equal(x, y, pc, depth, budget):
    if x is y:
        return True
    if x.k != y.k:
        return False
    if x.k == "P":
        return zero(sub(x, y), pc, depth + 1, budget)
    if x.k == "Fn":
        if x.a[0] != y.a[0] or len(x.a[1]) != len(y.a[1]):
            return False
        return all(node_equal(a, b, pc, depth + 1, budget) for a, b in zip(x.a[1], y.a[1]))
    if x.k == "L":
        if len(x.a[0]) != len(y.a[0]):
            return False
        vs, rs, b1 = open_binder(x)
        ws, qs, b2 = open_binder(y)
        mp = {w: atom(v) for w, v in zip(ws, vs)}
        qs = [subst(q, mp) for q in qs]
        b2 = subst(b2, mp)
        hyp = list(pc)
        for v, r, q in zip(vs, rs, qs):
            if r is not q and not zero(sub(r, q), hyp, depth + 1, budget):
                return False
            hyp.append(in_range(atom(v), r))
        return node_equal(b1, b2, hyp, depth + 1, budget)
    if x.k == "Inv":
        return zero(sub(x.a[0], y.a[0]), pc, depth + 1, budget)
    if x.k in ("S",):
        return zero(sub(atom(x), atom(y)), pc, depth + 1, budget)
    return False


def prove(goal, pc):
    """Prove a Bool term."""
    goal = simplify(goal, pc) if goal.k not in ("T", "F") else goal
    if goal is TRUE:
        return True
    if goal.k == "and":
        return all(prove(g, pc) for g in goal.a)
    if goal.k == "eq0":
        if zero(goal.a[0], pc):
            return True
    if goal.k == "or":
        if prove_z3(pc, goal):
            return True
        for i, g in enumerate(goal.a):
            hyp = pc + [bnot(h) for h in goal.a if h is not g]
            if prove(g, hyp):
                return True
        return False
    return prove_z3(pc, goal) or (not feasible(pc))


def model(pc, goal):
    """Counterexample assignment for the integer/real variables (best effort)."""
    z = Z()
    cs = [z.boolean(a) for a in pc] + [z.boolean(bnot(goal))]
    cs += z.flush_facts()
    s = z3.Solver()
    s.set("timeout", 4000)
    for c in cs + z.side:
        s.add(c)
    if s.check() == z3.sat:
        m = s.model()
        out = {}
        for d in m.decls():
            if d.arity() == 0:
                out[d.name()] = str(m[d])
        return out
    return None
