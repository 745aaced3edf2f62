"""Loops over symbolic sequences: probing, closed-form inference, invariant checking.

Inference is untrusted: every closed form (the inductive invariant) found here is checked by
re-executing the real loop body once from the invariant state ("iter" phase) and proving
that the state it produces is the invariant at the next index; the initial state is the
invariant at index 0.  The code after the loop sees only the invariant at the last index.
"""
from __future__ import annotations
import itertools
import os
from . import terms as T
from . import solver as S
from .terms import (ZERO, ONE, TRUE, FALSE, atom, as_atom, as_const, add, sub, mul, neg, le, lt, eq,
                    fv, band, bor, bnot, iverson, in_range, sum_, subst, num, to_real, Node)
from .core import (ENG, Engine, NeedProbe, ProbeEnd, PathEnd, Unsupported)
from . import sym
from .sym import (SNum, SBool, SymTensor, Store, EList, EDict, Seg, Poison, wrap, wrapb, P,
                  seq_of, conc_iter)


# ------------------------------------------------------------------ value description
class Leaf:
    """kind: 'n' number, 'B' bool, 't' tensor; body over vs."""
    __slots__ = ("kind", "tk", "shape", "vs", "body")

    def __init__(self, kind, tk, shape, vs, body):
        self.kind, self.tk, self.shape, self.vs, self.body = kind, tk, tuple(shape), tuple(vs), body

    def sort(self):
        if self.kind == "B" or self.tk == "b":
            return "B"
        return self.body.sort


OPAQUE = ("opaque",)


def describe(v, leaves):
    """value -> hashable tree; leaves collected in order."""
    if isinstance(v, bool):
        leaves.append(Leaf("B", "b", (), (), TRUE if v else FALSE))
        return ("B",)
    if isinstance(v, SBool):
        leaves.append(Leaf("B", "b", (), (), v.c))
        return ("B",)
    if isinstance(v, (int, float, SNum)) and not isinstance(v, bool):
        if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
            return ("const", repr(v), v)
        leaves.append(Leaf("n", None, (), (), P(v)))
        return ("n",)
    if isinstance(v, SymTensor):
        vs = [T.fresh("t") for _ in v.pshape]
        leaves.append(Leaf("t", v.kind, v.pshape, vs, v.at([atom(x) for x in vs])))
        return ("t", v.kind, len(v.pshape))
    if isinstance(v, tuple):
        return ("tuple", type(v), tuple(describe(x, leaves) for x in v))
    if isinstance(v, EList) and not v.symbolic():
        return ("list", tuple(describe(x, leaves) for x in v.items))
    if isinstance(v, EList) and len(v.items) == 1 and isinstance(v.items[0], Seg):
        k = T.fresh("k")
        if isinstance(v.items[0].item(atom(k)), (int, float, SNum)):
            return ("seq",) + describe(sym.as_tensor(v), leaves)
    if isinstance(v, EDict) and v.fam:
        return ("obj", id(v), v)
    if isinstance(v, EDict):
        ks = list(dict.keys(v))
        return ("dict", tuple(ks), tuple(describe(dict.__getitem__(v, k), leaves) for k in ks))
    if isinstance(v, str) and "<" in v:
        parts = sym.split_text(v)
        if len(parts) > 1:
            for x in parts[1::2]:
                leaves.append(Leaf("n", None, (), (), sym.TOKENS[x]))
            return ("text", tuple(parts[::2]))
    if v is None or isinstance(v, (str, bytes)):
        return ("const", repr(v), v)
    return ("obj", id(v), v)


def rebuild(tree, leaves):
    """leaves: iterator of (Leaf, body, vs)"""
    k = tree[0]
    if k == "B":
        lf, body = next(leaves)
        return wrapb(body)
    if k == "n":
        lf, body = next(leaves)
        return wrap(body)
    if k == "t":
        lf, body = next(leaves)
        m = dict()
        shape = lf.shape

        def f(idx, body=body, vs=lf.vs):
            return subst(body, {v: i for v, i in zip(vs, idx)})
        return SymTensor(shape, f, lf.tk)
    if k == "text":
        r = tree[1][0]
        for x in tree[1][1:]:
            r += sym.token(next(leaves)[1]) + x
        return r
    if k == "seq":
        t = rebuild(("t",), leaves)
        return EList.seq(t.pshape[0], lambda j: wrap(t.at([j])))
    if k == "tuple":
        vals = [rebuild(t, leaves) for t in tree[2]]
        try:
            return tree[1](vals)
        except TypeError:
            return tuple(vals)
    if k == "list":
        return EList([rebuild(t, leaves) for t in tree[1]])
    if k == "dict":
        d = EDict()
        for kk, t in zip(tree[1], tree[2]):
            dict.__setitem__(d, kk, rebuild(t, leaves))
        return d
    if k in ("const", "obj"):
        return tree[2]
    raise AssertionError(k)


def member(x, coll):
    if isinstance(coll, sym.SymSet) and isinstance(x, (int, SNum)):
        return wrapb(coll.has(P(x)))
    if isinstance(coll, (sym.Nonzero, sym.SetList)):
        return member(x, coll.symset())
    return x in coll


def lnot(x):
    return wrapb(bnot(x.c)) if isinstance(x, SBool) else not x


def filtered(kind, it, elt, *conds):
    if isinstance(it, (sym.SymSet, sym.SetList, sym.Nonzero)):
        r = filtered_set(it if isinstance(it, sym.SymSet) else it.symset(), elt, *conds)
    else:
        r = filtered_seq(it, elt, *conds) if conds else None
    return r if r is None or kind == "list" else sym.make_set(r)


def filtered_seq(it, elt, *conds):
    """[elt(x) for x in it if conds...] when the condition leaves out at most one known position, or the
    elements are distinct whole numbers (then: in an unknown order)."""
    s = seq_of(it)
    if s is None or as_const(s[0]) is not None:
        return None
    n, item = s
    v = T.fresh("k")
    k = atom(v)
    pc, taken = list(ENG.pc), len(ENG.taken)
    ENG.assume(in_range(k, n))
    out = TRUE
    for c in conds:
        x = c(item(k))
        if not isinstance(x, (bool, SBool)):
            return None
        out = band(out, sym.boolterm(x))
    if len(ENG.taken) != taken:
        raise Unsupported("comprehension whose condition branches")
    if out.k != "not" or out.a[0].k != "eq0":
        x = elt(item(k))
        ENG.pc[:] = pc
        w = T.fresh("k")
        if not isinstance(x, SNum) or len(ENG.taken) != taken:
            return None
        f = lambda j: wrap(subst(P(x), {v: P(j)}))
        other = atom(w)
        if not ENG.prove_now(T.implies(band(in_range(k, n), band(in_range(other, n), eq(P(f(k)), P(f(other))))), eq(k, other))):
            return None
        r = filtered_set(sym.SymSet(n, lambda j: P(item(j))), elt, *conds)
        return r if r is not None else sym.SetList(sym.SymSet(n, f, lambda j: subst(out, {v: P(j)})))
    e = T.solve_for(out.a[0].a[0], v)
    if e is None:
        ENG.pc[:] = pc
        return None
    ENG.assume(out)
    lv = []
    tree = describe((elt(item(k)),), lv)
    if len(ENG.taken) != taken or has_obj(tree):
        raise Unsupported("comprehension whose element branches or is an object")
    ENG.pc[:] = pc

    def at(j):
        return rebuild(tree, iter([(Leaf(lf.kind, lf.tk, tuple(subst(x, {v: j}) for x in lf.shape), lf.vs, lf.body),
                                    subst(lf.body, {v: j})) for lf in lv]))[0]
    if ENG.branch(in_range(e, n)):
        return EList.seq(ENG.simp(sub(n, ONE)), lambda j: at(add(j, T.ite_int(le(e, j), ONE, ZERO))))
    return EList.seq(n, at)


def filtered_set(st, elt, *conds):
    """[x for x in set if conds...]"""
    e = T.fresh("e")
    z = wrap(atom(e))
    taken, npc = len(ENG.taken), len(ENG.pc)
    x = elt(z)
    if not isinstance(x, SNum) or P(x) is not P(z):
        return None
    cs = [c(z) for c in conds]
    if len(ENG.taken) != taken or len(ENG.pc) != npc or not all(isinstance(x, (bool, SBool)) for x in cs):
        raise Unsupported("comprehension over a set whose condition branches")
    out = TRUE
    for x in cs:
        out = band(out, sym.boolterm(x))
    has = st.has if st._has is None else st._has
    keep = lambda x: subst(out, {e: x})
    return sym.SetList(sym.SymSet(st.n, st.item, lambda k: band(st.cond(k), keep(P(st.item(k)))), lambda x: band(has(x), keep(x))))


def same_tree(a, b):
    if a[0] != b[0]:
        return False
    if a[0] in ("tuple",):
        return len(a[2]) == len(b[2]) and all(same_tree(x, y) for x, y in zip(a[2], b[2]))
    if a[0] == "list":
        return len(a[1]) == len(b[1]) and all(same_tree(x, y) for x, y in zip(a[1], b[1]))
    if a[0] == "dict":
        return a[1] == b[1] and all(same_tree(x, y) for x, y in zip(a[2], b[2]))
    if a[0] == "const":
        return a[1] == b[1]
    if a[0] == "obj":
        return a[1] == b[1]
    return a == b


def has_obj(t):
    if t[0] == "obj":
        return True
    if t[0] == "tuple":
        return any(has_obj(x) for x in t[2])
    if t[0] == "list":
        return any(has_obj(x) for x in t[1])
    if t[0] == "dict":
        return any(has_obj(x) for x in t[2])
    return False


# ------------------------------------------------------------------ cells
def cell_get(key, locs):
    """Current value of a cell."""
    if key[0] == "local":
        return locs.get(key[1], MISSING)
    if key[0] == "store":
        st = ENG.heap.get(key[1])
        if st is None:
            return MISSING
        return store_value(st)
    if key[0] in ("list", "dict"):
        return ENG.heap.get(key[1], MISSING)
    if key[0] == "attr":
        o = ENG.heap.get(key[1])
        if o is None:
            return MISSING
        return getattr(o, key[2], MISSING)
    raise AssertionError(key)


class _Missing:
    def __repr__(self):
        return "<missing>"


MISSING = _Missing()


def store_value(st):
    return SymTensor(st.shape, kind=st.kind, store=st)


def cell_set(key, val, locs):
    if key[0] == "local":
        locs[key[1]] = val
    elif key[0] == "store":
        st = ENG.heap[key[1]]
        vs = [atom(v) for v in st.vs]
        b = val.at(vs)
        st.body = b
    elif key[0] == "list":
        ENG.heap[key[1]].items = list(val.items) if isinstance(val, EList) else list(val)
    elif key[0] == "dict":
        d = ENG.heap[key[1]]
        dict.clear(d)
        dict.update(d, val)
        d.fam = list(val.fam)
    elif key[0] == "attr":
        setattr(ENG.heap[key[1]], key[2], val)


class Cell:
    """Summary of one cell: value(k) for k >= 0."""

    def __init__(self, key, mode, **kw):
        self.key, self.mode = key, mode
        self.__dict__.update(kw)


class Summary:
    def __init__(self):
        self.cells = {}
        self.peel = False
        self.k = None
        self.never = []           # indices at which the body does not end normally
        self.completed = None     # condition on k implied by a normal end of iteration k


class Loop:
    def __init__(self, eng, it, sid, locs, mods):
        self.eng, self.sid, self.mods = eng, sid, mods
        self.vals_ = None
        s = seq_of(it)
        if s is None:
            self.mode = "conc"
            self.it = conc_iter(it)
        else:
            self.mode = "new"
            self.n, self.seqitem = s
            self.suffix = ""
            self.peeled = False

    # ------------------------------------------------------------ protocol
    def vals(self):
        r = self.vals_
        return tuple(r.get(m, MISSING) if r.get(m, MISSING) is not MISSING else Poison(m)
                     for m in self.mods)

    def item(self):
        return self.cur

    def next(self, locs):
        locs = dict(locs)
        if self.mode == "conc":
            self.vals_ = locs
            try:
                self.cur = next(self.it)
            except StopIteration:
                return False
            return True
        return getattr(self, "next_" + self.mode)(locs)

    def key(self):
        e = self.eng
        return (self.sid + self.suffix, tuple(e.taken), e.loopcount, tuple(e.context))

    def next_new(self, locs):
        e = self.eng
        if e.known(le(self.n, ZERO)) is True:
            self.vals_ = locs
            self.mode = "done"
            return False
        if self.suffix == "":
            e.loopcount += 1
        key = self.key()
        spec = e.probing.get(key)
        self.locs0 = {m: locs[m] for m in self.mods if m in locs}
        if spec is not None:
            return self.start_probe(key, spec, locs)
        summ = e.summaries.get(key)
        if summ is None:
            raise NeedProbe(key, list(e.taken), self)
        if summ.peel:
            if e.branch(le(self.n, ZERO)):
                self.vals_ = locs
                self.mode = "done"
                return False
            self.mode = "peel"
            self.vals_ = locs
            self.cur = self.seqitem(ZERO)
            return True
        if summ.unsupported:
            raise Unsupported(summ.unsupported)
        d = e.choose(2, "loop")
        if d == 0:
            self.mode = "iter"
            self.summ = summ
            k = summ.k
            self.k = k
            e.assume(in_range(atom(k), self.n))
            for x in summ.never:
                e.assume(bor(lt(x, ZERO), le(atom(k), x)))
            if summ.completed is not None:
                # the iterations before this one ended normally
                e.assume(bor(le(atom(k), ZERO),
                             subst(summ.completed, {summ.k: sub(atom(k), ONE)})))
            e.context.append((self.sid, "iter", summ.tag))
            self.install(summ, atom(k), locs)
            self.mut0 = set(e.mutlog)
            e.mutlog = set()
            self.start_locals = dict(locs)
            self.vals_ = locs
            self.cur = self.seqitem(atom(k))
            return True
        self.mode = "done"
        if e.branch(le(self.n, ZERO)):
            self.vals_ = locs
            return False
        if summ.completed is not None:
            # the last iteration ended normally (no break, return or exception)
            e.assume(subst(summ.completed, {summ.k: sub(self.n, ONE)}))
        for x in summ.never:
            e.assume(bor(lt(x, ZERO), le(self.n, x)))
        self.install(summ, self.n, locs, final=True)
        self.vals_ = locs
        return False

    def next_done(self, locs):
        return False

    def next_peel(self, locs):
        n0, it0 = self.n, self.seqitem
        self.n = sub(n0, ONE)
        self.seqitem = lambda k: it0(add(k, ONE))
        self.suffix += "'"
        self.mode = "new"
        return self.next_new(locs)

    # ------------------------------------------------------------ iter phase
    def install(self, summ, k, locs, final=False):
        for key, c in summ.cells.items():
            v = c.value(k, final) if c.mode != "keep" else MISSING
            if v is MISSING:
                continue
            cell_set(key, v, locs)
            if key[0] != "local":
                ENG.mutated(key)

    def next_iter(self, locs):
        e = self.eng
        summ = self.summ
        k1 = add(atom(summ.k), ONE)
        changed = set(e.mutlog)
        for key in changed:
            if key not in summ.cells and self.existed(key):
                e.fail("loop %s: frame" % self.sid, "cell %r modified but not in the invariant" % (key,))
        for m in self.mods:
            if ("local", m) not in summ.cells:
                v = locs.get(m, MISSING)
                if v is not MISSING and not isinstance(v, Poison) and \
                        v is not self.start_locals.get(m, MISSING):
                    e.fail("loop %s: frame" % self.sid, "local %s modified but not in the "
                           "invariant" % m)
        for key, c in summ.cells.items():
            cur = cell_get(key, locs)
            c.check_preserved(e, self.sid, cur, k1)
        raise PathEnd()

    def existed(self, key):
        return key[0] == "local" or key[1] in self.summ.known_uids or key[1] in self.eng.foreign

    # ------------------------------------------------------------ probe phase
    def start_probe(self, key, spec, locs):
        e = self.eng
        self.mode = "probe"
        self.pkey = key
        k = spec.k
        e.assume(in_range(atom(k), self.n))
        e.context.append((self.sid, "probe", spec.tag, spec.round))
        if spec.first:
            spec.first = False
            spec.known_uids = set(e.heap)
            spec.n = self.n
            spec.nvars = set(fv(self.n))
            for c in e.pc[:-1]:
                spec.nvars |= fv(c)
            spec.init = {}
            spec.dict0 = {}
        self.spec = spec
        for m in self.mods:
            spec.cells.setdefault(("local", m), None)
        for ck in list(spec.cells):
            v = cell_get(ck, locs)
            spec.init[ck] = init_desc(v)
            if ck[0] == "dict" and isinstance(v, EDict):
                spec.dict0[ck] = (list(dict.items(v)), list(v.fam))
            pv = spec.placeholder(ck, v)
            if pv is not MISSING:
                cell_set(ck, pv, locs)
        self.start = {}
        for ck in spec.cells:
            self.start[ck] = cell_get(ck, locs)
            if ck[0] == "list":
                self.start[ck] = list(self.start[ck].items)
            if ck[0] == "dict" and isinstance(self.start[ck], EDict):
                d = self.start[ck]
                self.start[ck] = (list(dict.items(d)), list(d.fam))
        e.mutlog = set()
        self.pc0 = len(e.pc)
        self.pcset0 = set(e.pc)
        self.vals_ = locs
        self.cur = self.seqitem(atom(k))
        return True

    def next_probe(self, locs):
        e = self.eng
        spec = self.spec
        new = [ck for ck in e.mutlog if ck not in spec.cells and
               (ck[0] == "local" or ck[1] in spec.known_uids or ck[1] in e.foreign)]
        out = {}
        for ck in spec.cells:
            v = cell_get(ck, locs)
            out[ck] = after_desc(ck, v, self.start.get(ck, MISSING), spec)
        extra = [c for c in e.pc if c not in self.pcset0]
        raise ProbeEnd(self.pkey, (extra, out, new))


def init_desc(v):
    if v is MISSING or isinstance(v, Poison):
        return ("missing", None, None)
    if isinstance(v, EList) and v.symbolic():
        return ("symlist", None, list(v.items))
    lv = []
    t = describe(v, lv)
    return ("val", t, lv, list(v.items) if isinstance(v, EList) else None)


def after_desc(ck, v, start, spec):
    if v is MISSING or isinstance(v, Poison):
        return ("missing",)
    if isinstance(v, EDict) and v is start and ck[0] == "local":
        return ("same",)          # same object; its contents are a "dict" cell
    if v is start and not isinstance(v, (EList, EDict)) and ck[0] != "store":
        if not (isinstance(v, SymTensor)):
            return ("same",)
    if isinstance(v, EList):
        before = start if ck[0] == "list" else (list(start.items) if isinstance(start, EList) else None)
        if ck[0] == "local" and v is start:
            return ("same",)
        if before is not None and len(v.items) >= len(before) and \
                all(a is b for a, b in zip(v.items, before)):
            extra = v.items[len(before):]
            if not extra and ck[0] == "list":
                return ("same",)
            if not extra and not v.symbolic():
                lv = []
                return ("val", describe(v, lv), lv)      # a new list with the same items
            if not extra:
                return ("same",)
            if any(isinstance(x, Seg) for x in extra):
                if len(extra) == 1:
                    s = extra[0]
                    return ("appendseg", s)
                return ("opaque", "appends several symbolic runs")
            lv = []
            t = describe(tuple(extra), lv)
            return ("append", t, lv, len(extra))
        if v.symbolic():
            return ("opaque", "symbolic list rebuilt")
    if ck[0] == "dict" and isinstance(v, EDict) and isinstance(start, tuple):
        r = dict_append(v, start, atom(spec.k))
        if r is not None:
            lv = []
            t = describe((r[1],), lv)
            return ("dictappend", t, lv, r[0])
    lv = []
    t = describe(v, lv)
    return ("val", t, lv)


def dict_append(v, start, k):
    """(c, value) when the only change is one new entry with key k + c"""
    items0, fam0 = start
    items = list(dict.items(v))
    if len(items) != len(items0) + 1 or len(v.fam) != len(fam0) or \
            any(a is not b for a, b in zip(v.fam, fam0)):
        return None
    for (a, x), (b, y) in zip(items0, items):
        if a is not b and not (type(a) is type(b) and not isinstance(a, SNum) and a == b) or x is not y:
            return None
    key, val = items[-1]
    if not isinstance(key, SNum):
        return None
    c = as_const(ENG.simp(sub(key.p, k)))
    return None if c is None or c.denominator != 1 else (c, val)


class Spec:
    def __init__(self, k, tag):
        self.k = k
        self.tag = tag
        self.cells = {}
        self.kinds = {}       # ck -> override: "R" promotions, "poison"
        self.first = True
        self.heads = {}       # head name -> (ck, leaf index)
        self.names = {}

    def head(self, ck, i):
        nm = "P!%s!%s!%d" % (self.tag, self.names.setdefault(ck, len(self.names)), i)
        self.heads[nm] = (ck, i)
        return nm

    def placeholder(self, ck, v):
        """Placeholder value at iteration k for a cell whose current value is v."""
        if v is MISSING or isinstance(v, Poison):
            return MISSING
        if isinstance(v, EList) and ck[0] == "list":
            if self.kinds.get(ck) == "appendseg":
                r = EList()
                B, R = self.seg[ck]
                r.items = list(v.items) + [Seg(seg_upto(atom(self.k), B, R), lambda j: Poison(
                    "list item", "read of an element appended by the loop"))]
                return r
            if self.kinds.get(ck) == "append":
                r = EList()
                m = self.append_m.get(ck, ONE)
                n = mul(atom(self.k), m)
                r.items = list(v.items) + [Seg(n, lambda j: Poison("list item", "read of an "
                                                               "element appended by the loop"))]
                return r
            if v.symbolic():
                return MISSING
            lv = []
            t = describe(v, lv)
            return self.rebuild_ph(ck, t, lv)
        if isinstance(v, EDict) and ck[0] == "dict" and self.kinds.get(ck) == "dictappend":
            r = EDict(v)
            r.fam = list(v.fam) + [(num(self.append_m[ck]), atom(self.k), lambda j: Poison(
                "dict entry", "read of an entry added by the loop"))]
            return r
        if isinstance(v, EList) and ck[0] == "local":
            return MISSING
        if isinstance(v, EDict) and ck[0] == "local":
            return MISSING
        if isinstance(v, SymTensor) and ck[0] == "local" and ck not in self.kinds:
            # aliasing: keep the object itself unless it turns out to be rebound
            return MISSING
        if ck[0] in ("local", "attr") and self.kinds.get(ck) is None and not isinstance(
                v, (int, float, SNum, SBool, bool)):
            return MISSING
        lv = []
        t = describe(v, lv)
        return self.rebuild_ph(ck, t, lv)

    append_m = {}
    seg = {}

    def rebuild_ph(self, ck, t, lv):
        it = []
        for i, lf in enumerate(lv):
            s = lf.sort()
            if s == "I" and (self.kinds.get((ck, i)) == "R"):
                s = "R"
            a = (atom(self.k),) + tuple(atom(v) for v in lf.vs)
            n = T.Fn(self.head(ck, i), a, s)
            it.append((lf, n if s == "B" else atom(n)))
        return rebuild(t, iter(it))


# ------------------------------------------------------------------ building summaries
def build(eng, fn, need):
    key = need.key
    lname = need.spec.sid
    tag = "%d" % len(eng.loop_ids)
    eng.loop_ids.append(key)
    k = T.Var("k_%s" % tag, "I")
    spec = Spec(k, tag)
    spec.append_m = {}
    spec.seg = {}
    spec.peeled = need.spec.suffix != ""
    summ = Summary()
    summ.k = k
    summ.tag = tag
    summ.unsupported = None
    rounds = 0
    while True:
        rounds += 1
        if rounds > 12:
            summ.unsupported = "loop %s: state does not stabilise" % lname
            break
        spec.first = True
        spec.round = rounds
        eng.probing[key] = spec
        saved = (eng.in_probe,)
        eng.in_probe += 1
        eng.probe_depth += 1
        try:
            results = eng.explore(fn, worklist=[list(need.trace)], probe=key)
        finally:
            eng.in_probe = saved[0]
            eng.probe_depth -= 1
            del eng.probing[key]
        results = [r for r in results if r is not None]
        again = False
        for extra, out, new in results:
            for ck in new:
                if ck not in spec.cells:
                    spec.cells[ck] = None
                    again = True
        if again:
            continue
        if not results:
            # body never completes normally: the loop runs at most one iteration
            if spec.peeled:
                summ.unsupported = "loop %s: body not executable from a general state" % lname
            summ.peel = True
            break
        r = analyse(eng, spec, results, summ)
        if r == "again":
            continue
        break
    eng.summaries[key] = summ


def completed(spec, results):
    """What every path through the body to its normal end implies about k alone."""
    out = []
    for extra, _, _ in results:
        cs = []
        for c in extra:
            for x in (c.a if c.k == "and" else (c,)):
                vs = fv(x)
                if spec.k in vs and all(v is spec.k or v in spec.nvars for v in vs) and \
                        not any(f in spec.heads for f in T.fnames(x)):
                    cs.append(x)
        out.append(cs)
    if not all(out):
        return None, []
    never = []
    for x in out[0]:
        if all(x in cs for cs in out) and x.k == "not" and x.a[0].k == "eq0":
            e = T.solve_for(x.a[0].a[0], spec.k)
            if e is not None:
                never.append(e)
    return bor(*[band(*cs) for cs in out]), never


def mentions_first(extra, k):
    kz = eq(atom(k), ZERO)
    for c in extra:
        s = list(c.a) if c.k in ("and", "or") else [c]
        for x in s:
            if x is kz or x is bnot(kz) or x is le(atom(k), ZERO) or x is le(ONE, atom(k)):
                return True
    return False


def analyse(eng, spec, results, summ):
    k = spec.k
    K = atom(k)
    peeled = spec_peeled(spec)
    if any(mentions_first(ex, k) for ex, _, _ in results) and not peeled:
        summ.peel = True
        return None
    # restart conditions -------------------------------------------------------
    again = False
    for ck in spec.cells:
        outs = [o[ck] for _, o, _ in results]
        init = spec.init.get(ck, ("missing", None, None))
        kinds = set(o[0] for o in outs)
        if kinds <= {"same", "missing"}:
            continue
        if ck[0] == "list" and kinds <= {"append", "same"} and "append" in kinds:
            if "same" in kinds or len(set(o[3] for o in outs)) != 1:
                spec.kinds[ck] = "append"
                summ.cells[ck] = None
                continue
            if spec.kinds.get(ck) != "append":
                spec.kinds[ck] = "append"
                spec.append_m[ck] = num(outs[0][3])
                again = True
            continue
        if ck[0] == "dict" and kinds == {"dictappend"} and len(set(o[3] for o in outs)) == 1:
            if spec.kinds.get(ck) != "dictappend":
                spec.kinds[ck] = "dictappend"
                spec.append_m[ck] = outs[0][3]
                again = True
            continue
        if ck[0] == "list" and "appendseg" in kinds:
            br = seg_batch([o[1].n for o in outs], k) if kinds == {"appendseg"} else None
            if br is None:
                if not peeled:
                    summ.peel = True
                    return None
                continue
            if spec.seg.get(ck) != br:
                if ck in spec.seg:
                    continue
                spec.kinds[ck] = "appendseg"
                spec.seg[ck] = br
                again = True
            continue
        if init[0] == "val" and "val" in kinds:
            for o in outs:
                if o[0] != "val":
                    continue
                if not peeled and ck[0] == "attr" and has_obj(o[1]) and init[1][0] == "const":
                    summ.peel = True        # lazily created object
                    return None
                if not same_tree(o[1], init[1]) and not (has_obj(o[1])):
                    it, ot = init[1][0], o[1][0]
                    if ck[0] == "attr" or ck[0] == "local" or ck[0] == "dict":
                        if not peeled:
                            summ.peel = True
                            return None
                if same_tree(o[1], init[1]):
                    for i, (a, b) in enumerate(zip(init[2], o[2])):
                        if a.sort() == "I" and b.sort() == "R" and spec.kinds.get((ck, i)) != "R":
                            spec.kinds[(ck, i)] = "R"
                            again = True
                    if ck[0] == "local" and o[1][0] == "t" and spec.kinds.get(ck) is None:
                        # rebound tensor local?  (same object mutated in place is a store cell)
                        if not o_is_same(spec, ck, o, init):
                            spec.kinds[ck] = "rebound"
                            again = True
                    elif ck[0] in ("local", "attr") and spec.kinds.get(ck) is None and \
                            o[1][0] not in ("n", "B", "const", "obj"):
                        spec.kinds[ck] = "rebound"
                        again = True
    if again:
        return "again"
    summ.known_uids = spec.known_uids
    summ.completed, summ.never = completed(spec, results)
    # merge paths -----------------------------------------------------------------
    solver = Solver(eng, spec, results)
    solver.run(summ)
    return None


def seg_batch(ns, k):
    """Length of the run appended in iteration k = min(B, R - k*B): the pair (B, R)."""
    if any(n is not ns[0] for n in ns[1:]):
        return None
    n = ns[0]
    if k not in T.fv(n):
        return None
    at = as_atom(n)
    if at is None or at.k != "Ite":
        return None
    for B, o in ((at.a[1], at.a[2]), (at.a[2], at.a[1])):
        if k not in T.fv(B):
            R = add(o, mul(atom(k), B))
            if k not in T.fv(R):
                return B, R
    return None


def seg_upto(k, B, R):
    return T.imin(mul(k, B), R)


def o_is_same(spec, ck, o, init):
    """Value of the local unchanged as a term (not rebound)."""
    a, b = init[2][0], o[2][0]
    if len(a.vs) != len(b.vs):
        return False
    m = {v: atom(w) for v, w in zip(b.vs, a.vs)}
    return subst(b.body, m) is a.body


def spec_peeled(spec):
    return spec.peeled if hasattr(spec, "peeled") else False


class Solver:
    def __init__(self, eng, spec, results):
        self.eng, self.spec, self.results = eng, spec, results
        self.k = spec.k

    def run(self, summ):
        spec = self.spec
        self.E = {}           # (ck, i) -> (leaf init or None, leaf proto, E body)
        self.cells = {}
        for ck in spec.cells:
            outs = [(ex, o[ck]) for ex, o, _ in self.results]
            kinds = set(o[0] for _, o in outs)
            init = spec.init.get(ck, ("missing", None, None))
            if kinds <= {"same"}:
                if ck[0] in ("list", "dict"):
                    continue
                if ck[0] == "local" and spec.placed(ck):
                    pass
                else:
                    continue
                # value is its own placeholder: unchanged -> keep initial
                continue
            if kinds == {"missing"}:
                if ck[0] != "local" or init[0] != "missing":
                    summ.cells[ck] = OpaqueCell(ck, "value not known after the loop body")
                continue
            if kinds == {"appendseg"} and ck in spec.seg:
                B, R = spec.seg[ck]
                j = T.fresh("j")
                segs = [o[1] for _, o in outs]
                lvss, trees = [], []
                for (ex, o) in outs:
                    lv = []
                    trees.append(describe(o[1].item(atom(j)), lv))
                    lvss.append(lv)
                if all(same_tree(t, trees[0]) for t in trees[1:]) and not has_obj(trees[0]) and all(
                        seg_batch([sg.n], self.k) == (B, R) for sg in segs) and all(
                        a.body is b.body and a.shape == b.shape for lv in lvss[1:]
                        for a, b in zip(lvss[0], lv) if not a.vs and not b.vs) and (
                        len(lvss) == 1 or all(not l.vs for lv in lvss for l in lv)):
                    items0 = init[3] if init[0] == "val" else init[2]
                    summ.cells[ck] = AppendSegCell(ck, self.k, trees[0], lvss[0], j, B, R, items0)
                else:
                    summ.cells[ck] = OpaqueCell(ck, "appended runs of varying structure")
                continue
            if "opaque" in kinds or ("appendseg" in kinds) or \
                    (kinds & {"append"} and kinds != {"append"}):
                summ.cells[ck] = OpaqueCell(ck, "list updated in a way the verifier does not model")
                continue
            if "dictappend" in kinds and (kinds != {"dictappend"} or len(set(o[3] for _, o in outs)) != 1):
                summ.cells[ck] = OpaqueCell(ck, "dict updated in a way the verifier does not model")
                continue
            if kinds == {"append"} or kinds == {"dictappend"}:
                trees = [o[1] for _, o in outs]
                if any(not same_tree(t, trees[0]) for t in trees[1:]):
                    summ.cells[ck] = OpaqueCell(ck, "appended items of varying structure")
                    continue
                self.cells[ck] = ("append", trees[0], [o[2] for _, o in outs], outs[0][1][3])
            else:
                vals = [(ex, o) for ex, o in outs if o[0] == "val"]
                trees = [o[1] for _, o in vals]
                if len(vals) != len(outs):
                    # some paths leave the initial value: use the placeholder description
                    rest = [(ex, o) for ex, o in outs if o[0] != "val"]
                    if init[0] != "val" or any(o[0] == "missing" for _, o in rest) or \
                            not same_tree(init[1], trees[0]):
                        summ.cells[ck] = OpaqueCell(ck, "conditionally assigned")
                        continue
                    ph = self.placeholder_leaves(ck, init)
                    vals += [(ex, ("val", init[1], ph)) for ex, _ in rest]
                    trees = [o[1] for _, o in vals]
                if any(not same_tree(t, trees[0]) for t in trees[1:]):
                    summ.cells[ck] = OpaqueCell(ck, "value of varying structure")
                    continue
                if init[0] == "val" and not same_tree(init[1], trees[0]):
                    init = ("other", None, None)
                self.cells[ck] = ("val", trees[0], [o[2] for _, o in vals], init,
                                  [ex for ex, _ in vals])
        for ck, c in list(self.cells.items()):
            leaves_per_path = c[2]
            exs = c[4] if c[0] == "val" else [ex for ex, _, _ in self.results]
            n = len(leaves_per_path[0])
            for i in range(n):
                lfs = [l[i] for l in leaves_per_path]
                proto = lfs[0]
                bad = None
                acc = None
                for ex, lf in zip(exs, lfs):
                    m = {v: atom(w) for v, w in zip(lf.vs, proto.vs)}
                    b = subst(lf.body, m)
                    if len(lf.shape) != len(proto.shape):
                        bad = "shape"
                        break
                    for x, y in zip(lf.shape, proto.shape):
                        if x is not y and self.eng_known(eq(x, y), ex) is not True:
                            bad = "shape varies between paths"
                    acc = b if acc is None else merge(ex, b, acc, proto)
                if bad:
                    self.E[(ck, i)] = None
                else:
                    self.E[(ck, i)] = (proto, acc)
        self.solve(summ)

    def eng_known(self, c, ex):
        return S.decide(c, list(ex))

    def placeholder_leaves(self, ck, init):
        out = []
        for i, lf in enumerate(init[2]):
            s = lf.sort()
            if s == "I" and self.spec.kinds.get((ck, i)) == "R":
                s = "R"
            nm = self.spec.head(ck, i)
            n = T.Fn(nm, (atom(self.k),) + tuple(atom(v) for v in lf.vs), s)
            out.append(Leaf(lf.kind, lf.tk, lf.shape, lf.vs, n if s == "B" else atom(n)))
        return out

    # -------------------------------------------------------------- recurrences
    def solve(self, summ):
        spec, k = self.spec, self.k
        K = atom(k)
        heads = {}
        for (ck, i) in self.E:
            heads[spec.head(ck, i)] = (ck, i)
        solved = {}            # head -> callable(args)->term   (args = (k, idx...))
        closed = {}
        pending = {key: v for key, v in self.E.items() if v is not None}
        failed = {key for key, v in self.E.items() if v is None}

        def subst_solved(t):
            fm = {h: f for h, f in solved.items()}
            return subst(t, {}, fm) if T.fnames(t) & set(fm) else t
        hyp0 = [in_range(K, spec.n)]
        progress = True
        while pending and progress:
            progress = False
            for key in list(pending):
                proto, E = pending[key]
                E2 = subst_solved(E)
                own = spec.head(*key)
                deps = {h for h in T.fnames(E2) if h in heads}
                if deps - {own}:
                    continue
                init = self.init_leaf(key)
                r = self.closed_form(key, proto, E2, own, init)
                if r is None:
                    continue
                closed[key] = r
                solved[own] = self.applier(proto, r)
                del pending[key]
                progress = True
            if not progress and pending:
                # strongly connected rest: opaque joint recurrence
                if self.joint(pending, solved, closed, subst_solved, heads):
                    progress = True
        for key in pending:
            failed.add(key)
        self.eng.loops_solved.append((spec.tag, {str(kk): T.show(v)[:200] if v is not None else None
                                                 for kk, v in closed.items()}))
        for ck, c in self.cells.items():
            n = len(c[2][0])
            keys = [(ck, i) for i in range(n)]
            if any(kk in failed for kk in keys):
                summ.cells[ck] = OpaqueCell(ck, "no invariant found")
                continue
            lvs = []
            for kk in keys:
                lf = self.E[kk][0]
                sh = tuple(subst_solved(x) for x in lf.shape)
                if any(x is not y for x, y in zip(sh, lf.shape)):
                    lf = Leaf(lf.kind, lf.tk, sh, lf.vs, lf.body)
                lvs.append((lf, closed[kk]))
            if c[0] == "append" and ck[0] == "dict":
                summ.cells[ck] = DictAppendCell(ck, k, c[1], lvs, c[3], spec.dict0[ck])
            elif c[0] == "append":
                items0 = spec.init[ck][3] if spec.init[ck][0] == "val" else spec.init[ck][2]
                summ.cells[ck] = AppendCell(ck, k, c[1], lvs, c[3], items0)
            else:
                summ.cells[ck] = ValCell(ck, k, c[1], lvs, c[3])

    def applier(self, proto, body):
        k = self.k

        def f(args):
            m = {k: args[0]}
            m.update({v: a for v, a in zip(proto.vs, args[1:])})
            return subst(body, m)
        return f

    def init_leaf(self, key):
        ck, i = key
        c = self.cells[ck]
        if c[0] == "append":
            return None
        init = c[3]
        if init[0] != "val":
            return None
        return init[2][i]

    def closed_form(self, key, proto, E, own, init):
        """Body at index k (over proto.vs), or None."""
        k = self.k
        K = atom(k)
        ck, i = key
        hyp = [in_range(K, self.spec.n)] + [in_range(atom(v), s) for v, s in
                                            zip(proto.vs, proto.shape)]
        if self.cells[ck][0] == "append":
            if own in T.fnames(E):
                return None
            return E               # item appended at iteration k
        x0 = None
        if init is not None:
            x0 = subst(init.body, {v: atom(w) for v, w in zip(init.vs, proto.vs)})
            if len(init.shape) != len(proto.shape):
                x0 = None
            else:
                for a, b in zip(init.shape, proto.shape):
                    if a is not b and S.decide(eq(a, b), self.eng.pc0()) is not True:
                        x0 = None
        # no own occurrence: overwritten every iteration
        if own not in T.fnames(E):
            prev = subst(E, {k: sub(K, ONE)})
            if x0 is None:
                return prev
            z = eq(K, ZERO)
            if E.k != "P":
                return bor(band(z, x0), band(bnot(z), prev))
            if E.sort == "I" and x0.sort == "I":
                return T.ite_int(z, x0, prev)
            if x0 is prev:
                return prev
            return T.ite_real(z, to_real(x0), to_real(prev))
        if E.k != "P" or x0 is None:
            return None
        # an index along an axis of length one is zero
        unit = {v: ZERO for v, n in zip(proto.vs, proto.shape) if as_const(n) == 1} if proto.kind == "t" else {}
        if unit:
            E, x0 = subst(E, unit), subst(x0, unit)
        args = (K,) + tuple(unit.get(v, atom(v)) for v in proto.vs)
        node = T.Fn(own, args, E.sort)
        E = S.simplify(E, hyp)
        E = self.own_normal(E, node, own, proto)
        lin = split_linear(E, node, own)
        if lin is None:
            r = self.scan(key, proto, E, node, own, x0, hyp)
            if r is not None:
                return r
            return self.opaque(key, proto, E, own, x0)
        c, g = lin
        j = T.fresh("j")

        def total(t):
            return sum_(j, K, subst(t, {k: atom(j)}))
        if as_const(sub(c, ONE)) == 0:
            return add(x0, total(g))
        # write / keep:  c = 1 - w with w a 0/1 bracket
        w = sub(num(1, "R"), c)
        w2 = S.simplify(sub(mul(w, w), w), hyp)
        if as_const(w2) == 0:
            tw = total(w)
            return add(x0, neg(mul(x0, tw)), total(g)) if E.sort == "R" else \
                None
        # running average:  c = A(k) / B(k) with A(k+1) = B(k)
        r = self.integrating(c, g, x0, hyp, total)
        if r is not None:
            return r
        return self.opaque(key, proto, E, own, x0)

    def own_normal(self, E, node, own, proto):
        """[v == e] own(k, e) is [v == e] own(k, v)."""
        out = num(0, E.sort)
        for m, co in E.a:
            d = dict(m)
            for y in [y for y in d if y.k == "Fn" and y.a[0] == own and y is not node]:
                mm = {}
                for x in d:
                    if x.k == "Iv" and x.a[0].k == "eq0":
                        for v in proto.vs:
                            r = T.solve_for(x.a[0].a[0], v)
                            if r is not None and v not in mm:
                                mm[v] = r
                if mm and as_atom(T.mk_app(own, tuple(subst(a, mm) for a in node.a[1]), E.sort)) is y:
                    d[node] = d.get(node, 0) + d.pop(y)
            out = add(out, T._poly({tuple(sorted(d.items(), key=lambda q: q[0].uid)): co}, E.sort))
        return out

    def scan(self, key, proto, E, node, own, x0, hyp):
        """H[l(k)] = a*H[l(k-1)] + d(k), everything else kept: each iteration extends the value
        written by the previous one.  V(k+1) is the value written at iteration k."""
        k, K = self.k, atom(self.k)
        if E.sort != "R" or not proto.vs:
            return None
        dbg = os.environ.get("VERIF_SCAN")
        if dbg:
            print("SCAN E =", T.show(E)[:3000])
        keep, rest = num(0, E.sort), num(0, E.sort)
        for m, co in E.a:
            d = dict(m)
            e = d.pop(node, 0)
            t = T._poly({tuple(sorted(d.items(), key=lambda q: q[0].uid)): co}, E.sort)
            if e == 0:
                rest = add(rest, T._poly({m: co}, E.sort))
            elif e == 1 and own not in T.fnames(t):
                keep = add(keep, t)
            else:
                return None
        w = S.simplify(sub(num(1, "R"), keep), hyp)      # [vs == l(k)]
        if len(w.a) != 1 or w.a[0][1] != 1 or any(x.k != "Iv" or e != 1 for x, e in w.a[0][0]):
            return None
        # l(k): solve the brackets for the index variables
        loc = {}
        conds = [x.a[0] for x, _ in w.a[0][0]]
        for v in proto.vs:
            for c in conds:
                if c.k != "eq0" or v not in T.fv(c):
                    continue
                r = T.solve_for(c.a[0], v)
                if r is None:
                    for m, co in c.a[0].a:
                        x = m[0][0] if len(m) == 1 else None
                        inv = {"rank": "argsort", "rankd": "argsortd"}
                        if x is not None and x.k == "Fn" and x.a[0] in inv and co in (1, -1) and \
                                x.a[1][1] is atom(v):
                            o = T.scale(sub(c.a[0], T.scale(atom(x), co)), -co)
                            if v not in T.fv(o):
                                r = T.mk_app(inv[x.a[0]], (x.a[1][0], o), "I")
                if r is not None and v not in T.fv(r):
                    loc[v] = r
                    break
        if not loc or any(v in T.fv(r) for v in loc for r in loc.values()):
            return None
        # the written value at l(k), as a function of the other index variables
        val = S.simplify(subst(rest, loc), hyp)
        occ = []
        def find(x):
            if x.k == "Fn" and x.a[0] == own:
                if x not in occ:
                    occ.append(x)
                return
            for c in T.children(x):
                find(c)
        find(val)
        if len(occ) != 1 or occ[0].a[1][0] is not K:
            return None
        prev = occ[0]
        lv = split_linear(val, prev, own)
        if lv is None or as_const(sub(lv[0], ONE)) != 0:
            return None
        pidx = prev.a[1][1:]
        fr = {v: atom(v) for v in proto.vs}
        # previous location at k+1 is this location
        for v, p in zip(proto.vs, pidx):
            p1 = S.simplify(subst(p, {k: add(K, ONE)}), hyp)
            tgt = loc.get(v, atom(v))
            if not S.zero(sub(p1, tgt), hyp):
                return None
        j, l = T.fresh("j"), T.fresh("l")
        base = subst(x0, {v: subst(p, {k: ZERO}) for v, p in zip(proto.vs, pidx)})
        V1 = add(base, sum_(l, add(atom(j), ONE), subst(lv[1], {k: atom(l)})))   # V(j+1)
        return add(x0, sum_(j, K, mul(subst(w, {k: atom(j)}), sub(V1, x0))))

    def integrating(self, c, g, x0, hyp, total):
        k = self.k
        K = atom(k)
        cand = []
        invs = set()
        for m, _ in c.a:
            for x, e in m:
                if x.k == "Inv":
                    invs.add(x.a[0])
                elif e < 0 and x.k != "Iv":
                    invs.add(atom(x))
        for B in invs:
            A = S.simplify(mul(c, to_real(B)), hyp)
            A = T._cancel(A)
            A1 = S.simplify(subst(A, {k: add(K, ONE)}), hyp)
            if S.zero(sub(A1, to_real(B)), hyp):
                a0 = S.simplify(subst(A, {k: ZERO}), hyp)
                s = add(mul(a0, x0), total(mul(g, to_real(B))))
                z = eq(K, ZERO)
                return T.ite_real(z, to_real(x0), T.div(s, A))
        return None

    def opaque(self, key, proto, E, own, x0):
        """Definitional sequence rec(k, idx): rec(0)=x0, rec(k+1)=E[own -> rec]."""
        k = self.k
        vs = list(proto.vs)
        canon = "P!0"
        Ec = subst(E, {}, {own: lambda a: T.fn(canon, *a, sort=E.sort)})
        return rec_apply(k, vs, proto.shape, to_real(x0) if E.sort == "R" else x0, Ec, E.sort)(
            [atom(k)] + [atom(v) for v in vs])

    def joint(self, pending, solved, closed, subst_solved, heads):
        """Several cells depending on each other: one opaque sequence per cell."""
        k = self.k
        keys = [kk for kk in pending if self.cells[kk[0]][0] != "append"]
        keys = [kk for kk in keys if self.init_leaf(kk) is not None and
                (pending[kk][1].k == "P")]
        # restrict to cells whose remaining deps are inside the group
        group = set(keys)
        ch = True
        while ch:
            ch = False
            for kk in list(group):
                deps = {heads[h] for h in T.fnames(subst_solved(pending[kk][1])) if h in heads}
                if not deps <= group:
                    group.discard(kk)
                    ch = True
        if not group:
            return False
        order = [kk for kk in keys if kk in group]
        names = {}
        defs = []
        hm = {}
        for pos, kk in enumerate(order):
            hm[self.spec.head(*kk)] = pos
        for kk in order:
            proto, E = pending[kk]
            E = subst_solved(E)
            il = self.init_leaf(kk)
            x0 = subst(il.body, {v: atom(w) for v, w in zip(il.vs, proto.vs)})
            if E.sort == "R":
                x0 = to_real(x0)
            defs.append((proto, E, x0))
        syms = rec_joint(k, defs, hm)
        for kk, s in zip(order, syms):
            proto = pending[kk][0]
            body = s([atom(k)] + [atom(v) for v in proto.vs])
            closed[kk] = body
            solved[self.spec.head(*kk)] = self.applier(proto, body)
            del pending[kk]
        return True


def _placed(self, ck):
    return True


Spec.placed = _placed


REC_SYS: list = []        # registered systems: tuples of sequence names
REC_HOLES: dict = {}      # sequence name -> (loop parameters, loop parameters + holes, its system) or None
REC_CELL: dict = {}       # sequence name -> (k, vs, x0, E, sort); E refers to sequences at step k
UNFOLD = [3]


def _closed(vs, E):
    return T.lam(list(vs), [ZERO] * len(vs), E) if vs else E


def _classes(cells):
    """Coarsest bisimulation.  cells: {head: (k, vs, x0, E, sort)}; two heads in one class have equal
    initial values and, with the heads of each class identified at step k, equal next values."""
    cls = {}
    keys = {}
    for h, (k, vs, x0, E, sort) in cells.items():
        cls[h] = keys.setdefault((_closed(vs, x0).uid, sort, len(vs)), len(keys))
    n = len(keys)
    while True:
        keys = {}
        new = {}
        reps = {}
        for h, (k, vs, x0, E, sort) in cells.items():
            K = atom(k)

            def app(h2):
                return lambda a: T.fn("P!C%d" % cls[h2] if a and a[0] is K else h2, *a, sort=cells[h2][4])
            Ec = subst(E, {}, {h2: app(h2) for h2 in cells if h2 in T.fnames(E)})
            key = (cls[h], _closed([k] + list(vs), Ec).uid)
            if key not in keys:
                # not the same term: the solver may still show it equal to a representative
                for key2, (vs2, k2, E2, sort2) in reps.items():
                    if key2[0] == cls[h] and sort2 == sort and sort in ("R", "I"):
                        E2r = subst(E2, {**{v2: atom(v) for v2, v in zip(vs2, vs)}, k2: K})
                        if S.zero(sub(Ec, E2r), [le(ZERO, K)]):
                            key = key2
                            break
                else:
                    reps[key] = (vs, k, Ec, sort)
            new[h] = keys.setdefault(key, len(keys))
        cls = new
        if len(keys) == n:
            return cls
        n = len(keys)


def rec_apply(k, vs, shape, x0, E, sort):
    """E uses head 'P!0'(k, vs...).  Returns f(args) building the canonical sequence."""
    return rec_system({"P!0": (k, tuple(vs), x0, E, sort)})["P!0"]


def rec_joint(k, defs, hm):
    """defs: [(proto, E, x0)]; hm: head -> position."""
    fs = rec_system({h: (k, tuple(defs[p][0].vs), defs[p][2], defs[p][1], defs[p][1].sort)
                     for h, p in hm.items()})
    byp = {p: fs[h] for h, p in hm.items()}
    return [byp[p] for p in range(len(defs))]


def rec_system(cells):
    """Opaque sequences defined together: value x0 at step 0 and E at step k+1.  Cells which are
    bisimilar to each other or to sequences registered before share one name, so two programs
    computing the same sequences denote them by the same terms."""
    cells = dict(cells)
    par = set()
    for k, vs, x0, E, sort in cells.values():
        par |= {v for v in set(T.fv(x0)) | set(T.fv(E)) if v.k == "V" and v is not k and v not in vs and
                ("!" in v.a[0] or v.a[0].startswith("k_"))}
    par = tuple(sorted(par, key=lambda v: v.uid))    # enclosing loop indices and binders
    # values of enclosing loops which are still being solved: abstracted, instantiated by _rec_rule
    holes = {}
    for k, vs, x0, E, sort in cells.values():
        for x in T.subterms(x0) | T.subterms(E):
            if x.k == "Fn" and x.a[0].startswith("P!") and x.a[0] not in cells and x not in holes:
                u = T.subterms(x)
                if k not in u and not any(v in u for v in vs) and not any(y.k == "B" for y in u) and \
                        x.sort in ("I", "R"):
                    holes[x] = T.fresh("hole", x.sort)
    holes = dict(sorted(holes.items(), key=lambda t: t[0].uid))
    if holes:
        hm = {x: atom(v) for x, v in holes.items()}
        cells = {h: (k, vs, T.subst_atoms(x0, hm), T.subst_atoms(E, hm), sort)
                 for h, (k, vs, x0, E, sort) in cells.items()}
    hact = [atom(x) for x in holes]
    np_ = len(par)
    par = par + tuple(holes.values())
    if par:
        pa = [atom(v) for v in par]
        cells = {h: (k, par + tuple(vs), x0, subst(E, {}, {
            o: (lambda a, o=o, q=cells[o][4]: T.fn(o, a[0], *pa, *a[1:], sort=q)) for o in cells}), sort)
            for h, (k, vs, x0, E, sort) in cells.items()}
    else:
        pa = []
    name = {}
    cls = _classes(cells)
    rep = {}
    for h in cells:
        rep.setdefault(cls[h], h)
    for h in cells:
        if rep[cls[h]] != h:
            name[h] = rep[cls[h]]
    alias = dict(name)

    def rename(cs, m):
        out = {}
        for h, (k, vs, x0, E, sort) in cs.items():
            fm = {o: (lambda a, t=t, sort=cells[o][4]: T.fn(t, *a, sort=sort)) for o, t in m.items()
                  if o in T.fnames(E)}
            out[h] = (k, vs, x0, subst(E, {}, fm) if fm else E, sort)
        return out
    todo = rename({h: c for h, c in cells.items() if h not in alias}, alias)
    final = {}
    inits = {_closed(c[1], c[2]).uid for c in todo.values()}
    for sysn in REC_SYS:
        if not todo:
            break
        if not any(_closed(REC_CELL[n][1], REC_CELL[n][2]).uid in inits for n in sysn):
            continue
        both = dict(todo)
        both.update({n: REC_CELL[n] for n in sysn})
        cl = _classes(both)
        old = {cl[n]: n for n in sysn}
        hit = {h: old[cl[h]] for h in todo if cl[h] in old}
        if hit:
            final.update(hit)
            todo = rename({h: c for h, c in todo.items() if h not in hit}, hit)
    if todo:
        fresh = {h: "rec#%d" % (len(REC_CELL) + i) for i, h in enumerate(todo)}
        final.update(fresh)
        todo = rename(todo, fresh)
        for h, c in todo.items():
            REC_CELL[fresh[h]] = c
            REC_HOLES[fresh[h]] = (np_, len(par), tuple(fresh.values())) if holes else None
            T.APP_RULES[fresh[h]] = _rec_rule(fresh[h])
        REC_SYS.append(tuple(fresh.values()))
    res = {}
    act = pa[:np_] + hact
    for h in cells:
        n = final[alias.get(h, h)]
        res[h] = lambda args, n=n, sort=cells[h][4]: T.mk_app(n, (args[0], *act, *args[1:]), sort)
    return res


def _rec_rule(name):
    def rule(args):
        k, vs, x0, E, sort = REC_CELL[name]
        a0 = args[0]
        hl = REC_HOLES[name]
        if hl is not None:
            np_, nh, group = hl
            ps = [P(a) for a in args[1:1 + nh]]
            if not any(f.startswith("P!") for a in ps[np_:] for f in T.fnames(a)) and \
                    not any(y.k == "B" for a in ps for y in T.subterms(a)):
                cells = {}
                for n in group:
                    k2, vs2, x2, E2, s2 = REC_CELL[n]
                    E2 = subst(E2, {}, {o: (lambda a, o=o, q=REC_CELL[o][4]: T.fn("P!I" + o, a[0], *a[1 + nh:], sort=q))
                                        for o in group})
                    m = dict(zip(vs2[:nh], ps))
                    cells["P!I" + n] = (k2, vs2[nh:], subst(x2, m), subst(E2, m), s2)
                return rec_system(cells)["P!I" + name]([a0] + list(args[1 + nh:]))
        if as_const(a0) == 0:
            return subst(x0, {v: a for v, a in zip(vs, args[1:])})
        c = dict(a0.a).get(())
        if c is not None and c >= 1 and UNFOLD[0] > 0:
            m = {k: sub(a0, ONE)}
            m.update({v: a for v, a in zip(vs, args[1:])})
            UNFOLD[0] -= 1
            try:
                return subst(E, m)
            finally:
                UNFOLD[0] += 1
        return None
    return rule


def split_linear(E, node, own):
    """E = c*node + g with node not elsewhere (else None)."""
    c, g = num(0, E.sort), num(0, E.sort)
    for m, co in E.a:
        d = dict(m)
        e = d.pop(node, 0)
        rest = T._poly({tuple(sorted(d.items(), key=lambda t: t[0].uid)): co},
                       E.sort)
        if own in T.fnames(rest):
            return None
        if e == 0:
            g = add(g, rest)
        elif e == 1:
            c = add(c, rest)
        else:
            return None
    return c, g


def merge(ex, b, acc, proto):
    """if ex then b else acc"""
    cond = band(*ex)
    if b is acc:
        return acc
    if b.k != "P":
        return bor(band(cond, b), band(bnot(cond), acc))
    if b.sort == "I" and acc.sort == "I":
        return T.ite_int(cond, b, acc)
    return T.ite_real(cond, to_real(b), to_real(acc))


# ------------------------------------------------------------------ cell summaries
class ValCell:
    mode = "val"

    def __init__(self, ck, k, tree, lvs, init):
        self.key, self.k, self.tree, self.lvs, self.init = ck, k, tree, lvs, init

    def bodies(self, kp):
        return [(lf, subst(b, {self.k: kp})) for lf, b in self.lvs]

    def value(self, kp, final=False):
        if has_obj(self.tree):
            return Poison(str(self.key[-1]), "object assigned in a loop") \
                if self.init[0] != "val" or True else MISSING
        its = []
        for lf, b in self.bodies(kp):
            shape = tuple(subst(s, {self.k: sub(kp, ONE)}) for s in lf.shape)
            if b.k == "P":
                b = ENG.simp_under(b, [in_range(atom(v), s) for v, s in zip(lf.vs, shape)])
            its.append((Leaf(lf.kind, lf.tk, shape, lf.vs, lf.body), b))
        if self.init[0] == "missing" and not final:
            # unbound before the first iteration: usable only when k > 0
            if ENG.known(lt(ZERO, kp)) is not True:
                return MISSING
        return rebuild(self.tree, iter(its))

    def check_preserved(self, e, sid, cur, k1):
        nm = "loop %s: invariant of %s preserved" % (sid, cell_name(self.key))
        if has_obj(self.tree):
            return
        if cur is MISSING or isinstance(cur, Poison):
            e.fail(nm, "cell lost its value")
            return
        lv = []
        t = describe(cur, lv)
        if not same_tree(t, self.tree):
            e.fail(nm, "structure changed: %r vs %r" % (t, self.tree))
            return
        for (lf, b), cl in zip(self.bodies(k1), lv):
            m = {v: atom(w) for v, w in zip(cl.vs, lf.vs)}
            cb = subst(cl.body, m)
            shp = tuple(subst(s, {self.k: sub(k1, ONE)}) for s in lf.shape)
            for x, y in zip(shp, cl.shape):
                if x is not y:
                    e.check(nm + " (shape)", eq(x, y))
            hyps = [in_range(atom(v), s) for v, s in zip(lf.vs, shp)]
            e.check_under(nm, equal(cb, b), hyps)


def equal(a, b):
    if a.k != "P" or b.k != "P":
        return band(bor(bnot(a), b), bor(a, bnot(b)))
    return eq(a, b)


def cell_name(ck):
    if ck[0] == "local":
        return ck[1]
    if ck[0] == "attr":
        return "." + ck[2]
    return ck[0]


class AppendCell:
    mode = "append"

    def __init__(self, ck, k, tree, lvs, m, items0):
        self.key, self.k, self.tree, self.lvs, self.m, self.items0 = ck, k, tree, lvs, m, items0

    def item(self, j):
        its = []
        for lf, b in self.lvs:
            shape = tuple(subst(s, {self.k: j}) for s in lf.shape)
            its.append((Leaf(lf.kind, lf.tk, shape, lf.vs, lf.body), subst(b, {self.k: j})))
        return rebuild(self.tree, iter(its))

    def value(self, kp, final=False):
        r = EList()
        r.items = list(self.items0)
        if has_obj(self.tree):
            return r if as_const(kp) == 0 else Poison("list", "objects appended in a loop")
        if self.m == 1:
            r.items.append(Seg(kp, lambda j: self.item(j)[0]))
        else:
            m = num(self.m)

            def it(j):
                q = ENG.simp(T.floordiv(j, m))
                tup = self.item(q)
                rr = sub(j, mul(q, m))
                for t in range(self.m - 1):
                    if ENG.branch(eq(rr, num(t))):
                        return tup[t]
                return tup[self.m - 1]
            r.items.append(Seg(mul(kp, m), it))
        return r

    def check_preserved(self, e, sid, cur, k1):
        nm = "loop %s: invariant of appended list preserved" % sid
        n0 = len(self.items0) + 1
        if not isinstance(cur, EList) or len(cur.items) != n0 + self.m:
            e.fail(nm, "list grew by %s items" % (len(cur.items) - n0))
            return
        lv = []
        t = describe(tuple(cur.items[n0:]), lv)
        if not same_tree(t, self.tree):
            e.fail(nm, "structure of appended item changed")
            return
        for (lf, b), cl in zip(self.lvs, lv):
            m = {v: atom(w) for v, w in zip(cl.vs, lf.vs)}
            cb = subst(cl.body, m)
            for x, y in zip(lf.shape, cl.shape):
                if x is not y:
                    e.check(nm + " (shape)", eq(x, y))
            hyps = [in_range(atom(v), s) for v, s in zip(lf.vs, lf.shape)]
            e.check_under(nm, equal(cb, b), hyps)


class DictAppendCell(AppendCell):
    """Dict that gets the entry k + c in iteration k."""

    def value(self, kp, final=False):
        if has_obj(self.tree):
            if as_const(kp) != 0:
                raise Unsupported("loop: objects stored in a dict")
        r = EDict()
        items0, fam0 = self.items0
        for a, x in items0:
            dict.__setitem__(r, a, x)
        c = num(self.m)
        r.fam = list(fam0) + [(c, kp, lambda j: self.item(sub(j, c))[0])]
        return r

    def check_preserved(self, e, sid, cur, k1):
        nm = "loop %s: invariant of filled dict preserved" % sid
        items0, fam0 = self.items0
        k = sub(k1, ONE)
        if not isinstance(cur, EDict) or len(cur.fam) != len(fam0) + 1:
            e.fail(nm, "entries written by an earlier iteration are overwritten")
            return
        (lo, n, item) = cur.fam[-1]
        r = dict_append(cur, (items0, list(cur.fam)), k)
        if r is None or r[0] != self.m or lo is not num(self.m) or n is not k or \
                any(a is not b for a, b in zip(cur.fam, fam0)):
            e.fail(nm, "the new entry is not entry k + %s" % self.m)
            return
        e.check(nm, T.TRUE)
        self.check_item((r[1],), e, nm)

    def check_item(self, tup, e, nm):
        lv = []
        t = describe(tup, lv)
        if not same_tree(t, self.tree):
            e.fail(nm, "structure of the new entry changed")
            return
        for (lf, b), cl in zip(self.lvs, lv):
            m = {v: atom(w) for v, w in zip(cl.vs, lf.vs)}
            cb = subst(cl.body, m)
            for x, y in zip(lf.shape, cl.shape):
                if x is not y:
                    e.check(nm + " (shape)", eq(x, y))
            hyps = [in_range(atom(v), s) for v, s in zip(lf.vs, lf.shape)]
            e.check_under(nm, equal(cb, b), hyps)


class AppendSegCell:
    """List extended in iteration k by min(B, R - k*B) items: after k iterations it holds the
    initial items and then min(k*B, R) items, item q being item q mod B of iteration q div B."""
    mode = "append"

    def __init__(self, ck, k, tree, lvs, j, B, R, items0):
        self.key, self.k, self.tree, self.lvs, self.j = ck, k, tree, lvs, j
        self.B, self.R, self.items0 = B, R, items0

    def item(self, q):
        d = ENG.simp(T.floordiv(q, self.B))
        m = {self.k: d, self.j: ENG.simp(sub(q, mul(d, self.B)))}
        its = []
        for lf in self.lvs:
            shape = tuple(subst(s, m) for s in lf.shape)
            its.append((Leaf(lf.kind, lf.tk, shape, lf.vs, lf.body), subst(lf.body, m)))
        return rebuild(self.tree, iter(its))

    def value(self, kp, final=False):
        r = EList()
        n = ENG.simp(seg_upto(kp, self.B, self.R))
        r.items = list(self.items0) + [Seg(n, self.item)]
        return r

    def check_preserved(self, e, sid, cur, k1):
        nm = "loop %s: invariant of extended list preserved" % sid
        n0 = len(self.items0) + 1
        if not isinstance(cur, EList) or len(cur.items) != n0 + 1 or not isinstance(cur.items[n0], Seg):
            e.fail(nm, "the list did not grow by one run")
            return
        sg = cur.items[n0]
        L0 = seg_upto(atom(self.k), self.B, self.R)
        e.check(nm + " (length)", eq(add(L0, sg.n), seg_upto(k1, self.B, self.R)))
        j = atom(T.fresh("j"))
        lv = []
        with_j = [in_range(j, sg.n)]
        t = describe(sg.item(j), lv)
        if not same_tree(t, self.tree):
            e.fail(nm, "structure of the items changed")
            return
        want = []
        describe(self.item(add(L0, j)), want)
        for w, g in zip(want, lv):
            m = {v: atom(x) for v, x in zip(g.vs, w.vs)}
            for x, y in zip(w.shape, g.shape):
                if x is not y:
                    e.check_under(nm + " (shape)", eq(x, y), with_j)
            hyps = with_j + [in_range(atom(v), s) for v, s in zip(w.vs, w.shape)]
            e.check_under(nm, equal(subst(g.body, m), w.body), hyps)


class OpaqueCell:
    mode = "opaque"

    def __init__(self, ck, why):
        self.key, self.why = ck, why

    def value(self, kp, final=False):
        if self.key[0] in ("store", "list", "dict"):
            raise Unsupported("loop: %s (%s)" % (self.why, cell_name(self.key)))
        return Poison(str(self.key[-1]), self.why)

    def check_preserved(self, *a):
        return


def make_loop(it, sid, locs, mods):
    return Loop(ENG, it, sid, locs, mods)
