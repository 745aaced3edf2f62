"""Symbolic values: numbers, booleans, tensors with views, lists, dicts, sequences."""
from __future__ import annotations
import itertools
from fractions import Fraction
from . import terms as T
from .terms import (ZERO, ONE, RONE, RZERO, TRUE, FALSE, atom, as_const, as_atom, add, sub, mul,
                    neg, le, lt, eq, band, bor, bnot, iverson, in_range, sum_, subst, num,
                    to_real, Node)
from .core import ENG, Unsupported, PathEnd


# ------------------------------------------------------------------ numbers
def wrap(p):
    """Poly -> python int when constant integer, else SNum."""
    c = as_const(p)
    if c is not None and p.sort == "I" and c.denominator == 1:
        return int(c)
    return SNum(p)


def wrapb(c):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    return SBool(c)


def P(x):
    """Anything numeric -> Poly."""
    if isinstance(x, SNum):
        return x.p
    if isinstance(x, SBool):
        return T.ite_int(x.c, ONE, ZERO)
    if isinstance(x, bool):
        return num(int(x))
    if isinstance(x, int):
        return num(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float constant")
        return num(x, "R")
    if isinstance(x, Fraction):
        return num(x, "R")
    if isinstance(x, SymTensor):
        if len(x.shape) == 0:
            b = x.at(())
            return iverson(b) if x.kind == "b" else b
        raise Unsupported("tensor used as a number")
    if isinstance(x, Node):
        return x
    if isinstance(x, Poison):
        x.boom()
    raise Unsupported("not a number: %r" % type(x).__name__)


def isnumlike(x):
    return isinstance(x, (int, float, SNum, SBool, Fraction)) and not isinstance(x, SymTensor)


def boolterm(x):
    if isinstance(x, SBool):
        return x.c
    if isinstance(x, SNum):
        return T.ne(x.p, ZERO)
    if isinstance(x, SymTensor):
        b = x.at(())
        return b if x.kind == "b" else T.ne(b, num(0, b.sort))
    return TRUE if x else FALSE


class SBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return ENG.branch(self.c)

    def __invert__(self):
        return wrapb(bnot(self.c))

    def __and__(self, o):
        return wrapb(band(self.c, boolterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        return wrapb(bor(self.c, boolterm(o)))
    __ror__ = __or__

    def _n(self):
        return SNum(T.ite_int(self.c, ONE, ZERO))

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o
    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            oc = boolterm(o)
            return wrapb(bor(band(self.c, oc), band(bnot(self.c), bnot(oc))))
        return self._n() == o

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else wrapb(bnot(r.c))

    def __hash__(self):
        return hash(self.c)

    def item(self):
        return self


class SNum:
    """Symbolic Python number; sort I behaves as int, sort R as float."""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "⟨%s⟩" % T.show(self.p)[:200]

    @property
    def isint(self):
        return self.p.sort == "I"

    def _b(self, o, f, swap=False):
        if isinstance(o, SymTensor) or not (isnumlike(o)):
            return NotImplemented
        a, b = self.p, P(o)
        if swap:
            a, b = b, a
        return wrap(f(a, b))

    def __add__(self, o):
        return self._b(o, add)

    def __radd__(self, o):
        return self._b(o, add, True)

    def __sub__(self, o):
        return self._b(o, sub)

    def __rsub__(self, o):
        return self._b(o, sub, True)

    def __mul__(self, o):
        if isinstance(o, (str, tuple)) or isinstance(o, EList):
            return NotImplemented
        return self._b(o, mul)

    def __rmul__(self, o):
        return self._b(o, mul, True)

    def __neg__(self):
        return wrap(neg(self.p))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(tabs(self.p))

    def __truediv__(self, o):
        if not isnumlike(o):
            return NotImplemented
        return sdiv(self, o)

    def __rtruediv__(self, o):
        if not isnumlike(o):
            return NotImplemented
        return sdiv(o, self)

    def __floordiv__(self, o):
        if not isnumlike(o):
            return NotImplemented
        return sfloordiv(self, o)

    def __rfloordiv__(self, o):
        return sfloordiv(o, self)

    def __mod__(self, o):
        return smod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return smod(o, self)

    def __pow__(self, o):
        return spow(self, o)

    def __rpow__(self, o):
        return spow(o, self)

    def _c(self, o, f):
        if isinstance(o, SymTensor):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return wrapb(f(ZERO, ONE if o > 0 else num(-1)))
        if not isnumlike(o):
            return NotImplemented
        return wrapb(f(self.p, P(o)))

    def __lt__(self, o):
        return self._c(o, lt)

    def __le__(self, o):
        return self._c(o, le)

    def __gt__(self, o):
        return self._c(o, T.gt)

    def __ge__(self, o):
        return self._c(o, T.ge)

    def __eq__(self, o):
        if not isnumlike(o):
            return NotImplemented if isinstance(o, SymTensor) else False
        if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
            return False
        return wrapb(eq(self.p, P(o)))

    def __ne__(self, o):
        if not isnumlike(o):
            return NotImplemented if isinstance(o, SymTensor) else True
        if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
            return True
        return wrapb(T.ne(self.p, P(o)))

    def __hash__(self):
        return hash(self.p)

    def __bool__(self):
        return ENG.branch(T.ne(self.p, num(0, self.p.sort)))

    def __index__(self):
        c = as_const(ENG.simp(self.p))
        if c is not None and c.denominator == 1:
            return int(c)
        raise Unsupported("symbolic integer needed as a concrete index")

    def __int__(self):
        raise Unsupported("int() of a symbolic number in native code")

    def __float__(self):
        raise Unsupported("float() of a symbolic number in native code")

    def __format__(self, spec):
        return token(self.p) if not spec else "<%s>" % T.show(self.p)[:60]

    def __str__(self):
        return token(self.p)

    def __round__(self, n=None):
        return SNum(T.fn("round%s" % (n or 0), self.p, sort="R" if n else "I"))

    def item(self):
        return self

    def is_integer(self):
        raise Unsupported("is_integer")


def tabs(p):
    return T.ite(le(num(0, p.sort), p), p, neg(p))


def sdiv(a, b):
    pa, pb = P(a), P(b)
    c = as_const(pb)
    if c is not None:
        if c == 0:
            raise ZeroDivisionError("division by zero")
    elif ENG.branch(eq(pb, num(0, pb.sort))):
        raise ZeroDivisionError("division by zero")
    return SNum(to_real(T.div(pa, pb)))


def sfloordiv(a, b):
    pa, pb = P(a), P(b)
    if as_const(pb) == 0:
        raise ZeroDivisionError("integer division by zero")
    if as_const(pb) is None and ENG.branch(eq(pb, num(0, pb.sort))):
        raise ZeroDivisionError("integer division by zero")
    if pa.sort == "R" or pb.sort == "R":
        return SNum(T.fn("floor", T.div(pa, pb), sort="I"))
    cb = as_const(pb)
    if (cb is not None and cb < 0) or (cb is None and ENG.known(lt(ZERO, pb)) is not True):
        raise Unsupported("floor division by a possibly negative number")
    return wrap(ENG.simp(T.floordiv(pa, pb)))


def smod(a, b):
    q = sfloordiv(a, b)
    return wrap(sub(P(a), mul(P(b), P(q))))


def spow(a, e):
    if isinstance(e, bool):
        e = int(e)
    if isinstance(e, int) and not isinstance(e, SNum):
        if e >= 0:
            return wrap(T.pow_(P(a), e))
        return sdiv(1, wrap(T.pow_(P(a), -e)))
    if isinstance(e, float) and e == int(e):
        return wrap(to_real(P(spow(a, int(e)))))
    if isinstance(e, float) and e == 0.5:
        return ssqrt(a)
    if isinstance(e, float) and e == -0.5:
        return sdiv(1, ssqrt(a))
    return SNum(T.fn("pow", to_real(P(a)), P(e)))


def ssqrt(a):
    return SNum(T.sqrt(to_real(P(a))))


class Poison:
    """Value of a local that is unbound (or not modelled) at this point."""

    def __init__(self, name, why="unbound"):
        object.__setattr__(self, "_nm", name)
        object.__setattr__(self, "_why", why)

    def boom(self, *a, **k):
        if self._why == "unbound":
            raise UnboundLocalError("local variable %r referenced before assignment" % self._nm)
        raise Unsupported("value of %s not modelled (%s)" % (self._nm, self._why))
    __getattr__ = lambda self, n: self.boom()           # noqa: E731
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __iadd__ = boom
    __truediv__ = __rtruediv__ = __matmul__ = __rmatmul__ = boom
    __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __call__ = boom
    __lt__ = __le__ = __gt__ = __ge__ = __neg__ = __contains__ = boom

    def __repr__(self):
        return "<poison %s>" % self._nm


# ------------------------------------------------------------------ tensors
class Store:
    __slots__ = ("uid", "shape", "vs", "body", "kind")

    def __init__(self, shape, vs, body, kind, register=True):
        self.shape, self.vs, self.body, self.kind = tuple(shape), tuple(vs), body, kind
        self.uid = ENG.new_uid()
        if register:
            ENG.heap[self.uid] = self

    def at(self, idx):
        m = {v: i for v, i in zip(self.vs, idx) if not (as_atom(i) is v)}
        return subst(self.body, m) if m else self.body


_iv_names: dict = {}


def ivar(k, depth=[0]):
    return T.fresh("i")


def numel_poly(shape):
    r = ONE
    for s in shape:
        r = mul(r, s)
    return r


class DType:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.is_floating_point = kind == "f"
        self.is_complex = False
        self.itemsize = 4

    def __repr__(self):
        return "torch." + self.name


class Device:
    def __init__(self, t="cpu", index=None):
        if isinstance(t, Device):
            t = t.type
        self.type = str(t).split(":")[0]
        self.index = index

    def __eq__(self, o):
        return isinstance(o, Device) and self.type == o.type

    def __hash__(self):
        return hash(self.type)

    def __str__(self):
        return self.type
    __repr__ = __str__


CPU = Device("cpu")
float32, float64, int64 = DType("float32", "f"), DType("float64", "f"), DType("int64", "i")
bool_ = DType("bool", "b")
KIND_DT = {"f": float32, "i": int64, "b": bool_}


class Size(tuple):
    def numel(self):
        return wrap(numel_poly([P(x) for x in self]))

    def __getitem__(self, k):
        r = tuple.__getitem__(self, k)
        return Size(r) if isinstance(k, slice) else r


class SymTensor:
    __slots__ = ("store", "pshape", "vw", "kind", "extra", "__weakref__")

    def __init__(self, shape, fnbody=None, kind="f", store=None, view=None):
        """shape: Polys; fnbody(idx polys)->Node"""
        self.pshape = tuple(shape)
        self.kind = kind
        self.vw = view
        self.extra = {}
        if store is None:
            vs = [ivar(k) for k in range(len(self.pshape))]
            body = fnbody([atom(v) for v in vs])
            if body.k == "P":
                body = under_ranges(body, vs, self.pshape)
                if kind == "f":
                    body = to_real(body)
            store = Store(self.pshape, vs, body, kind)
        self.store = store

    # element access ----------------------------------------------------------
    def at(self, idx):
        if self.vw is not None:
            idx = self.vw[0](list(idx))
        return self.store.at(idx)

    def vat(self, idx):
        """Element as a Real/Int Poly (bools become brackets)."""
        b = self.at(idx)
        return iverson(b) if self.kind == "b" else b

    def write(self, fnbody):
        """In place: element idx becomes fnbody(idx)."""
        st = self.store
        vs = [atom(v) for v in st.vs]
        if self.vw is None:
            nb = fnbody(vs)
            if st.kind == "f" and nb.k == "P":
                nb = to_real(nb)
            st.body = under_ranges(nb, st.vs, st.shape) if nb.k == "P" else nb
        else:
            cond, vidx = self.vw[1](vs)
            new = fnbody(vidx)
            if st.kind == "b":
                st.body = bor(band(cond, new), band(bnot(cond), st.body))
            else:
                g = iverson(cond) if st.kind == "f" else None
                if g is not None:
                    nb = add(mul(g, to_real(new)), st.body, neg(mul(g, st.body)))
                else:
                    nb = T.ite_int(cond, new, st.body)
                st.body = under_ranges(nb, st.vs, st.shape)
        ENG.mutated(("store", st.uid))
        return self

    # shape -------------------------------------------------------------------
    @property
    def shape(self):
        return Size(wrap(s) for s in self.pshape)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def dim(self):
        return len(self.pshape)

    @property
    def ndim(self):
        return len(self.pshape)

    def numel(self):
        return wrap(numel_poly(self.pshape))
    nelement = numel

    @property
    def device(self):
        return CPU

    @property
    def dtype(self):
        return self.extra.get("dtype", KIND_DT[self.kind])

    is_cuda = False
    requires_grad = False
    is_sparse = False
    grad = None

    def __len__(self):
        raise Unsupported("native len() on tensor")

    def symlen(self):
        if not self.pshape:
            raise TypeError("len() of a 0-d tensor")
        return wrap(self.pshape[0])

    def __iter__(self):
        n = as_const(self.pshape[0])
        if n is None:
            raise Unsupported("native iteration over a symbolic dimension")
        return iter([self[i] for i in range(int(n))])

    def __bool__(self):
        if self.pshape and as_const(numel_poly(self.pshape)) != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        b = self.at([ZERO] * len(self.pshape))
        return ENG.branch(b if self.kind == "b" else T.ne(b, num(0, b.sort)))

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "SymTensor%s" % (tuple(self.shape),)

    def __format__(self, s):
        return repr(self)

    def __index__(self):
        if self.kind == "i" and not self.pshape:
            return SNum(self.at(())).__index__()
        raise TypeError("only integer tensors of a single element can be converted to an index")

    # helpers -------------------------------------------------------------------
    def new(self, fnbody, kind=None, shape=None):
        return SymTensor(self.pshape if shape is None else shape, fnbody, kind or self.kind)

    def alias(self):
        t = SymTensor(self.pshape, kind=self.kind, store=self.store, view=self.vw)
        t.extra = self.extra
        return t

    def to(self, *a, **k):
        for x in list(a) + list(k.values()):
            if isinstance(x, DType) and x.kind != self.kind:
                return cast(self, x.kind)
        return self

    def _same(self, *a, **k):
        return self
    cpu = cuda = contiguous = requires_grad_ = pin_memory = _same

    def detach(self):
        return self.alias()

    def float(self):
        return cast(self, "f")
    double = float

    def long(self):
        return cast(self, "i")
    int = long

    def bool(self):
        return cast(self, "b")

    def half(self):
        return cast(self, "f")

    def type(self, dt=None):
        return self.to(dt) if dt is not None else "torch.FloatTensor"

    @property
    def data(self):
        return self.alias()

    def numpy(self, force=False):
        return self

    def clone(self):
        return self.new(self.at)

    def copy_(self, o, non_blocking=False):
        o = as_tensor(o)
        oa = broadcast_to(o, self.pshape)
        snap = snapshot(oa)
        return self.write(snap.at)

    def item(self):
        if as_const(numel_poly(self.pshape)) != 1:
            if not ENG.known(eq(numel_poly(self.pshape), ONE)):
                raise RuntimeError("a Tensor with more than one element cannot be converted to Scalar")
        b = self.at([ZERO] * len(self.pshape))
        return wrapb(b) if self.kind == "b" else wrap(b)

    def tolist(self):
        if not self.pshape:
            return self.item()
        n = as_const(self.pshape[0])
        if n is not None:
            return EList([x.tolist() for x in self])
        if len(self.pshape) == 1:
            s = snapshot(self)
            return EList.seq(self.pshape[0], lambda k: (wrapb if s.kind == "b" else wrap)(s.at([k])))
        raise Unsupported("tolist of symbolic nested tensor")

    # arithmetic ------------------------------------------------------------------
    def __add__(self, o): return binop(self, o, add)
    def __radd__(self, o): return binop(o, self, add)
    def __sub__(self, o): return binop(self, o, sub)
    def __rsub__(self, o): return binop(o, self, sub)
    def __mul__(self, o): return binop(self, o, mul)
    def __rmul__(self, o): return binop(o, self, mul)
    def __truediv__(self, o): return divop(self, o)
    def __rtruediv__(self, o): return divop(o, self)
    def __floordiv__(self, o): return binop(self, o, lambda a, b: ENG.simp(T.floordiv(a, b)))
    def __mod__(self, o): return binop(self, o, lambda a, b: T.mod(a, b))
    def __neg__(self): return self.new(lambda i: neg(self.at(i)))
    def __pos__(self): return self
    def __abs__(self): return self.new(lambda i: tabs(self.at(i)))
    abs = __abs__
    def __lt__(self, o): return cmpop(self, o, lt)
    def __le__(self, o): return cmpop(self, o, le)
    def __gt__(self, o): return cmpop(self, o, T.gt)
    def __ge__(self, o): return cmpop(self, o, T.ge)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return cmpop(self, o, eq)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return cmpop(self, o, T.ne)

    def __and__(self, o): return boolop(self, o, band)
    def __or__(self, o): return boolop(self, o, bor)
    def __invert__(self): return self.new(lambda i: bnot(self.at(i)), "b")

    def __pow__(self, e):
        return powop(self, e)

    def __rpow__(self, b):
        return self.new(lambda i: P(spow(b, wrap(self.at(i)))), "f")
    pow = __pow__

    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    mm = matmul_ = mv = __matmul__
    matmul = __matmul__

    def dot(self, o): return dot(self, o)
    def add(self, o, alpha=1): return self + (o if alpha == 1 else o * alpha)
    def sub(self, o, alpha=1): return self - (o if alpha == 1 else o * alpha)
    def mul(self, o): return self * o
    multiply = mul
    def div(self, o): return self / o
    divide = true_divide = div

    def _inplace(self, r):
        sh = self.pshape
        if len(r.pshape) != len(sh) or any(a is not b and ENG.known(eq(a, b)) is not True
                                           for a, b in zip(r.pshape, sh)):
            raise RuntimeError("output with shape %s doesn't match the broadcast shape %s"
                               % (tuple(self.shape), tuple(r.shape)))
        if self.kind == "i" and r.kind == "f":
            raise RuntimeError("result type Float can't be cast to the desired output type Long")
        return self.write(r.at)

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)
    def __ipow__(self, o): return self._inplace(self ** o)
    add_ = lambda self, o, alpha=1: self._inplace(self.add(o, alpha))      # noqa: E731
    def addmm(self, x, y, beta=1, alpha=1):
        p = matmul(x, y)
        return (self if beta == 1 else self * beta) + (p if alpha == 1 else p * alpha)
    addmm_ = lambda self, x, y, beta=1, alpha=1: self._inplace(self.addmm(x, y, beta, alpha))     # noqa: E731
    sub_ = lambda self, o, alpha=1: self._inplace(self.sub(o, alpha))      # noqa: E731
    mul_ = __imul__
    div_ = __itruediv__

    def zero_(self):
        return self.write(lambda i: num(0, "R" if self.kind == "f" else "I"))

    def fill_(self, v):
        p = P(v)
        return self.write(lambda i: p)

    def normal_(self, mean=0, std=1, generator=None):
        """values determined by the generator's state and the shape"""
        from . import tstub
        d = tstub.draw("normal", self.pshape, generator, extra=tuple(self.pshape))
        m, sd = P(mean), P(std)
        return self.write(lambda i: add(mul(sd, d.at(i)), m))

    def bernoulli_(self, p=0.5, generator=None):
        from . import tstub
        d = tstub.draw("bernoulli", self.pshape, generator, extra=(T.to_real(P(p)),) + tuple(self.pshape))
        return self.write(d.at)

    def sort(self, dim=-1, descending=False, stable=False):
        s = snapshot(self)
        ix = argsort(self, dim, descending)
        d = norm_dim(dim, self.ndim)
        return self.new(lambda i: s.vat(list(i[:d]) + [ix.at(i)] + list(i[d + 1:]))), ix

    def index_add_(self, dim, index, src, alpha=1):
        if as_const(P(dim)) != 0 or not isinstance(index, SymTensor) or len(index.pshape) != 1:
            raise Unsupported("index_add_ over dimension %r" % (dim,))
        n, m = index.pshape[0], src.pshape[0]
        ENG.check("index_add_: as many indices as rows", eq(n, m))
        for a, b in zip(self.pshape[1:], src.pshape[1:]):
            ENG.check("index_add_: row shape", eq(a, b))
        snap, sr, ix = snapshot(self), snapshot(src), snapshot(index)
        al = P(alpha)

        def f(i):
            v = T.fresh("b")
            b = mul(iverson(eq(ix.at([atom(v)]), i[0])), sr.at([atom(v)] + list(i[1:])))
            return add(snap.at(i), mul(al, T.sum_(v, n, b)))
        return self.write(f)

    def fill_diagonal_(self, v):
        p = P(v)
        snap = snapshot(self)
        return self.write(lambda i: T.ite(eq(i[0], i[1]), p, snap.at(i)))

    # elementwise ---------------------------------------------------------------
    def sqrt(self): return self.new(lambda i: T.sqrt(self.vat(i)), "f")
    def rsqrt(self): return 1 / self.sqrt()
    def exp(self): return unary("exp", self)
    def log(self): return unary("log", self)
    def sigmoid(self): return unary("sigmoid", self)
    def square(self): return self * self
    def reciprocal(self): return 1 / self
    def sign(self): return self.new(lambda i: sub(iverson(lt(num(0, "R"), self.at(i))),
                                                  iverson(lt(self.at(i), num(0, "R")))))

    def clamp(self, min=None, max=None):
        r = self
        if min is not None:
            m = P(min)
            r = r.new(lambda i, r=r: T.ite(le(m, r.at(i)), r.at(i), m))
        if max is not None:
            M = P(max)
            r = r.new(lambda i, r=r: T.ite(le(r.at(i), M), r.at(i), M))
        return r
    clip = clamp
    def clamp_min(self, m): return self.clamp(min=m)
    def nan_to_num(self, *a, **k): return self.clone()
    def isnan(self): return self.new(lambda i: FALSE, "b")
    def softmax(self, dim=-1): return lam_op("softmax%d" % norm_dim(dim, self.ndim), self)

    # reductions ----------------------------------------------------------------
    def sum(self, dim=None, keepdim=False, dtype=None, axis=None):
        return reduce_sum(self, dim if axis is None else axis, keepdim)

    def mean(self, dim=None, keepdim=False, axis=None, dtype=None):
        dim = dim if axis is None else axis
        s = reduce_sum(cast(self, "f"), dim, keepdim)
        dims = all_dims(self, dim)
        n = numel_poly([self.pshape[d] for d in dims])
        ENG.check("mean over a non-empty dimension", T.gt(n, ZERO))
        return s / SNum(n)

    def norm(self, p=2, dim=None, keepdim=False):
        if p not in (2, 2.0, None, "fro"):
            raise Unsupported("norm p=%r" % (p,))
        return (self * self).sum(dim=dim, keepdim=keepdim).sqrt()

    def _bools(self):
        return self if self.kind == "b" else cmpop(self, 0, T.ne)

    def any(self, dim=None):
        return quant(self._bools(), "any", dim)

    def all(self, dim=None):
        return quant(self._bools(), "all", dim)

    def max(self, dim=None, keepdim=False): return red_op("max", self, dim, keepdim)
    def min(self, dim=None, keepdim=False): return red_op("min", self, dim, keepdim)
    def argmax(self, dim=None, keepdim=False): return arg_op("argmax", self, dim)
    def argmin(self, dim=None): return arg_op("argmin", self, dim)
    def argsort(self, dim=-1, descending=False, stable=False):
        return argsort(self, dim, descending)
    def trace(self):
        return self.diagonal().sum()

    def cumsum(self, dim=0):
        d = norm_dim(dim, self.ndim)
        s = snapshot(self)

        def f(i):
            v = T.fresh("c")
            j = list(i)
            j[d] = atom(v)
            return sum_(v, add(i[d], ONE), s.at(j))
        return self.new(f)

    # shape ops -------------------------------------------------------------------
    def mkview(self, shape, fwd, inv):
        if self.vw is None:
            v = (fwd, inv)
        else:
            f0, i0 = self.vw

            def f(idx):
                return f0(fwd(idx))

            def g(b):
                c0, i1 = i0(b)
                c1, i2 = inv(i1)
                return band(c0, c1), i2
            v = (f, g)
        t = SymTensor(shape, kind=self.kind, store=self.store, view=v)
        if "dtype" in self.extra:
            t.extra["dtype"] = self.extra["dtype"]
        return t

    @property
    def T(self):
        if self.ndim < 2:
            return self.alias()
        return self.permute(*reversed(range(self.ndim)))

    mT = property(lambda self: self.transpose(-1, -2))
    H = T

    def t(self):
        return self.T

    def transpose(self, a, b):
        d = list(range(self.ndim))
        a, b = norm_dim(a, self.ndim), norm_dim(b, self.ndim)
        d[a], d[b] = d[b], d[a]
        return self.permute(*d)

    def permute(self, *dims):
        if len(dims) == 1 and isinstance(dims[0], (tuple, EList)):
            dims = tuple(dims[0])
        dims = [norm_dim(d, self.ndim) for d in dims]
        sh = [self.pshape[d] for d in dims]

        def fwd(idx):
            r = [None] * len(dims)
            for k, d in enumerate(dims):
                r[d] = idx[k]
            return r

        def inv(b):
            return TRUE, [b[d] for d in dims]
        return self.mkview(sh, fwd, inv)

    def flip(self, *dims):
        ds = [norm_dim(d, self.ndim) for d in (dims[0] if len(dims) == 1 and isinstance(dims[0], (tuple, list, EList)) else dims)]
        sn = snapshot(self)

        def f(i):
            j = list(i)
            for d in ds:
                j[d] = sub(sub(self.pshape[d], ONE), j[d])
            return sn.at(j)
        return self.new(f)

    def unsqueeze(self, d):
        n = self.ndim + 1
        if d < 0:
            d += n
        sh = list(self.pshape)
        sh.insert(d, ONE)
        return self.mkview(sh, lambda i: i[:d] + i[d + 1:],
                           lambda b: (TRUE, list(b[:d]) + [ZERO] + list(b[d:])))

    def squeeze(self, d=None):
        dims = [norm_dim(d, self.ndim)] if d is not None else list(range(self.ndim))
        drop = []
        for k in dims:
            c = as_const(self.pshape[k])
            if c == 1:
                drop.append(k)
            elif c is None and ENG.branch(eq(self.pshape[k], ONE)):
                drop.append(k)
        keep = [k for k in range(self.ndim) if k not in drop]
        if not drop:
            return self.alias()

        def fwd(i):
            r = [ZERO] * self.ndim
            for p_, k in enumerate(keep):
                r[k] = i[p_]
            return r
        return self.mkview([self.pshape[k] for k in keep], fwd,
                           lambda b: (TRUE, [b[k] for k in keep]))

    def expand(self, *shape):
        shape = shape_args(shape)
        off = len(shape) - self.ndim
        sh = [self.pshape[k - off] if isinstance(s, int) and s == -1 else P(s)
              for k, s in enumerate(shape)]
        return broadcast_to(self, sh)

    def expand_as(self, o):
        return broadcast_to(self, o.pshape)

    def repeat(self, *reps):
        reps = shape_args(reps)
        off = len(reps) - self.ndim
        sh = []
        for k, r in enumerate(reps):
            s = self.pshape[k - off] if k >= off else ONE
            sh.append(mul(s, P(r)))
        s0 = snapshot(self)

        def f(i):
            return s0.at([ZERO if as_const(self.pshape[k]) == 1 else
                          ENG.simp(T.mod(i[k + off], self.pshape[k])) for k in range(self.ndim)])
        return SymTensor(sh, f, self.kind)

    def diagonal(self, *a, **k):
        m = self.pshape[0]
        if self.pshape[0] is not self.pshape[1] and not ENG.known(eq(self.pshape[0], self.pshape[1])):
            raise Unsupported("diagonal of a non-square tensor")
        return self.mkview([m], lambda i: [i[0], i[0]], lambda b: (eq(b[0], b[1]), [b[0]]))

    def diag(self, *a):
        from . import tstub
        return tstub.diag(self)

    def flatten(self, start_dim=0, end_dim=-1):
        n = self.ndim
        if n == 0:
            return reshape(self, [ONE])
        a, b = norm_dim(start_dim, n), norm_dim(end_dim, n)
        sh = list(self.pshape[:a]) + [numel_poly(self.pshape[a:b + 1])] + list(self.pshape[b + 1:])
        return reshape(self, sh)

    def ravel(self):
        return self.flatten()

    def reshape(self, *shape):
        return reshape(self, infer_shape(self, shape_args(shape)))

    def view(self, *shape):
        return reshape(self, infer_shape(self, shape_args(shape)))

    def reshape_as(self, o):
        return reshape(self, list(o.pshape))
    view_as = reshape_as

    def tril(self, diagonal=0):
        return self.new(lambda i: T.ite(le(i[-1], add(i[-2], P(diagonal))), self.at(i),
                                        num(0, self.at(i).sort)))

    def triu(self, diagonal=0):
        return self.new(lambda i: T.ite(le(add(i[-2], P(diagonal)), i[-1]), self.at(i),
                                        num(0, self.at(i).sort)))

    def new_zeros(self, *s, **k): return full(shape_args(s), 0)
    def new_ones(self, *s, **k): return full(shape_args(s), 1)
    def new_full(self, s, v, **k): return full(shape_args((s,)), v)
    def new_tensor(self, v, **k): return as_tensor(v)
    def split(self, n, dim=0):
        from . import tstub
        return tstub.split(self, n, dim)
    def chunk(self, n, dim=0):
        from . import tstub
        return tstub.chunk(self, n, dim)
    def unbind(self, dim=0):
        from . import tstub
        return tstub.unbind(self, dim)
    def index_select(self, dim, idx):
        key = [slice(None)] * self.ndim
        key[dim] = idx
        return self[tuple(key)]
    def gather(self, dim, idx):
        d = norm_dim(dim, self.ndim)
        s = snapshot(self)
        ii = snapshot(idx)

        def f(i):
            j = list(i)
            j[d] = ii.at(i)
            return s.at(j)
        return SymTensor(idx.pshape, f, self.kind)
    def masked_fill(self, m, v):
        from . import tstub
        return tstub.where(m, v, self)
    def storage_size(self): return 0
    def element_size(self): return 4
    def is_floating_point(self): return self.kind == "f"
    def is_contiguous(self): return True
    def astype(self, t, **k): return self
    def copy(self): return self.clone()

    # indexing ----------------------------------------------------------------------
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        v = getitem(self, key, for_write=True)
        if isinstance(v, tuple):           # advanced assignment (mask or index)
            tgt, cond_inv = v
            val = as_tensor(val) if not isinstance(val, SymTensor) else val
            cond_inv(val)
            return
        if isinstance(val, SymTensor):
            if as_const(numel_poly(val.pshape)) == 1 and val.ndim > v.ndim:
                val = reshape(val, [])
            b = snapshot(broadcast_to(val, v.pshape))
            if v.kind == "f" and b.kind == "b":
                v.write(b.vat)
            else:
                v.write(b.at)
        else:
            p = P(val) if v.kind != "b" else None
            if v.kind == "b":
                c = TRUE if val else FALSE
                v.write(lambda i: c)
            else:
                v.write(lambda i: p)


def under_ranges(body, vs, shape):
    pcs = [in_range(atom(v), s) for v, s in zip(vs, shape)]
    from . import solver as S
    return S.simplify(body, ENG.pc + [c for c in pcs if c is not TRUE])


def snapshot(t):
    """Frozen copy of the current contents (no registration)."""
    body = t.store.body
    vs = t.store.vs
    view = t.vw

    class F:
        pass
    f = F()
    f.kind, f.pshape, f.ndim = t.kind, t.pshape, len(t.pshape)

    def at(idx):
        if view is not None:
            idx = view[0](list(idx))
        m = {v: i for v, i in zip(vs, idx)}
        return subst(body, m)
    f.at = at
    f.vat = (lambda idx: iverson(at(idx))) if t.kind == "b" else at
    return f


def lam_of(t):
    """λ-term holding the contents of t."""
    vs = [T.fresh("l") for _ in t.pshape]
    b = t.vat([atom(v) for v in vs])
    if not vs:
        return to_real(b) if t.kind == "f" else b
    return T.lam(vs, list(t.pshape), b)


def norm_dim(d, n):
    d = d.__index__() if not isinstance(d, int) else d
    if d < -n or d >= max(n, 1):
        raise IndexError("Dimension out of range (got %d for %d-d tensor)" % (d, n))
    return d + n if d < 0 else d


def shape_args(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list, EList)):
        s = tuple(s[0])
    return [x.item() if isinstance(x, SymTensor) else x for x in s]


def infer_shape(t, shape):
    sh = []
    hole = None
    for k, s in enumerate(shape):
        if isinstance(s, int) and s == -1:
            hole = k
            sh.append(None)
        else:
            sh.append(P(s))
    if hole is not None:
        rest = numel_poly([s for s in sh if s is not None])
        total = numel_poly(t.pshape)
        q = T.exact_div(total, rest)
        if q is None:
            q = T.exact_div(ENG.simp(total), ENG.simp(rest))
        if q is None:
            q = ENG.simp(T.floordiv(total, rest))
            ENG.check("view: inferred dimension is exact", eq(mul(q, rest), total))
        sh[hole] = q
    return sh


def same_dim(a, b):
    return a is b or ENG.known(eq(a, b)) is True


def reshape(t, sh):
    sh = [ENG.simp(s) for s in sh]
    old = list(t.pshape)
    if len(old) == len(sh) and all(same_dim(a, b) for a, b in zip(old, sh)):
        return t.alias()
    tot_a, tot_b = numel_poly(old), numel_poly(sh)
    if tot_a is not tot_b and not same_dim(tot_a, tot_b):
        if ENG.branch(eq(tot_a, tot_b)) is False:
            raise RuntimeError("shape %s is invalid for input of size %s"
                               % ([str(wrap(s)) for s in sh], wrap(tot_a)))
    # try to group dimensions: greedy matching of products
    groups = group_dims(old, sh)

    def fwd(idx):
        r = []
        for (oi, ni) in groups:
            r += regroup([sh[k] for k in ni], [idx[k] for k in ni], [old[k] for k in oi])
        return r

    def inv(b):
        r = []
        for (oi, ni) in groups:
            r += regroup([old[k] for k in oi], [b[k] for k in oi], [sh[k] for k in ni])
        return TRUE, r
    return t.mkview(sh, fwd, inv)


def group_dims(old, new):
    """Split both shapes into consecutive groups with equal products."""
    groups = []
    i = j = 0
    while i < len(old) or j < len(new):
        oi, ni = [], []
        pa, pb = ONE, ONE
        first = True
        while True:
            if not first and (pa is pb):
                break
            if first:
                first = False
                if i < len(old):
                    oi.append(i); pa = mul(pa, old[i]); i += 1
                if j < len(new):
                    ni.append(j); pb = mul(pb, new[j]); j += 1
                continue
            # extend the side that divides the other
            if j < len(new) and T.exact_div(pa, pb) is not None:
                ni.append(j); pb = mul(pb, new[j]); j += 1
            elif i < len(old) and T.exact_div(pb, pa) is not None:
                oi.append(i); pa = mul(pa, old[i]); i += 1
            elif same_dim(pa, pb):
                break
            else:
                # give up: one big group
                while i < len(old):
                    oi.append(i); i += 1
                while j < len(new):
                    ni.append(j); j += 1
                break
        # absorb trailing ones
        groups.append((oi, ni))
    # merge empty sided groups into the previous one
    out = []
    for oi, ni in groups:
        if out and (not oi or not ni):
            if all(as_const(x) == 1 for x in [old[k] for k in oi] + [new[k] for k in ni]):
                out[-1] = (out[-1][0] + oi, out[-1][1] + ni)
                continue
        out.append((oi, ni))
    return out


def regroup(shape_from, idx, shape_to):
    """Index of shape_from -> index of shape_to (row-major, equal products)."""
    if len(shape_from) == len(shape_to) == 1:
        return list(idx)
    nz_from = [(s, i) for s, i in zip(shape_from, idx) if as_const(s) != 1]
    flat = ZERO
    for s, i in nz_from:
        flat = add(mul(flat, s), i)
    if not nz_from:
        flat = ZERO
    out = []
    nontriv = [k for k, s in enumerate(shape_to) if as_const(s) != 1]
    res = {}
    rem = flat
    for pos, k in enumerate(reversed(nontriv)):
        s = shape_to[k]
        if pos == len(nontriv) - 1:
            res[k] = rem
        else:
            q = ENG_fd(rem, s, nz_from)
            res[k] = sub(rem, mul(q, s))
            rem = q
    for k in range(len(shape_to)):
        out.append(res.get(k, ZERO))
    return out


def ENG_fd(a, b, ranges):
    from . import solver as S
    pcs = [in_range(i, s) for s, i in ranges if fvok(i)]
    return S.simplify(T.floordiv(a, b), ENG.pc + [c for c in pcs if c is not TRUE])


def fvok(i):
    return True


def as_tensor(x, kind=None):
    if isinstance(x, SymTensor):
        return x
    if isinstance(x, SBool) or isinstance(x, bool):
        c = boolterm(x)
        return SymTensor([], lambda i: c, "b")
    if isnumlike(x):
        p = P(x)
        return SymTensor([], lambda i: p, "f" if p.sort == "R" else "i")
    if isinstance(x, (list, tuple, EList)):
        if isinstance(x, EList) and x.symbolic():
            if len(x.items) > 1:
                from . import tstub
                return tstub.cat([as_tensor(EList.seq(y.n, y.item) if isinstance(y, Seg) else [y]) for y in x.items])
            n, item = x.as_seq()
            k = T.fresh("k")
            probe = as_tensor(item(atom(k)))
            return stack_seq(n, item, probe)
        items = [as_tensor(y) for y in x]
        if not items:
            return SymTensor([ZERO], lambda i: num(0, "R"), "f")
        from . import tstub
        return tstub.stack(items)
    raise Unsupported("as_tensor of %s" % type(x).__name__)


def stack_seq(n, item, probe=None):
    probe = as_tensor(item(ZERO)) if probe is None else probe

    def f(i):
        t = as_tensor(item(i[0]))
        return t.at(i[1:])
    return SymTensor([n] + list(probe.pshape), f, probe.kind)


def cast(t, kind):
    if t.kind == kind:
        return t
    if kind == "f":
        return SymTensor(t.pshape, lambda i: to_real(t.vat(i)), "f")
    if kind == "i":
        if t.kind == "b":
            return SymTensor(t.pshape, lambda i: T.ite_int(t.at(i), ONE, ZERO), "i")
        return SymTensor(t.pshape, lambda i: trunc(t.at(i)), "i")
    return SymTensor(t.pshape, lambda i: T.ne(t.at(i), num(0, t.at(i).sort)), "b")


def trunc(p):
    if p.sort == "I":
        return p
    if all(c.denominator == 1 for _, c in p.a) and all(
            x.sort == "I" and e > 0 for m, _ in p.a for x, e in m):
        return T._poly(dict(p.a), "I")
    c = as_const(p)
    if c is not None:
        return num(int(c))
    return T.fn("trunc", p, sort="I")


def bshape(sa, sb):
    n = max(len(sa), len(sb))
    sa = [ONE] * (n - len(sa)) + list(sa)
    sb = [ONE] * (n - len(sb)) + list(sb)
    out = []
    for a, b in zip(sa, sb):
        if a is b:
            out.append(a)
        elif as_const(a) == 1:
            out.append(b)
        elif as_const(b) == 1:
            out.append(a)
        elif same_dim(a, b):
            out.append(a)
        elif ENG.branch(eq(a, b)):
            out.append(a)
        elif ENG.branch(eq(a, ONE)):
            out.append(b)
        elif ENG.branch(eq(b, ONE)):
            out.append(a)
        else:
            raise RuntimeError("The size of tensor a (%s) must match the size of tensor b (%s)"
                               % (wrap(a), wrap(b)))
    return out


def pick(shape, idx):
    """Indices into a tensor of `shape` broadcast to len(idx) dims."""
    off = len(idx) - len(shape)
    out = []
    for k, s in enumerate(shape):
        i = idx[off + k]
        if as_const(s) == 1:
            i = ZERO
        elif as_const(s) is None and ENG.known(eq(s, ONE)) is True:
            i = ZERO
        out.append(i)
    return out


def broadcast_to(t, sh):
    t = as_tensor(t)
    sh = list(sh)
    if len(sh) < t.ndim:
        extra = t.ndim - len(sh)
        if all(as_const(s) == 1 for s in t.pshape[:extra]):
            t = reshape(t, list(t.pshape[extra:]))
        else:
            raise RuntimeError("expand: the number of sizes provided must be >= tensor dims")
    full_ = [ONE] * (len(sh) - t.ndim) + list(t.pshape)
    for a, b in zip(full_, sh):
        if a is b or as_const(a) == 1 or same_dim(a, b):
            continue
        if ENG.branch(eq(a, b)):
            continue
        if ENG.branch(eq(a, ONE)):
            continue
        raise RuntimeError("The expanded size of the tensor (%s) must match the existing size (%s)"
                           % (wrap(b), wrap(a)))
    if len(full_) == t.ndim and all(a is b for a, b in zip(full_, sh)):
        return t
    return SymTensor(sh, lambda i: t.at(pick(t.pshape, i)), t.kind)


def rank(k):
    return {"b": 0, "i": 1, "f": 2}[k]


def binop(a, b, f):
    if isinstance(a, Poison) or isinstance(b, Poison):
        (a if isinstance(a, Poison) else b).boom()
    if not isinstance(a, SymTensor) and not isnumlike(a) or \
            not isinstance(b, SymTensor) and not isnumlike(b):
        return NotImplemented
    a, b = as_tensor(a), as_tensor(b)
    sh = bshape(a.pshape, b.pshape)
    kind = a.kind if rank(a.kind) >= rank(b.kind) else b.kind
    if kind == "b":
        kind = "i"
        a, b = cast(a, "i"), cast(b, "i")
    if kind == "f":
        return SymTensor(sh, lambda i: f(to_real(a.vat(pick(a.pshape, i))),
                                         to_real(b.vat(pick(b.pshape, i)))), "f")
    a, b = cast(a, kind), cast(b, kind)
    return SymTensor(sh, lambda i: f(a.at(pick(a.pshape, i)), b.at(pick(b.pshape, i))), kind)


def divop(a, b):
    a, b = as_tensor(a), as_tensor(b)
    sh = bshape(a.pshape, b.pshape)
    vs = [T.fresh("d") for _ in b.pshape]
    d = b.vat([atom(v) for v in vs])
    nz = T.ne(d, num(0, d.sort))
    if getattr(ENG, "total_division", False):
        ENG.assumptions.add("tensor division by zero does not raise; its value is arbitrary")
    elif as_const(d) is None or as_const(d) == 0:
        ENG.check_under("division: divisor is never zero", nz,
                        [in_range(atom(v), s) for v, s in zip(vs, b.pshape)])
        if as_const(d) == 0:
            raise Unsupported("division of a tensor by constant zero")
    return SymTensor(sh, lambda i: T.div(to_real(a.vat(pick(a.pshape, i))),
                                         to_real(b.vat(pick(b.pshape, i)))), "f")


def cmpop(a, b, f):
    if isinstance(b, float) and b in (float("inf"), float("-inf")):
        return SymTensor(a.pshape, lambda i: f(ZERO, ONE if b > 0 else num(-1)), "b")
    a, b = as_tensor(a), as_tensor(b)
    sh = bshape(a.pshape, b.pshape)
    return SymTensor(sh, lambda i: f(_n(a, i), _n(b, i)), "b")


def _n(t, i):
    b = t.at(pick(t.pshape, i))
    return T.ite_int(b, ONE, ZERO) if t.kind == "b" else b


def boolop(a, b, f):
    a, b = as_tensor(a), as_tensor(b)
    sh = bshape(a.pshape, b.pshape)
    if a.kind != "b" or b.kind != "b":
        raise Unsupported("bitwise operation on non-bool tensors")
    return SymTensor(sh, lambda i: f(a.at(pick(a.pshape, i)), b.at(pick(b.pshape, i))), "b")


def powop(a, e):
    if isinstance(e, SymTensor):
        if e.ndim == 0:
            e = e.item()
        else:
            return binop(a, e, lambda x, y: T.fn("pow", x, y))
    if isinstance(e, float) and e == int(e):
        e = int(e)
    if isinstance(e, int):
        if e >= 0:
            return a.new(lambda i: T.pow_(a.at(i), e))
        return 1 / powop(a, -e)
    if e == 0.5:
        return a.sqrt()
    if e == -0.5:
        return 1 / a.sqrt()
    pe = P(e)
    return a.new(lambda i: T.fn("pow", to_real(a.at(i)), pe), "f")


def unary(name, t):
    return t.new(lambda i: T.fn(name, to_real(t.vat(i))), "f")


def lam_op(name, t, shape=None, kind="f", extra=()):
    """Uninterpreted whole-tensor operation: element = Fn(name)(λ t, extra.., idx..)."""
    L = lam_of(t)
    sort = {"f": "R", "i": "I", "b": "B"}[kind]
    sh = t.pshape if shape is None else shape

    def f(i):
        n = T.Fn(name, (L,) + tuple(extra) + tuple(i), sort)
        return n if sort == "B" else atom(n)
    return SymTensor(sh, f, kind)


def all_dims(t, dim):
    if dim is None:
        return list(range(t.ndim))
    if isinstance(dim, (tuple, list, EList)):
        return sorted(norm_dim(d, t.ndim) for d in dim)
    return [norm_dim(dim, t.ndim)]


def reduce_sum(t, dim, keepdim):
    if t.kind == "b":
        t = cast(t, "i")
    if t.ndim == 0:
        return t.clone()
    dims = all_dims(t, dim)
    keep = [k for k in range(t.ndim) if k not in dims]
    sh = [t.pshape[k] for k in keep] if not keepdim else \
        [ONE if k in dims else t.pshape[k] for k in range(t.ndim)]

    def f(i):
        idx = [None] * t.ndim
        if keepdim:
            for k in keep:
                idx[k] = i[k]
        else:
            for p_, k in enumerate(keep):
                idx[k] = i[p_]
        vs = []
        for k in dims:
            v = T.fresh("s")
            vs.append((v, t.pshape[k]))
            idx[k] = atom(v)
        r = t.at(idx)
        for v, n in reversed(vs):
            r = sum_(v, n, r)
        return r
    return SymTensor(sh, f, t.kind)


def quant(t, which, dim):
    """any/all as an uninterpreted predicate of the λ unless decidable pointwise."""
    if dim is not None:
        d = norm_dim(dim, t.ndim)
        keep = [k for k in range(t.ndim) if k != d]
        s = snapshot(t)
        n = t.pshape[d]

        def f(i):
            v = T.fresh("q")
            idx = list(i[:d]) + [atom(v)] + list(i[d:])
            b = s.at(idx)
            return quant_term(which, [v], [n], b)
        return SymTensor([t.pshape[k] for k in keep], f, "b")
    vs = [T.fresh("q") for _ in t.pshape]
    b = t.at([atom(v) for v in vs])
    c = quant_term(which, vs, list(t.pshape), b)
    return SymTensor([], lambda i: c, "b")


def quant_term(which, vs, ns, b):
    hyp = [in_range(atom(v), n) for v, n in zip(vs, ns)]
    from . import solver as S
    pc = ENG.pc + [h for h in hyp if h is not TRUE]
    d = S.decide(S.simplify(b, pc), pc) if b.k not in ("T", "F") else (b is TRUE)
    if which == "all" and d is True:
        return TRUE
    if which == "any" and d is False:
        return FALSE
    ok = S.decide(band(*[T.gt(n, ZERO) for n in ns]), ENG.pc) if ns else True
    if ok is True and d is not None:
        return TRUE if d else FALSE
    cnt = iverson(b)
    for v, n in reversed(list(zip(vs, ns))):
        cnt = sum_(v, n, cnt)
    tot = numel_poly(ns)
    if which == "any":
        return T.lt(num(0, "R"), cnt)
    return eq(cnt, to_real(tot))


class NamedPair(tuple):
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def red_op(name, t, dim, keepdim=False):
    if isinstance(dim, SymTensor):
        return binop(t, dim, T.imax if name == "max" else T.imin)
    if dim is None:
        L = lam_of(t)
        s = "R" if t.kind == "f" else "I"
        return SymTensor([], lambda i: T.fn(name, L, sort=s), t.kind)
    d = norm_dim(dim, t.ndim)
    vals = along(name, t, d, t.kind)
    idx = along("arg" + name, t, d, "i")
    if keepdim:
        vals, idx = vals.unsqueeze(d), idx.unsqueeze(d)
    return NamedPair((vals, idx))


def along(name, t, d, kind):
    keep = [k for k in range(t.ndim) if k != d]
    s = snapshot(t)
    n = t.pshape[d]

    def f(i):
        v = T.fresh("l")
        idx = list(i[:d]) + [atom(v)] + list(i[d:])
        return T.fn(name, T.lam([v], [n], s.vat(idx)), sort="R" if kind == "f" else "I")
    return SymTensor([t.pshape[k] for k in keep], f, kind)


def arg_op(name, t, dim):
    if dim is None:
        L = lam_of(t)
        return SymTensor([], lambda i: T.fn(name, L, sort="I"), "i")
    return along(name, t, norm_dim(dim, t.ndim), "i")


def argsort(t, dim=-1, descending=False):
    """Uninterpreted permutation; facts: a permutation of range(n) sorting the values."""
    d = norm_dim(dim, t.ndim)
    s = snapshot(t)
    n = t.pshape[d]
    name = "argsortd" if descending else "argsort"

    def f(i):
        v = T.fresh("l")
        idx = list(i[:d]) + [atom(v)] + list(i[d + 1:])
        return T.mk_app(name, (T.lam([v], [n], s.vat(idx)), i[d]), "I")
    return SymTensor(t.pshape, f, "i")


def dot(a, b):
    if a.ndim != 1 or b.ndim != 1:
        raise RuntimeError("1D tensors expected")
    need_eq(a.pshape[0], b.pshape[0], "dot")
    return (a * b).sum()


def need_eq(a, b, what):
    if same_dim(a, b):
        return
    if not ENG.branch(eq(a, b)):
        raise RuntimeError("%s: size mismatch, got %s and %s" % (what, wrap(a), wrap(b)))


def matmul(a, b, out=None):
    if out is not None:
        return out.copy_(matmul(a, b))
    if isinstance(a, Poison) or isinstance(b, Poison):
        (a if isinstance(a, Poison) else b).boom()
    a, b = as_tensor(a), as_tensor(b)
    if a.ndim == 0 or b.ndim == 0:
        raise RuntimeError("both arguments to matmul need to be at least 1D")
    a, b = cast(a, "f") if b.kind == "f" else a, cast(b, "f") if a.kind == "f" else b
    kd = a.kind
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    if b.ndim == 1:
        n = a.pshape[-1]
        need_eq(n, b.pshape[0], "matmul")
        sh = list(a.pshape[:-1])

        def f(i):
            v = T.fresh("m")
            return sum_(v, n, mul(a.at(list(i) + [atom(v)]), b.at([atom(v)])))
        return SymTensor(sh, f, kd)
    if a.ndim == 1:
        n = a.pshape[0]
        need_eq(n, b.pshape[-2], "matmul")

        def f(i):
            v = T.fresh("m")
            return sum_(v, n, mul(a.at([atom(v)]), b.at(list(i[:-1]) + [atom(v), i[-1]])))
        return SymTensor(list(b.pshape[:-2]) + [b.pshape[-1]], f, kd)
    n = a.pshape[-1]
    need_eq(n, b.pshape[-2], "matmul")
    lead = bshape(a.pshape[:-2], b.pshape[:-2])

    def f(i):
        v = T.fresh("m")
        ia = pick(a.pshape[:-2], list(i[:-2])) + [i[-2], atom(v)]
        ib = pick(b.pshape[:-2], list(i[:-2])) + [atom(v), i[-1]]
        return sum_(v, n, mul(a.at(ia), b.at(ib)))
    return SymTensor(lead + [a.pshape[-2], b.pshape[-1]], f, kd)


def einsum(spec, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple, EList)):
        ops = tuple(ops[0])
    spec = spec.replace(" ", "")
    ell = "..." in spec
    if ell:
        raise Unsupported("einsum ellipsis")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        cnt = {}
        for ch in ins.replace(",", ""):
            cnt[ch] = cnt.get(ch, 0) + 1
        out = "".join(sorted(c for c in cnt if cnt[c] == 1))
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise RuntimeError("einsum(): operand count mismatch")
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise RuntimeError("einsum(): the number of subscripts in the equation (%d) does not "
                               "match the number of dimensions (%d)" % (len(s), o.ndim))
        for ch, n in zip(s, o.pshape):
            if ch in dims:
                need_eq(dims[ch], n, "einsum")
            else:
                dims[ch] = n
    kd = "f" if any(o.kind == "f" for o in ops) else "i"
    snaps = [snapshot(cast(o, kd)) for o in ops]
    red = [c for c in dims if c not in out]

    def f(i):
        env = dict(zip(out, i))
        vs = []
        for c in red:
            v = T.fresh("e")
            vs.append((v, dims[c]))
            env[c] = atom(v)
        r = ONE if kd == "i" else RONE
        for s, o in zip(ins, snaps):
            r = mul(r, o.at([env[c] for c in s]))
        for v, n in reversed(vs):
            r = sum_(v, n, r)
        return r
    return SymTensor([dims[c] for c in out], f, kd)


def full(shape, v, kind=None):
    p = P(v) if not isinstance(v, bool) else None
    if isinstance(v, bool):
        c = TRUE if v else FALSE
        return SymTensor([P(s) for s in shape], lambda i: c, "b")
    k = kind or "f"
    for s in shape:
        if ENG.known(le(ZERO, P(s))) is False:
            raise RuntimeError("Trying to create tensor with negative dimension")
    return SymTensor([P(s) for s in shape], lambda i: to_real(p) if k == "f" else p, k)


def free_tensor(name, shape, kind="f", *args):
    """Arbitrary (universally quantified) tensor contents name(args.., idx..)."""
    sort = {"f": "R", "i": "I", "b": "B"}[kind]

    def f(i):
        n = T.mk_app(name, tuple(P(a) if not isinstance(a, Node) else a for a in args) + tuple(i), sort)
        return n
    return SymTensor([P(s) for s in shape], f, kind)


# ------------------------------------------------------------------ indexing
def clampidx(x, n, default):
    """Python slice bound normalisation against length n (Poly) -> Poly."""
    if x is None:
        return default
    p = P(x)
    c = as_const(p)
    if c is not None and c < 0 or (c is None and ENG.known(lt(p, ZERO)) is True):
        p = add(p, n)
        c = as_const(p)
        if ENG.known(lt(p, ZERO)) is not False:
            p = T.imax(p, ZERO)
    elif c is None and ENG.known(le(ZERO, p)) is not True:
        if ENG.branch(lt(p, ZERO)):
            p = T.imax(add(p, n), ZERO)
    if ENG.known(le(p, n)) is True:
        return p
    return ENG.simp(T.imin(p, n))


def getitem(t, key, for_write=False):
    if not isinstance(key, tuple):
        key = (key,)
    if isinstance(key, tuple) and any(isinstance(k, (list, EList)) for k in key):
        key = tuple(as_tensor(k) if isinstance(k, (list, EList)) else k for k in key)
    nspec = sum(1 for k in key if k is not None and k is not Ellipsis and
                not (isinstance(k, SymTensor) and k.kind == "b")) + \
        sum(k.ndim for k in key if isinstance(k, SymTensor) and k.kind == "b")
    if nspec > t.ndim:
        raise IndexError("too many indices for tensor of dimension %d" % t.ndim)
    full_key = []
    seen = False
    for k in key:
        if k is Ellipsis:
            full_key += [slice(None)] * (t.ndim - nspec)
            seen = True
        else:
            full_key.append(k)
    if not seen:
        full_key += [slice(None)] * (t.ndim - nspec)
    if any(isinstance(k, SymTensor) and not (k.kind == "i" and k.ndim == 0) for k in full_key):
        return adv_index(t, full_key, for_write)
    sh, plan = [], []      # plan per source dim: ('s', lo, viewdim) | ('i', idx)
    d = 0
    vdim = 0
    newaxes = []
    for k in full_key:
        if k is None:
            sh.append(ONE)
            newaxes.append(vdim)
            vdim += 1
            continue
        n = t.pshape[d]
        if isinstance(k, slice):
            st = 1 if k.step is None else k.step
            if st == 1:
                lo = clampidx(k.start, n, ZERO)
                hi = clampidx(k.stop, n, n)
                ln = ENG.simp(sub(hi, lo))
                if ENG.known(le(ZERO, ln)) is not True:
                    ln = ENG.simp(T.imax(ln, ZERO))
                plan.append(("s", lo, vdim, ln))
                sh.append(ln)
            elif isinstance(st, int) and st > 1:
                lo = clampidx(k.start, n, ZERO)
                hi = clampidx(k.stop, n, n)
                ln = ENG.simp(T.floordiv(add(sub(hi, lo), num(st - 1)), num(st)))
                plan.append(("t", lo, vdim, ln, st))
                sh.append(ln)
            elif st == -1 and k.start is None and k.stop is None:     # numpy only
                plan.append(("t", ENG.simp(sub(n, ONE)), vdim, n, -1))
                sh.append(n)
            else:
                raise Unsupported("slice step")
            vdim += 1
        else:
            p = P(k)
            if p.sort != "I":
                raise IndexError("only integers, slices, ... are valid indices")
            c = as_const(p)
            if c is not None and c < 0:
                p = add(p, n)
            elif c is None and ENG.known(le(ZERO, p)) is not True:
                if ENG.branch(lt(p, ZERO)):
                    p = add(p, n)
            ok = in_range(p, n)
            if ENG.known(ok) is not True:
                if not ENG.branch(ok):
                    raise IndexError("index %s is out of bounds for dimension with size %s"
                                     % (wrap(p), wrap(n)))
            plan.append(("i", p))
        d += 1

    def fwd(idx):
        r = []
        for pl in plan:
            if pl[0] == "s":
                r.append(add(pl[1], idx[pl[2]]))
            elif pl[0] == "t":
                r.append(add(pl[1], mul(num(pl[4]), idx[pl[2]])))
            else:
                r.append(pl[1])
        return r

    def inv(b):
        cond = TRUE
        out = [ZERO] * vdim
        for pl, bi in zip(plan, b):
            if pl[0] == "s":
                off = sub(bi, pl[1])
                cond = band(cond, le(ZERO, off), lt(off, pl[3]))
                out[pl[2]] = off
            elif pl[0] == "t":
                off = sub(bi, pl[1])
                q = T.floordiv(off, num(pl[4]))
                cond = band(cond, eq(mul(q, num(pl[4])), off), le(ZERO, off), lt(q, pl[3]))
                out[pl[2]] = q
            else:
                cond = band(cond, eq(bi, pl[1]))
        return cond, out
    return t.mkview(sh, fwd, inv)


def adv_index(t, key, for_write):
    ints = [(k, x) for k, x in enumerate(key) if isinstance(x, SymTensor)]
    if any(x.kind == "b" for _, x in ints):
        if len(ints) == 1 and for_write:
            k, m = ints[0]
            if k != 0 or any(not (isinstance(x, slice) and x == slice(None)) for x in key[1:]):
                raise Unsupported("mask assignment pattern")
            ms = snapshot(m)
            nd = m.ndim

            def doit(val):
                if val.ndim != 0:
                    raise Unsupported("mask assignment with tensor value")
                old = snapshot(t)
                vs = snapshot(val)
                t.write(lambda i: T.ite(ms.at(i[:nd]), vs.at(()), old.at(i)))
            return (t, doit)
        raise Unsupported("boolean mask indexing")
    if any(isinstance(x, int) for x in key):
        key = [as_tensor(x) if isnumlike(x) else x for x in key]
        ints = [(k, x) for k, x in enumerate(key) if isinstance(x, SymTensor)]
    if any(x is None for x in key):
        raise Unsupported("newaxis with advanced indexing")
    ish = []
    for _, x in ints:
        ish = bshape(ish, x.pshape)
    for k, x in enumerate(key):
        if isinstance(x, slice) and x != slice(None):
            raise Unsupported("slice mixed with advanced indexing")
    first = ints[0][0]
    contiguous = all(ints[j][0] == first + j for j in range(len(ints)))
    if not contiguous:
        first = 0
    rest = [k for k, x in enumerate(key) if not isinstance(x, SymTensor)]
    before = [k for k in rest if k < first] if contiguous else []
    after = [k for k in rest if k not in before]
    sh = [t.pshape[k] for k in before] + list(ish) + [t.pshape[k] for k in after]
    isn = [(k, snapshot(x), x.pshape) for k, x in ints]
    # bounds
    for k, x in ints:
        vs = [T.fresh("x") for _ in x.pshape]
        e = x.at([atom(v) for v in vs])
        ENG.check_under("index tensor within bounds", in_range(e, t.pshape[k]),
                        [in_range(atom(v), s) for v, s in zip(vs, x.pshape)])
    if for_write:
        if len(ints) == 1 and ints[0][1].ndim == 1:
            k0, sidx, _ = isn[0]
            n = ints[0][1].pshape[0]

            def doit(val):
                old = snapshot(t)
                vb = snapshot(broadcast_to(val, sh))
                to_real = (lambda p: p) if t.kind == "i" and val.kind == "i" else T.to_real

                def nb(i):
                    v = T.fresh("w")
                    hit = eq(sidx.at([atom(v)]), i[k0])
                    vi = list(i)
                    vi[k0] = atom(v)
                    g = sum_(v, n, iverson(hit))
                    w = sum_(v, n, mul(iverson(hit), to_real(vb.vat(vi))))
                    ENG.notes_add("indexed assignment: index tensor assumed duplicate-free")
                    return add(w, to_real(old.vat(i)), neg(mul(g, to_real(old.vat(i)))))
                t.write(nb)
            return (t, doit)
        raise Unsupported("advanced assignment")
    base = snapshot(t)
    nb, ni = len(before), len(ish)

    def f(i):
        src = [None] * t.ndim
        for p_, k in enumerate(before):
            src[k] = i[p_]
        for p_, k in enumerate(after):
            src[k] = i[nb + ni + p_]
        ii = list(i[nb:nb + ni])
        for k, sx, xs in isn:
            src[k] = sx.at(pick(xs, ii))
        return base.at(src)
    return SymTensor(sh, f, t.kind)


# ------------------------------------------------------------------ sequences
class Seg:
    """Symbolic run of `n` items, item(k Poly) -> value."""
    __slots__ = ("n", "item")

    def __init__(self, n, item):
        self.n, self.item = n, item


class EList:
    """Python list with a mutation log and symbolic segments."""

    def __init__(self, it=()):
        self.uid = ENG.new_uid()
        ENG.heap[self.uid] = self
        if isinstance(it, EList):
            self.items = list(it.items)
        elif isinstance(it, SymIter):
            self.items = [Seg(it.n, it.item)]
        elif isinstance(it, SymTensor):
            n = as_const(it.pshape[0])
            if n is None:
                s = snap_tensor(it)
                self.items = [Seg(it.pshape[0], lambda k: s[wrap(k)])]
            else:
                self.items = list(it)
        else:
            self.items = list(it)

    @classmethod
    def seq(cls, n, item):
        r = cls()
        c = as_const(n)
        if c is not None:
            r.items = [item(num(i)) for i in range(int(c))]
        else:
            r.items = [Seg(n, item)]
        return r

    def symbolic(self):
        return any(isinstance(x, Seg) for x in self.items)

    def as_seq(self):
        """(n, item) covering the whole list."""
        segs = []
        for x in self.items:
            if isinstance(x, Seg):
                segs.append(x)
            else:
                segs.append(Seg(ONE, lambda k, x=x: x))
        n = ZERO
        for s in segs:
            n = add(n, s.n)
        if len(segs) == 1:
            return segs[0].n, segs[0].item

        def item(k):
            off = ZERO
            for s in segs[:-1]:
                if ENG.branch(lt(k, add(off, s.n))):
                    return s.item(sub(k, off))
                off = add(off, s.n)
            return segs[-1].item(sub(k, off))
        return n, item

    def symlen(self):
        n = ZERO
        for x in self.items:
            n = add(n, x.n if isinstance(x, Seg) else ONE)
        return wrap(ENG.simp(n))

    def __len__(self):
        n = self.symlen()
        if isinstance(n, int):
            return n
        raise Unsupported("native len() of a symbolic list")

    def __iter__(self):
        if self.symbolic():
            raise Unsupported("native iteration over a symbolic list")
        return iter(self.items)

    def __bool__(self):
        n = self.symlen()
        return bool(n > 0)

    def mut(self):
        ENG.mutated(("list", self.uid))

    def append(self, x):
        self.items.append(x)
        self.mut()

    def extend(self, it):
        if isinstance(it, EList):
            self.items.extend(it.items)
        elif isinstance(it, SymIter):
            self.items.append(Seg(it.n, it.item))
        elif isinstance(it, SymTensor):
            self.items.extend(EList(it).items)
        else:
            self.items.extend(list(it))
        self.mut()

    def __iadd__(self, o):
        self.extend(o)
        return self

    def insert(self, k, x):
        if self.symbolic() and k != 0:
            raise Unsupported("insert into symbolic list")
        self.items.insert(k, x)
        self.mut()

    def pop(self, k=-1):
        if self.symbolic() and isinstance(self.items[k], Seg):
            raise Unsupported("pop from symbolic list")
        r = self.items.pop(k)
        self.mut()
        return r

    def clear(self):
        self.items = []
        self.mut()

    def copy(self):
        return EList(self)

    def reverse(self):
        self.items = EList(srev(self)).items
        self.mut()

    def sort(self, key=None, reverse=False):
        if self.symbolic():
            raise Unsupported("sort of symbolic list")
        self.items.sort(key=key, reverse=reverse)
        self.mut()

    def index(self, x):
        for i, y in enumerate(self):
            if y is x or bool(y == x):
                return i
        raise ValueError("not in list")

    def count(self, x):
        return sum(1 for y in self if bool(y == x))

    def remove(self, x):
        self.items.pop(self.index(x))
        self.mut()

    def __contains__(self, x):
        if not self.symbolic():
            return any(y is x or bool(y == x) for y in self.items)
        raise Unsupported("membership in symbolic list")

    def __getitem__(self, k):
        if isinstance(k, slice):
            if not self.symbolic():
                if all(isinstance(v, (int, type(None))) for v in (k.start, k.stop, k.step)):
                    return EList(self.items[k])
            n, item = self.as_seq()
            if k.step not in (None, 1):
                if k.step == -1 and k.start is None and k.stop is None:
                    return EList.seq(n, lambda j: item(sub(sub(n, ONE), j)))
                raise Unsupported("list slice step")
            lo = clampidx(k.start, n, ZERO)
            hi = clampidx(k.stop, n, n)
            ln = ENG.simp(T.imax(sub(hi, lo), ZERO))
            return EList.seq(ln, lambda j: item(add(lo, j)))
        if isinstance(k, SymTensor):
            k = k.item()
        if isinstance(k, int) and not self.symbolic():
            return self.items[k]
        if isinstance(k, int) and k >= 0 and all(not isinstance(x, Seg) for x in self.items[:k + 1]) \
                and k < len(self.items):
            return self.items[k]
        if isinstance(k, int) and k < 0 and -k <= len(self.items) and \
                all(not isinstance(x, Seg) for x in self.items[k:]):
            return self.items[k]
        n, item = self.as_seq()
        p = P(k)
        if as_const(p) is not None and as_const(p) < 0:
            p = add(p, n)
        elif as_const(p) is None and ENG.known(le(ZERO, p)) is not True:
            if ENG.branch(lt(p, ZERO)):
                p = add(p, n)
        if ENG.known(in_range(p, n)) is not True:
            if not ENG.branch(in_range(p, n)):
                raise IndexError("list index out of range")
        if not self.symbolic():
            # concrete list, symbolic index
            its = self.items
            for j in range(len(its)):
                if ENG.branch(eq(p, num(j))):
                    return its[j]
            raise IndexError("list index out of range")
        return item(p)

    def __setitem__(self, k, v):
        if isinstance(k, int) and not self.symbolic():
            if isinstance(v, SymTensor) and self.items[k] is v:
                return      # x[k] += t: the tensor itself was updated
            self.items[k] = v
            self.mut()
            return
        if isinstance(k, slice):
            if not self.symbolic():
                self.items[k] = list(v)
                self.mut()
                return
            raise Unsupported("slice assignment on symbolic list")
        n, item = self.as_seq()
        p = P(k)
        if as_const(p) is not None and as_const(p) < 0:
            p = add(p, n)
        if ENG.known(in_range(p, n)) is not True:
            if not ENG.branch(in_range(p, n)):
                raise IndexError("list assignment index out of range")

        def item2(j):
            return val_ite(eq(j, p), v, item(j))
        self.items = [Seg(n, item2)]
        self.mut()

    def __add__(self, o):
        if isinstance(o, (list, EList)):
            r = EList(self)
            r.items = r.items + (list(o.items) if isinstance(o, EList) else list(o))
            return r
        return NotImplemented

    def __radd__(self, o):
        return EList(o) + self

    def __mul__(self, k):
        if isinstance(k, int):
            r = EList()
            r.items = self.items * k
            return r
        if isinstance(k, SNum) and len(self.items) == 1 and not self.symbolic():
            x = self.items[0]
            return EList.seq(k.p, lambda j: x)
        raise Unsupported("list repetition")
    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (list, EList)):
            a, b = self, (o if isinstance(o, EList) else EList(o))
            if a.symbolic() or b.symbolic():
                raise Unsupported("equality of symbolic lists")
            if len(a.items) != len(b.items):
                return False
            return all(bool(x == y) for x, y in zip(a.items, b.items))
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __repr__(self):
        return "EList(%s)" % (["Seg(%s)" % T.show(x.n) if isinstance(x, Seg) else x
                               for x in self.items],)


def snap_tensor(t):
    return t.clone()


def val_ite(c, a, b):
    """Conditional value; numbers and same-shape tensors only."""
    d = ENG.known(c)
    if d is True:
        return a
    if d is False:
        return b
    if isnumlike(a) and isnumlike(b):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            ca, cb = boolterm(a), boolterm(b)
            return wrapb(bor(band(c, ca), band(bnot(c), cb)))
        return wrap(T.ite(c, P(a), P(b)))
    if isinstance(a, SymTensor) and isinstance(b, SymTensor) and a.ndim == b.ndim and \
            all(same_dim(x, y) for x, y in zip(a.pshape, b.pshape)):
        sa, sb = snapshot(a), snapshot(b)
        if a.kind == "b":
            return SymTensor(a.pshape, lambda i: bor(band(c, sa.at(i)), band(bnot(c), sb.at(i))), "b")
        return SymTensor(a.pshape, lambda i: T.ite(c, sa.at(i), sb.at(i)), a.kind)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(val_ite(c, x, y) for x, y in zip(a, b))
    return a if ENG.branch(c) else b


class EDict(dict):
    """dict with concrete keys and a mutation log."""

    def __init__(self, *a, **k):
        dict.__init__(self)
        self.uid = ENG.new_uid()
        ENG.heap[self.uid] = self
        self.default_factory = None
        self.fam = []           # runs of entries lo, lo+1, ..., lo+n-1 -> item(key)
        if a:
            src = a[0]
            if isinstance(src, dict):
                dict.update(self, src)
                self.fam = list(getattr(src, "fam", []))
            else:
                for x in src:
                    kk, vv = x
                    dict.__setitem__(self, kk, vv)
        dict.update(self, k)

    def mut(self):
        ENG.mutated(("dict", self.uid))

    def family(self, k):
        """position of the run that holds key k, or None"""
        if self.fam and (isinstance(k, SNum) or type(k) is int):
            for q, (lo, n, item) in enumerate(self.fam):
                if ENG.branch(in_range(sub(P(k), lo), n)):
                    return q
        return None

    def only_concrete(self):
        if self.fam:
            raise Unsupported("dict filled by a loop")

    def __setitem__(self, k, v):
        q = self.family(k)
        if q is not None:
            lo, n, item = self.fam[q]
            self.fam = list(self.fam)
            self.fam[q] = (lo, n, lambda j: val_ite(eq(j, P(k)), v, item(j)))
            self.mut()
            return
        if isinstance(k, SNum):
            k = conc_key(self, k)
        dict.__setitem__(self, k, v)
        self.mut()

    def _seq(self, f):
        """the entries in insertion order (runs before the entries added after them)"""
        if dict.__len__(self) or len(self.fam) != 1:
            raise Unsupported("iteration over a dict filled by a loop")
        lo, n, item = self.fam[0]
        return EList.seq(n, lambda j: f(wrap(add(lo, j)), item(add(lo, j))))

    def keys(self):
        return self._seq(lambda k, v: k) if self.fam else dict.keys(self)

    def values(self):
        return self._seq(lambda k, v: v) if self.fam else dict.values(self)

    def items(self):
        return self._seq(lambda k, v: (k, v)) if self.fam else dict.items(self)

    def symlen(self):
        r = num(dict.__len__(self))
        for lo, n, item in self.fam:
            r = add(r, n)
        return wrap(r)

    def __symseq__(self):
        return (self.fam[0][1], self._seq(lambda k, v: k).as_seq()[1]) if self.fam else None

    def __len__(self):
        self.only_concrete()
        return dict.__len__(self)

    def __bool__(self):
        if dict.__len__(self):
            return True
        return any(ENG.branch(lt(ZERO, n)) for lo, n, item in self.fam)

    def __getitem__(self, k):
        q = self.family(k)
        if q is not None:
            return self.fam[q][2](P(k))
        if isinstance(k, SNum):
            k = conc_key(self, k)
        if k not in self and self.default_factory is not None:
            self[k] = self.default_factory()
        return dict.__getitem__(self, k)

    def __delitem__(self, k):
        self.only_concrete()
        dict.__delitem__(self, k)
        self.mut()

    def pop(self, *a):
        self.only_concrete()
        r = dict.pop(self, *a)
        self.mut()
        return r

    def update(self, *a, **k):
        if a and getattr(a[0], "fam", None):
            raise Unsupported("dict filled by a loop")
        dict.update(self, *a, **k)
        self.mut()

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def clear(self):
        dict.clear(self)
        self.fam = []
        self.mut()

    def popitem(self):
        self.only_concrete()
        r = dict.popitem(self)
        self.mut()
        return r

    def copy(self):
        return EDict(self)

    def __or__(self, o):
        if getattr(o, "fam", None):
            raise Unsupported("dict filled by a loop")
        r = EDict(self)
        dict.update(r, o)
        return r

    def __contains__(self, k):
        if self.family(k) is not None:
            return True
        if isinstance(k, SNum):
            for q in dict.keys(self):
                if bool(k == q):
                    return True
            return False
        return dict.__contains__(self, k)

    def get(self, k, d=None):
        return self[k] if k in self else d

    __hash__ = None


def conc_key(d, k):
    c = as_const(ENG.simp(k.p))
    if c is not None:
        return int(c)
    for q in dict.keys(d):
        if q is k or (isinstance(q, SNum) and q.p is k.p):
            return q
        if isinstance(q, (int, SNum)) and bool(k == q):
            return q
    return k


class SymIter:
    """Symbolic-length iterable: n items item(k)."""

    def __init__(self, n, item, finite=True):
        self.n, self.item = n, item

    def symlen(self):
        return wrap(self.n)

    def __iter__(self):
        c = as_const(self.n)
        if c is None:
            raise Unsupported("native iteration over a symbolic sequence")
        return iter([self.item(num(i)) for i in range(int(c))])

    def __len__(self):
        c = as_const(self.n)
        if c is None:
            raise Unsupported("native len of symbolic sequence")
        return int(c)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return EList(self)[k]
        p = P(k)
        if as_const(p) is not None and as_const(p) < 0:
            p = add(p, self.n)
        if ENG.known(in_range(p, self.n)) is not True:
            if not ENG.branch(in_range(p, self.n)):
                raise IndexError("range object index out of range")
        return self.item(p)


class NpVector(SymTensor):
    """a 1-D numpy array: its elements are numbers, not 0-d tensors"""


def seq_of(it):
    """(n, item) for a symbolic iterable, or None when it is natively iterable."""
    if isinstance(it, SymIter):
        return (it.n, it.item) if as_const(it.n) is None else None
    if isinstance(it, EList):
        return it.as_seq() if it.symbolic() else None
    if isinstance(it, SymTensor):
        if it.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        if as_const(it.pshape[0]) is not None:
            return None
        if isinstance(it, NpVector):
            sn = snapshot(it)
            return it.pshape[0], (lambda k: wrap(sn.at([k])))
        return it.pshape[0], (lambda k: it[wrap(k)])
    f = getattr(it, "__symseq__", None)
    if f is not None:
        r = f()
        if r is not None and as_const(r[0]) is not None:
            n = int(as_const(r[0]))
            return None
        return r
    return None


def conc_iter(it):
    f = getattr(it, "__symseq__", None)
    r = f() if f is not None else None
    if r is not None:
        n, item = r
        n = int(as_const(n))
        return iter([item(num(i)) for i in range(n)])
    return iter(it)


def srev(x):
    s = seq_of(x)
    if s is None:
        return list(reversed(list(x)))
    n, item = s
    return SymIter(n, lambda k: item(sub(sub(n, ONE), k)))


class SymSet:
    """{item(k) : k < n, cond(k)} with a symbolic n."""

    def __init__(self, n, item, cond=None, has=None):
        self.n, self.item, self.cond = n, item, cond or (lambda k: T.TRUE)
        self._has = has

    def has(self, x):
        if self._has is not None:
            return self._has(x)
        v = T.fresh("e")
        k = atom(v)
        return lt(ZERO, sum_(v, self.n, iverson(band(self.cond(k), eq(P(self.item(k)), x)))))

    def only(self, other, keep):
        """the elements in (keep) or not in the other set"""
        o = other.has if isinstance(other, SymSet) else None
        if o is None:
            els = [P(x) for x in other]

            def o(x):
                r = T.FALSE
                for e in els:
                    r = bor(r, eq(e, x))
                return r
        f = o if keep else (lambda x: bnot(o(x)))
        return SymSet(self.n, self.item, lambda k: band(self.cond(k), f(P(self.item(k)))),
                      lambda x: band(self.has(x), f(x)))

    def intersection(self, o):
        return self.only(o, True)
    __and__ = intersection

    def difference(self, o):
        return self.only(o, False)
    __sub__ = difference

    def __contains__(self, x):
        return ENG.branch(self.has(P(x)))

    def symlen(self):
        a, b = T.fresh("e"), T.fresh("e")
        x, y = atom(a), atom(b)
        hyp = band(T.in_range(x, self.n), T.in_range(y, self.n))
        ENG.check("the counted elements are distinct", T.implies(
            band(hyp, eq(P(self.item(x)), P(self.item(y)))), eq(x, y)))
        v = T.fresh("e")
        return wrap(sum_(v, self.n, iverson(self.cond(atom(v)))))


class Nonzero:
    """the positions at which a vector is true"""

    def __init__(self, n, cond):
        self.n, self.cond = n, cond

    def numpy(self):
        return self
    cpu = tolist = numpy

    def symset(self):
        return SymSet(self.n, lambda k: k, self.cond, lambda x: band(T.in_range(x, self.n), self.cond(x)))


class SetList:
    """list(set): the elements in an unknown order"""

    def __init__(self, s):
        self.s = s

    def symset(self):
        return self.s

    def symlen(self):
        return self.s.symlen()


def make_set(x=()):
    if isinstance(x, SymSet):
        return x
    f = getattr(x, "symset", None)
    if f is not None:
        return f()
    s = seq_of(x)
    if s is None:
        return set(conc_iter(x))
    if isinstance(x, SymTensor):
        sn = snapshot(x)
        return SymSet(s[0], lambda k: sn.at([k]))
    return SymSet(*s)


TOKENS = {}          # text of a symbolic number -> its term (file names, lines of text)


def token(p):
    c = as_const(p)
    if c is not None and p.sort == "I":
        return str(int(c))
    t = T.show(p)
    t = "<%s>" % t if len(t) < 60 else "<%s~%d>" % (t[:50], p.uid if hasattr(p, "uid") else hash(p))
    while TOKENS.get(t, p) is not p:
        t = t[:-1] + "'>"
    TOKENS[t] = p
    return t


def split_text(s):
    """text and the numbers in it: [text, token, text, token, ..., text]"""
    out = [""]
    i = 0
    while i < len(s):
        t = None
        if s[i] == "<":
            for j in range(i + 1, len(s)):
                if s[j] == ">" and s[i:j + 1] in TOKENS:
                    t = s[i:j + 1]
                    break
        if t is None:
            out[-1] += s[i]
            i += 1
        else:
            out += [t, ""]
            i += len(t)
    return out


class Text:
    """sep.join(item(k) for k < n)"""

    def __init__(self, sep, n, item):
        self.sep, self.n, self.item = sep, n, item

    def splitlines(self):
        if self.sep != "\n":
            raise Unsupported("splitlines")
        return EList.seq(self.n, self.item)

    def split(self, sep=None):
        if sep not in (None, self.sep) or self.sep.strip() and sep is None:
            raise Unsupported("split")
        return EList.seq(self.n, self.item)


def join(sep, xs):
    s = seq_of(xs)
    return Text(sep, *s) if s is not None else sep.join(conc_iter(xs))
