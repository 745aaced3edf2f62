"""Builtin overrides, engine API used by instrumented code, world construction."""
from __future__ import annotations
import builtins, operator, copy as _copy, types, collections
from . import terms as T
from .terms import ZERO, ONE, TRUE, FALSE, atom, as_const, add, sub, mul, eq, lt, le, num
from . import core, sym, loops, tstub, instrument
from .core import ENG, Unsupported
from .sym import (SNum, SBool, SymTensor, EList, EDict, SymIter, P, wrap, wrapb, isnumlike, seq_of,
                  boolterm, Poison)


class API:
    def enter(self, q):
        ENG.called.add(q)

    def loop(self, it, sid, locs, mods):
        return loops.Loop(ENG, it, sid, locs, mods)

    def tick(self, sid):
        n = ENG.ticks.get(sid, 0) + 1
        ENG.ticks[sid] = n
        if n > 400:
            raise Unsupported("while loop without a summary: %s" % sid)

    def join(self, sep, xs):
        return sym.join(sep, xs)

    def starlist(self, parts):
        r = EList()
        for star, x in parts:
            r.extend(x) if star else r.append(x)
        return r

    def mklist(self, x):
        return EList(x or ())

    def mkdict(self, x):
        return EDict(x or {})

    def filtered(self, kind, it, elt, *conds):
        return loops.filtered(kind, it, elt, *conds)

    def member(self, x, coll):
        return loops.member(x, coll)

    def lnot(self, x):
        return loops.lnot(x)

    def mkset(self, x):
        return set()

    def setattr(self, o, n, v):
        ENG.setattr(o, n, v)

    def aug(self, op, a, b):
        return {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul,
                "Div": operator.itruediv, "FloorDiv": operator.ifloordiv, "Mod": operator.imod,
                "Pow": operator.ipow, "MatMult": operator.imatmul, "BitOr": operator.ior,
                "BitAnd": operator.iand}[op](a, b)


def b_len(x):
    f = getattr(x, "symlen", None) or getattr(x, "__symlen__", None)
    if f is not None:
        return f()
    m = getattr(type(x), "__len__", None)
    if m is None:
        raise TypeError("object of type %r has no len()" % type(x).__name__)
    return m(x)          # may be symbolic when the real __len__ returns one


def b_range(*a):
    a = [x.item() if isinstance(x, SymTensor) else x for x in a]
    if builtins.all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    for x in a:
        if not isnumlike(x) or (isinstance(x, SNum) and not x.isint) or isinstance(x, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
    lo, hi, st = 0, None, 1
    if builtins.len(a) == 1:
        hi = a[0]
    else:
        lo, hi = a[0], a[1]
        if builtins.len(a) == 3:
            st = a[2]
    lo_, hi_, st_ = P(lo), P(hi), P(st)
    c = as_const(st_)
    if c == 1:
        n = sub(hi_, lo_)
    elif c is not None and c < 0:
        n = T.floordiv(add(sub(lo_, hi_), num(-c - 1)), num(-c))
    else:
        if ENG.known(lt(ZERO, st_)) is not True:
            if ENG.branch(lt(ZERO, st_)) is False:
                raise Unsupported("range with a non-positive step")
        n = T.floordiv(add(sub(hi_, lo_), sub(st_, ONE)), st_)
    n = ENG.simp(n)
    if ENG.known(le(ZERO, n)) is not True:
        n = ENG.simp(T.imax(n, ZERO))
    return SymRange(n, lambda k: wrap(add(lo_, mul(st_, k))), lo_, hi_, st_)


class SymRange(SymIter):
    def __init__(self, n, item, lo, hi, st):
        SymIter.__init__(self, n, item)
        self.lo, self.hi, self.st = lo, hi, st

    def __contains__(self, x):
        if as_const(self.st) == 1:
            return bool(wrapb(T.band(le(self.lo, P(x)), lt(P(x), self.hi))))
        raise Unsupported("membership in stepped range")


def sym_or_native(*its):
    return builtins.any(seq_of(x) is not None for x in its)


def b_enumerate(it, start=0):
    s = seq_of(it)
    if s is None:
        return builtins.enumerate(sym.conc_iter(it), start)
    n, item = s
    return SymIter(n, lambda k: (wrap(add(k, P(start))), item(k)))


def b_zip(*its, strict=False):
    ss = [seq_of(x) for x in its]
    if builtins.all(s is None for s in ss):
        return builtins.zip(*[sym.conc_iter(x) for x in its])
    items, n = [], None
    for x, s in builtins.zip(its, ss):
        if s is None:
            x = EList(x)
            s = (P(x.symlen()), (lambda k, x=x: x[wrap(k)]))
        items.append(s[1])
        n = s[0] if n is None else (n if sym.same_dim(n, s[0]) else ENG.simp(T.imin(n, s[0])))
    return SymIter(n, lambda k: tuple(f(k) for f in items))


def b_map(f, *its):
    if not sym_or_native(*its):
        return EList([f(*a) for a in b_zip(*its)])
    z = b_zip(*its)
    return SymIter(z.n, lambda k: f(*z.item(k)))


def b_reversed(x):
    s = seq_of(x)
    if s is None:
        return builtins.reversed(x) if not isinstance(x, EList) else builtins.reversed(x.items)
    return sym.srev(x)


def minmax(name, f):
    def g(*a, key=None, default=None):
        if builtins.len(a) == 1:
            s = seq_of(a[0])
            if s is not None:
                n, item = s
                k = T.fresh("m")
                L = T.lam([k], [n], P(item(atom(k))))
                return SNum(T.fn(name, L, sort="R" if P(item(atom(k))).sort == "R" else "I"))
            a = list(a[0])
            if not a:
                if default is not None:
                    return default
                raise ValueError("%s() arg is an empty sequence" % name)
        if key is not None or not builtins.all(isnumlike(x) or isinstance(x, SymTensor) for x in a):
            return getattr(builtins, name)(a, key=key)
        if builtins.all(isinstance(x, (int, float)) for x in a):
            return getattr(builtins, name)(a)
        r = a[0]
        for x in a[1:]:
            if isinstance(x, float) and x in (float("inf"), float("-inf")):
                if (x > 0) == (name == "min"):
                    continue
                return x
            if isinstance(r, float) and r in (float("inf"), float("-inf")):
                if (r > 0) == (name == "min"):
                    r = x
                    continue
                return r
            r = wrap(ENG.simp(f(P(r), P(x))))
        return r
    return g


def b_sum(it, start=0):
    s = seq_of(it)
    if s is None:
        r = start
        for x in it:
            r = r + x
        return r
    n, item = s
    if isinstance(it, EList) and builtins.len(it.items) > 1:
        raise Unsupported("sum of a mixed symbolic list")
    k = T.fresh("s")
    saved = list(ENG.pc)
    ENG.assume(T.in_range(atom(k), n))
    v = item(atom(k))
    if isinstance(v, SymTensor):
        sn = sym.snapshot(v)
        if builtins.any(k in T.fv(x) for x in v.pshape):
            raise Unsupported("sum of tensors of varying shape")
        ENG.pc = saved
        return SymTensor(v.pshape, lambda i: T.sum_(k, n, sn.at(i)), v.kind) + start
    p = P(v)
    ENG.pc = saved
    return wrap(ENG.simp(add(P(start), T.sum_(k, n, p))))


def quant(which):
    def g(it):
        s = seq_of(it)
        if s is None:
            for x in it:
                if bool(x) != (which == "all"):
                    return which == "any"
            return which == "all"
        n, item = s
        k = T.fresh("q")
        saved = list(ENG.pc)
        ENG.assume(T.in_range(atom(k), n))
        b = boolterm(item(atom(k)))
        ENG.pc = saved
        return wrapb(sym.quant_term(which, [k], [n], b))
    return g


TYPEMAP = {}


class MetaList(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.list, EList))


def b_isinstance(x, t):
    if builtins.isinstance(t, tuple):
        return builtins.any(b_isinstance(x, y) for y in t)
    if t is builtins.int or t is b_int:
        return builtins.isinstance(x, (int, SBool)) or (builtins.isinstance(x, SNum) and x.isint)
    if t is builtins.float or t is b_float:
        return builtins.isinstance(x, float) or (builtins.isinstance(x, SNum) and not x.isint)
    if t is builtins.bool or t is b_bool:
        return builtins.isinstance(x, (bool, SBool))
    if t is builtins.list or t is b_list:
        return builtins.isinstance(x, (builtins.list, EList))
    if t is builtins.dict or t is b_dict:
        return builtins.isinstance(x, dict)
    if t is builtins.tuple or t is b_tuple:
        return builtins.isinstance(x, builtins.tuple) and not builtins.isinstance(x, sym.Size) or \
            builtins.isinstance(x, sym.Size)
    try:
        return builtins.isinstance(x, t)
    except TypeError:
        if builtins.isinstance(t, types.UnionType):
            return builtins.any(b_isinstance(x, y) for y in t.__args__)
        raise


class _Ty(type):
    def __instancecheck__(cls, x):
        return b_isinstance(x, cls)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class b_int(metaclass=_Ty):
    _real = int

    def __new__(cls, x=0, *a):
        if isinstance(x, str) and x in sym.TOKENS:
            return wrap(sym.TOKENS[x])
        if isinstance(x, SNum):
            if x.isint:
                return x
            d = tstub.ratio(x.p)
            if d is not None and ENG.known(le(num(0, "R"), x.p)) is True:
                return sym.sfloordiv(wrap(d[0]), wrap(d[1]))
            if ENG.known(le(num(0, "R"), x.p)) is True:
                return SNum(T.fn("floor", x.p, sort="I"))
            return SNum(T.fn("trunc", x.p, sort="I"))
        if isinstance(x, SBool):
            return wrap(T.ite_int(x.c, ONE, ZERO))
        if isinstance(x, SymTensor):
            return b_int(x.item())
        return builtins.int(x, *a)


class b_float(metaclass=_Ty):
    _real = float

    def __new__(cls, x=0.0):
        if isinstance(x, SNum):
            return SNum(T.to_real(x.p))
        if isinstance(x, SBool):
            return SNum(T.to_real(P(x)))
        if isinstance(x, SymTensor):
            return b_float(x.item())
        return builtins.float(x)


class b_bool(metaclass=_Ty):
    _real = bool

    def __new__(cls, x=False):
        if isinstance(x, SBool):
            return x
        if isinstance(x, SNum):
            return wrapb(boolterm(x))
        return builtins.bool(x)


class b_list(metaclass=_Ty):
    _real = list

    def __new__(cls, it=()):
        if isinstance(it, sym.SymSet):
            return sym.SetList(it)
        s = seq_of(it)
        if s is not None and not isinstance(it, EList):
            return EList.seq(*s)
        if not isinstance(it, EList) and hasattr(it, "__symseq__"):
            return EList(list(sym.conc_iter(it)))
        return EList(it)

    def __class_getitem__(cls, k):
        return list


class b_dict(metaclass=_Ty):
    _real = dict

    def __new__(cls, *a, **k):
        return EDict(*a, **k)

    @staticmethod
    def fromkeys(it, v=None):
        return EDict({k: v for k in it})

    def __class_getitem__(cls, k):
        return dict


class b_tuple(metaclass=_Ty):
    _real = tuple

    def __new__(cls, it=()):
        s = seq_of(it)
        if s is not None:
            return EList.seq(*s)       # immutable view of a symbolic run
        return builtins.tuple(sym.conc_iter(it) if not isinstance(it, EList) else it.items)

    def __class_getitem__(cls, k):
        return tuple


class b_set(metaclass=_Ty):
    _real = set

    def __new__(cls, it=()):
        return sym.make_set(it)

    def __class_getitem__(cls, k):
        return set


def b_abs(x):
    return builtins.abs(x)


def b_sorted(it, key=None, reverse=False):
    s = seq_of(it)
    if s is not None:
        n, item = s
        j = T.atom(T.fresh("j"))
        if key is None and not reverse and isinstance(item(j), sym.SNum):
            pc = ENG.pc + [T.in_range(j, T.sub(n, T.ONE))]
            if core.S.prove(T.le(P(item(j)), P(item(T.add(j, T.ONE)))), pc):
                return EList.seq(n, item)           # already in order
        raise Unsupported("sorted of a symbolic sequence")
    return EList(builtins.sorted(it, key=key, reverse=reverse))


def b_next(it, *d):
    if hasattr(it, "__symseq__") or isinstance(it, SymIter):
        raise Unsupported("next on symbolic iterator")
    if isinstance(it, FirstOf):
        return it.first(*d)
    if isinstance(it, EList):
        it = iter(it)
    return builtins.next(it, *d)


class FirstOf:
    """iter() of a symbolic sequence: a position that next() advances."""

    def __init__(self, s):
        self.s = s
        self.pos = 0

    def first(self, *default):
        n, item = self.s
        p = P(self.pos)
        if not ENG.branch(lt(p, n)):
            if default:
                return default[0]
            raise StopIteration
        ENG.setattr(self, "pos", wrap(add(p, ONE)))
        return item(p)


def b_iter(x, *a):
    s = seq_of(x) if not a else None
    if s is not None:
        it = FirstOf(s)
        ENG.obj_uid(it)
        return it
    return builtins.iter(sym.conc_iter(x)) if not a else builtins.iter(x, *a)


def b_round(x, n=None):
    return builtins.round(x, n) if n is not None else builtins.round(x)


def b_setattr(o, n, v):
    ENG.setattr(o, n, v)


def b_type(*a):
    if builtins.len(a) == 1:
        t = builtins.type(a[0])
        return {EList: b_list, EDict: b_dict, SNum: b_int if getattr(a[0], "isint", False) else b_float
                }.get(t, t)
    return builtins.type(*a)


class BT(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, type)


def b_filter(f, it):
    return EList([x for x in it if bool(f(x) if f else x)])


def b_print(*a, **k):
    return None


OVERRIDES = {
    "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "map": b_map,
    "reversed": b_reversed, "min": minmax("min", T.imin), "max": minmax("max", T.imax),
    "sum": b_sum, "any": quant("any"), "all": quant("all"), "isinstance": b_isinstance,
    "int": b_int, "float": b_float, "bool": b_bool, "list": b_list, "dict": b_dict,
    "tuple": b_tuple, "sorted": b_sorted, "next": b_next, "iter": b_iter, "setattr": b_setattr,
    "set": b_set, "print": b_print, "filter": b_filter,
}


def deepcopy(x, memo=None):
    if isinstance(x, SymTensor):
        return x.clone()
    if isinstance(x, EList):
        if x.symbolic():
            return EList(x)
        return EList([deepcopy(y) for y in x])
    if isinstance(x, dict):
        d = EDict()
        for k in dict.keys(x):
            dict.__setitem__(d, k, deepcopy(dict.__getitem__(x, k)))
        return d
    if isinstance(x, tuple):
        return tuple(deepcopy(y) for y in x)
    if x is None or isinstance(x, (int, float, str, SNum, SBool, types.FunctionType)):
        return x
    raise Unsupported("deepcopy of %s" % type(x).__name__)


def make_world(extra=None):
    stubs = {}
    stubs["torch"] = tstub.make_torch()
    stubs["numpy"] = tstub.make_numpy()
    stubs["math"] = tstub.make_math()
    tq = tstub.stub("tqdm")
    tq.tqdm = tstub.tqdm_
    tq.trange = lambda *a, **k: b_range(*a)
    stubs["tqdm"] = tq
    au = tstub.stub("tqdm.auto")
    au.tqdm = tstub.tqdm_
    tq.auto = au
    for n in ("scipy", "yaml", "sklearn", "torchvision", "requests", "transformers", "datasets",
              "pretty_midi", "tiktoken", "fast_jl", "sjlt", "pandas", "matplotlib", "accelerate"):
        stubs[n] = tstub.stub(n)
    sc = stubs["scipy"]
    sc.stats = tstub.stub("scipy.stats")
    pyd = tstub.stub("pydantic")

    class BaseModel:
        def __init__(self, **k):
            for c in reversed(type(self).__mro__):
                for n, v in c.__dict__.items():
                    if not n.startswith("_") and not callable(v) and not isinstance(
                            v, (classmethod, staticmethod, property)):
                        setattr(self, n, v)
            for n, v in k.items():
                setattr(self, n, v)
        def model_dump(self):
            d = EDict()
            for c in reversed(type(self).__mro__):
                for n in c.__dict__.get("__annotations__", {}):
                    dict.__setitem__(d, n, getattr(self, n))
            return d

        def __iter__(self):
            return iter(list(self.__dict__.items()))

        def model_copy(self, update=None, deep=False):
            r = object.__new__(type(self))
            r.__dict__.update(self.__dict__)
            for n, v in (update or {}).items():
                setattr(r, n, v)
            return r

        @classmethod
        def model_validate(cls, d):
            return cls(**d)
    pyd.BaseModel = BaseModel
    pyd.ConfigDict = lambda **k: k
    pyd.field_validator = lambda *a, **k: (lambda f: f)
    stubs["pydantic"] = pyd
    w = tstub.stub("warnings")
    w.warn = lambda *a, **k: None
    import contextlib as _cl
    w.catch_warnings = lambda *a, **k: _cl.nullcontext()
    w.simplefilter = w.filterwarnings = lambda *a, **k: None
    stubs["warnings"] = w
    cp = tstub.stub("copy")
    cp.deepcopy, cp.copy = deepcopy, _copy.copy
    stubs["copy"] = cp
    co = tstub.stub("collections")
    co.defaultdict = lambda f=None, *a: _dd(f)
    co.OrderedDict = b_dict
    import collections.abc
    co.abc = collections.abc
    co.namedtuple = collections.namedtuple
    stubs["collections"] = co
    if extra:
        stubs.update(extra)
    return instrument.World(stubs, OVERRIDES)


def _dd(f):
    d = EDict()
    d.default_factory = f
    return d


instrument.ENG_API = API()
core.Engine.ticks = {}
_sp = core.Engine.start_path


def start_path(self, trace):
    _sp(self, trace)
    self.ticks = {}


core.Engine.start_path = start_path
