"""P10: parameter vectors (flatten, unflatten, partial parameters)."""
from contracts.lib import *
from engine import tstub
from engine.core import ENG

M = "dattri/func/utils.py::"


class Prm(SymTensor):
    """a parameter: a tensor that is trainable or frozen"""


def prm(name, shape, train=True):
    p = Prm([P(s) for s in shape], lambda i: T.fn(name, *i), "f")
    p.requires_grad = train
    return p


def specs():
    """name, shape, trainable: matrices, vectors, a scalar, a 4-d kernel, a frozen one in between"""
    a, b, c, d = Int("a", 1), Int("b", 1), Int("c", 1), Int("d", 1)
    return [("l1.weight", (b, a), True), ("l1.bias", (b,), True), ("frozen.weight", (c, b), False),
            ("scale", (), True), ("conv.weight", (d, c, a, 2), True), ("l2.bias", (d,), True)]


class Model:
    def __init__(self, sp):
        self.ps = [(n, prm("p_" + n, s, t)) for n, s, t in sp]

    def named_parameters(self):
        return EList(list(self.ps))

    def parameters(self):
        return EList([p for _, p in self.ps])


def size(s):
    r = ONE
    for x in s:
        r = T.mul(r, P(x))
    return r


def offsets(sp):
    out, o = {}, ZERO
    for n, s, *_ in sp:
        out[n] = o
        o = T.add(o, size(s))
    return out, o


def flat_index(s, i):
    r = ZERO
    for x, j in zip(s, i):
        r = T.add(T.mul(r, P(x)), j)
    return r


def unindex(s, q):
    """row-major index of position q"""
    out = []
    for x in reversed(s):
        out.append(T.mod(q, P(x)))
        q = T.floordiv(q, P(x))
    return out[::-1]


def concat(sp, value):
    """position -> entry of the concatenation of the row-major flattened tensors"""
    off, tot = offsets(sp)

    def at(q):
        r = None
        for n, s, *_ in reversed(sp):
            v = value(n, s, T.sub(q, off[n]))
            r = v if r is None else T.ite(T.lt(q, T.add(off[n], size(s))), v, r)
        return r
    return at


def dct(items):
    d = EDict()
    for k, v in items:
        dict.__setitem__(d, k, v)
    return d


@contract("P10", "flatten_params", [M + "flatten_params", M + "_vectorize"])
def c(w):
    u = w.load("dattri.func.utils")
    sp = specs()
    m = Model(sp)
    out = u.flatten_params(dct(m.ps))
    ensure_eq(out, (wrap(offsets(sp)[1]),), concat(sp, lambda n, s, q: T.fn("p_" + n, *unindex(s, q))),
              "the tensors one after the other, each row-major")


def check_dict(got, sp, value, what):
    """got: name -> tensor of its shape with entries value(name, indices)"""
    if list(dict.keys(got)) != [n for n, *_ in sp]:
        ENG.fail("post: %s: names" % what, "%s" % list(dict.keys(got)))
        return
    for n, s, *_ in sp:
        ensure_eq(dict.__getitem__(got, n), s, lambda *i: value(n, i), "%s: %s" % (what, n))


@contract("P10", "_unflatten_params", [M + "_unflatten_params", M + "flatten_params"])
def c(w):
    u = w.load("dattri.func.utils")
    sp = specs()
    m = Model(sp)
    tr = [x for x in sp if x[2]]
    off, tot = offsets(tr)
    v = tensor("v", wrap(tot))
    got = u._unflatten_params(v, m)
    shp = {n: s for n, s, _ in sp}
    check_dict(got, tr, lambda n, i: T.fn("v", T.add(off[n], flat_index(shp[n], i))), "the trainable parameters")
    back = u.flatten_params(got)
    ensure_eq(back, (wrap(tot),), lambda q: T.fn("v", q), "flatten after unflatten")


@contract("P10", "_unflatten_params_layerwise", [M + "_unflatten_params_layerwise"])
def c(w):
    u = w.load("dattri.func.utils")
    sp = specs()
    m = Model(sp)
    tr = [x for x in sp if x[2]]
    vs = tuple(tensor("v_" + n, wrap(size(s))) for n, s, _ in tr)
    shp = {n: s for n, s, _ in sp}
    check_dict(u._unflatten_params_layerwise(vs, m), tr, lambda n, i: T.fn("v_" + n, flat_index(shp[n], i)), "the trainable parameters")


for num in (0, 1):
    for form in ("flat", "tuple"):
        @contract("P10", "flatten_func[%s, argument %d]" % (form, num), [M + "flatten_func"])
        def c(w, num=num, form=form):
            u = w.load("dattri.func.utils")
            sp = specs()
            m = Model(sp)
            tr = [x for x in sp if x[2]]
            off, tot = offsets(tr)
            shp = {n: s for n, s, _ in sp}
            calls = []

            def fun(*args, **k):
                calls.append((args, k))
                return "result"
            f = u.flatten_func(m, num)(fun) if num else u.flatten_func(m)(fun)
            v = tensor("v", wrap(tot)) if form == "flat" else tuple(tensor("v_" + n, wrap(size(s))) for n, s, _ in tr)
            args = ["x", "y"]
            args.insert(num, v)
            r = f(*args, key="z")
            ensure(r == "result" and len(calls) == 1, "one call, whose result is returned")
            a, k = calls[0]
            rest = [x for q, x in enumerate(a) if q != num]
            ensure(rest == ["x", "y"] and dict(k) == {"key": "z"} and len(a) == 3, "the other arguments are passed on")
            check_dict(a[num], tr, lambda n, i: T.fn("v", T.add(off[n], flat_index(shp[n], i))) if form == "flat"
                       else T.fn("v_" + n, flat_index(shp[n], i)), "the parameters by name")


for layers in (["l1.bias"], ["l1.weight", "scale"], ["l2.bias", "l1.weight"], ["conv.weight", "scale", "l1.bias"],
               ["l1.weight", "l1.bias", "scale", "conv.weight", "l2.bias"]):
    @contract("P10", "partial_param[%s]" % ", ".join(layers), [M + "partial_param"])
    def c(w, layers=layers):
        u = w.load("dattri.func.utils")
        sp = [x for x in specs() if x[2]]
        m = Model(sp)
        full = dct(m.ps)
        shp = {n: s for n, s, _ in sp}
        off, o = {}, ZERO
        for n in layers:
            off[n] = o
            o = T.add(o, size(shp[n]))
        calls = []
        f = u.partial_param(full, EList(layers))(lambda *a, **k: calls.append((a, k)) or "result")
        first = f(tensor("u", wrap(o)), "x", key="z")
        f(tensor("v", wrap(o)), "x", key="z")
        ensure(first == "result" and len(calls) == 2, "one call each, whose result is returned")
        for (a, k), nm in zip(calls, "uv"):
            ensure(a[1:] == ("x",) and dict(k) == {"key": "z"}, "the other arguments are passed on")
            ensure_eq(a[0], (wrap(offsets(sp)[1]),), concat(sp, lambda n, s, q: T.fn(nm, T.add(off[n], q)) if n in off else
                                                         T.fn("p_" + n, *unindex(s, q))),
                      "the listed layers from the argument, in the listed order; the others unchanged")
        check_dict(full, sp, lambda n, i: T.fn("p_" + n, *i), "the given parameters are left alone")


for bad in (False, True):
    @contract("P10", "_vectorize[batch%s]" % (", different rows" if bad else ""), [M + "_vectorize"])
    def c(w, bad=bad):
        u = w.load("dattri.func.utils")
        B, a, b = Int("B", 1), Int("a", 1), Int("b", 1)
        sp = [("x", (a, b)), ("y", ()), ("z", (b,)), ("t", (2, a, b))]
        B2 = Int("B2", 1)
        if bad:
            ENG.assume(T.bnot(T.eq(P(B), P(B2))))
        d = dct([(n, tensor("p_" + n, B2 if bad and n == "z" else B, *s)) for n, s in sp])
        if bad:
            expect_raise(ValueError, lambda: u._vectorize(d, device="cpu"), "different batch sizes are refused")
            return
        out = u._vectorize(d, device="cpu")
        want = concat(sp, lambda n, s, q: n)
        off, tot = offsets(sp)

        def at(r, q):
            return concat(sp, lambda n, s, p: T.fn("p_" + n, r, *unindex(s, p)))(q)
        ensure_eq(out, (B, wrap(tot)), at, "row r: the r-th rows one after the other")
        arr = tensor("old", B, wrap(tot))
        res = u._vectorize(d, arr=arr, device="cpu")
        ensure(res is arr, "the given array is filled")
        ensure_eq(arr, (B, wrap(tot)), at, "the given array is filled")
