"""P11: attribution tasks (checkpoints, parameters, loss and target functions)."""
from contracts.lib import *
from contracts import p10
from contracts.p10 import Prm, size, offsets, flat_index, unindex, concat, dct, check_dict
from engine.core import ENG

M = "dattri/task.py::"
K = M + "AttributionTask."
PARAM = [K + "get_param", K + "_load_checkpoints", K + "_generate_param_layer_map"]
FUNCS = {"loss": [K + "get_loss_func", K + "get_grad_loss_func"], "target": [K + "get_target_func", K + "get_grad_target_func"]}


def specs():
    """name, shape, trainable"""
    a, b, c, d = Int("a", 1), Int("b", 1), Int("c", 1), Int("d", 1)
    return [("l1.weight", (b, a), True), ("l1.bias", (b,), True), ("frozen.weight", (c, b), False), ("scale", (), True),
            ("l2.bias", (d,), True)]


class Model:
    """live parameters: loading a checkpoint overwrites their storage in place"""

    def __init__(self, sp, tag="init"):
        self.sp, self.ps = sp, []
        for n, s, t in sp:
            p = Prm([P(x) for x in s], (lambda n: lambda i: T.fn("q_" + n, *i))(n), "f")
            p.requires_grad = t
            self.ps.append((n, p))

    def named_parameters(self):
        return EList(list(self.ps))

    def parameters(self):
        return EList([p for _, p in self.ps])

    def load(self, k):
        for n, p in self.ps:
            p.copy_(SymTensor(p.pshape, (lambda n: lambda i: T.fn("p_" + n, P(k), *i))(n), "f"))


class Vm:
    def __init__(self, g, in_dims=0, out_dims=0, randomness="error", chunk_size=None):
        self.g, self.in_dims = g, in_dims


class Gr:
    def __init__(self, f, argnums=0, has_aux=False):
        self.f, self.argnums, self.aux = f, argnums, has_aux


def setup(w, replace=False, single=False):
    """a task over C checkpoints, in any state its methods can leave it in: no checkpoint
    loaded yet, or the live parameters are those of checkpoint c0"""
    t = w.load("dattri.task")
    t.grad, t.vmap = Gr, Vm
    sp = specs()
    C = Int("C", 1)
    model = Model(sp)
    st = {"loads": [], "model": model}

    def load(m, ck):
        ENG.check("pre: the current model is loaded into", T.TRUE if m is st["model"] else T.FALSE)
        ENG.check("pre: one of the checkpoints", T.band(T.le(ZERO, P(ck[1])), T.lt(P(ck[1]), P(C))))
        if replace:
            st["model"] = m = Model(sp)
        m.load(ck[1])
        st["loads"].append(ck)
        return m
    calls = []

    def loss(params, data):
        calls.append(("loss", params, data))
        return "loss value"

    def target(params, batch):
        calls.append(("target", params, batch))
        return "target value"
    cks = EList.seq(P(C), lambda k: ("ckpt", wrap(k)))
    task = t.AttributionTask(loss, model, cks, target_func=target, checkpoints_load_func=load)
    ensure(task.loss_func_data_key == "data", "the name of the data argument")
    return task, sp, C, calls, st, (loss, target)


def ckpt(C, nm):
    return Int(nm, 0, C - 1)


def pre_state(task, C, how):
    if how == "loaded":
        task.get_param(ckpt(C, "c0"))


def value(sp, c):
    """entry q of a named parameter of checkpoint c"""
    return lambda n, s, q: T.fn("p_" + n, P(c), *unindex(s, q))


def pick(sp, layers):
    tr = [x for x in sp if x[2]]
    if layers is None:
        return tr
    by = {x[0]: x for x in tr}
    return [by[n] for n in ([layers] if isinstance(layers, str) else layers)]


LAYERS = {"all": None, "one": ["l1.bias"], "name": "scale", "several": ["l2.bias", "l1.weight"]}


def live(task, sp, c, what):
    ps = dict(task.get_model().named_parameters())
    for n, s, _ in sp:
        ensure_eq(ps[n], s, lambda *i: T.fn("p_" + n, P(c), *i), "%s: the model holds the checkpoint: %s" % (what, n))


for how in ("fresh", "loaded"):
    for lname, layers in LAYERS.items():
        for repl in ((False, True) if lname in ("all", "several") else (False,)):
            @contract("P11", "get_param[%s, %s%s]" % (how, lname, ", new model" if repl else ""), PARAM + [M + "AttributionTask.get_model"])
            def c(w, how=how, layers=layers, repl=repl):
                task, sp, C, calls, st, _ = setup(w, repl)
                pre_state(task, C, how)
                c1, c2 = ckpt(C, "c1"), ckpt(C, "c2")
                got, none = task.get_param(c1, layer_name=layers and (EList(layers) if isinstance(layers, list) else layers))
                live(task, sp, c1, "get_param")
                ensure(none is None, "no layer map for one vector")
                sel = pick(sp, layers)

                def check(what):
                    ensure_eq(got, (wrap(offsets(sel)[1]),), concat(sel, value(sp, c1)), what)
                check("the parameters of the checkpoint, in order")
                task.get_param(c2)
                check("the vector survives loading another checkpoint")

            for mp in (False, True):
                if mp and lname in ("one", "name"):
                    continue

                @contract("P11", "get_param[split, %s, %s%s%s]" % (how, lname, ", map" if mp else "", ", new model" if repl else ""), PARAM)
                def c(w, how=how, layers=layers, mp=mp, repl=repl):
                    task, sp, C, calls, st, _ = setup(w, repl)
                    pre_state(task, C, how)
                    c1, c2 = ckpt(C, "c1"), ckpt(C, "c2")
                    sel = pick(sp, layers)
                    given = EList(list(range(len(sel)))) if mp else None
                    got, m = task.get_param(c1, layer_name=EList(layers) if isinstance(layers, list) else layers,
                                            layer_split=True, param_layer_map=given)
                    if mp:
                        ensure(m is given, "the given layer map is used")
                    else:
                        want = []
                        for q, x in enumerate(sel):
                            pre = x[0].rpartition(".")[0]
                            want.append(0 if q == 0 else want[-1] + (pre != last))
                            last = pre
                        ensure(list(m) == want, "one index per run of parameters of the same layer")
                    ensure(len(got) == len(sel), "one vector per parameter")

                    def check(what):
                        for v, x in zip(got, sel):
                            ensure_eq(v, (wrap(size(x[1])),), lambda q: value(sp, c1)(x[0], x[1], q), "%s: %s" % (what, x[0]))
                    check("each parameter of the checkpoint, row-major")
                    task.get_param(c2)
                    check("the vectors survive loading another checkpoint")


@contract("P11", "get_param[map of another length]", [K + "get_param"])
def c(w):
    task, sp, C, calls, st, _ = setup(w)
    for n in (1, 3, 5):
        expect_raise(ValueError, lambda: task.get_param(0, layer_split=True, param_layer_map=EList([0] * n)),
                     "a layer map of another length is refused")
    expect_raise(ValueError, lambda: task.get_param(0, layer_name=EList(["scale"]), layer_split=True,
                                                    param_layer_map=EList([0, 1])), "a layer map of another length is refused")


def arg(layers):
    return EList(layers) if isinstance(layers, list) else layers


def check_call(calls, kind, sp, sel, off, vec, c, data, what):
    """the last call: the original function with the selected parameters from the vector vec, the
    others from checkpoint c"""
    ensure(len(calls) >= 1 and calls[-1][0] == kind and calls[-1][2] == data, what + ": the original function on the data")
    tr = [x for x in sp if x[2]]
    names = [x[0] for x in sel]
    shp = {x[0]: x[1] for x in sp}
    check_dict(calls[-1][1], tr, lambda n, i: T.fn(vec, T.add(off[n], flat_index(shp[n], i))) if n in names
               else T.fn("p_" + n, P(c), *i), what)


for kind in ("loss", "target"):
    for how in ("fresh", "loaded"):
        for lname, layers in LAYERS.items():
            for repl in ((False, True) if lname == "several" else (False,)):
                @contract("P11", "get_%s_func[%s, %s%s]" % (kind, how, lname, ", new model" if repl else ""),
                          FUNCS[kind][:1] + [K + "_load_checkpoints", K + "__init__"])
                def c(w, kind=kind, how=how, layers=layers, repl=repl):
                    task, sp, C, calls, st, _ = setup(w, repl)
                    pre_state(task, C, how)
                    c1, c2 = ckpt(C, "c1"), ckpt(C, "c2")
                    get = getattr(task, "get_%s_func" % kind)
                    f = get(layer_name=arg(layers), ckpt_idx=c1) if layers is not None else get()
                    sel = pick(sp, layers)
                    off, tot = offsets(sel)
                    for late in (False, True):
                        if late:
                            task.get_param(c2)
                            get(layer_name=EList(["l1.weight"]), ckpt_idx=c2)(tensor("u", wrap(size(pick(sp, ["l1.weight"])[0][1]))), "d0")
                        r = f(tensor("v", wrap(tot)), "d1")
                        ensure(r == kind + " value", "the value of the original function")
                        check_call(calls, kind, sp, sel, off, "v", c1, "d1",
                                   "called after another checkpoint was loaded" if late else "called at once")

    for la, a in LAYERS.items():
        for lb, b in LAYERS.items():
            for dims in ("same", "other"):
                if dims == "other" and la != lb:
                    continue
                @contract("P11", "get_grad_%s_func[%s then %s, %s axes]" % (kind, la, lb, dims),
                          FUNCS[kind][1:] + [K + "_load_checkpoints", K + "__init__"])
                def c(w, kind=kind, a=a, b=b, dims=dims):
                    task, sp, C, calls, st, _ = setup(w)
                    cs = [ckpt(C, "c1"), ckpt(C, "c2")]
                    dd = [(None, (0, 0)), (None, (0, 0)) if dims == "same" else (None, 1)]
                    get = getattr(task, "get_grad_%s_func" % kind)
                    fs = []
                    for ly, cc, di in zip((a, b), cs, dd):
                        fs.append(get(in_dims=di, layer_name=arg(ly), ckpt_idx=cc))
                    task.get_param(ckpt(C, "c3"))
                    for nm, f, ly, cc, di in zip(("first", "second"), fs, (a, b), cs, dd):
                        ensure(isinstance(f, Vm) and f.in_dims == di, nm + ": vmapped over the requested axes")
                        g = f.g
                        ensure(isinstance(g, Gr) and g.argnums == 0 and not g.aux, nm + ": gradient with respect to the parameters")
                        sel = pick(sp, ly)
                        off, tot = offsets(sel)
                        r = g.f(tensor("v", wrap(tot)), "d1")
                        ensure(r == kind + " value", "the value of the original function")
                        check_call(calls, kind, sp, sel, off, "v", cc, "d1", nm + " function")

    @contract("P11", "get_grad_%s_func[default axes, all parameters]" % kind, FUNCS[kind][1:] + [K + "__init__"])
    def c(w, kind=kind):
        task, sp, C, calls, st, _ = setup(w)
        get = getattr(task, "get_grad_%s_func" % kind)
        for f in (get(), get(in_dims=(None, 0)), get()):
            sel = pick(sp, None)
            off, tot = offsets(sel)
            ensure(isinstance(f, Vm) and isinstance(f.g, Gr) and f.g.argnums == 0, "per-sample gradients")
            f.g.f(tensor("v", wrap(tot)), "d1")
            check_call(calls, kind, sp, sel, off, "v", ZERO, "d1", "all parameters from the vector")
        ensure(get().in_dims == (None, 1) and get(in_dims=(None, 0)).in_dims == (None, 0), "the requested axes")

    @contract("P11", "get_%s_func[unflattened]" % kind, FUNCS[kind][:1])
    def c(w, kind=kind):
        task, sp, C, calls, st, orig = setup(w)
        get = getattr(task, "get_%s_func" % kind)
        ensure(get(flatten=False) is orig[kind == "target"], "the function given by the user")
        expect_raise(NotImplementedError, lambda: get(flatten=False, layer_name=EList(["scale"]), ckpt_idx=0),
                     "layers need the flattened form")


@contract("P11", "AttributionTask[defaults]", [K + "__init__", K + "get_checkpoints"])
def c(w):
    t = w.load("dattri.task")
    t.grad, t.vmap = Gr, Vm
    sp = specs()
    m = Model(sp)
    calls = []

    def loss(params, x):
        calls.append(("loss", params, x))
        return "loss value"
    one = EDict()
    seen = []
    m.load_state_dict = lambda d: (seen.append(d), m.load(ZERO))[1]
    m.eval = lambda: seen.append("eval")
    task = t.AttributionTask(loss, m, one)
    ensure(len(task.get_checkpoints()) == 1 and task.get_checkpoints()[0] is one, "a single checkpoint is a list of one")
    sel = pick(sp, None)
    off, tot = offsets(sel)
    ensure(task.loss_func_data_key == "x", "the name of the data argument")
    task.get_target_func()(tensor("v", wrap(tot)), "d1")
    check_call(calls, "loss", sp, sel, off, "v", ZERO, "d1", "the target function defaults to the loss")
    ensure(task.get_target_func(flatten=False) is loss, "the target function defaults to the loss")
    got, _ = task.get_param(0)
    ensure(seen == [one, "eval"], "the checkpoint is loaded as a state dict, in evaluation mode")
    ensure_eq(got, (wrap(tot),), concat(sel, value(sp, ZERO)), "its parameters")


for form in ("str", "path", "dict"):
    @contract("P11", "_default_checkpoint_load_func[%s]" % form, [M + "_default_checkpoint_load_func"])
    def c(w, form=form):
        import pathlib
        t = w.load("dattri.task")
        sd, log = EDict(), []

        class Pr:
            device = "some device"

        class Mo:
            def parameters(self):
                return iter([Pr()])

            def load_state_dict(self, d, *a, **k):
                log.append(("load", d, a, k))

            def eval(self):
                log.append("eval")
        ck = {"str": "a/b.pt", "path": pathlib.PosixPath("a/b.pt"), "dict": sd}[form]

        def load(p, map_location=None, **k):
            log.append(("read", p, map_location))
            return sd
        w.stubs["torch"].load = load
        m = Mo()
        r = t._default_checkpoint_load_func(m, ck)
        want = [("load", sd, (), {}), "eval"]
        if form != "dict":
            want.insert(0, ("read", ck, "some device"))
        ensure(r is m and log == want, "the state dict (read from its file) is loaded into the model, in evaluation mode")
