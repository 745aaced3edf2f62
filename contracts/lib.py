"""Assumed/proved callee contracts shared by several properties (used in place of bodies)."""
from engine.spec import *          # noqa: F401,F403
from engine import terms as T
from engine.terms import ZERO, ONE
from engine.sym import P, wrap, SymTensor, EList, EDict
from engine.contract import contract


def rowlam(X, F, r):
    """λ f<F. X(r, f): one sample as a closed argument of an uninterpreted per-sample function."""
    v = T.fresh("f")
    return T.lam([v], [P(F)], T.fn(X, P(r), T.atom(v)))


def per_sample(nm, c, x, D, lead=True, params=None):
    """Contract of a vmapped per-sample function: row i of the result is nm(c, sample i)."""
    B = x.pshape[1] if lead else x.pshape[0]

    def body(i):
        v = T.fresh("f")
        src = x.at([ZERO, i[0], T.atom(v)]) if lead else x.at([i[0], T.atom(v)])
        L = T.lam([v], [x.pshape[-1]], src)
        return T.fn(nm, P(c), *([params] if params is not None else []), L, i[1])
    return SymTensor([B, P(D)], body, "f")


class TaskContract:
    """AttributionTask seen through its contract (the contract itself is property T01):
    get_param(c) is checkpoint c's parameter vector; get_grad_*_func(c)(params, data) are the
    per-sample gradients of the loss/target at the *given* params."""

    def __init__(self, C, D, first=0):
        self.C, self.D = C, D

    def get_checkpoints(self):
        return EList.seq(P(self.C), lambda k: ("ckpt", wrap(k)))

    def get_param(self, ckpt_idx=0, layer_name=None, layer_split=None, param_layer_map=None):
        c = P(ckpt_idx)
        ENG.check("pre: checkpoint index within range", T.band(T.le(ZERO, c), T.lt(c, P(self.C))))
        return SymTensor([P(self.D)], lambda i: T.fn("theta", c, *i), "f"), None

    def _g(self, nm, in_dims, layer_name, ckpt_idx):
        # with layer_name the remaining parameters are those of the function's own checkpoint
        c0 = P(ckpt_idx) if layer_name is not None else ZERO
        lead = in_dims is None
        if in_dims is not None:
            ENG.check("pre: gradients are vmapped over the batch axis",
                      T.TRUE if tuple(in_dims)[0] is None and len(in_dims) == 2 and (
                          in_dims[1] == 0 or (isinstance(in_dims[1], tuple) and set(in_dims[1]) == {0}))
                      else T.FALSE)
        if self.data_first is not None:
            lead = not self.data_first

        def f(params, data):
            d = data[0] if not isinstance(data, dict) else dict.__getitem__(data, "x")
            return per_sample(nm, c0, d, self.D, lead, veclam(lambda p: params.at([p]), self.D))
        return f

    data_first = None

    def get_grad_target_func(self, in_dims=None, layer_name=None, ckpt_idx=0, **k):
        return self._g("Gt", in_dims, layer_name, ckpt_idx)

    def get_grad_loss_func(self, in_dims=None, layer_name=None, ckpt_idx=0, **k):
        return self._g("Gl", in_dims, layer_name, ckpt_idx)


class ProjContract:
    """random_project(features, params)(x, ensemble_id): a per-row function determined by
    (seed, dim, type, ensemble_id) only (property P09)."""

    def __init__(self, dim, **expect):
        self.dim, self.expect = dim, expect

    def __call__(self, feature, proj_params):
        pp = proj_params
        ENG.check("pre: projector built for the batch it is applied to",
                  T.le(feature.pshape[0], P(pp.feature_batch_size)))
        for k, v in self.expect.items():
            g = getattr(pp, k)
            ENG.check("pre: projection parameter %s is forwarded" % k,
                      T.eq(P(g), P(v)) if not isinstance(v, str) else (T.TRUE if g == v else T.FALSE))
        dim = P(pp.proj_dim)

        def f(x, ensemble_id=0):
            e = P(ensemble_id)

            def body(i):
                v = T.fresh("p")
                L = T.lam([v], [x.pshape[1]], x.at([i[0], T.atom(v)]))
                return T.fn("Proj", P(pp.proj_seed), e, L, i[1])
            return SymTensor([x.pshape[0], dim], body, "f")
        return f


def rowfun(nm):
    """A transform that acts row by row: row j of the result is nm(c, row j)."""
    def tr(ckpt, rep, E):
        c = P(ckpt)

        def body(i):
            v = T.fresh("p")
            return T.fn(nm, c, T.lam([v], [rep.pshape[1]], rep.at([i[0], T.atom(v)])), i[1])
        return SymTensor([rep.pshape[0], P(E)], body, "f")
    return tr


def theta(c, D):
    return veclam(lambda p: T.fn("theta", P(c), p), D)


def gl(c, D, X, F, i, key=None):
    """p -> component p of the loss gradient of sample i of X at checkpoint c."""
    return lambda p: T.fn("Gl", P(0 if key is None else key), theta(c, D), rowlam(X, F, i), p)


def gt(c, D, X, F, i, key=None):
    return lambda p: T.fn("Gt", P(0 if key is None else key), theta(c, D), rowlam(X, F, i), p)


def proj(f, D, seed, ens):
    return lambda e: T.fn("Proj", P(seed), P(ens), veclam(f, D), e)


def veclam(f, D):
    v = T.fresh("p")
    return T.lam([v], [P(D)], f(T.atom(v)))
