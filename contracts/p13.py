"""P13: evaluation metrics and ground truth."""
import re
from fractions import Fraction
from itertools import permutations
from contracts.lib import *
from contracts.fs import FS
from engine import tstub
from engine import solver as sv
from engine.sym import ENG, argsort, as_tensor, boolterm, token, TOKENS, Text, num

M = "dattri/metric/"


def vlam(t):
    """a 1-D tensor as a closed λ-argument"""
    v = T.fresh("a")
    sn = tstub.snapshot(t)
    return T.lam([v], [sn.pshape[0]], T.to_real(sn.at([atom(v)])))


class Corr:
    """result of a scipy correlation: two opaque functions of the two samples"""
    def __init__(self, name, a, b):
        if not isinstance(a, SymTensor) or a.ndim != 1 or b.ndim != 1:
            raise TypeError("1-D samples expected")
        tstub.need_eq(a.pshape[0], b.pshape[0], name)
        L = (vlam(a), vlam(b))
        self.statistic = self.correlation = wrap(T.fn(name, *L))
        self.pvalue = wrap(T.fn(name + "_p", *L))


def metrics(w):
    for nm in ("spearmanr", "pearsonr"):
        setattr(w.stubs["scipy"].stats, nm, lambda a, b, nm=nm: Corr(nm, a, b))
    return w.load("dattri.metric.metrics")


def colam(n, f):
    v = T.fresh("a")
    return T.lam([v], [P(n)], T.to_real(f(atom(v))))


@contract("P13", "lds", [M + "metrics.py::lds"])
def c(w):
    m = metrics(w)
    N, K, Q, s = Int("N", 1), Int("K", 1), Int("M", 1), Int("s", 1)
    sc, g = tensor("score", N, Q), tensor("gt", K, Q)
    ix = tensor("ix", K, s, kind="i")
    sv.FACTS["ix"] = lambda a: [T.le(ZERO, T.fn("ix", *a, sort="I")), T.lt(T.fn("ix", *a, sort="I"), P(N))]
    corr, pv = m.lds(sc, (g, ix))
    for out, nm in ((corr, "spearmanr"), (pv, "spearmanr_p")):
        ensure_eq(out, (Q,), lambda t: T.fn(nm, colam(K, lambda q: S([s], lambda j: T.fn("score", T.fn("ix", q, j, sort="I"), t))),
                                            colam(K, lambda q: T.fn("gt", q, t))), nm + " of the subset sums with the ground truth")


@contract("P13", "loo_corr", [M + "metrics.py::loo_corr"])
def c(w):
    m = metrics(w)
    N, K, Q = Int("N", 1), Int("K", 1), Int("M", 1)
    sc, g = tensor("score", N, Q), tensor("gt", K, Q)
    ix = tensor("ix", K, kind="i")
    sv.FACTS["ix"] = lambda a: [T.le(ZERO, T.fn("ix", *a, sort="I")), T.lt(T.fn("ix", *a, sort="I"), P(N))]
    corr, pv = m.loo_corr(sc, (g, ix))
    for out, nm in ((corr, "pearsonr"), (pv, "pearsonr_p")):
        ensure_eq(out, (Q,), lambda t: T.fn(nm, colam(K, lambda q: T.fn("score", T.fn("ix", q, sort="I"), t)),
                                            colam(K, lambda q: T.fn("gt", q, t))), nm + " of the removed samples' scores with the ground truth")


@contract("P13", "mislabel_detection_auc", [M + "metrics.py::mislabel_detection_auc"])
def c(w):
    for kind in ("b", "i"):
        m = metrics(w)
        N = Int("N", 1)
        s = tensor("score", N)
        gt = tensor("noisy", N, kind=kind)

        def bad(k):
            x = gt.at([k])
            return x if kind == "b" else T.bnot(T.eq(x, ZERO))
        noisy = S([N], lambda k: T.iverson(bad(k)))
        clean = T.sub(P(N), noisy)
        ENG.assume(T.band(T.lt(ZERO, noisy), T.lt(ZERO, clean)))
        auc, (fpr, tpr, th) = m.mislabel_detection_auc(s, gt)
        order = lambda k: argsort(s).at([T.sub(T.sub(P(N), ONE), k)])
        tp = lambda i: S([wrap(i)], lambda k: T.iverson(bad(order(k))))
        Tp = lambda i: T.div(T.to_real(tp(i)), T.to_real(noisy))
        Fp = lambda i: T.div(T.to_real(T.sub(i, tp(i))), T.to_real(clean))
        n1 = T.add(P(N), ONE)
        ensure_eq(tpr, (wrap(n1),), Tp, "share of the noisy samples among the i highest scores")
        ensure_eq(fpr, (wrap(n1),), Fp, "share of the clean samples among the i highest scores")
        area = S([N], lambda i: T.scale(T.mul(T.sub(Fp(T.add(i, ONE)), Fp(i)), T.add(Tp(i), Tp(T.add(i, ONE)))), Fraction(1, 2)))
        ensure_eq(auc, (), lambda: area, "trapezoidal area under the curve")


# ------------------------------------------------------------------ brittleness
class Rec:
    """a data loader that only records what it was built from"""
    def __init__(self, dataset, batch_size=1, shuffle=False, sampler=None, drop_last=False, **k):
        self.dataset, self.batch_size, self.sampler = dataset, batch_size, sampler
        self.shuffle, self.drop_last = shuffle, drop_last


class Chosen:
    """a sampler that selects the dataset positions idx(0), ..., idx(N-1) (no position twice)"""
    def __init__(self, N):
        sv.FACTS["idx"] = lambda a: [T.eq(T.fn("pos", T.fn("idx", *a, sort="I"), sort="I"), a[0])]
        self.indices = EList.seq(P(N), lambda k: wrap(T.fn("idx", k, sort="I")))


class Whole:
    """a sampler without .indices: position k is sample k"""
    def __init__(self, N):
        self.N = N

    def symlen(self):
        return self.N


class TrainLoader:
    def __init__(self, sampler, bs):
        self.dataset, self.sampler, self.batch_size = object(), sampler, bs


def setups(N):
    yield "a loader over chosen samples", Chosen(N), lambda k: T.fn("idx", k, sort="I")
    yield "a loader over the whole dataset", Whole(N), lambda k: k


@contract("P13", "brittleness: the first number of removed samples that flips the prediction",
          [M + "britteness.py::brittleness"])
def c(w):
    for what, smp, pos in setups(Int("N", 1)):
        N = Int("N", 1)
        for shape in ((), (1,)):
            for ks in ([0, 3, 1], None):
                m = w.load("dattri.metric.britteness")
                s = tensor("score", N, *shape)
                flat = SymTensor([P(N)], lambda i: s.at([i[0]] + [ZERO] * len(shape)), "f")
                order = argsort(flat)
                tr, te, tf, ef = TrainLoader(smp, Int("bs", 1)), object(), object(), object()
                asked = []

                def flip(train, test, removed, t, e, device="cpu", *more):
                    same("the samples are removed from the given training loader", train, tr)
                    same("the given test loader is evaluated", test, te)
                    same("the given training function", t, tf)
                    same("the given evaluation function", e, ef)
                    j = len(asked)
                    k = (ks or list(range(0, 200, 20)))[j]
                    r = as_tensor(removed)
                    ENG.check("no sample is removed for size 0", T.eq(r.pshape[0], ZERO)) if k == 0 else \
                        ensure_eq(r, (wrap(T.imin(P(k), P(N))),), lambda i: pos(order.at([T.sub(T.sub(P(N), ONE), i)])),
                                  "the %d highest scored samples are removed (%s)" % (k, what))
                    asked.append(k)
                    return ENG.branch(T.lt(ZERO, T.var("flips%d" % j, "I")))
                m.check_if_flip = flip
                out = m.brittleness(tr, te, s, tf, ef, "cpu", EList(ks) if ks else None)
                full = ks or list(range(0, 200, 20))
                flipped = [T.lt(ZERO, T.var("flips%d" % j, "I")) for j in range(len(asked))]
                for j, f in enumerate(flipped[:-1]):
                    ENG.check("post: the search goes on only when nothing flipped", T.bnot(f))
                if out is None:
                    ENG.check("post: None only when no size flips the prediction",
                              T.bnot(flipped[-1]) if asked == full else T.FALSE)
                else:
                    ENG.check("post: the returned size is the first that flips", T.band(flipped[-1], T.eq(P(out), P(asked[-1]))))


def same(what, a, b):
    ENG.check(what, T.TRUE if a is b else T.FALSE)


@contract("P13", "check_if_flip: retrain without the samples, compare with the label",
          [M + "britteness.py::check_if_flip", "dattri/benchmark/utils.py::SubsetSampler.__init__"])
def c(w):
    for what, smp, pos in setups(Int("N", 1)):
        N, R = Int("N", 1), Int("R", 0)
        w.stubs["torch"].utils.data.DataLoader = Rec
        m = w.load("dattri.metric.britteness")
        tr = TrainLoader(smp, Int("bs", 1))
        gone = tensor("gone", R, kind="i")
        x, y = tensor("x", 1, Int("F", 1)), tensor("y", 1, kind="i")
        te = EList([(x, y)])
        log = []

        class Model:
            def to(self, d):
                log.append("to")
                return self

            def eval(self):
                log.append("eval")
                return self

        class Pred:
            def item(self):
                return wrap(T.var("prediction", "I"))
        model = Model()

        def train(new, *a, **k):
            log.append("train")
            same("the model is retrained on the same dataset", new.dataset, tr.dataset)
            ENG.check("the same batch size", T.eq(P(new.batch_size), P(tr.batch_size)))
            same("no batch is dropped", bool(new.drop_last), False)
            st = getattr(new.sampler.indices, "symset", None)
            if st is None:
                raise TypeError("the remaining samples are not a set of positions")
            e = T.atom(T.fresh("x"))
            i, j = T.fresh("i"), T.fresh("j")
            member = T.lt(ZERO, T.sum_(i, P(N), T.iverson(T.eq(pos(T.atom(i)), e))))
            removed = T.lt(ZERO, T.sum_(j, P(R), T.iverson(T.eq(gone.at([T.atom(j)]), e))))
            has, want = st().has(e), T.band(member, T.bnot(removed))
            ENG.check("only samples of the training loader that were not removed (%s)" % what, T.implies(has, want))
            ENG.check("every sample of the training loader that was not removed (%s)" % what, T.implies(want, has))
            return model

        def ev(mo, loader):
            same("the retrained model is evaluated", mo, model)
            same("the test loader is evaluated", loader, te)
            same("the model is in evaluation mode", log[0] == "train" and log[-1] == "eval", True)
            return Pred()
        out = m.check_if_flip(tr, te, gone, train, ev, "cpu")
        ENG.check("post: flips exactly when the prediction differs from the label",
                  T.band(T.implies(boolterm(out), T.ne(T.var("prediction", "I"), y.at([ZERO]))),
                         T.implies(T.ne(T.var("prediction", "I"), y.at([ZERO])), boolterm(out))))


# ------------------------------------------------------------------ ground truth
class TestLoader:
    """a test loader over Q sampled positions"""
    def __init__(self, Q):
        self.sampler = Whole(Q)


@contract("P13", "calculate_lds_ground_truth: minus the mean target over the runs of each subset",
          [M + "ground_truth.py::calculate_lds_ground_truth"])
def c(w):
    n, R, s, Q = Int("subsets", 1), Int("runs", 1), Int("s", 1), Int("Q", 1)
    test = TestLoader(Q)

    class Dirs:
        def __getitem__(self, i):
            ENG.check("only the listed subsets are asked for", T.in_range(P(i), P(n)))
            return "runs/of/%s" % token(P(i))

    def subset(parts):
        if parts[:2] != ["runs", "of"] or parts[2] not in TOKENS:
            raise FileNotFoundError("/".join(parts))
        return TOKENS[parts[2]]

    class Files(FS):
        def read(self, name):
            p = name.split("/")
            if name == "root/metadata.yml":
                return {"mode": "lds", "data_length": wrap(T.var("n_data", "I")), "num_subsets": n,
                        "num_runs_per_subset": R, "subset_ratio": Real("ratio"), "subset_dir_map": Dirs()}
            i = subset(p[:3])
            if p[3:] != ["indices.txt"]:
                raise FileNotFoundError(name)
            return Text("\n", P(s), lambda k: token(T.fn("ix", i, k, sort="I")))
    Files(w)
    m = w.load("dattri.metric.ground_truth")

    def target(path, loader):
        same("the target is evaluated on the test loader", loader, test)
        p = str(path).split("/")
        i = subset(p[:3])
        run = re.fullmatch(r"model_weights_(.*)\.pt", p[3])
        if len(p) != 4 or run is None or run.group(1) not in TOKENS:
            raise FileNotFoundError(str(path))
        j = TOKENS[run.group(1)]
        ENG.check("only the models of the listed runs", T.in_range(j, P(R)))
        return SymTensor([P(Q)], lambda t: T.fn("target", i, j, t[0]), "f")
    vals, ix = m.calculate_lds_ground_truth(target, "root", test)
    ensure_eq(vals, (n, Q), lambda i, t: T.neg(T.div(S([R], lambda j: T.fn("target", i, j, t)), T.to_real(P(R)))),
              "value of a subset is minus the mean target of its runs")
    ensure_eq(ix, (n, s), lambda i, k: T.fn("ix", i, k, sort="I"), "the training samples of each subset")


@contract("P13", "calculate_loo_ground_truth: the target of each model, in the order of the removed sample (listings of up to 4 entries)",
          [M + "ground_truth.py::calculate_loo_ground_truth", M + "ground_truth.py::_dir_to_index"])
def c(w):
    Q = Int("Q", 1)
    test = TestLoader(Q)
    listings = [["metadata.yml"], ["index_0"], ["index_10", "notes", "index_9", "index_100"]]
    for listing in listings:
        for names in permutations(listing):
            class Files(FS):
                def listdir(self, name):
                    if name != "root":
                        raise FileNotFoundError(name)
                    return list(names)

                def load(self, name):
                    p = name.split("/")
                    if p[0] != "root" or p[1] not in names or p[2:] != ["model_weights.pt"]:
                        raise FileNotFoundError(name)
                    return "model of " + p[1]
            Files(w)
            m = w.load("dattri.metric.ground_truth")
            ids = sorted(int(x[6:]) for x in names if x.startswith("index_"))

            def target(model, loader):
                same("the target is evaluated on the test loader", loader, test)
                k = int(model[len("model of index_"):])
                return SymTensor([P(Q)], lambda t: T.fn("target", num(k), t[0]), "f")
            vals, ix = m.calculate_loo_ground_truth(target, "root", test)
            ensure_shape(vals, (len(ids), Q), "one row per model")
            ensure_shape(ix, (len(ids),), "one index per model")
            for r, k in enumerate(ids):
                ensure_eq(vals[r], (Q,), lambda t: T.fn("target", num(k), t), "row %d holds the target of model %d" % (r, k))
                ensure_eq(ix[r], (), lambda: num(k, "R"), "index %d is the removed sample" % r)
