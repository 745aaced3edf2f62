"""P14: retraining (leave-one-out and subset models on disk)."""
import re
from contracts.lib import *
from contracts.fs import FS
from contracts.p13 import Rec, Chosen, Whole, TrainLoader, setups, same
from engine import tstub, sym
from engine import solver as sv
from engine.sym import num, ENG, token, TOKENS, Text, boolterm, as_tensor, EList, EDict

R_ = "dattri/model_util/retrain.py::"


class Ghost:
    """counts kept by the ghost file system"""
    def __init__(self, **k):
        ENG.obj_uid(self)
        for n, v in k.items():
            ENG.setattr(self, n, wrap(P(v)))

    def tick(self, n):
        ENG.setattr(self, n, getattr(self, n) + 1)


class SubsetRec:
    def __init__(self, ds, idx):
        self.dataset, self.indices = ds, idx


def world(w):
    u = w.stubs["torch"].utils.data
    u.DataLoader, u.Subset = Rec, SubsetRec
    w.stubs["random"] = rn = tstub.stub("random")
    rn.getrandbits = lambda n: wrap(T.var("drawn_seed", "I"))

    class Rng:
        def __init__(self, seed=None):
            self.seed = seed

        def choice(self, n, size=None, replace=True):
            if self.seed is None:
                raise TypeError("subset drawn without a seed")
            same("drawn without replacement", replace, False)
            ENG.check("a sample as large as the population at most", T.band(T.le(ZERO, P(size)), T.le(P(size), P(n))))
            return sym.NpVector([P(size)], lambda k: T.fn("choice", P(self.seed), P(n), P(size), k[0], sort="I"), "i")
    sv.FACTS["choice"] = lambda a: [T.implies(T.in_range(a[3], a[2]), T.in_range(T.fn("choice", *a, sort="I"), a[1]))]
    nr = tstub.stub("numpy.random")
    nr.default_rng = Rng
    w.stubs["numpy"].random = nr


def named(p, pattern):
    """the numbers in a path, None when it has another form"""
    m = re.fullmatch(pattern, p)
    if m is None:
        return None
    out = []
    for x in m.groups():
        if x in TOKENS:
            out.append(TOKENS[x])
        elif re.fullmatch("[0-9]+", x):
            out.append(num(int(x)))
        else:
            return None
    return out


def line(x):
    """the number on a line of text"""
    if x not in TOKENS:
        raise TypeError("not the text of a number: %r" % (x,))
    return TOKENS[x]


def seq_item(x, k):
    s = sym.seq_of(x)
    return P(s[1](k))


for q, what0 in enumerate(("a loader over chosen samples", "a loader over the whole dataset")):
    for given in (False, True):
        @contract("P14", "retrain_loo: %s, %s" % (what0, "two given samples (bounded)" if given else "every sample"),
                  [R_ + "retrain_loo", R_ + "_sampled_indices"])
        def c(w, q=q, given=given):
            world(w)
            N = Int("N", 1)
            what, smp, pos = list(setups(N))[q]
            tr, seed = TrainLoader(smp, Int("bs", 1)), Int("seed", 0)
            extra = object()
            asked = EList([Int("left0", 0), Int("left1", 0)]) if given else EList.seq(P(N), wrap)
            if given:
                for x in asked:
                    ENG.assume(T.lt(P(x), P(N)))
                ENG.assume(T.ne(P(asked[0]), P(asked[1])))
            ghost = Ghost(saves=0, metas=0)

            class Model:
                def __init__(self, loader, seed):
                    self.loader, self.seed = loader, seed

            def train(loader, seed=None, **k):
                same("the extra arguments are passed on", set(k) == {"extra"} and k["extra"] is extra, True)
                return Model(loader, seed)

            class Files(FS):
                def write(self, name, x, mode):
                    same("the metadata is written to metadata.yml", name == "root/metadata.yml", True)
                    ENG.check("post: the metadata is written once all models are saved", T.eq(P(ghost.saves), P(asked.symlen())))
                    same("mode", x["mode"] == "loo", True)
                    same("name of the training function", x["train_func"] == "train", True)
                    ENG.check("number of samples", T.eq(P(x["data_length"]), P(N)))
                    j = T.fresh("j")
                    ENG.assume(T.in_range(T.atom(j), P(asked.symlen())))
                    n, item = x["indices"].as_seq()
                    ENG.check("the removed samples", T.band(T.eq(n, P(asked.symlen())),
                                                            T.TRUE if given else T.eq(P(item(T.atom(j))), T.atom(j))))
                    d = x["map_index_dir"]
                    ENG.check("one directory per model", T.eq(P(d.symlen()), P(asked.symlen())))
                    for i in list(asked) if given else [wrap(T.atom(j))]:
                        g = named(d[i], r"\./index_(.*)")
                        ENG.check("documented directory name", T.eq(g[0], P(i)) if g else T.FALSE)
                    ghost.tick("metas")
            fs = Files(w)

            def save(name, x):
                g = named(name, r"root/index_(.*)/model_weights\.pt")
                if g is None:
                    raise FileNotFoundError(name)
                cnt = P(ghost.saves)
                ENG.check("the models are saved in the order of the removed samples",
                          T.eq(g[0], cnt) if not given else T.eq(g[0], P(asked[int(T.as_const(cnt))])))
                l = x.loader
                same("trained on the samples of the same dataset", l.dataset.dataset, tr.dataset)
                ENG.check("same batch size", T.eq(P(l.batch_size), P(tr.batch_size)))
                same("no batch is dropped", bool(l.drop_last), False)
                ENG.check("trained with the given seed", T.eq(P(x.seed), P(seed)))
                n, item = sym.seq_of(l.dataset.indices)
                ENG.check("all samples but one", T.eq(n, T.sub(P(N), ONE)))
                k = T.atom(T.fresh("k"))
                pc = list(ENG.pc)
                ENG.assume(T.in_range(k, n))
                ENG.check("post: every sample but the left-out one, in order (%s)" % what,
                          T.eq(P(item(k)), pos(T.add(k, T.ite_int(T.le(g[0], k), ONE, ZERO)))))
                ENG.pc[:] = pc
                ghost.tick("saves")
            fs.save = save
            m = w.load("dattri.model_util.retrain")
            m.retrain_loo(train, tr, "root", asked if given else None, seed, extra=extra)
            ENG.check("post: the metadata is written", T.eq(P(ghost.metas), ONE))


# ------------------------------------------------------------------ subsets
def lds_world(w, q, split):
    world(w)
    N, n, R, seed = Int("N", 1), Int("subsets", 1), Int("runs", 1), Int("seed", 0)
    what, smp, pos = list(setups(N))[q]
    tr = TrainLoader(smp, Int("bs", 1))
    total = start = 0
    if split:
        start, parts = Int("done_before", 0), Int("parts", 1)
        total = n * parts
        ENG.assume(T.le(P(start + n), P(total)))
    return N, n, R, seed, what, pos, tr, start, total


for q in (0, 1):
    for split, drawn in ((False, False), (False, True), (True, False)):
        @contract("P14", "retrain_lds: %s, %s%s" % (("a loader over chosen samples", "a loader over the whole dataset")[q],
                                                   "one of several calls" if split else "one call",
                                                   ", no seed given" if drawn else ""),
                  [R_ + "retrain_lds", R_ + "_sampled_indices"])
        def c(w, q=q, split=split, drawn=drawn):
            N, n, R, seed, what, pos, tr, start, total = lds_world(w, q, split)
            if drawn:
                seed = wrap(T.var("drawn_seed", "I"))
            a, b = Int("num", 1), Int("den", 1)
            ENG.assume(T.le(P(a), P(b)))
            ratio = a / b
            size = P(N * a // b)
            extra = object()
            ghost = Ghost(saves=0, lists=0, metas=0)

            class Model:
                def __init__(self, loader, seed):
                    self.loader, self.seed = loader, seed

                def state_dict(self):
                    return ("weights of", self)

            def train(loader, seed=None, **k):
                same("the extra arguments are passed on", set(k) == {"extra"} and k["extra"] is extra, True)
                return Model(loader, seed)

            def chosen(i, k):
                return T.fn("choice", T.add(P(seed), i), P(N), size, k, sort="I")

            class Files(FS):
                def write(self, name, x, mode):
                    if name == "root/metadata.yml":
                        self.metadata(x)
                        return
                    g = named(name, r"root/(.*)/indices\.txt")
                    if g is None:
                        raise FileNotFoundError(name)
                    ENG.check("the lists of samples are written in the order of the subsets", T.eq(g[0], T.add(P(start), P(ghost.lists))))
                    xs = x.splitlines()
                    m_, item = xs.as_seq()
                    ENG.check("one line per sample", T.eq(m_, size))
                    k = T.atom(T.fresh("k"))
                    pc = list(ENG.pc)
                    ENG.assume(T.in_range(k, size))
                    ENG.check("post: indices.txt lists the positions drawn for the subset", T.eq(line(item(k)), chosen(g[0], k)))
                    ENG.pc[:] = pc
                    ghost.tick("lists")

                def metadata(self, x):
                    same("mode", x["mode"] == "lds", True)
                    same("name of the training function", x["train_func"] == "train", True)
                    ENG.check("number of samples", T.eq(P(x["data_length"]), P(N)))
                    ENG.check("number of runs", T.eq(P(x["num_runs_per_subset"]), P(R)))
                    ENG.check("subset ratio", T.eq(P(x["subset_ratio"]), P(ratio)))
                    ENG.check("post: the metadata counts the subsets of all calls", T.eq(P(x["num_subsets"]), P(total if split else n)))
                    d = x["subset_dir_map"]
                    ENG.check("post: every subset has a directory", T.eq(P(d.symlen()), P(total if split else n)))
                    i = T.atom(T.fresh("i"))
                    pc = list(ENG.pc)
                    ENG.assume(T.in_range(i, P(total if split else n)))
                    g = named(d[wrap(i)], r"root/(.*)")
                    ENG.check("post: subset i is in directory i", T.eq(g[0], i) if g else T.FALSE)
                    ENG.pc[:] = pc
                    ghost.tick("metas")

                def save(self, name, x):
                    raise AssertionError
            fs = Files(w)

            def save(name, x):
                g = named(name, r"root/(.*)/model_weights_(.*)\.pt")
                if g is None:
                    raise FileNotFoundError(name)
                i, j = g
                ENG.check("post: all runs of all subsets are saved, in order",
                          T.band(T.eq(T.add(T.mul(T.sub(i, P(start)), P(R)), j), P(ghost.saves)), T.in_range(j, P(R))))
                same("the weights of the trained model", isinstance(x, tuple) and x[0] == "weights of", True)
                mo = x[1]
                l = mo.loader
                same("trained on the samples of the same dataset", l.dataset.dataset, tr.dataset)
                ENG.check("same batch size", T.eq(P(l.batch_size), P(tr.batch_size)))
                same("no batch is dropped", bool(l.drop_last), False)
                ENG.check("post: every run has its own seed, the same however the calls are split",
                          T.eq(P(mo.seed), T.add(P(seed), T.add(T.mul(i, P(R)), j))))
                m_, item = sym.seq_of(l.dataset.indices)
                ENG.check("as many samples as drawn", T.eq(m_, size))
                k = T.atom(T.fresh("k"))
                pc = list(ENG.pc)
                ENG.assume(T.in_range(k, size))
                ENG.check("post: the model is trained on the samples at the listed positions (%s)" % what,
                          T.eq(P(item(k)), pos(chosen(i, k))))
                ENG.pc[:] = pc
                ghost.tick("saves")
            fs.save = save
            m = w.load("dattri.model_util.retrain")
            m.retrain_lds(train, tr, "root", n, ratio, R, start, total, None if drawn else seed, extra=extra)
            ENG.check("post: as many models as subsets times runs", T.eq(P(ghost.saves), P(n * R)))
            ENG.check("post: as many lists of samples as subsets", T.eq(P(ghost.lists), P(n)))
            last = T.eq(P(start + n), P(total)) if split else T.TRUE
            ENG.check("post: the last call writes the metadata", T.band(
                T.implies(last, T.eq(P(ghost.metas), ONE)), T.implies(T.bnot(last), T.eq(P(ghost.metas), ZERO))))


@contract("P14", "retrain_lds refuses impossible totals", [R_ + "retrain_lds"])
def c(w):
    for total in (Int("negative", None, -1), Int("subsets", 1) * Int("parts", 0) + Int("rest", 1)):
        N, n, R, seed, what, pos, tr, start, _ = lds_world(w, 1, False)
        if total is not None:
            ENG.assume(T.lt(T.var("rest", "I"), P(n)))

        class Files(FS):
            def write(self, name, x, mode):
                raise AssertionError("a file was written")
            save = mkdir = write
        Files(w)
        m = w.load("dattri.model_util.retrain")
        try:
            m.retrain_lds(lambda *a, **k: None, tr, "root", n, Real("ratio"), R, 0, total, seed)
        except ValueError:
            ENG.check("post: refused before anything is trained", T.TRUE)
        else:
            ENG.check("post: refused before anything is trained", T.FALSE)
