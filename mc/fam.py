"""Families of distributions: how the library represents them, and the enumerated oracle for each."""
import functools
import itertools

import numpy as np
import torch

from . import models
from .core import SEED, Violation


class Oracle:
    """The explored model of one item: structure x part count matrix, and exact answers from it."""

    def __init__(self, ex, index, P, spans=None):
        self.states, self.transitions = ex.states, ex.transitions
        self.runs = ex.runs
        S = len(ex.runs)
        M = np.zeros((S, P))
        for s, parts in enumerate(ex.runs):
            for p in parts:
                i = index(p)
                if i is not None:
                    M[s, i] += 1
        self.M = torch.tensor(M, dtype=torch.float64)
        self.S, self.P = S, P
        # a chain of one position has C labellings without any part: their events are all the same
        self.distinct = len(set(map(tuple, (sorted(index(p) for p in r if index(p) is not None) for r in ex.runs)))) == S
        # hash of each row, to look up an event among the structures
        self._r = torch.tensor(np.random.RandomState(12345).uniform(1.0, 2.0, P))
        self._h = self.M @ self._r

    def rows(self, ev):
        """Index of the structure each flat event (B,P) equals, or -1."""
        h = ev.double() @ self._r
        order = torch.argsort(self._h)
        pos = torch.searchsorted(self._h[order], h - 1e-9).clamp(max=self.S - 1)
        idx = order[pos]
        ok = (self.M[idx] == ev.double()).all(-1)
        return torch.where(ok, idx, torch.full_like(idx, -1))

    def scores(self, theta):
        return theta.double() @ self.M.t()

    def logZ(self, theta):
        return torch.logsumexp(self.scores(theta), -1)

    def logp(self, theta):
        return torch.log_softmax(self.scores(theta), -1)

    def marginals(self, theta):
        return self.logp(theta).exp() @ self.M


@functools.lru_cache(maxsize=256)
def _oracle(fam, cfg, length):
    f = FAMS[fam]
    c = dict(cfg)
    ts = f.ts(c, length)
    if c.get("deep"):
        ts, allowed = models.deep(ts, rng("deep", fam, cfg, length), *((60, 900), (6, 24))[c["deep"] - 1])
        if ts is None:
            raise RuntimeError("no small sub-model of %s at length %d" % (cname(fam, c), length))
        orc = Oracle(models.Explored(ts), f.index(c), f.P(c))
        orc.allowed = torch.zeros(orc.P, dtype=torch.bool)
        orc.allowed[[f.index(c)(p) for p in allowed]] = True
        return orc
    return Oracle(models.Explored(ts), f.index(c), f.P(c))


class Fam:
    key = None
    tuple_event = False
    min_len = 1
    min_alone = 1           # shortest item that has parts of its own
    needs_full = False      # the library requires max(lengths) == N

    def shape(self, c):
        raise NotImplementedError

    def P(self, c):
        return int(np.prod(self.shape(c)))

    def index(self, c):
        shape = self.shape(c)
        return lambda p: int(np.ravel_multi_index(p, shape))

    def oracle(self, c, length=None):
        return _oracle(self.key, tuple(sorted(c.items())), self.N(c) if length is None else int(length))

    def N(self, c):
        return c["N"]

    def pot(self, c, theta, dtype=torch.float32):
        return theta.to(dtype).reshape((theta.shape[0],) + self.shape(c)).clone()

    def dist(self, c, theta, lengths=None, dtype=torch.float32):
        return self.of(c, self.pot(c, theta, dtype), lengths)

    def of(self, c, pot, lengths=None):
        raise NotImplementedError

    def flat(self, c, ev):
        """event tensor(s) -> (..., P) double"""
        n = len(self.shape(c))
        return ev.detach().double().reshape(tuple(ev.shape[:ev.dim() - n]) + (-1,))

    def event(self, c, flat, dtype=torch.float32):
        return flat.to(dtype).reshape(tuple(flat.shape[:-1]) + self.shape(c))

    def lengths(self, c, l, B):
        """lengths tensor giving every item length l (an extra full item is added by the caller if needed)"""
        return torch.full((B,), int(l), dtype=torch.long)


class ChainF(Fam):
    key = "chain"
    min_alone = 2
    needs_full = True

    def shape(self, c):
        return (c["N"] - 1, c["C"], c["C"])

    def ts(self, c, length):
        return models.Chain(length, c["C"])

    def of(self, c, pot, lengths=None):
        from torch_struct import LinearChainCRF
        return LinearChainCRF(pot, lengths)


class SemiF(Fam):
    key = "semi"
    min_alone = 2
    needs_full = True

    def shape(self, c):
        return (c["N"] - 1, c["K"], c["C"], c["C"])

    def ts(self, c, length):
        return models.Semi(length, c["K"], c["C"])

    def of(self, c, pot, lengths=None):
        from torch_struct import SemiMarkovCRF
        return SemiMarkovCRF(pot, lengths)


class DepF(Fam):
    key = "dep"

    def shape(self, c):
        return (c["N"], c["N"]) + ((c["L"],) if c.get("L") else ())

    def ts(self, c, length):
        return models.Dep(length, c.get("L") or None, multiroot=not c.get("single"))

    def of(self, c, pot, lengths=None):
        from torch_struct import DependencyCRF
        if c.get("single"):
            return DependencyCRF(pot, lengths, multiroot=False)
        return DependencyCRF(pot, lengths)


class NonProjF(DepF):
    key = "nonproj"

    def ts(self, c, length):
        return models.Dep(length, None, multiroot=not c.get("single"), projective=False)

    def of(self, c, pot, lengths=None):
        from torch_struct import NonProjectiveDependencyCRF
        return NonProjectiveDependencyCRF(pot, lengths, multiroot=not c.get("single"))


class TreeF(Fam):
    key = "tree"

    def shape(self, c):
        return (c["N"], c["N"], c["NT"])

    def ts(self, c, length):
        return models.Tree(length, c["NT"])

    def of(self, c, pot, lengths=None):
        from torch_struct import TreeCRF
        return TreeCRF(pot, lengths)


class CFGF(Fam):
    key = "cfg"
    tuple_event = True
    min_len = min_alone = 2

    def shapes(self, c):
        S = c["NT"] + c["T"]
        return [(c["N"], c["T"]), (c["NT"], S, S), (c["NT"],)]

    def sizes(self, c):
        return [int(np.prod(s)) for s in self.shapes(c)]

    def P(self, c):
        return sum(self.sizes(c))

    def index(self, c):
        sh, sz = self.shapes(c), self.sizes(c)

        def f(p):
            if p[0] == "t":
                return int(np.ravel_multi_index(p[1:], sh[0]))
            if p[0] == "r":
                return sz[0] + int(np.ravel_multi_index(p[1:], sh[1]))
            if p[0] == "R":
                return sz[0] + sz[1] + p[1]
            return None
        return f

    def ts(self, c, length):
        return models.CFG(length, c["NT"], c["T"])

    def pot(self, c, theta, dtype=torch.float32):
        out, o = [], 0
        for s, n in zip(self.shapes(c), self.sizes(c)):
            out.append(theta[:, o:o + n].to(dtype).reshape((theta.shape[0],) + s).clone())
            o += n
        return tuple(out)

    def of(self, c, pot, lengths=None):
        from torch_struct import SentCFG
        return SentCFG(pot, lengths)

    def flat(self, c, ev):
        B = ev[0].shape[0]
        return torch.cat([e.detach().double().reshape(B, -1) for e in ev[:3]], 1)

    def spans(self, c, length=None):
        """S x (N*N*NT) span indicators in the library's layout: [j-i-1, i, A] for a span i..j labelled A."""
        key = (tuple(sorted(c.items())), length)
        if key not in _SPANS:
            orc = self.oracle(c, length)
            out = np.zeros((orc.S, c["N"], c["N"], c["NT"]))
            for s, run in enumerate(orc.runs):
                for p in run:
                    if p[0] == "s":
                        out[s, p[2] - p[1] - 1, p[1], p[3]] += 1
            _SPANS[key] = torch.tensor(out).reshape(orc.S, -1)
        return _SPANS[key]


_SPANS = {}
FAMS = {f.key: f for f in (ChainF(), SemiF(), DepF(), NonProjF(), TreeF(), CFGF())}


# ---------------------------------------------------------------- bounded configuration spaces

def d(**k):
    return k


TINY = [  # every potential assignment over a small alphabet is enumerated on these
    ("chain", d(N=2, C=1)), ("chain", d(N=2, C=2)), ("chain", d(N=3, C=2)), ("chain", d(N=5, C=1)),
    ("semi", d(N=2, K=2, C=2)), ("semi", d(N=3, K=3, C=1)), ("semi", d(N=4, K=2, C=1)), ("semi", d(N=4, K=4, C=1)),
    ("dep", d(N=1)), ("dep", d(N=2)), ("dep", d(N=3)), ("dep", d(N=1, L=3)), ("dep", d(N=2, L=2)),
    ("dep", d(N=1, single=1)), ("dep", d(N=2, single=1)), ("dep", d(N=3, single=1)), ("dep", d(N=2, L=2, single=1)),
    ("tree", d(N=1, NT=3)), ("tree", d(N=2, NT=2)), ("tree", d(N=3, NT=1)), ("tree", d(N=4, NT=1)),
    ("cfg", d(N=2, NT=1, T=1)), ("cfg", d(N=3, NT=1, T=1)), ("cfg", d(N=2, NT=1, T=2)),
]
SMALL = [
    ("chain", d(N=2, C=3)), ("chain", d(N=3, C=3)), ("chain", d(N=4, C=2)), ("chain", d(N=4, C=3)),
    ("chain", d(N=5, C=2)), ("chain", d(N=6, C=2)), ("chain", d(N=7, C=2)), ("chain", d(N=9, C=2)), ("chain", d(N=6, C=1)),
    ("semi", d(N=3, K=2, C=2)), ("semi", d(N=3, K=3, C=2)), ("semi", d(N=4, K=3, C=2)), ("semi", d(N=4, K=4, C=2)),
    ("semi", d(N=5, K=4, C=2)), ("semi", d(N=5, K=5, C=2)), ("semi", d(N=6, K=3, C=1)), ("semi", d(N=6, K=5, C=1)),
    ("semi", d(N=7, K=4, C=1)), ("semi", d(N=4, K=6, C=2)), ("semi", d(N=3, K=4, C=3)), ("semi", d(N=6, K=4, C=2)),
    ("dep", d(N=4)), ("dep", d(N=5)), ("dep", d(N=3, L=2)), ("dep", d(N=2, L=3)),
    ("dep", d(N=4, single=1)), ("dep", d(N=5, single=1)), ("dep", d(N=3, L=2, single=1)),
    ("tree", d(N=3, NT=2)), ("tree", d(N=4, NT=2)), ("tree", d(N=3, NT=3)), ("tree", d(N=5, NT=1)), ("tree", d(N=6, NT=1)),
    ("cfg", d(N=2, NT=2, T=2)), ("cfg", d(N=3, NT=2, T=2)), ("cfg", d(N=4, NT=2, T=1)), ("cfg", d(N=4, NT=1, T=2)),
    ("cfg", d(N=3, NT=1, T=3)), ("cfg", d(N=3, NT=3, T=1)), ("cfg", d(N=5, NT=1, T=1)), ("cfg", d(N=4, NT=2, T=2)),
]
BIG = [
    ("chain", d(N=10, C=2)), ("chain", d(N=12, C=2)), ("chain", d(N=6, C=4)), ("chain", d(N=7, C=3)), ("chain", d(N=17, C=1)),
    ("semi", d(N=8, K=4, C=2)), ("semi", d(N=9, K=6, C=1)), ("semi", d(N=10, K=4, C=1)), ("semi", d(N=5, K=4, C=3)),
    ("semi", d(N=7, K=7, C=2)), ("semi", d(N=6, K=8, C=2)),
    ("dep", d(N=6)), ("dep", d(N=7)), ("dep", d(N=6, single=1)), ("dep", d(N=7, single=1)), ("dep", d(N=4, L=2)),
    ("dep", d(N=4, L=2, single=1)), ("dep", d(N=3, L=4)),
    ("tree", d(N=5, NT=2)), ("tree", d(N=8, NT=1)), ("tree", d(N=4, NT=3)),
    ("cfg", d(N=5, NT=2, T=1)), ("cfg", d(N=6, NT=1, T=1)), ("cfg", d(N=4, NT=2, T=3)), ("cfg", d(N=4, NT=3, T=2)), ("cfg", d(N=7, NT=1, T=1)),
]

# large sizes on which only some parts are allowed (the rest have OFF potentials): every structure of the sub-model
DEEP = [
    ("chain", d(N=16, C=3, deep=1)), ("chain", d(N=17, C=4, deep=1)), ("chain", d(N=33, C=2, deep=1)),
    ("chain", d(N=65, C=3, deep=1)), ("chain", d(N=9, C=9, deep=1)), ("chain", d(N=4, C=20, deep=1)),
    ("chain", d(N=24, C=5, deep=1)), ("chain", d(N=48, C=2, deep=1)),
    ("semi", d(N=12, K=5, C=3, deep=1)), ("semi", d(N=17, K=8, C=2, deep=1)), ("semi", d(N=33, K=3, C=2, deep=1)),
    ("semi", d(N=10, K=7, C=3, deep=1)), ("semi", d(N=20, K=9, C=2, deep=1)), ("semi", d(N=6, K=5, C=6, deep=1)),
    ("dep", d(N=9, deep=1)), ("dep", d(N=12, deep=1)), ("dep", d(N=16, deep=1)), ("dep", d(N=7, L=3, deep=1)),
    ("dep", d(N=9, single=1, deep=1)), ("dep", d(N=13, single=1, deep=1)), ("dep", d(N=17, single=1, deep=1)),
    ("dep", d(N=6, L=5, single=1, deep=1)),
    ("tree", d(N=9, NT=3, deep=1)), ("tree", d(N=12, NT=2, deep=1)), ("tree", d(N=17, NT=1, deep=1)), ("tree", d(N=6, NT=6, deep=1)),
    ("cfg", d(N=7, NT=4, T=3, deep=1)), ("cfg", d(N=9, NT=6, T=5, deep=1)), ("cfg", d(N=6, NT=6, T=8, deep=1)), ("cfg", d(N=8, NT=5, T=4, deep=1)),
    ("chain", d(N=130, C=2, deep=1)), ("chain", d(N=5, C=40, deep=1)),
    ("semi", d(N=40, K=4, C=2, deep=1)), ("semi", d(N=5, K=3, C=12, deep=1)), ("semi", d(N=13, K=13, C=1, deep=1)),
    ("dep", d(N=24, deep=1)), ("dep", d(N=28, single=1, deep=1)), ("dep", d(N=5, L=12, deep=1)), ("dep", d(N=18, L=2, single=1, deep=1)),
    ("tree", d(N=33, NT=1, deep=1)), ("tree", d(N=5, NT=20, deep=1)), ("tree", d(N=20, NT=3, deep=1)),
    ("cfg", d(N=17, NT=3, T=3, deep=1)), ("cfg", d(N=4, NT=12, T=20, deep=1)),
]

# the same with few structures, for checks that search the tree of random choices
SPARSE = [
    ("chain", d(N=17, C=3, deep=2)), ("chain", d(N=33, C=2, deep=2)), ("chain", d(N=4, C=12, deep=2)), ("chain", d(N=12, C=4, deep=2)),
    ("semi", d(N=17, K=4, C=2, deep=2)), ("semi", d(N=9, K=8, C=2, deep=2)), ("semi", d(N=6, K=3, C=5, deep=2)),
    ("dep", d(N=10, deep=2)), ("dep", d(N=9, single=1, deep=2)), ("dep", d(N=6, L=3, deep=2)), ("dep", d(N=13, deep=2)),
    ("tree", d(N=10, NT=3, deep=2)), ("tree", d(N=14, NT=1, deep=2)), ("tree", d(N=5, NT=8, deep=2)),
]

# full models too large to list their structures: sums, maxima and counts over the explored state graph
LARGE = [
    ("chain", d(N=17, C=3)), ("chain", d(N=33, C=5)), ("chain", d(N=20, C=8)), ("chain", d(N=64, C=3)), ("chain", d(N=26, C=2)),
    ("semi", d(N=20, K=5, C=3)), ("semi", d(N=33, K=4, C=2)), ("semi", d(N=12, K=8, C=4)), ("semi", d(N=16, K=12, C=2)),
    ("tree", d(N=10, NT=2)), ("tree", d(N=11, NT=1)), ("tree", d(N=7, NT=5)),
    ("cfg", d(N=6, NT=2, T=2)), ("cfg", d(N=8, NT=1, T=2)), ("cfg", d(N=5, NT=3, T=3)), ("cfg", d(N=5, NT=4, T=2)),
]


def large_values(st, f, c, l, theta):
    """B x (logZ, max, count) of the full model at length l."""
    idx = f.index(c)
    out = []
    for b in range(theta.shape[0]):
        t = theta[b].tolist()
        v, n, m = models.path_values(f.ts(c, l), lambda p: 0.0 if idx(p) is None else t[idx(p)])
        out.append(v)
    st.states += n
    st.transitions += m
    return out


def large_marginals(st, f, c, l, theta):
    """logZ (B) and expected uses (B x P) of the full model at length l."""
    idx = f.index(c)
    z, m = [], torch.zeros(theta.shape[0], f.P(c), dtype=torch.float64)
    for b in range(theta.shape[0]):
        t = theta[b].tolist()
        logz, use, n, k = models.path_marginals(f.ts(c, l), lambda p: 0.0 if idx(p) is None else t[idx(p)])
        z.append(logz)
        for p, x in use.items():
            if idx(p) is not None:
                m[b, idx(p)] += x
    st.states += n
    st.transitions += k
    return torch.tensor(z, dtype=torch.float64), m


def large_lens(f, c):
    N = f.N(c)
    return sorted({N, N - 1, (N + 2) // 2})


def pick(lists, *keys):
    return [(k, c) for l in lists for k, c in l if not keys or k in keys]


def cname(fam, c):
    return fam + "(" + ",".join("%s=%s" % kv for kv in c.items()) + ")"


# ---------------------------------------------------------------- potential sets

def rng(*tags):
    import zlib
    return np.random.RandomState((zlib.crc32(repr(tags).encode()) + 7919 * SEED) % (2 ** 31))


def generic(P, B, *tags, scale=2.0):
    """B fixed points in general position (all structures have different scores)."""
    return torch.tensor(rng("generic", P, B, *tags).uniform(-scale, scale, (B, P)))


def grid(P, alphabet):
    """Every assignment of the alphabet to the P parts (used parts only are passed in)."""
    return torch.tensor(list(itertools.product(alphabet, repeat=P)), dtype=torch.float64)


def used_parts(orc):
    return [i for i in range(orc.P) if orc.M[:, i].any()]


def grid_theta(orc, budget, alphabets):
    """All assignments over the largest alphabet that fits in the budget, on the parts some structure uses;
    parts that no structure uses get a large value: they must have no influence."""
    used = used_parts(orc)
    best = None
    for a in alphabets:
        if len(a) ** len(used) <= budget:
            best = a
    if best is None:
        return None, None
    g = grid(len(used), best)
    th = torch.full((g.shape[0], orc.P), 3.0, dtype=torch.float64)
    th[:, used] = g
    return th, best


OFF = -1e9      # how the library's users forbid a part with finite potentials


def certificate(orc, cap=None):
    """For every structure s: only s allowed (0), and for every part p of s: p doubled (log 2), p forbidden.

    Together with the total count these determine the multilinear polynomial the dynamic program computes:
    every structure is a term, with coefficient one, each of its parts entering exactly once, and nothing else
    is a term.  Yields batches of potentials."""
    n = orc.S if cap is None else min(orc.S, cap)
    for s in range(n):
        on = orc.M[s] > 0
        base = torch.where(on, torch.tensor(0.0, dtype=torch.float64), torch.tensor(OFF, dtype=torch.float64))
        rows = [base]
        for p in on.nonzero().flatten().tolist():
            for v in (float(np.log(2.0)), OFF):
                r = base.clone()
                r[p] = v
                rows.append(r)
        yield s, torch.stack(rows)


def chunks(theta, n):
    for i in range(0, theta.shape[0], n):
        yield theta[i:i + n]


def batches(gen, n):
    buf, cnt = [], 0
    for _, r in gen:
        buf.append(r)
        cnt += r.shape[0]
        if cnt >= n:
            yield torch.cat(buf)
            buf, cnt = [], 0
    if buf:
        yield torch.cat(buf)


# ---------------------------------------------------------------- comparison

TOL = {torch.float32: (2e-4, 2e-4), torch.float64: (1e-8, 1e-8)}
DEAD = -9e4     # anything below is "no structure": the library's zero is -1e5


def close(st, got, want, dtype, what, scale=1.0, **detail):
    """Element-wise comparison; -inf/very negative expectations only require a very negative result."""
    got = got.detach().double()
    want = want.detach().double()
    if tuple(got.shape) != tuple(want.shape):
        raise Violation("%s: shape %s, expected %s" % (what, tuple(got.shape), tuple(want.shape)), **detail)
    a, r = TOL[dtype]
    dead = want < DEAD
    ok = torch.where(dead, got < DEAD, (got - want).abs() <= a * scale + r * want.abs() * scale)
    st.evals += got.numel()
    if not bool(ok.all()):
        i = (~ok).nonzero()[0].tolist()
        raise Violation("%s: got %r, expected %r at %s" % (what, got[tuple(i)].item(), want[tuple(i)].item(), i), **detail)


def with_full(f, c, theta, l):
    """Lengths vector for a batch at length l; appends a full-length item where the library requires one."""
    B = theta.shape[0]
    N = f.N(c)
    if l == N:
        return theta, None, B
    lens = torch.full((B,), l, dtype=torch.long)
    theta = torch.cat([theta, torch.zeros(1, theta.shape[1], dtype=theta.dtype)])
    return theta, torch.cat([lens, torch.tensor([N])]), B


ALPH = [(0.0, 1.5), (-2.0, 0.0, 1.5), (-2.0, 0.0, 1.5, 7.0), (-2.0, -0.5, 0.0, 1.5, 7.0)]


def noncontig(t):
    p = list(range(t.dim()))[::-1]
    return t.permute(p).contiguous().permute(p)


LAYOUTS = ("plain", "noncontiguous", "requires_grad", "nonleaf", "batch1", "full_lengths")


def laid_out(f, c, theta, mode, dtype=torch.float32):
    """A distribution over the same numbers in another tensor layout; returns (dist, batch)."""
    if mode == "batch1":
        theta = theta[:1]
    pot = f.pot(c, theta, dtype)
    one = not isinstance(pot, tuple)
    pots = [pot] if one else list(pot)
    if mode == "noncontiguous":
        pots = [noncontig(p) for p in pots]
    elif mode == "requires_grad":
        pots = [p.requires_grad_(True) for p in pots]
    elif mode == "nonleaf":
        pots = [p.requires_grad_(True) * 1.0 for p in pots]
    lens = torch.tensor([f.N(c)] * theta.shape[0]) if mode == "full_lengths" else None
    return f.of(c, pots[0] if one else tuple(pots), lens), theta.shape[0]


def deep_theta(orc, B, *tags, scale=2.0):
    """Potentials in general position on the allowed parts, OFF elsewhere."""
    return torch.where(orc.allowed, generic(orc.P, B, *tags, scale=scale), torch.tensor(OFF, dtype=torch.float64))


def shifted(orc, n, total, *tag):
    """Generic potentials moved so far that whole structures score up to the given total."""
    return generic(orc.P, n, *tag) + total / max(1.0, float(orc.M.sum(-1).max()))


def sweep(f, c, kinds, budget, alph=ALPH, lens=None):
    """Yield (label, theta, length, dtype): the potential sets of one configuration, every length."""
    for l in lens or lens_of(f, c):
        orc = f.oracle(c, l)
        if orc.S == 0:
            continue
        if "generic" in kinds:
            yield "generic", generic(orc.P, 6, f.key, l), l, torch.float32
            yield "generic64", generic(orc.P, 4, f.key, l, 64), l, torch.float64
        if "grid" in kinds:
            th, a = grid_theta(orc, budget, alph)
            if th is not None:
                for t in chunks(th, 4096):
                    yield "grid%s" % (a,), t, l, torch.float32
        if "pin" in kinds:
            # one batch item per structure: that structure is favoured, everything else in general position
            th = generic(orc.P, 1, f.key, l, "pin") + 12.0 * (orc.M > 0).double()
            for t in chunks(th, 2048):
                yield "pin", t, l, torch.float32
        if "wide" in kinds:
            yield "wide30", generic(orc.P, 4, f.key, l, "w", scale=30.0), l, torch.float64
            yield "wide300", generic(orc.P, 4, f.key, l, "w3", scale=300.0), l, torch.float64
            for name, total in (("low", -6e4), ("high", 6e4)):
                yield name, shifted(orc, 3, total, f.key, l, name), l, torch.float64
            yield "flat", torch.zeros(2, orc.P, dtype=torch.float64), l, torch.float32
        if "deep" in kinds:
            yield "deep", deep_theta(orc, 6, f.key, l, "deep"), l, torch.float32
            yield "deep64", deep_theta(orc, 4, f.key, l, "deep64"), l, torch.float64
            yield "deep-flat", torch.where(orc.allowed, 0.0, OFF).unsqueeze(0).double(), l, torch.float32
        if "deep-pin" in kinds:
            # every structure of the sub-model favoured in turn
            th = deep_theta(orc, 1, f.key, l, "deep-pin") + 6.0 * (orc.M > 0).double()
            for t in chunks(th, 256):
                yield "deep-pin", t, l, torch.float64
        if "off" in kinds:
            theta = generic(orc.P, 12, f.key, l, "off")
            mask = generic(orc.P, 12, f.key, l, "offmask") > 1.0
            theta = torch.where(mask, torch.tensor(OFF, dtype=torch.float64), theta)
            live = orc.logZ(theta) > DEAD
            if bool(live.any()):
                yield "off", theta[live], l, torch.float64


def seen(st, f, c, l):
    orc = f.oracle(c, l)
    st.states += orc.states
    st.transitions += orc.transitions
    return orc


def lens_of(f, c):
    N = f.N(c)
    if c.get("deep"):
        return sorted(l for l in {N, N - 1, N - 2, (N + 1) // 2 + 1} if l >= max(f.min_len, 1))
    return range(max(f.min_len, 1), N + 1)


def long_lens(f, c):
    return [l for l in lens_of(f, c) if l >= f.min_alone]


# ---------------------------------------------------------------- batches of mixed lengths

def length_vectors(f, c, B):
    """Every vector of B lengths that the family accepts."""
    N = f.N(c)
    for v in itertools.product(lens_of(f, c), repeat=B):
        if not f.needs_full or max(v) == N:
            yield v


class Item:
    """One item of a batched distribution, presented as a batch of one."""

    def __init__(self, dist, b):
        self.dist, self.b = dist, b

    def _cut(self, v, dim=0):
        if isinstance(v, tuple):
            return tuple(self._cut(x, dim if i == 3 else 0) for i, x in enumerate(v))
        return v.narrow(dim, self.b, 1)

    def __getattr__(self, name):
        return self._cut(getattr(self.dist, name))

    def kmax(self, k):
        return self._cut(self.dist.kmax(k), 1)

    def topk(self, k):
        return self._cut(self.dist.topk(k), 1)

    def cross_entropy(self, other):
        return self._cut(self.dist.cross_entropy(other.dist))

    def kl(self, other):
        return self._cut(self.dist.kl(other.dist))


def mixed(f, c, B, n=1):
    """Yield (lengths, [theta_1..theta_n], dtype) for every length vector."""
    for v in length_vectors(f, c, B):
        yield v, [generic(f.P(c), B, f.key, "mixed", v, i) for i in range(n)], torch.float32 if sum(v) % 2 else torch.float64


def deep_sizes(tier, *keys):
    return pick([DEEP], *keys)


def mixed_sizes(tier):
    """(family, configuration, batch size) of the mixed-length cases."""
    out = [(k, c, 2) for k, c in pick([TINY, SMALL]) if FAMS[k].N(c) <= (7 if tier == "thorough" else 5)]
    out += [(k, c, 3) for k, c in pick([TINY, SMALL]) if FAMS[k].N(c) <= (5 if tier == "thorough" else 4)]
    return out
