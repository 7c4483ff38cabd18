"""C20: semirings: every small expression and tensor operation against the free semiring of weighted alternatives.

An element of any of these semirings summarises a finite multiset of alternatives: addition joins multisets,
multiplication combines every pair.  All expressions up to a bound are evaluated in both worlds."""
import itertools
import math

import torch

from . import fam as F
from .core import Violation, load_library, run_check
from .draws import explore

ts = load_library()


class Kind:
    """One semiring: leaf values, the summary that its readable value stands for."""

    def __init__(self, name, sr, read, summary, pair=False, tol=1e-9, axes=True, prod=True):
        self.name, self.sr, self.read, self.summary, self.pair, self.tol = name, sr, read, summary, pair, tol
        self.axes, self.prod = axes, prod


def lse(ws):
    if not ws:
        return None
    m = max(ws)
    return m + math.log(sum(math.exp(w - m) for w in ws))


def s_log(ms):
    return [lse([w[0] for w in ms])]


def s_max(ms):
    return [max(w[0] for w in ms) if ms else None]


def s_std(ms):
    return [math.fsum(w[0] for w in ms)]


def s_kmax(k):
    def f(ms):
        v = sorted((w[0] for w in ms), reverse=True)[:k]
        return v + [None] * (k - len(v))
    return f


def s_ent(ms):
    if not ms:
        return ["skip"]
    z = lse([w[0] for w in ms])
    return [-math.fsum(math.exp(w[0] - z) * (w[0] - z) for w in ms)]


def s_ce(ms, kl=False):
    if not ms:
        return ["skip"]
    zp, zq = lse([w[0] for w in ms]), lse([w[1] for w in ms])
    return [math.fsum(math.exp(p - zp) * ((p - zp if kl else 0.0) - (q - zq)) for p, q in ms)]


def s_kl(ms):
    return s_ce(ms, True)


def kinds():
    one = lambda sr: (lambda x: sr.unconvert(x).unsqueeze(0))
    out = [Kind("Log", ts.LogSemiring, one(ts.LogSemiring), s_log),
           Kind("Max", ts.MaxSemiring, one(ts.MaxSemiring), s_max),
           Kind("Std", ts.StdSemiring, one(ts.StdSemiring), s_std),
           Kind("Entropy", ts.EntropySemiring, one(ts.EntropySemiring), s_ent),
           Kind("CrossEntropy", ts.CrossEntropySemiring, one(ts.CrossEntropySemiring), s_ce, pair=True),
           Kind("KL", ts.KLDivergenceSemiring, one(ts.KLDivergenceSemiring), s_kl, pair=True),
           Kind("Sampled", ts.SampledSemiring, one(ts.SampledSemiring), s_log),
           Kind("MultiSampled", ts.MultiSampledSemiring, one(ts.MultiSampledSemiring), s_log),
           Kind("GumbelMax", ts.GumbelMaxSemiring(1.0), one(ts.LogSemiring), s_log),
           Kind("GumbelCRF", ts.GumbelCRFSemiring(1.0), one(ts.LogSemiring), s_log),
           Kind("CheckpointLog", ts.CheckpointSemiring(ts.LogSemiring), one(ts.LogSemiring), s_log),
           Kind("ShardLog", ts.CheckpointShardSemiring(ts.LogSemiring, 2), one(ts.LogSemiring), s_log),
           Kind("CheckpointMax", ts.CheckpointSemiring(ts.MaxSemiring), one(ts.MaxSemiring), s_max)]
    for k in (1, 2, 3, 5):
        out.append(Kind("KMax%d" % k, ts.KMaxSemiring(k), lambda x: x, s_kmax(k), axes=False, prod=False))
    return {k.name: k for k in out}


NAMES = ["Log", "Max", "Std", "Entropy", "CrossEntropy", "KL", "Sampled", "MultiSampled", "GumbelMax", "GumbelCRF",
         "CheckpointLog", "ShardLog", "CheckpointMax", "KMax1", "KMax2", "KMax3", "KMax5"]


def combine(k, a, b):
    """Pairs of alternatives (log weights add, raw weights multiply)."""
    if k.name == "Std":
        return [(x[0] * y[0],) for x in a for y in b]
    return [tuple(u + v for u, v in zip(x, y)) for x in a for y in b]


def leaf_values(k, sharp):
    if k.name == "Std":
        vals = [(2.0,), (0.5,), (3.25,)]
    elif sharp:
        vals = [(-30.0, 4.0), (0.0, -25.0), (41.0, 0.5)]
    else:
        vals = [(0.3, -0.7), (-1.1, 0.4), (0.9, 0.2)]
    vals = [v if k.pair else v[:1] for v in vals]
    return vals


def tensor_of(k, vals, dtype):
    """vals: nested list of leaf tuples -> element tensor with the semiring's extra axis."""
    t = torch.tensor(vals, dtype=dtype)
    if k.pair:
        return k.sr.convert([t[..., 0].contiguous(), t[..., 1].contiguous()])
    return k.sr.convert(t[..., 0].contiguous())


def const(k, which, shape, dtype):
    """zero / one broadcast to an element tensor, the way the dynamic programs do it."""
    n = k.sr.size()
    base = torch.full((n,) + tuple(shape), 7.0, dtype=dtype)
    v = k.sr.zero if which == "zero" else k.sr.one
    return k.sr.fill(base, torch.tensor(True), v)


def compare(st, k, got, ms, dtype, what, scale=1.0):
    """got: (rows, B) readable values; ms: B multisets."""
    g = k.read(got).detach().double()
    g = g.reshape(g.shape[0], -1)
    if g.shape[1] != len(ms):
        raise Violation("%s: %s has %d results, expected %d" % (k.name, what, g.shape[1], len(ms)))
    want = [k.summary(m) for m in ms]
    tol = (3e-4 if dtype == torch.float32 else 1e-8) * scale
    for b, w in enumerate(want):
        if g.shape[0] != len(w):
            raise Violation("%s: %s has %d components, expected %d" % (k.name, what, g.shape[0], len(w)))
        for i, x in enumerate(w):
            y = float(g[i, b])
            if x == "skip":
                continue
            if x is None or x < F.DEAD:
                ok = y < F.DEAD
            else:
                ok = abs(y - x) <= tol * (1 + abs(x))
            if not ok:
                raise Violation("%s: %s gives %r, expected %r" % (k.name, what, y, x), component=i, alternatives=ms[b][:20])
            st.evals += 1
    for w in want[:500]:
        st.outcome(tuple(round(x, 5) if isinstance(x, float) else str(x) for x in w))


def trees(n):
    """All binary trees with n leaves whose inner nodes are + or *."""
    if n == 1:
        return ["x"]
    return [(op, l, r) for i in range(1, n) for l in trees(i) for r in trees(n - i) for op in "+*"]


def show(t):
    return t if t == "x" else "(%s%s%s)" % (show(t[1]), t[0], show(t[2]))


def expressions(st, name, n, sharp, dtype):
    """Every expression with n leaves; each leaf takes 0, 1 and two or three weights in all combinations."""
    k = kinds()[name]
    dt = getattr(torch, dtype)
    vals = leaf_values(k, sharp)
    if n >= 4:
        vals = vals[:max(1, 6 - n)]
    zero_ms, one_ms = [], [((1.0,) if name == "Std" else (0.0,) * (2 if k.pair else 1))]
    opts = ["zero", "one"] + vals
    combos = list(itertools.product(range(len(opts)), repeat=n))
    B = len(combos)
    cols = []
    for j in range(n):
        z, o = const(k, "zero", (B,), dt), const(k, "one", (B,), dt)
        v = tensor_of(k, [vals[max(0, c[j] - 2)] for c in combos], dt)
        idx = torch.tensor([c[j] for c in combos])
        x = k.sr.fill(k.sr.fill(v, idx == 0, k.sr.zero), idx == 1, k.sr.one)
        if not torch.equal(x, torch.where(idx == 0, z, torch.where(idx == 1, o, v))):
            raise Violation("%s: fill does not put the value at the masked places" % name)
        ms = [zero_ms if c[j] == 0 else one_ms if c[j] == 1 else [vals[c[j] - 2]] for c in combos]
        cols.append((x, ms))
    st.states += B * n

    def ev(t, it):
        if t == "x":
            return next(it)
        (a, ma), (b, mb) = ev(t[1], it), ev(t[2], it)
        if t[0] == "+":
            return k.sr.plus(a, b), [x + y for x, y in zip(ma, mb)]
        return k.sr.times(a, b), [combine(k, x, y) for x, y in zip(ma, mb)]

    for t in trees(n):
        x, ms = ev(t, iter(cols))
        compare(st, k, x, ms, dt, "the expression %s" % show(t), scale=10.0 if sharp else 1.0)
        st.transitions += (n - 1) * B
        st.traces += B
    # flat products
    x = k.sr.times(*[c[0] for c in cols])
    ms = [[m for m in r] for r in cols[0][1]]
    for c in cols[1:]:
        ms = [combine(k, a, b) for a, b in zip(ms, c[1])]
    compare(st, k, x, ms, dt, "a product of %d" % n, scale=10.0 if sharp else 1.0)
    if k.prod:
        for ax in (-1, 2):
            x = k.sr.prod(torch.stack([c[0] for c in cols], -1), dim=ax)
            compare(st, k, x, ms, dt, "prod of %d over axis %d" % (n, ax), scale=10.0 if sharp else 1.0)
        x = k.sr.prod(torch.stack([c[0] for c in cols], 1), dim=1)
        compare(st, k, x, ms, dt, "prod of %d over axis 1" % n, scale=10.0 if sharp else 1.0)
    st.sample({"semiring": name, "leaves": n, "assignments": B, "expressions": len(trees(n))})


def elements(k, shape, tag, dtype, composite):
    """A tensor of elements in general position, some composite (built with the library's own + and *), and their
    multisets (flat list, row-major)."""
    g = F.rng("sr", tag)
    n = 1
    for s in shape:
        n *= s

    def one():
        v = g.uniform(0.3, 2.0, (n, 2)) if k.name == "Std" else g.uniform(-1.5, 1.5, (n, 2))
        v = [tuple(r) if k.pair else (r[0],) for r in v.tolist()]
        return tensor_of(k, v, dtype), [[r] for r in v]
    a, ma = one()
    if composite:
        b, mb = one()
        c, mc = one()
        a = k.sr.plus(a, k.sr.times(b, c))
        ma = [x + combine(k, y, z) for x, y, z in zip(ma, mb, mc)]
        # every fifth element is zero
        mask = torch.tensor([i % 5 == 3 for i in range(n)])
        a = k.sr.fill(a, mask, k.sr.zero)
        ma = [[] if i % 5 == 3 else m for i, m in enumerate(ma)]
    return a.reshape((a.shape[0],) + tuple(shape)), ma


def tensors(st, name, shape, dtype, composite):
    """sum over every axis, of every layout."""
    k = kinds()[name]
    dt = getattr(torch, dtype)
    x, ms = elements(k, shape, shape, dt, composite)
    idx = torch.arange(len(ms)).reshape(shape)
    for perm in itertools.permutations(range(len(shape))):
        y = x.permute([0] + [p + 1 for p in perm])
        ix = idx.permute(perm)
        axes = range(len(shape)) if k.axes else [len(shape) - 1]
        for ax in axes:
            groups = ix.movedim(ax, -1).reshape(-1, ix.shape[ax]).tolist()
            want = [[w for i in g for w in ms[i]] for g in groups]
            dims = [ax + 1, ax - len(shape)] if k.axes else [-1]
            for dim in dims:
                got = k.sr.sum(y, dim=dim)
                if tuple(got.shape[1:]) != tuple(ix.shape[:ax] + ix.shape[ax + 1:]):
                    raise Violation("%s: sum over axis %d of %s has shape %s" % (name, dim, tuple(y.shape), tuple(got.shape)))
                compare(st, k, got, want, dt, "sum over axis %d of shape %s" % (dim, tuple(y.shape)))
            if ax == len(shape) - 1:
                compare(st, k, k.sr.sum(y), want, dt, "sum of shape %s" % (tuple(y.shape),))
        st.traces += len(ms)
    # dot of two tensors along the last axis, with broadcasting
    if len(shape) >= 2:
        y, my = elements(k, shape, ("dot", shape), dt, composite)
        n = shape[-1]
        want = [[w for j in range(n) for w in combine(k, ms[r * n + j], my[r * n + j])] for r in range(len(ms) // n)]
        compare(st, k, k.sr.dot(x, y), want, dt, "dot of shape %s" % (shape,))
        st.traces += len(want)
    st.states += len(ms)
    st.sample({"semiring": name, "shape": shape, "composite": composite})


def products(st, name, a, b, c, lead, dtype, composite):
    """matmul (lead, a, b) x (lead, b, c): entry (i, j) joins the alternatives of x[i, t] * y[t, j] over t."""
    k = kinds()[name]
    dt = getattr(torch, dtype)
    x, mx = elements(k, lead + (a, b), ("l", a, b, c), dt, composite)
    y, my = elements(k, lead + (b, c), ("r", a, b, c), dt, composite)
    L = 1
    for s in lead:
        L *= s
    want = []
    for l in range(L):
        for i in range(a):
            for j in range(c):
                want.append([w for t in range(b) for w in combine(k, mx[(l * a + i) * b + t], my[(l * b + t) * c + j])])
    for xx, yy in ((x, y), (F.noncontig(x), F.noncontig(y)),
                   (x.transpose(-1, -2).contiguous().transpose(-1, -2), y.transpose(-1, -2).contiguous().transpose(-1, -2))):
        got = k.sr.matmul(xx, yy)
        if tuple(got.shape[1:]) != lead + (a, c):
            raise Violation("%s: matmul has shape %s, expected %s" % (name, tuple(got.shape[1:]), lead + (a, c)))
        compare(st, k, got, want, dt, "matmul %dx%d by %dx%d" % (a, b, b, c))
    st.traces += len(want)
    st.states += len(want)


def draws(st, name, shape, ax):
    """The gradient of a sampling semiring's sum over any axis is a one-hot choice with the softmax law, chosen
    independently for every slice."""
    sr = kinds()[name].sr
    n = shape[ax]
    g = F.rng("drw", shape, ax)
    x = torch.as_tensor(g.uniform(-1.5, 1.5, shape))
    p = x.softmax(ax).movedim(ax, -1).reshape(-1, n)
    law = {}
    for dim in (ax, ax - len(shape)):
        def once():
            y = x.clone().requires_grad_(True)
            return torch.autograd.grad(sr.sum(y, dim=dim).sum(), y)[0]
        if name == "MultiSampled":
            # 16 samples packed into bits: vary one column of draws at a time
            from .draws import scripted
            R = p.shape[0]
            for combo in itertools.product(range(n), repeat=R):
                for col in range(16):
                    def answer(call, pr, dr):
                        if dr.shape[1] != 16 or dr.shape[0] != R:
                            raise Stop()
                        dr[:, :] = (torch.tensor(combo).unsqueeze(1) + 1 + torch.arange(16)) % n
                        dr[:, col] = torch.tensor(combo)
                    try:
                        with scripted(answer) as s:
                            packed = once_packed(sr, x, dim)
                    except Stop:
                        st.note("MultiSampled draws are laid out differently; checked by C07 only")
                        return
                    if not s.calls:
                        st.note("sampling draws not intercepted; only C07's support check applies")
                        return
                    pr = s.calls[0][0]
                    if not torch.allclose(pr, p, atol=1e-9):
                        raise Violation("%s: sum over axis %d draws from %s, expected %s" % (name, dim, pr.tolist(), p.tolist()))
                    for j in range(16):
                        ev = sr.to_discrete(packed, j).movedim(ax, -1).reshape(-1, n)
                        want = torch.tensor(combo) if j == col else (torch.tensor(combo) + 1 + j) % n
                        if not torch.equal(ev, torch.nn.functional.one_hot(want, n).type_as(ev)):
                            raise Violation("%s: sample %d over axis %d is %s, drawn %s" % (name, j, dim, ev.tolist(), want.tolist()))
                        st.evals += 1
                st.traces += 1
                st.outcome(combo)
            continue
        law = {}
        for pr, out in explore(once, 100000, st):
            if pr is None:
                st.note("sampling draws not intercepted; only C07's support check applies")
                return
            rows = out.movedim(ax, -1).reshape(-1, n)
            if not (bool(((rows == 0) | (rows == 1)).all()) and bool((rows.sum(-1) == 1).all())):
                raise Violation("%s: the gradient over axis %d is not one choice per slice" % (name, dim), got=rows)
            key = tuple(rows.argmax(-1).tolist())
            law[key] = law.get(key, 0.0) + pr
            st.traces += 1
        for key in itertools.product(range(n), repeat=p.shape[0]):
            want = 1.0
            for r, o in enumerate(key):
                want *= float(p[r, o])
            if abs(law.get(key, 0.0) - want) > 1e-9:
                raise Violation("%s: choices %s over axis %d have probability %r, expected %r" % (name, key, dim, law.get(key, 0.0), want))
            st.evals += 1
            st.outcome(key)


class Stop(Exception):
    pass


def once_packed(sr, x, dim):
    """All sixteen samples switched on: the incoming gradient has every bit set."""
    y = x.clone().requires_grad_(True)
    out = sr.sum(y, dim=dim)
    return torch.autograd.grad(out, y, torch.ones_like(out))[0]


def run(tier):
    th = tier == "thorough"
    cases = []
    for name in NAMES:
        for n in range(1, 7 if th else 6):
            for sharp in (0, 1):
                if name == "Std" and sharp:
                    continue
                for dt in ("float64", "float32"):
                    if sharp and dt == "float32":
                        continue
                    cases.append(("expressions", dict(name=name, n=n, sharp=sharp, dtype=dt)))
        for shape in [(1,), (3,), (2, 3), (3, 1), (1, 4), (2, 3, 2), (3, 2, 4)] + ([(2, 3, 2, 3)] if th else []):
            for comp in (0, 1):
                cases.append(("tensors", dict(name=name, shape=shape, dtype="float64", composite=comp)))
        for a, b, c in itertools.product(range(1, 4), repeat=3):
            for lead in ((1,), (2,), (2, 3)):
                for comp in (0, 1):
                    cases.append(("products", dict(name=name, a=a, b=b, c=c, lead=lead, dtype="float64", composite=comp)))
    for name in ("Sampled", "MultiSampled"):
        for shape, ax in [((2, 3), 0), ((2, 3), 1), ((3, 2), 0), ((3, 2), 1), ((2, 2, 2), 0), ((2, 2, 2), 1), ((2, 2, 2), 2),
                          ((1, 3, 2), 1), ((1, 2, 3), 2), ((4,), 0)]:
            cases.append(("draws", dict(name=name, shape=shape, ax=ax)))
    return run_check("C20", "mc.c20", cases, tier,
                     bounds="all expressions with up to %d leaves over 0, 1 and 2-3 weights; sums over every axis and memory "
                            "order of tensors up to 3-4 dimensions; all matrix shapes up to 3x3x3; 17 semirings" % (6 if th else 5),
                     rule="an outcome is a distinct semiring value")
