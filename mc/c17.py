"""C17: Gumbel structured sampling: every choice driven by controlled noise, its law measured and multiplied out."""
import contextlib
import math

import torch

from . import fam as F
from .core import Violation, load_library, run_check

ts = load_library()


class Noise:
    """Answers every uniform (or exponential) variate that torch draws.  Rows are the slices along one axis (the last,
    unless the library lays its noise out the other way); `script` maps (call, row) -> Gumbel values of its options, all other rows get Gumbel value 0."""

    def __init__(self, script, axis=-1):
        self.script, self.axis, self.calls = script, axis, []

    def fill(self, shape, dtype):
        shape = tuple(int(s) for s in shape)
        g = torch.zeros(shape or (1,), dtype=torch.float64).movedim(self.axis, -1)
        moved, n = g.shape, g.shape[-1]
        g = g.reshape(-1, n)
        call = len(self.calls)
        self.calls.append((g.shape[0], n, dtype))
        for (k, row), vals in self.script.items():
            if k == call and row < g.shape[0] and len(vals) == n:
                g[row] = torch.as_tensor(vals, dtype=torch.float64)
        return g.reshape(moved).movedim(-1, self.axis).reshape(shape)

    def uniform(self, shape, dtype):
        u = torch.exp(-torch.exp(-self.fill(shape, dtype)))
        eps = torch.finfo(dtype).eps
        return u.clamp(torch.finfo(dtype).tiny, 1 - eps / 2).to(dtype)


@contextlib.contextmanager
def controlled(script, axis=-1):
    nz = Noise(script, axis)
    saved = torch.rand, torch.rand_like, torch.Tensor.uniform_, torch.Tensor.exponential_

    def rand(*size, generator=None, out=None, dtype=None, **kw):
        size = kw.pop("size", size)
        if len(size) == 1 and not isinstance(size[0], int):
            size = size[0]
        return nz.uniform(size, dtype or torch.get_default_dtype())

    def rand_like(t, dtype=None, **kw):
        return nz.uniform(t.shape, dtype or t.dtype)

    def uniform_(t, a=0, b=1, **kw):
        with torch.no_grad():
            return t.copy_(a + (b - a) * nz.uniform(t.shape, t.dtype))

    def exponential_(t, lambd=1, **kw):
        with torch.no_grad():
            return t.copy_(torch.exp(-nz.fill(t.shape, t.dtype)) / lambd)
    torch.rand, torch.rand_like, torch.Tensor.uniform_, torch.Tensor.exponential_ = rand, rand_like, uniform_, exponential_
    try:
        yield nz
    finally:
        torch.rand, torch.rand_like, torch.Tensor.uniform_, torch.Tensor.exponential_ = saved


class Layout(Exception):
    """The noise is not laid out with one row per choice: only the support can be checked."""


STRUCT = {"chain": "LinearChain", "semi": "SemiMarkov", "dep": "DepTree", "tree": "CKY_CRF"}


class Explorer:
    def __init__(self, st, f, c, theta, lens, temp, api, axis=-1):
        self.axis = axis
        self.st, self.f, self.c, self.theta, self.lens, self.temp, self.api = st, f, c, theta, lens, temp, api
        self.B = theta.shape[0]
        ls = [f.N(c)] * self.B if lens is None else [int(x) for x in lens]
        self.orcs = [f.oracle(c, l) for l in ls]
        self.probs = {}
        self.cache = {}
        base, nz = self.raw({})
        self.rows = [(k, r, n) for k, (R, n, _) in enumerate(nz.calls) for r in range(R) if n > 1]
        self.noisy = bool(nz.calls)
        low = any(dt == torch.float32 for _, _, dt in nz.calls)
        self.HIGH, self.REF, self.LOW = (14.0, 4.0, -4.0) if low else (30.0, 18.0, -6.0)
        self.ncalls = [(R, n) for R, n, _ in nz.calls]

    def call(self):
        pot = self.f.pot(self.c, self.theta, torch.float64)
        if self.api == "max":
            model = getattr(ts, STRUCT[self.f.key])(ts.GumbelMaxSemiring(self.temp))
            return model.marginals(pot, self.lens)
        return self.f.of(self.c, pot, self.lens).gumbel_crf(self.temp)

    def raw(self, script):
        with controlled(script, self.axis) as nz:
            ev = self.call()
        fl = self.f.flat(self.c, ev)
        if tuple(fl.shape) != (self.B, self.orcs[0].P):
            raise Violation("result has shape %s" % (tuple(ev.shape),), cfg=self.c)
        out = []
        for b in range(self.B):
            i = int(self.orcs[b].rows(fl[b:b + 1])[0])
            if i < 0:
                raise Violation("the result is not a structure of the item's length", family=self.f.key, cfg=self.c, got=fl[b])
            out.append(i)
        self.st.evals += 1
        return tuple(out), nz

    def go(self, script):
        key = tuple(sorted((k, tuple(v)) for k, v in script.items()))
        if key not in self.cache:
            out, nz = self.raw(script)
            if [(R, n) for R, n, _ in nz.calls] != self.ncalls:
                raise Layout()
            self.cache[key] = out
        return self.cache[key]

    def only(self, n, o):
        return [self.HIGH if i == o else self.LOW for i in range(n)]

    def law(self, k, r, n, rest):
        """Probabilities of the options of one row, from the noise margins at which the outcome switches."""
        if (k, r) in self.probs:
            return self.probs[(k, r)]
        outs = [self.go({**rest, (k, r): self.only(n, o)}) for o in range(n)]
        for a in (-3.0, 3.0):
            if self.go({**rest, (k, r): [a] * n}) != self.go(rest):
                raise Layout()      # equal noise for all options must not matter
        base = self.go(rest)
        ref = next(o for o in range(n) if outs[o] != base)
        logit = {ref: 0.0}
        progress = True
        while progress:
            progress = False
            for o in range(n):
                if o in logit:
                    continue
                for s in list(logit):
                    def at(g):
                        v = [self.LOW] * n
                        v[s], v[o] = self.REF, g
                        return self.go({**rest, (k, r): v})
                    lo, hi = self.LOW, self.HIGH
                    a, b = at(lo), at(hi)
                    if a == b:
                        continue
                    for _ in range(28):
                        mid = (lo + hi) / 2
                        if at(mid) == a:
                            lo = mid
                        else:
                            hi = mid
                    logit[o] = logit[s] + self.REF - (lo + hi) / 2
                    progress = True
                    break
        z = sum(math.exp(v) for v in logit.values())
        p = [math.exp(logit[o]) / z if o in logit else 0.0 for o in range(n)]
        self.probs[(k, r)] = p
        self.st.transitions += len(logit)
        return p

    def explore(self):
        """Decision tree over the rows that matter; returns the law of the outcome."""
        for k, (R, n) in enumerate(self.ncalls):
            for r in range(R):
                for a in (self.HIGH, self.LOW):
                    if self.go({(k, r): [a] * n}) != self.go({}):
                        raise Layout()      # equal noise for all options must not matter
        law = {}
        stack = [({}, 1.0)]
        while stack:
            script, pr = stack.pop()
            base = self.go(script)
            self.st.states += 1
            for k, r, n in self.rows:
                if (k, r) in script:
                    continue
                if any(self.go({**script, (k, r): self.only(n, o)}) != base for o in range(n)):
                    p = self.law(k, r, n, script)
                    for o in range(n):
                        if p[o] > 0:
                            stack.append(({**script, (k, r): self.only(n, o)}, pr * p[o]))
                    break
            else:
                law[base] = law.get(base, 0.0) + pr
                self.st.traces += 1
        return law


def structures(st, fam, c, lens, B, api, scale=0.7, temp=1.0):
    f = F.FAMS[fam]
    torch.set_default_dtype(torch.float64)
    try:
        theta = F.generic(f.P(c), B, fam, "gum", B, scale=scale)
        law = None
        for axis in (-1, 0):
            ex = Explorer(st, f, c, theta, None if lens is None else torch.tensor(lens), temp, api, axis)
            if not ex.noisy:
                st.note("noise of the Gumbel sampler not intercepted: only the support is checked")
                return
            try:
                law = ex.explore()
                break
            except Layout:
                continue
        if law is None:
            st.note("noise of the Gumbel sampler is laid out differently: only the support is checked")
            return
        for o in ex.orcs:
            st.states += o.states
            st.transitions += o.transitions
        ps = [o.logp(theta[b:b + 1]).exp()[0] for b, o in enumerate(ex.orcs)]
        from itertools import product
        for key in product(*[range(o.S) for o in ex.orcs]):
            want = 1.0
            for b, i in enumerate(key):
                want *= float(ps[b][i])
            got = law.get(key, 0.0)
            if abs(got - want) > 2e-4:
                raise Violation("structure %s has probability %r, expected %r" % (key, got, want), family=fam, cfg=c, lengths=lens,
                                api=api, temperature=temp, parts=[str(ex.orcs[b].runs[i]) for b, i in enumerate(key)])
            st.evals += 1
            st.outcome(key)
        st.sample({"config": F.cname(fam, c), "lengths": lens, "batch": B, "api": api, "choices that matter": len(ex.probs)})
    finally:
        torch.set_default_dtype(torch.float32)


def surface(st, fam, c):
    """Valid 0/1 structures for every length, temperature, dtype and gradient mode; gradients exist and are finite."""
    f = F.FAMS[fam]
    for l in F.lens_of(f, c):
        orc = F.seen(st, f, c, l)
        def point(B, *tags):
            return F.deep_theta(orc, B, *tags) if c.get("deep") else F.generic(orc.P, B, *tags)
        theta0 = point(3, fam, "gums", l)
        th, lens, B = F.with_full(f, c, theta0, l)
        for dt in (torch.float32, torch.float64):
            for temp in (0.1, 1.0, 5.0):
                for ng in (False, True):
                    pot = f.pot(c, th, dt).requires_grad_(True)
                    with torch.set_grad_enabled(not ng):
                        ev = f.of(c, pot, lens).gumbel_crf(temp)
                    idx = orc.rows(f.flat(c, ev)[:B])
                    if ev.dtype != dt:
                        raise Violation("gumbel_crf returns %s for %s potentials" % (ev.dtype, dt), cfg=c)
                    if bool((idx < 0).any()):
                        raise Violation("gumbel_crf result is not a structure of length %d" % l, family=fam, cfg=c, got=f.flat(c, ev)[:B])
                    if pot.grad is not None:
                        raise Violation("gumbel_crf filled in the .grad of the potentials", family=fam, cfg=c)
                    if orc.S > 1:
                        R = F.generic(orc.P, th.shape[0], "gumR").to(dt).reshape(ev.shape)
                        g = torch.autograd.grad((ev * R).sum(), pot)[0]
                        if bool(torch.isnan(g).any()) or bool(torch.isinf(g).any()):
                            raise Violation("gradient of gumbel_crf is not finite", family=fam, cfg=c)
                        used = (orc.M > 0).any(0)
                        pad = f.flat(c, g)[:B][:, ~used]
                        if pad.numel() and float(pad.abs().max()) > 1e-6:
                            raise Violation("gradient of gumbel_crf at a part that no structure has", family=fam, cfg=c, length=l)
                        st.outcome((l, temp, bool((g != 0).any())))
                    st.evals += 1
        # a dominating structure is always returned
        pin = point(1, fam, "gump", l) + 60.0 * (2 * (orc.M[:128] > 0).double() - 1)
        t2, lens, B = F.with_full(f, c, pin, l)
        ev = f.dist(c, t2, lens, torch.float64).gumbel_crf(1.0)
        best = orc.scores(pin).argmax(-1)
        if not torch.equal(orc.rows(f.flat(c, ev)[:B]), best):
            raise Violation("gumbel_crf misses the dominating structure", family=fam, cfg=c, length=l)
        st.traces += B


LAW = [("chain", F.d(N=2, C=2), None, 1), ("chain", F.d(N=2, C=3), None, 1), ("chain", F.d(N=3, C=2), None, 1),
       ("chain", F.d(N=4, C=2), None, 1), ("chain", F.d(N=5, C=2), None, 1), ("chain", F.d(N=3, C=3), None, 1),
       ("chain", F.d(N=2, C=2), None, 2), ("chain", F.d(N=3, C=2), None, 2), ("chain", F.d(N=3, C=2), [2, 3], 2),
       ("semi", F.d(N=2, K=2, C=2), None, 1), ("semi", F.d(N=3, K=3, C=1), None, 1), ("semi", F.d(N=3, K=2, C=2), None, 1),
       ("semi", F.d(N=3, K=3, C=2), None, 1), ("semi", F.d(N=3, K=2, C=1), [2, 3], 2),
       ("dep", F.d(N=2), None, 1), ("dep", F.d(N=3), None, 1), ("dep", F.d(N=1, L=3), None, 1), ("dep", F.d(N=2, L=2), None, 1),
       ("dep", F.d(N=4), None, 1), ("dep", F.d(N=2), None, 2), ("dep", F.d(N=2, L=2), [1, 2], 2), ("dep", F.d(N=3), [2, 3], 2),
       ("tree", F.d(N=1, NT=3), None, 1), ("tree", F.d(N=2, NT=2), None, 1), ("tree", F.d(N=3, NT=1), None, 1),
       ("tree", F.d(N=3, NT=2), None, 1), ("tree", F.d(N=4, NT=1), None, 1), ("tree", F.d(N=2, NT=2), None, 2),
       ("tree", F.d(N=3, NT=1), [2, 3], 2), ("tree", F.d(N=5, NT=1), None, 1)]


def run(tier):
    th = tier == "thorough"
    cases = []
    for fam, c, lens, B in LAW:
        cases.append(("structures", dict(fam=fam, c=c, lens=lens, B=B, api="crf")))
        cases.append(("structures", dict(fam=fam, c=c, lens=lens, B=B, api="max")))
        for temp in (0.25, 0.5, 3.0) if th else (0.5, 3.0):
            if th or F.FAMS[fam].oracle(c).S <= 12:
                cases.append(("structures", dict(fam=fam, c=c, lens=lens, B=B, api="crf", temp=temp)))
    for k, c in F.pick([F.TINY, F.SMALL], "chain", "semi", "dep", "tree"):
        cases.append(("surface", dict(fam=k, c=c)))
    for k, c in F.pick([F.SPARSE], "chain", "semi", "dep", "tree"):
        cases.append(("surface", dict(fam=k, c=c)))
    for k, c in F.pick([F.TINY], "dep"):
        if c.get("single") and not c.get("L"):
            cases.append(("structures", dict(fam=k, c=c, lens=None, B=1, api="crf")))
    return run_check("C17", "mc.c17", cases, tier,
                     bounds="every choice of structures up to 5 positions, single items and pairs of items of all length vectors "
                            "listed; every length, temperature and gradient mode on the larger configurations",
                     rule="an outcome is a distinct structure (or pair) whose probability was measured")
