"""C07: the law of sample(), by exploring every sequence of random choices that it makes."""
import itertools
import math
import time

import torch

from . import fam as F
from .core import Violation, run_check
from .draws import MIN_P, TooMany, explore, scripted


LONG = [90.0]       # seconds per process for requests of many samples that take more than two seconds each
SLOW = [30.0]       # seconds per process for explorations that cannot use lanes; afterwards only the support is checked


class Ancestral(Exception):
    """Later draws are made from distributions that depend on earlier draws."""


def one_pass(dist, ncalls):
    """How many of these calls are made in one pass, if all passes make as many as a single sample needs."""
    with scripted(lambda *a: None) as s:
        dist.sample((1,))
    per = len(s.calls)
    return per if per and ncalls % per == 0 else ncalls


def flip_lanes(per, width, wanted):
    """Answers every draw of the wanted lanes (a lane is one column of the draws of one pass) with its second option."""
    def flip(call, p, draws):
        lane = (call // per) * width + torch.arange(draws.shape[1])
        o = second(p)
        for col in wanted(lane).nonzero().flatten().tolist():
            draws[:, col] = torch.where(o >= 0, o, draws[:, col])
    return flip


def listen(run, s0, base, per):
    """The lane that each sample depends on: lanes are flipped by the binary digits of their numbers and the complements
    of these digits, so a sample of one lane changes in exactly one run of each two.  None: on several lanes; -1: on none."""
    width = max(n for _, n, _ in s0.calls)
    bits = max(1, (len(s0.calls) // per * width - 1).bit_length())
    lane = [0] * len(base)
    several, never = set(), set(range(len(base)))
    for b in range(bits):
        both = []
        for v in (0, 1):
            _, out = run(flip_lanes(per, width, lambda x: ((x >> b) & 1) == v))
            both.append((out != base).reshape(len(base), -1).any(1).tolist())
        for k, (zero, one) in enumerate(zip(*both)):
            if zero or one:
                never.discard(k)
            if zero == one:
                several.add(k)
            lane[k] |= int(one) << b
    return [-1 if k in never else None if k in several else lane[k] for k in range(len(base))], width


def alone(run, s0, base, per, lanes, width):
    """No draw may influence two samples."""
    owners = {}
    for k, x in enumerate(lanes):
        owners.setdefault(x, []).append(k)
    if None in owners:
        todo = range(len(s0.calls) // per * width)
    else:
        todo = [x for x, ks in owners.items() if len(ks) > 1 and x >= 0][:20]
    t0 = time.time()
    for x in todo:
        if time.time() - t0 > 10:
            return
        _, out = run(flip_lanes(per, width, lambda y: y == x))
        if int((out != base).reshape(len(base), -1).any(1).sum()) > 1:
            shared_draw(run, base, x % width, x // width * per)


class Sampler:
    """Runs dist.sample under scripts.  Several scripts are answered in one run when each returned sample is
    found to depend on its own column of draws."""

    def __init__(self, f, c, dist, items, st):
        self.f, self.c, self.dist, self.items, self.st = f, c, dist, items, st
        self.lanes = None
        calls = []
        for self.n in (1, 10, 7, 4):        # as many samples as one pass of the program yields, if it yields several
            calls.append(len(self._raw(lambda call, p, d: None)[0].calls))
            if self.n > 1 and calls[-1] == calls[0]:
                break
        else:
            self.n = 10
        for self.n in (self.n, 1):      # if the samples of one call do not use one lane each, a single sample is explored
            s0, base = self._raw(lambda call, p, d: None)
            self.intercepted = len(s0.calls) > 0
            if not self.intercepted:
                return
            self._lanes(s0, base)
            if self.lanes is not None:
                return

    def _raw(self, answer):
        with scripted(answer) as s:
            out = self.dist.sample((self.n,))
        want = (self.n, ) + tuple(self.dist.batch_shape) + tuple(self.dist.event_shape)
        if tuple(out.shape) != want:
            raise Violation("sample has shape %s, expected %s" % (tuple(out.shape), want))
        self.st.evals += 1
        return s, self.f.flat(self.c, out)[:, :self.items]

    def _lanes(self, s0, base):
        """Which lane does each returned sample listen to?"""
        self.per = one_pass(self.dist, len(s0.calls))
        self.all = s0.calls
        self.calls = [p for p, _, _ in s0.calls[:self.per]]
        passes = len(s0.calls) // self.per
        if not all(r or n == 1 for _, n, r in s0.calls) or len({n for _, n, _ in s0.calls}) != 1:
            return
        for t, (p, _, _) in enumerate(s0.calls):
            if not torch.equal(p, self.calls[t % self.per]):
                return
        lanes, self.width = listen(self._raw, s0, base, self.per)
        alone(self._raw, s0, base, self.per, lanes, self.width)
        found = [x for x in lanes if x != -1]
        if None in found or len(set(found)) < len(found):
            return
        self.lanes = {k: x for k, x in enumerate(lanes) if x != -1}
        self.ks = sorted(self.lanes)
        self.slow = passes > 1

    def run(self, scripts):
        """Outcome (flat event of the observed items) and call probabilities for every script {(call,row): option}."""
        out = []
        ks = self.ks
        for lo in range(0, len(scripts), len(ks)):
            part = scripts[lo:lo + len(ks)]
            per_call = {}
            for k, sc in zip(ks, part):
                for (call, row), o in sc.items():
                    ps, col = divmod(self.lanes[k], self.width)
                    per_call.setdefault(ps * self.per + call, []).append((row, col, o))

            def answer(call, p, draws):
                for row, col, o in per_call.get(call, ()):
                    draws[row, col] = o
            s, got = self._raw(answer)
            if len(s.calls) != len(self.all) or any(
                    not torch.equal(p, q) for (p, _, _), (q, _, _) in zip(s.calls, self.all)):
                raise Ancestral()
            for k, _ in zip(ks, part):
                out.append(got[k])
        return out


def second(p):
    """Per row: the likeliest option other than the one that is taken by default, or -1 if nothing else is possible."""
    if p.shape[-1] < 2:
        return torch.full((p.shape[0],), -1, dtype=torch.long)
    v, i = p.scatter(-1, p.argmax(-1, keepdim=True), -1.0).max(-1)
    return torch.where(v > MIN_P, i, torch.full_like(i, -1))


def shared_draw(run, base, col, start=0):
    """Samples change together when one column of draws changes: does a single draw influence two samples?"""
    s, _ = run(lambda *a: None)
    t0 = time.time()
    for t, (p, _, _) in list(enumerate(s.calls))[start:]:
        if time.time() - t0 > 2:
            return
        for r, o in enumerate(second(p).tolist()):
            if o < 0:
                continue

            def flip(call, p, draws):
                if call == t and r < draws.shape[0] and col < draws.shape[1]:
                    draws[r, col] = o
            _, out = run(flip)
            ch = (out != base).reshape(base.shape[0], -1).any(1).nonzero().flatten().tolist()
            if len(ch) > 1:
                raise Violation("samples %s are not independent: one random draw decides all of them" % ch)


def leaves(sm, st, cap, limit):
    """Depth-first search of the tree of random choices; yields (probability, outcome)."""
    rows = [(t, r, int(o)) for t, p in enumerate(sm.calls) for r, o in enumerate(second(p).tolist()) if o >= 0]
    alt = {(t, r): o for t, r, o in rows}
    stack = [({}, -1)]
    count = 0
    t0 = time.time()
    while stack:
        if limit is not None and time.time() - t0 > limit:
            raise TooMany()
        script, depth = stack.pop()
        base = sm.run([script])[0]
        tests, keys = [], []
        for t, r, o in rows:
            cur = script.get((t, r))
            best = int(sm.calls[t][r].argmax())
            new = o if cur is None or cur == best else best
            sc = dict(script)
            sc[(t, r)] = new
            tests.append(sc)
            keys.append((t, r))
        outs = sm.run(tests)
        active = [k for k, o in zip(keys, outs) if not torch.equal(o, base)]
        missing = [k for k in script if k not in active]
        if missing:
            raise Violation("a random choice that was taken stopped mattering", rows=missing[:3])
        prob = 1.0
        for t, r in active:
            prob *= float(sm.calls[t][r][script.get((t, r), int(sm.calls[t][r].argmax()))])
        st.states += 1 + len(active)
        yield prob, base
        count += 1
        if count > cap:
            raise Violation("more than %d distinct runs of the sampler" % cap)
        # branch on every active row not fixed by the script, keeping the rows before it at their present choice
        free = [k for k in active if k not in script]
        fixed = dict(script)
        for k in free:
            best = int(sm.calls[k[0]][k[1]].argmax())
            for o in (sm.calls[k[0]][k[1]] > MIN_P).nonzero().flatten().tolist():
                if o != best:
                    sc = dict(fixed)
                    sc[k] = o
                    st.transitions += 1
                    stack.append((sc, 0))
            fixed[k] = best


def support_only(st, f, c, dist, orcs, label):
    """The draws are not visible: only check that every sample is a structure."""
    st.note("random draws were not intercepted (%s): only the support of samples was checked" % label)
    out = f.flat(c, dist.sample((50,)))
    for b, orc in enumerate(orcs):
        if bool((orc.rows(out[:, b]) < 0).any()):
            raise Violation("a sample is not a structure", family=f.key, cfg=c)
    st.traces += 50


def law(st, f, c, theta, lens, dtype, items, orcs, label, cap=20000):
    """Explore the joint law of the first `items` batch items and compare with the product of their p(z)."""
    dist = f.dist(c, theta, lens, dtype)
    sm = Sampler(f, c, dist, items, st)
    if not sm.intercepted:
        if all(o.S == 1 for o in orcs):
            return
        return support_only(st, f, c, dist, orcs, label)
    logps = [o.logp(theta[b:b + 1].to(dtype))[0] for b, o in enumerate(orcs)]
    if sm.lanes is not None and not sm.ks:
        # nothing random: there must be one structure only
        if any(bool((lp.exp() > 1e-6).sum() > 1) for lp in logps):
            raise Violation("samples do not depend on any random draw", family=f.key, cfg=c, potentials=label)
        out = sm._raw(lambda *a: None)[1]
        for b, o in enumerate(orcs):
            r = o.rows(out[:, b])
            if bool((r < 0).any()) or float(logps[b].exp()[r].min()) < 1 - 1e-5:
                raise Violation("a sample is not the only possible structure", family=f.key, cfg=c, potentials=label)
        return
    if sm.lanes is not None and len(sm.ks) < sm.n and max(float((lp.exp() > 1e-6).sum()) for lp in logps) > 1:
        raise Violation("some samples do not depend on any random draw: %s" % sm.ks, family=f.key, cfg=c, potentials=label)
    total, got = 0.0, {}
    tol = 2e-4 if dtype == torch.float32 else 1e-8
    t0 = time.time()
    try:
        if sm.lanes is None:
            raise Ancestral()
        runs = list(leaves(sm, st, cap, SLOW[0] if sm.slow or sm.n == 1 else None))
        if sm.slow or sm.n == 1:
            SLOW[0] -= time.time() - t0
    except TooMany:
        SLOW[0] -= time.time() - t0
        return support_only(st, f, c, dist, orcs, label)
    except Ancestral:
        try:
            runs = list(explore(lambda: f.flat(c, dist.sample((1,)))[0, :items], 2000, st, SLOW[0]))
        except TooMany:
            return support_only(st, f, c, dist, orcs, label)
        finally:
            SLOW[0] -= time.time() - t0
    for prob, out in runs:
        z = tuple(int(o.rows(out[b:b + 1])[0]) for b, o in enumerate(orcs))
        if -1 in z:
            raise Violation("a sample is not a structure", family=f.key, cfg=c, sample=out, potentials=label, theta=theta)
        got[z] = got.get(z, 0.0) + prob
        total += prob
        st.traces += 1
    for z in itertools.product(*[range(o.S) for o in orcs]):
        want = math.exp(sum(float(lp[i]) for lp, i in zip(logps, z)))
        st.evals += 1
        if abs(got.get(z, 0.0) - want) > tol:
            raise Violation("structure %s is sampled with probability %.8f, not %.8f" % (z, got.get(z, 0.0), want),
                            family=f.key, cfg=c, potentials=label, theta=theta, lengths=lens)
    if abs(total - 1) > 10 * tol:
        raise Violation("sample probabilities add up to %r" % total, family=f.key, cfg=c)
    st.outcome((label, len(got)))
    for z in list(got)[:400]:
        st.outcome((label,) + z)


def single(st, fam, c, cap_S, kinds):
    f = F.FAMS[fam]
    for l in F.long_lens(f, c):
        orc = f.oracle(c, l)
        if orc.S > cap_S:
            continue
        th = {"generic": F.generic(orc.P, 1, fam, l, "s"), "flat": torch.zeros(1, orc.P, dtype=torch.float64),
              "steep": F.generic(orc.P, 1, fam, l, "steep", scale=6.0)}
        for kind in kinds:
            theta, lens, B = F.with_full(f, c, th[kind], l)
            for dtype in (torch.float32, torch.float64):
                law(st, f, c, theta, lens, dtype, 1, [orc], kind)
        st.sample({"config": F.cname(fam, c), "length": l, "structures": orc.S})


def deep(st, fam, c, l):
    """The whole tree of choices of a large model in which few structures are possible."""
    f = F.FAMS[fam]
    orc = F.seen(st, f, c, l)
    theta, lens, B = F.with_full(f, c, F.deep_theta(orc, 1, fam, l, "s"), l)
    law(st, f, c, theta, lens, torch.float32, 1, [orc], "deep")
    st.sample({"config": F.cname(fam, c), "length": l, "structures": orc.S})


def pair(st, fam, c, cap_S):
    """Two items of one batch, of every pair of lengths: their samples must be independent."""
    f = F.FAMS[fam]
    N = f.N(c)
    for la in F.long_lens(f, c):
        for lb in F.long_lens(f, c):
            if f.needs_full and max(la, lb) < N:
                continue
            orcs = [f.oracle(c, la), f.oracle(c, lb)]
            if orcs[0].S * orcs[1].S > cap_S:
                continue
            theta = F.generic(orcs[0].P, 2, fam, la, lb, "pair")
            law(st, f, c, theta, torch.tensor([la, lb]), torch.float64, 2, orcs, "pair%s" % ((la, lb),))
            st.sample({"config": F.cname(fam, c), "lengths": [la, lb]})


def many(st, fam, c, sizes):
    """More samples than one pass of the program yields: no draw is used for two samples, none is constant."""
    f = F.FAMS[fam]
    orc = F.seen(st, f, c, None)
    if orc.S < 2:
        return
    dist = f.dist(c, F.generic(orc.P, 1, fam, "many"))
    for n in sizes:
        t0 = time.time()
        if LONG[0] < 0:
            st.note("samples are too slow: fewer than %d were asked for" % n)
            return

        def run(answer):
            with scripted(answer) as s:
                out = f.flat(c, dist.sample((n,)))[:, 0]
            if tuple(out.shape) != (n, orc.P):
                raise Violation("sample shape", got=list(out.shape))
            if bool((orc.rows(out) < 0).any()):
                raise Violation("a sample is not a structure", family=fam, cfg=c, n=n)
            st.traces += 1
            return s, out
        s0, base = run(lambda *a: None)
        if not s0.calls:
            return support_only(st, f, c, dist, [orc], "many")
        if not bool((base == base[0]).all()):
            raise Violation("samples differ under identical draws", family=fam, cfg=c, n=n)
        per = one_pass(dist, len(s0.calls))
        lanes, width = listen(run, s0, base, per)
        if -1 in lanes:
            raise Violation("samples %s of %d depend on no draw" % ([k for k, x in enumerate(lanes) if x == -1][:5], n),
                            family=fam, cfg=c)
        alone(run, s0, base, per, lanes, width)
        st.outcome(n)
        LONG[0] -= max(0.0, time.time() - t0 - 2)
    st.sample({"config": F.cname(fam, c), "samples": list(sizes)})


def ambient(st, fam, c):
    """Every setting that must not matter: no_grad, potentials with gradients, non-contiguous, after other queries."""
    f = F.FAMS[fam]
    orc = F.seen(st, f, c, None)
    theta = F.generic(orc.P, 3, fam, "ambient")
    for mode in F.LAYOUTS:
        for ng in (False, True):
            for prior in ("", "marginals", "argmax", "entropy", "topk"):
                with torch.set_grad_enabled(not ng):
                    dist, B = F.laid_out(f, c, theta, mode)
                    if prior == "topk":
                        dist.topk(2)
                    elif prior:
                        getattr(dist, prior)
                    with scripted(lambda *a: None):
                        out = dist.sample((3,))
                if out.requires_grad:
                    raise Violation("samples carry gradients")
                o = f.flat(c, out)
                for b in range(B):
                    if bool((orc.rows(o[:, b]) < 0).any()):
                        raise Violation("a sample is not a structure (%s, no_grad=%s, after %r)" % (mode, ng, prior),
                                        family=fam, cfg=c)
                st.traces += 1
                st.outcome((mode, ng, prior))


KEYS = ("chain", "semi", "dep", "tree")


def run(tier):
    th = tier == "thorough"
    cases = []
    for k, c in F.pick([F.TINY, F.SMALL], *KEYS):
        cases.append(("single", dict(fam=k, c=c, cap_S=300 if th else 60, kinds=["generic", "flat", "steep"] if th else ["generic"])))
        cases.append(("many", dict(fam=k, c=c, sizes=[1, 2, 9, 10, 11, 20, 21, 33, 47])))
        cases.append(("many", dict(fam=k, c=c, sizes=[101, 130, 300] + ([1100] if F.FAMS[k].P(c) <= 8 else []))))
        cases.append(("ambient", dict(fam=k, c=c)))
    for k, c in F.pick([F.SPARSE], *KEYS):
        cases += [("deep", dict(fam=k, c=c, l=l)) for l in (F.FAMS[k].N(c), F.FAMS[k].N(c) - 2)]
    for k, c in F.pick([F.TINY], *KEYS):
        cases.append(("pair", dict(fam=k, c=c, cap_S=400 if th else 70)))
    return run_check("C07", "mc.c07", cases, tier,
                     bounds="configurations of mc/fam.py with at most %d structures: every sequence of draws; pairs of batch "
                            "items with at most %d joint outcomes" % (300 if th else 60, 400 if th else 70),
                     rule="an outcome is a distinct sampled structure of one potential set",
                     assumptions=["every random choice goes through torch.multinomial, whose contract (independent rows and "
                                  "columns, given probabilities) is trusted"])
