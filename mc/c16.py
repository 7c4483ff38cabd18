"""C16: derivatives of every answer, against automatic differentiation of the enumerated definition."""
import itertools

import torch

from . import fam as F
from .core import Violation, load_library, run_check

ts = load_library()


def _h(p, x):
    return torch.where(p > 1e-30, p * x, torch.zeros_like(p)).sum(-1)


def definition(q, orcs, theta, phi, R, k=None, row=None):
    """The answer q of every item computed from its enumerated structures, differentiable in theta and phi."""
    out = []
    for b, orc in enumerate(orcs):
        s = orc.scores(theta[b])
        lp = torch.log_softmax(s, -1)
        if q == "partition":
            v = torch.logsumexp(s, -1)
        elif q == "max":
            v = s.max()
        elif q == "kmax":
            v = s.topk(min(k, orc.S)).values
            v = v[row] if row < orc.S else v[0] * 0.0
        elif q == "entropy":
            v = -_h(lp.exp(), lp)
        elif q == "cross_entropy":
            v = -_h(lp.exp(), torch.log_softmax(orc.scores(phi[b]), -1))
        elif q == "kl":
            v = _h(lp.exp(), lp - torch.log_softmax(orc.scores(phi[b]), -1))
        elif q == "log_prob":
            v = lp[row % orc.S]
        elif q == "marginals":
            v = ((lp.exp() @ orc.M) * R[b]).sum()
        out.append(v)
    return torch.stack(out)


def flatten(f, c, ev):
    """Like f.flat, keeping the graph."""
    if isinstance(ev, tuple):
        return torch.cat([e.double().reshape(e.shape[0], -1) for e in ev[:3]], 1)
    return ev.double().reshape(ev.shape[0], -1)


def answer(q, f, c, d, other, orcs, R, dtype, k=None, row=None):
    if q == "kmax":
        return d.kmax(k)[row]
    if q in ("cross_entropy", "kl"):
        return getattr(d, q)(other)
    if q == "log_prob":
        ev = torch.stack([orc.M[row % orc.S] for orc in orcs])
        return d.log_prob(f.event(c, ev, dtype))
    if q == "marginals":
        return (flatten(f, c, d.marginals) * R).sum(-1)
    return getattr(d, q)


def build(f, c, theta, lens, dtype, mode):
    """(distribution, tensors to differentiate)"""
    if mode == "leaf":
        pot = f.pot(c, theta.detach(), dtype)
        leaves = list(pot) if isinstance(pot, tuple) else [pot]
        leaves = [x.detach().requires_grad_(True) for x in leaves]
        return f.of(c, tuple(leaves) if isinstance(pot, tuple) else leaves[0], lens), leaves
    x = theta.detach().clone().requires_grad_(True)
    y = x * 2.0 - x.detach()            # same values, gradient doubled
    return f.of(c, f.pot(c, y, dtype), lens), [x]


QS = ["partition", "max", "entropy", "log_prob", "marginals", "cross_entropy", "kl", "kmax"]


def queries(f, orcs):
    for q in QS:
        if f.tuple_event and q in ("log_prob", "cross_entropy", "kl", "kmax"):
            continue
        if f.key == "cfg" and q == "marginals":
            yield q, {}
        elif q == "kmax":
            for k in (2, 3):
                for r in range(k):
                    yield q, dict(k=k, row=r)
        elif q == "log_prob":
            for r in sorted({0, 1, orcs[0].S // 2, orcs[0].S - 1}):
                yield q, dict(row=r)
        else:
            yield q, {}


def verify(st, f, c, theta, phi, lens, orcs, dtype, label, mode):
    B, P = theta.shape
    theta, phi = theta.to(dtype).double(), phi.to(dtype).double()
    R = F.generic(P, B, "R")
    w = torch.linspace(0.5, 1.5, B, dtype=torch.float64)
    scale = max(5.0, float(theta.clamp(min=-50).abs().max()))
    for q, kw in queries(f, orcs):
        if q == "kmax" and any(orc.S <= kw["row"] for orc in orcs):
            continue
        tt, pp = theta.clone().requires_grad_(True), phi.clone().requires_grad_(True)
        v = definition(q, orcs, tt, pp, R, **kw)
        want = torch.autograd.grad((v * w).sum(), [tt, pp], allow_unused=True)
        d, leaves = build(f, c, theta, lens, dtype, mode)
        o, oleaves = build(f, c, phi, lens, dtype, mode)
        what = "gradient of %s%s (%s, %s)" % (q, kw or "", label, mode)
        a = answer(q, f, c, d, o, orcs, R, dtype, **kw)
        if tuple(a.shape) != (B,):
            raise Violation("%s: answer of shape %s" % (what, tuple(a.shape)), cfg=c)
        F.close(st, a, v, dtype, what[12:], scale=scale * 2, family=f.key, cfg=c)
        if not a.requires_grad:
            raise Violation("%s: the answer does not depend differentiably on the potentials" % what, family=f.key, cfg=c)
        for L in leaves + oleaves:
            if L.grad is not None:
                raise Violation("%s: asking filled in the .grad of the user's tensor" % what, family=f.key, cfg=c)
        out = (a.double() * w).sum()
        two = q in ("cross_entropy", "kl")
        n = len(leaves)
        gs = torch.autograd.grad(out, leaves + (oleaves if two else []), allow_unused=True)
        for i, (part, lv, wnt) in enumerate(((gs[:n], leaves, want[0]),) + (((gs[n:], oleaves, want[1]),) if two else ())):
            part = [torch.zeros_like(l) if x is None else x for x, l in zip(part, lv)]
            got = torch.cat([x.detach().double().reshape(B, -1) for x in part], 1)
            if mode != "leaf":
                got = got / 2.0
            if bool(torch.isnan(got).any()):
                raise Violation("%s: not a number" % what, family=f.key, cfg=c)
            wnt = torch.zeros_like(got) if wnt is None else wnt
            F.close(st, got, wnt, dtype, what + (" in the second distribution" if i else ""), scale=scale * 4,
                    family=f.key, cfg=c, theta=theta[:4])
    st.traces += B
    for x in theta[:100, 0].tolist():
        st.outcome((label, round(x, 4)))


def points(st, fam, c, dtype, mode):
    """Points in general position at every length; every structure favoured in turn; forbidden parts."""
    f = F.FAMS[fam]
    dt = getattr(torch, dtype)
    for l in F.lens_of(f, c):
        orc = F.seen(st, f, c, l)
        if orc.S == 0:
            continue
        if c.get("deep"):
            sets = [("deep", F.deep_theta(orc, 3, fam, "d16", l)),
                    ("deep-pin", F.deep_theta(orc, 1, fam, "dp16", l) + 3.0 * (orc.M[:16] > 0).double())]
        else:
            sets = [("generic", F.generic(orc.P, 3, fam, "g16", l))]
        if dtype == "float64" and not c.get("deep"):
            # separated scores: no ties for max and k-max
            sets.append(("pin", F.generic(orc.P, 1, fam, "p16", l) + 3.0 * (orc.M[:64] > 0).double()))
            th = F.generic(orc.P, 8, fam, "o16", l)
            off = torch.where(F.generic(orc.P, 8, fam, "om16", l) > 1.2, torch.tensor(F.OFF, dtype=torch.float64), th)
            live = (orc.scores(off) > F.DEAD).sum(-1) >= min(3, orc.S)
            if bool(live.any()):
                sets.append(("off", off[live][:3]))
        for label, theta in sets:
            phi = F.generic(orc.P, theta.shape[0], fam, "phi16", l)
            if label == "off" or c.get("deep"):
                phi = torch.where(theta < F.DEAD, theta, phi)
            th, lens, B = F.with_full(f, c, theta, l)
            ph = F.with_full(f, c, phi, l)[0]
            if c.get("deep"):
                if th.shape[0] > B:
                    th[B:] = F.deep_theta(f.oracle(c), 1, fam, "full16", l)
                    ph[B:] = F.deep_theta(f.oracle(c), 1, fam, "full16b", l)
            elif th.shape[0] > B:
                th[B:] = F.generic(orc.P, 1, fam, "full16", l)
                ph[B:] = F.generic(orc.P, 1, fam, "full16b", l)
            orcs = [orc] * B + [f.oracle(c, None)] * (th.shape[0] - B)
            verify(st, f, c, th, ph, lens, orcs, dt, label, mode)
    st.sample({"config": F.cname(fam, c), "dtype": dtype, "mode": mode})


def mixed(st, fam, c, B):
    f = F.FAMS[fam]
    for v in F.length_vectors(f, c, B):
        orcs = [F.seen(st, f, c, l) for l in v]
        theta, phi = F.generic(f.P(c), B, fam, "m16", v), F.generic(f.P(c), B, fam, "m16b", v)
        verify(st, f, c, theta, phi, torch.tensor(v), orcs, torch.float64, "lengths %s" % (v,), "leaf")


def grid(st, fam, c, budget):
    """Smooth answers on every assignment of an alphabet (ties included)."""
    f = F.FAMS[fam]
    orc = F.seen(st, f, c, None)
    g, a = F.grid_theta(orc, budget, [(0.0, 1.5), (-2.0, 0.0, 1.5)])
    if g is None:
        return
    for theta in F.chunks(g, 512):
        B = theta.shape[0]
        tt = theta.clone().requires_grad_(True)
        lp = orc.logp(tt)
        want = {"partition": orc.logZ(tt).sum(), "entropy": -_h(lp.exp(), lp).sum()}
        R = F.generic(orc.P, 1, "Rg")[0]
        want["marginals"] = ((lp.exp() @ orc.M) * R).sum()
        for q, v in want.items():
            gw = torch.autograd.grad(v, tt, retain_graph=True)[0]
            d, leaves = build(f, c, theta, None, torch.float64, "leaf")
            a = flatten(f, c, d.marginals) @ R if q == "marginals" else getattr(d, q)
            got = torch.autograd.grad(a.sum(), leaves)
            got = torch.cat([x.double().reshape(B, -1) for x in got], 1)
            F.close(st, got, gw, torch.float64, "gradient of %s on an alphabet point" % q, scale=20, family=fam, cfg=c)
        st.traces += B
        for x in theta[:50].tolist():
            st.outcome(tuple(x))


def hmm(st, C, V, N):
    """Gradient of the likelihood of every observation sequence in the model's own parameters."""
    g = F.rng("hmm16", C, V, N)
    for x in itertools.product(range(V), repeat=N):
        obs = torch.tensor([x])
        P = [torch.as_tensor(g.normal(size=s)).requires_grad_(True) for s in ((C, C), (V, C), (C,))]
        tr, em, init = P[0].log_softmax(0), P[1].log_softmax(0), P[2].log_softmax(0)
        s = []
        for z in itertools.product(range(C), repeat=N):
            v = init[z[0]] + em[x[0], z[0]]
            for n in range(1, N):
                v = v + tr[z[n], z[n - 1]] + em[x[n], z[n]]
            s.append(v)
        want = torch.autograd.grad(torch.logsumexp(torch.stack(s), 0), P)
        pot = ts.LinearChain.hmm(P[0].log_softmax(0), P[1].log_softmax(0), P[2].log_softmax(0), obs)
        got = torch.autograd.grad(ts.LinearChainCRF(pot).partition.sum(), P)
        for a, b in zip(got, want):
            F.close(st, a, b, torch.float64, "gradient of the HMM likelihood of %s" % (x,), C=C, V=V)
        st.traces += 1
        st.outcome(x)


def run(tier):
    th = tier == "thorough"
    cases = []
    small = F.pick([F.TINY, F.SMALL])
    for k, c in small:
        for mode in ("leaf", "nonleaf"):
            cases.append(("points", dict(fam=k, c=c, dtype="float64", mode=mode)))
        cases.append(("points", dict(fam=k, c=c, dtype="float32", mode="leaf")))
    for k, c in F.deep_sizes(tier):
        cases.insert(0, ("points", dict(fam=k, c=c, dtype="float64", mode="leaf")))
    if th:
        for k, c in F.pick([F.BIG]):
            cases.append(("points", dict(fam=k, c=c, dtype="float64", mode="leaf")))
    for k, c, B in F.mixed_sizes(tier):
        if B == 2 or th:
            cases.append(("mixed", dict(fam=k, c=c, B=B)))
    for k, c in F.pick([F.TINY]):
        cases.append(("grid", dict(fam=k, c=c, budget=100000 if th else 3000)))
    for C, V, N in [(1, 2, 2), (2, 2, 2), (2, 2, 3), (3, 2, 2), (2, 3, 3), (2, 2, 4)]:
        cases.append(("hmm", dict(C=C, V=V, N=N)))
    return run_check("C16", "mc.c16", cases, tier,
                     bounds="all configurations of mc/fam.py, every length, every structure favoured in turn (up to 64), all length "
                            "vectors of 2 items, alphabet assignments on the smallest; pruned sub-models of the DEEP sizes, all their structures",
                     rule="an outcome is a distinct point at which all gradients were compared")
