"""C05: entropy, cross-entropy, KL divergence."""
import torch

from . import fam as F
from .core import run_check


def _h(p, x):
    """sum p * x with 0 * (very negative) = 0"""
    return torch.where(p > 0, p * x, torch.zeros_like(p)).sum(-1)


def verify(st, f, c, mk, theta, phi, l, dtype, B, label):
    orc = f.oracle(c, l)
    lp, lq = orc.logp(theta.to(dtype)), orc.logp(phi.to(dtype))
    p = lp.exp()
    H, CE, KL = -_h(p, lp), -_h(p, lq), _h(p, lp - lq)
    scale = max(5.0, float(theta.clamp(min=-1e3).abs().max()), float(phi.clamp(min=-1e3).abs().max()))
    kw = dict(scale=scale, family=f.key, cfg=c, length=l)
    F.close(st, mk(0).entropy[:B], H, dtype, "entropy (%s)" % label, **kw)
    if not f.tuple_event:
        F.close(st, mk(0).cross_entropy(mk(1))[:B], CE, dtype, "cross_entropy (%s)" % label, **kw)
        F.close(st, mk(0).kl(mk(1))[:B], KL, dtype, "kl (%s)" % label, **kw)
        F.close(st, mk(0).kl(mk(0))[:B], torch.zeros_like(KL), dtype, "kl with itself (%s)" % label, **kw)
        F.close(st, mk(0).cross_entropy(mk(0))[:B], H, dtype, "cross_entropy with itself (%s)" % label, **kw)
    st.traces += B
    for v in H[:200].tolist():
        st.outcome(round(v, 4))


def sweep(st, fam, c, kinds, budget):
    f = F.FAMS[fam]
    for l in F.lens_of(f, c):
        F.seen(st, f, c, l)
    for label, theta, l, dtype in F.sweep(f, c, kinds, budget, alph=[(0.0, 1.5), (-2.0, 0.0, 1.5), (-2.0, 0.0, 1.5, 3.0)]):
        if label == "wide300":
            continue
        th, lens, B = F.with_full(f, c, theta, l)
        phi = F.generic(theta.shape[1], theta.shape[0], fam, l, "q", label)
        if label == "off" or label.startswith("deep"):
            phi = torch.where(theta < F.DEAD, theta, phi)
        if label in ("low", "high"):
            phi = F.shifted(f.oracle(c, l), theta.shape[0], 4e4 if label == "high" else -4e4, fam, l, "q")
        if label.startswith("grid"):
            phi = theta.flip(0) * 0.5       # every assignment against its mirror image
        if label == "pin":
            phi = theta.roll(1, 0) * 0.25
        ph = torch.cat([phi, torch.zeros(th.shape[0] - phi.shape[0], phi.shape[1], dtype=phi.dtype)])
        verify(st, f, c, lambda i: f.dist(c, (th, ph)[i], lens, dtype), theta, phi, l, dtype, B, label)
        st.sample({"config": F.cname(fam, c), "length": l, "potentials": label, "items": B})


def pairs(st, fam, c, alph):
    """Every pair (p, q) of potential assignments over a two-letter alphabet."""
    f = F.FAMS[fam]
    for l in F.lens_of(f, c):
        orc = F.seen(st, f, c, l)
        g, a = F.grid_theta(orc, 64, [tuple(alph)])
        if g is None:
            continue
        n = g.shape[0]
        theta, phi = g.repeat_interleave(n, 0), g.repeat(n, 1)
        th, lens, B = F.with_full(f, c, theta, l)
        ph = F.with_full(f, c, phi, l)[0]
        verify(st, f, c, lambda i: f.dist(c, (th, ph)[i], lens), theta, phi, l, torch.float32, B, "pairs%s" % (a,))


def layout(st, fam, c):
    f = F.FAMS[fam]
    orc = F.seen(st, f, c, None)
    theta, phi = F.generic(orc.P, 3, fam, "layout"), F.generic(orc.P, 3, fam, "layout2")
    for mode in F.LAYOUTS:
        for ng in (False, True):
            with torch.set_grad_enabled(not ng):
                B = F.laid_out(f, c, theta, mode)[1]
                verify(st, f, c, lambda i: F.laid_out(f, c, (theta, phi)[i], mode)[0], theta[:B], phi[:B], f.N(c),
                       torch.float32, B, mode)


def mixed(st, fam, c, B):
    """Every vector of lengths: each item of the batch is right at its own length."""
    f = F.FAMS[fam]
    for v, (theta, phi), dtype in F.mixed(f, c, B, 2):
        for b, l in enumerate(v):
            mk = [F.Item(f.dist(c, t, torch.tensor(v), dtype), b) for t in (theta, phi)]
            verify(st, f, c, lambda i: mk[i], theta[b:b + 1], phi[b:b + 1], l, dtype, 1, "lengths %s" % (v,))


def steep(st, fam, c):
    """p and q far apart: every structure in turn is nearly impossible under q, and nearly certain under p."""
    f = F.FAMS[fam]
    for l in F.lens_of(f, c):
        orc = F.seen(st, f, c, l)
        on = (orc.M[:256] > 0).double()
        base = F.generic(orc.P, 1, fam, l, "steep")
        for a, b in ((0.0, -40.0), (0.0, -200.0), (8.0, -60.0), (-60.0, 8.0), (0.0, 25.0)):
            theta, phi = base + a * on, base.flip(1) + b * on
            th, lens, B = F.with_full(f, c, theta, l)
            ph = F.with_full(f, c, phi, l)[0]
            verify(st, f, c, lambda i: f.dist(c, (th, ph)[i], lens, torch.float64), theta, phi, l, torch.float64, B,
                   "steep%s" % ((a, b),))


def large(st, fam, c):
    """Full models of larger sizes: expectations over the explored state graph."""
    f = F.FAMS[fam]
    for l in F.large_lens(f, c):
        zero = torch.zeros(1, f.P(c), dtype=torch.float64)
        theta = torch.cat([F.generic(f.P(c), 1, fam, "large", l), zero]).float().double()
        phi = torch.cat([F.generic(f.P(c), 1, fam, "large2", l), zero]).float().double().flip(0)
        (zp, m), (zq, _) = F.large_marginals(st, f, c, l, theta), F.large_marginals(st, f, c, l, phi)
        H, CE = zp - (m * theta).sum(-1), zq - (m * phi).sum(-1)
        th, lens, B = F.with_full(f, c, theta, l)
        ph = F.with_full(f, c, phi, l)[0]
        for dtype in (torch.float32, torch.float64):
            def mk(t):
                return f.dist(c, t, lens, dtype)
            kw = dict(scale=20.0, family=fam, cfg=c, length=l)
            F.close(st, mk(th).entropy[:B], H, dtype, "entropy (large)", **kw)
            if not f.tuple_event:
                F.close(st, mk(th).cross_entropy(mk(ph))[:B], CE, dtype, "cross_entropy (large)", **kw)
                F.close(st, mk(th).kl(mk(ph))[:B], CE - H, dtype, "kl (large)", **kw)
        for v in H.tolist():
            st.outcome(round(v, 4))
        st.traces += 2


def run(tier):
    th = tier == "thorough"
    cases = []
    for k, c in F.pick([F.TINY]):
        cases.append(("sweep", dict(fam=k, c=c, kinds=["grid"], budget=300000 if th else 9000)))
        cases.append(("pairs", dict(fam=k, c=c, alph=[-1.0, 2.0])))
    for k, c in F.pick([F.TINY, F.SMALL]):
        cases.append(("sweep", dict(fam=k, c=c, kinds=["generic", "pin", "wide", "off"], budget=0)))
        cases.append(("layout", dict(fam=k, c=c)))
    for k, c in F.pick([F.BIG]):
        cases.append(("sweep", dict(fam=k, c=c, kinds=["generic", "pin", "wide", "off"] if th else ["generic"], budget=0)))
    for k, c in F.deep_sizes(tier):
        cases.insert(0, ("sweep", dict(fam=k, c=c, kinds=["deep", "deep-pin"], budget=0)))
    cases += [("large", dict(fam=k, c=c)) for k, c in F.pick([F.LARGE])]
    for k, c, B in F.mixed_sizes(tier):
        cases.append(("mixed", dict(fam=k, c=c, B=B)))
    for k, c in F.pick([F.TINY, F.SMALL]):
        cases.append(("steep", dict(fam=k, c=c)))
    return run_check("C05", "mc.c05", cases, tier,
                     bounds="all configurations of mc/fam.py, every length; all pairs of two-letter assignments on the smallest; pruned sub-models of the DEEP sizes, all their structures",
                     rule="an outcome is a distinct entropy value")
