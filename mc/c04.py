"""C04: marginals, and the gradient identity that produces them."""
import torch

from . import fam as F
from .core import Violation, run_check


def verify(st, f, c, dist, theta, l, dtype, B, label):
    orc = f.oracle(c, l)
    want = orc.marginals(theta.to(dtype))
    scale = max(1.0, 0.1 * float(theta.clamp(min=-1e3).abs().max()))
    m = dist.marginals
    got = f.flat(c, m)[:B]
    F.close(st, got, want, dtype, "marginals (%s)" % label, scale=scale, family=f.key, cfg=c, length=l)
    if f.tuple_event:
        sp = m[3].detach().double().reshape(m[3].shape[0], -1)[:B]
        wsp = orc.logp(theta.to(dtype)).exp() @ f.spans(c, l)
        F.close(st, sp, wsp, dtype, "span marginals (%s)" % label, scale=scale, family=f.key, cfg=c, length=l)
    st.traces += B
    for v in got.reshape(-1)[:200].tolist():
        st.outcome(round(v, 3))


def sweep(st, fam, c, kinds, budget):
    f = F.FAMS[fam]
    for l in F.lens_of(f, c):
        F.seen(st, f, c, l)
    for label, theta, l, dtype in F.sweep(f, c, kinds, budget):
        th, lens, B = F.with_full(f, c, theta, l)
        verify(st, f, c, f.dist(c, th, lens, dtype), theta, l, dtype, B, label)
        st.sample({"config": F.cname(fam, c), "length": l, "potentials": label, "items": B})


def layout(st, fam, c):
    f = F.FAMS[fam]
    orc = F.seen(st, f, c, None)
    theta = F.generic(orc.P, 3, fam, "layout")
    for mode in F.LAYOUTS:
        for ng in (False, True):
            with torch.set_grad_enabled(not ng):
                dist, B = F.laid_out(f, c, theta, mode)
                verify(st, f, c, dist, theta[:B], f.N(c), torch.float32, B, mode)


def mixed(st, fam, c, B):
    """Every vector of lengths: each item of the batch is right at its own length."""
    f = F.FAMS[fam]
    for v, (theta,), dtype in F.mixed(f, c, B):
        dist = f.dist(c, theta, torch.tensor(v), dtype)
        for b, l in enumerate(v):
            verify(st, f, c, F.Item(dist, b), theta[b:b + 1], l, dtype, 1, "lengths %s" % (v,))


def large(st, fam, c):
    """Full models of larger sizes: expected uses over the explored state graph."""
    f = F.FAMS[fam]
    for l in F.large_lens(f, c):
        theta = F.generic(f.P(c), 2, fam, "large", l).float().double()
        want = F.large_marginals(st, f, c, l, theta)[1]
        th, lens, B = F.with_full(f, c, theta, l)
        for dtype in (torch.float32, torch.float64):
            got = f.flat(c, f.dist(c, th, lens, dtype).marginals)[:B]
            F.close(st, got, want, dtype, "marginals (large)", scale=10.0, family=fam, cfg=c, length=l)
        st.traces += B
        for v in got.reshape(-1)[:200].tolist():
            st.outcome(round(v, 3))


def run(tier):
    th = tier == "thorough"
    cases = []
    for k, c in F.pick([F.TINY]):
        cases.append(("sweep", dict(fam=k, c=c, kinds=["grid"], budget=300000 if th else 20000)))
    for k, c in F.pick([F.TINY, F.SMALL]):
        cases.append(("sweep", dict(fam=k, c=c, kinds=["generic", "pin", "wide", "off"], budget=0)))
        cases.append(("layout", dict(fam=k, c=c)))
    for k, c in F.pick([F.BIG]):
        cases.append(("sweep", dict(fam=k, c=c, kinds=["generic", "pin", "wide", "off"] if th else ["generic"], budget=0)))
    for k, c in F.deep_sizes(tier):
        cases.insert(0, ("sweep", dict(fam=k, c=c, kinds=["deep", "deep-pin"], budget=0)))
    cases += [("large", dict(fam=k, c=c)) for k, c in F.pick([F.LARGE])]
    for k, c, B in F.mixed_sizes(tier):
        cases.append(("mixed", dict(fam=k, c=c, B=B)))
    return run_check("C04", "mc.c04", cases, tier,
                     bounds="all configurations of mc/fam.py, every length; every structure pinned once; all potential "
                            "assignments over small alphabets on TINY; pruned sub-models of the DEEP sizes, all their structures",
                     rule="an outcome is a distinct marginal value (3 digits)")
