"""C02: max, argmax, mode."""
import torch

from . import fam as F
from .core import Violation, run_check


def verify(st, f, c, dist, theta, l, dtype, B, label):
    orc = f.oracle(c, l)
    sc = orc.scores(theta.to(dtype))
    want = sc.max(-1).values
    scale = max(1.0, 0.02 * float(theta.clamp(min=-1e3).abs().max()))
    F.close(st, dist.max[:B], want, dtype, "max (%s)" % label, scale=scale, family=f.key, cfg=c, length=l)
    for name in ("argmax", "mode"):
        a = getattr(dist, name)
        ev = f.flat(c, a)[:B]
        rows = orc.rows(ev)
        bad = (rows < 0).nonzero().flatten().tolist()
        if bad:
            raise Violation("%s (%s) is not a structure" % (name, label), family=f.key, cfg=c, length=l,
                            event=ev[bad[0]], theta=theta[bad[0]])
        got = sc.gather(1, rows[:, None])[:, 0]
        F.close(st, got, want, dtype, "score of %s (%s)" % (name, label), scale=scale, family=f.key, cfg=c, length=l)
        if f.tuple_event:
            sp = a[3].detach().double().reshape(a[3].shape[0], -1)[:B]
            full = torch.cat([orc.M, f.spans(c, l)], 1)
            for b in range(min(B, 64)):
                if not (full == torch.cat([ev[b], sp[b]])).all(-1).any():
                    raise Violation("%s (%s): spans do not belong to the returned derivation" % (name, label),
                                    family=f.key, cfg=c, length=l, event=ev[b], spans=sp[b])
        for r in set(rows.tolist()):
            st.outcome((l, r))
    st.traces += B


def sweep(st, fam, c, kinds, budget):
    f = F.FAMS[fam]
    for l in F.lens_of(f, c):
        F.seen(st, f, c, l)
    for label, theta, l, dtype in F.sweep(f, c, kinds, budget):
        th, lens, B = F.with_full(f, c, theta, l)
        verify(st, f, c, f.dist(c, th, lens, dtype), theta, l, dtype, B, label)
        st.sample({"config": F.cname(fam, c), "length": l, "potentials": label, "items": B})


def layout(st, fam, c):
    f = F.FAMS[fam]
    orc = F.seen(st, f, c, None)
    theta = F.generic(orc.P, 3, fam, "layout")
    for mode in F.LAYOUTS:
        for ng in (False, True):
            with torch.set_grad_enabled(not ng):
                dist, B = F.laid_out(f, c, theta, mode)
                verify(st, f, c, dist, theta[:B], f.N(c), torch.float32, B, mode)


def mixed(st, fam, c, B):
    """Every vector of lengths: each item of the batch is right at its own length."""
    f = F.FAMS[fam]
    for v, (theta,), dtype in F.mixed(f, c, B):
        dist = f.dist(c, theta, torch.tensor(v), dtype)
        for b, l in enumerate(v):
            verify(st, f, c, F.Item(dist, b), theta[b:b + 1], l, dtype, 1, "lengths %s" % (v,))


def large(st, fam, c):
    """Full models of larger sizes: the max over the explored state graph."""
    f = F.FAMS[fam]
    for l in F.large_lens(f, c):
        theta = F.generic(f.P(c), 2, fam, "large", l)
        want = torch.tensor([float(v[1]) for v in F.large_values(st, f, c, l, theta.float())], dtype=torch.float64)
        th, lens, B = F.with_full(f, c, theta.float().double(), l)
        for dt in (torch.float64, torch.float32):
            F.close(st, f.dist(c, th, lens, dt).max[:B], want, dt, "max, full model", family=fam, cfg=c, length=l)
        st.traces += B
        st.outcome((l, round(float(want[0]), 3)))
    st.sample({"config": F.cname(fam, c)})


def run(tier):
    th = tier == "thorough"
    cases = [("large", dict(fam=k, c=c)) for k, c in F.pick([F.LARGE])]
    for k, c in F.pick([F.TINY]):
        cases.append(("sweep", dict(fam=k, c=c, kinds=["grid"], budget=300000 if th else 20000)))
    for k, c in F.pick([F.TINY, F.SMALL]):
        cases.append(("sweep", dict(fam=k, c=c, kinds=["generic", "pin", "wide", "off"], budget=0)))
        cases.append(("layout", dict(fam=k, c=c)))
    for k, c in F.pick([F.BIG]):
        cases.append(("sweep", dict(fam=k, c=c, kinds=["generic", "pin", "wide", "off"] if th else ["generic"], budget=0)))
    for k, c in F.deep_sizes(tier):
        cases.insert(0, ("sweep", dict(fam=k, c=c, kinds=["deep", "deep-pin"], budget=0)))
    for k, c, B in F.mixed_sizes(tier):
        cases.append(("mixed", dict(fam=k, c=c, B=B)))
    return run_check("C02", "mc.c02", cases, tier,
                     bounds="all configurations of mc/fam.py, every length; every structure pinned once; all potential "
                            "assignments over small alphabets on TINY; pruned sub-models of the DEEP sizes, all their structures",
                     rule="an outcome is a distinct (length, structure) returned as argmax")
