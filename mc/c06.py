"""C06: count."""
import itertools

import torch

from . import fam as F
from .core import run_check


def masks(st, fam, c, budget):
    """count under every subset of forbidden (-inf) parts; every structure alone; everything allowed."""
    f = F.FAMS[fam]
    inf = float("inf")
    for l in F.lens_of(f, c):
        orc = F.seen(st, f, c, l)
        used = F.used_parts(orc)
        sets = [torch.zeros(1, orc.P, dtype=torch.float64), F.generic(orc.P, 2, fam, l)]
        if c.get("deep"):
            sets = [torch.where(orc.allowed, F.generic(orc.P, 2, fam, l), torch.tensor(-inf, dtype=torch.float64))]
        for x in (-1e5, -1e9, -1e30, 1e9, 1e30):         # finite, hence allowed
            big = F.generic(orc.P, 3, fam, l, "finite")
            big = torch.where(big > 0.3, torch.tensor(x, dtype=torch.float64), big)
            if c.get("deep"):
                big = torch.where(orc.allowed, big, torch.tensor(-inf, dtype=torch.float64))
            sets.append(big)
        single = torch.where(orc.M > 0, torch.tensor(0.7, dtype=torch.float64), torch.tensor(-inf, dtype=torch.float64))
        sets += list(F.chunks(single[:2000], 2048))
        if 2 ** len(used) <= budget:
            g = torch.tensor(list(itertools.product((0.3, -inf), repeat=len(used))), dtype=torch.float64)
            th = torch.full((g.shape[0], orc.P), 0.3, dtype=torch.float64)
            if c.get("deep"):
                th[:, ~orc.allowed] = -inf
            th[:, used] = g
            sets += list(F.chunks(th, 4096))
        else:
            th = F.generic(orc.P, 64, fam, l, "m")
            drop = F.generic(orc.P, 64, fam, l, "mm") > (1.8 if c.get("deep") else 1.2)
            if c.get("deep"):
                drop = drop | ~orc.allowed
            sets.append(torch.where(drop, torch.tensor(-inf, dtype=torch.float64), th))
        for theta in sets:
            allowed = (theta > -inf).double()
            blocked = ((1 - allowed) @ orc.M.t()) > 0
            want = (~blocked).sum(-1).double()
            for dtype in (torch.float32, torch.float64):
                th, lens, B = F.with_full(f, c, theta, l)
                got = f.dist(c, th, lens, dtype).count[:B]
                F.close(st, got, want, dtype, "count", family=fam, cfg=c, length=l)
            st.traces += theta.shape[0]
            for w in set(want.tolist()):
                st.outcome((l, w))
        st.sample({"config": F.cname(fam, c), "length": l, "structures": orc.S, "potential_sets": len(sets)})


def mixed(st, fam, c, B):
    """Every vector of lengths."""
    f = F.FAMS[fam]
    for v, (theta,), dtype in F.mixed(f, c, B):
        want = torch.tensor([float(f.oracle(c, l).S) for l in v])
        F.close(st, f.dist(c, theta, torch.tensor(v), dtype).count, want, dtype, "count, lengths %s" % (v,), family=fam, cfg=c)
        st.traces += B
        st.outcome(v)


def large(st, fam, c):
    """Full models of larger sizes: the count over the explored state graph."""
    f = F.FAMS[fam]
    for l in F.large_lens(f, c):
        theta = F.generic(f.P(c), 2, fam, "large", l)
        want = torch.tensor([float(v[2]) for v in F.large_values(st, f, c, l, theta.float())], dtype=torch.float64)
        th, lens, B = F.with_full(f, c, theta.float().double(), l)
        for dt in (torch.float64, torch.float32):
            F.close(st, f.dist(c, th, lens, dt).count[:B], want, dt, "count, full model", family=fam, cfg=c, length=l)
        st.traces += B
        st.outcome((l, round(float(want[0]), 3)))
    st.sample({"config": F.cname(fam, c)})


def run(tier):
    th = tier == "thorough"
    cases = [("masks", dict(fam=k, c=c, budget=70000 if th else 4096))
             for k, c in F.pick([F.DEEP, F.TINY, F.SMALL, F.BIG]) if k != "cfg"]
    cases = [("large", dict(fam=k, c=c)) for k, c in F.pick([F.LARGE]) if k != "cfg"] + cases
    cases += [("mixed", dict(fam=k, c=c, B=B)) for k, c, B in F.mixed_sizes(tier) if k != "cfg"]
    return run_check("C06", "mc.c06", cases, tier,
                     bounds="all configurations of mc/fam.py except PCFGs, every length; every subset of forbidden parts "
                            "when at most %d subsets; deep and large sizes" % (70000 if th else 4096),
                     rule="an outcome is a distinct (length, count)")
