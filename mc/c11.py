"""C11: non-projective dependency trees (partition and marginals through the matrix-tree theorem)."""
import itertools

import torch

from . import fam as F
from .core import Violation, run_check

EPS = 1e-5      # smoothing weight the library documents as a parameter default; results may lie within its effect


def bounds(f, c, l, theta):
    """(exact logZ, allowed error), (exact marginals, allowed error) from the enumerated arborescences."""
    orc = f.oracle(c, l)
    N = c["N"]
    logZ = orc.logZ(theta)
    marg = orc.marginals(theta)
    # the effect of smoothing: every arc weight raised by EPS, counted once more for every padded word; a word may
    # also hang from a padded word with that weight, which looks like one more root
    w = theta.exp().reshape(-1, N, N)
    pad = EPS * 2 * (N - l)
    eye = torch.eye(N, dtype=torch.bool)
    wide = torch.where(eye, w + pad, w + EPS + pad).log().reshape(theta.shape)
    eZ = orc.logZ(wide) - logZ + N * pad
    eM = (orc.marginals(wide) - marg).abs() + (EPS + pad) / w.reshape(theta.shape) * marg
    if l < N:
        more = f.oracle(dict(c, single=0), l)
        root = eye.reshape(-1)
        n = (more.M[:, root]).sum(-1)
        real = (theta.exp() * root.double()) @ more.M.t()
        sc = (theta * (~root).double()) @ more.M.t() + real.log() + (n - 1) * float(torch.tensor(pad).log())
        extra = torch.logsumexp(sc[:, n > 1], -1) if bool((n > 1).any()) else torch.full_like(logZ, -99.0)
        ratio = (extra - logZ).exp()
        eZ = eZ + torch.log1p(ratio)
        eM = eM + (ratio.unsqueeze(-1) + N * pad) * torch.ones_like(eM) / eM.shape[-1]
    return (logZ, eZ), (marg, eM)


def verify(st, f, c, theta, l, lens, dtype, B, label):
    (z, ez), (m, em) = bounds(f, c, l, theta[:B].to(dtype).double())
    tol = 2e-4 if dtype == torch.float32 else 1e-7
    sc = float(theta.abs().max())
    if sc > 2.5:
        tol *= 20
    d = f.dist(c, theta, lens, dtype)
    got = d.partition[:B].detach().double()
    kw = dict(family="nonproj", cfg=c, length=l)
    bad = ((got - z).abs() > 2 * ez.abs() + tol * (1 + z.abs())) | torch.isnan(got)
    if bool(bad.any()):
        b = int(bad.nonzero()[0])
        raise Violation("partition (%s): got %r, expected %r" % (label, got[b].item(), z[b].item()), theta=theta[b], **kw)
    # per-arc errors of smoothing can be larger than their net effect: allow the sum over the item
    gm = f.flat(c, d.marginals)[:B]
    if gm.shape != m.shape:
        raise Violation("marginals shape", got=list(gm.shape), **kw)
    allow = (4 * em.sum(-1, keepdim=True) + tol * 4)
    bad = ((gm - m).abs() > allow) | torch.isnan(gm)
    if bool(bad.any()):
        b, i = bad.nonzero()[0].tolist()
        raise Violation("marginal (%s) of arc %s: got %r, expected %r" % (label, divmod(i, c["N"]), gm[b, i].item(), m[b, i].item()),
                        theta=theta[b], **kw)
    st.evals += got.numel() + gm.numel()
    st.traces += B
    for v in got[:100].tolist():
        st.outcome(round(v, 3))


def sweep(st, c, kinds, budget):
    f = F.FAMS["nonproj"]
    for l in range(1, c["N"] + 1):
        orc = F.seen(st, f, c, l)
        if "generic" in kinds:
            for dt in (torch.float32, torch.float64):
                for scale in (0.5, 2.0):
                    th, lens, B = F.with_full(f, c, F.generic(orc.P, 6, "np", l, scale, scale=scale), l)
                    verify(st, f, c, th, l, lens, dt, B, "generic")
            th, lens, B = F.with_full(f, c, torch.zeros(1, orc.P, dtype=torch.float64), l)
            verify(st, f, c, th, l, lens, torch.float64, B, "uniform")
        if "pin" in kinds:
            th = F.generic(orc.P, 1, "np", l, "pin", scale=1.0) + 3.0 * (orc.M > 0).double()
            for t in F.chunks(th, 512):
                t2, lens, B = F.with_full(f, c, t, l)
                verify(st, f, c, t2, l, lens, torch.float64, B, "pin")
        if "grid" in kinds:
            g, a = F.grid_theta(orc, budget, [(0.0, 1.5), (-1.0, 0.0, 1.5), (-1.0, 0.0, 0.7, 2.0)])
            if g is not None:
                for t in F.chunks(g, 4096):
                    t2, lens, B = F.with_full(f, c, t, l)
                    verify(st, f, c, t2, l, lens, torch.float64, B, "grid%s" % (a,))
        st.sample({"config": F.cname("nonproj", c), "length": l, "arborescences": orc.S})


def mixed(st, c, B):
    f = F.FAMS["nonproj"]
    for v in itertools.product(range(1, c["N"] + 1), repeat=B):
        theta = F.generic(f.P(c), B, "np", v)
        for lens in (torch.tensor(v), list(v)):
            d = f.dist(c, theta, lens, torch.float64)
            p, m = d.partition.detach(), f.flat(c, d.marginals)
            for b, l in enumerate(v):
                (z, ez), (mm, em) = bounds(f, c, l, theta[b:b + 1])
                if not abs(float(p[b] - z)) <= float(2 * ez.abs() + 1e-6):
                    raise Violation("partition of item %d, lengths %s: got %r, expected %r" % (b, v, float(p[b]), float(z)), cfg=c)
                if not bool(((m[b] - mm[0]).abs() <= 4 * em.sum() + 1e-6).all()):
                    raise Violation("marginals of item %d, lengths %s" % (b, v), cfg=c, got=m[b], want=mm[0])
                st.evals += 2
        st.traces += 1
        st.outcome(v)


def layered(st, l, W, single, pad):
    """Sums over all arborescences of l words, one per weight table in W (B, l, l; roots on the diagonal): search of
    the state graph whose states are (words attached so far, words attached last), one layer of the tree at a time.
    With pad > 0 further words may take that weight instead of their root weight."""
    B = W.shape[0]
    val = torch.zeros(B, 2 ** l, 2 ** l, dtype=torch.float64)
    words = list(range(l))
    root = torch.diagonal(W, 0, 1, 2)
    for R in range(1, 2 ** l):
        mem = [v for v in words if R >> v & 1]
        if not single:
            val[:, R, R] = (root[:, mem] + pad).prod(-1)
        elif len(mem) == 1 or pad:
            val[:, R, R] = root[:, mem].sum(-1) * pad ** (len(mem) - 1)
    for done in sorted(range(1, 2 ** l), key=lambda x: bin(x).count("1")):
        rest = [v for v in words if not done >> v & 1]
        if not rest:
            break
        target = [0]
        for v in rest:
            target = target + [x | 1 << v for x in target]
        target = torch.tensor(target[1:])
        last = done
        while last:
            cur = val[:, done, last]
            mem = [v for v in words if last >> v & 1]
            into = W[:, mem].sum(1)
            t = torch.ones(B, 1, dtype=torch.float64)
            for v in rest:
                t = torch.cat([t, t * into[:, v:v + 1]], 1)
            val[:, done | target, target] += cur.unsqueeze(1) * t[:, 1:]
            st.transitions += len(target)
            st.states += 1
            last = (last - 1) & done
    return val[:, 2 ** l - 1].sum(-1)


def large(st, c, l):
    """More words than can be listed: sums over the state graph, and sums without each arc in turn."""
    f = F.FAMS["nonproj"]
    N, P = c["N"], f.P(c)
    # weights of moderate spread, and some very unlikely arcs
    theta = F.generic(P, 1, "np", "large", N, l, scale=1.0)
    pots = [theta, torch.where(F.generic(P, 1, "np", "cut", N, l) > 0.3, theta - 6.0, theta)]
    for theta in pots:
        th, lens, _ = F.with_full(f, c, theta, l)
        w = theta.exp().reshape(N, N)[:l, :l]
        pad = EPS * 2 * (N - l)
        tables = w.repeat(l * l + 1, 1, 1)
        tables[torch.arange(l * l) + 1, torch.arange(l * l) // l, torch.arange(l * l) % l] = 0.0
        eye = torch.eye(l, dtype=torch.bool)
        Z = layered(st, l, tables, c.get("single"), 0.0)
        up = layered(st, l, torch.where(eye, tables, tables + EPS + pad), c.get("single"), pad)
        m, mu = 1 - Z[1:] / Z[0], 1 - up[1:] / up[0]
        slack = float(up[0].log() - Z[0].log()) + N * pad
        for dt in (torch.float64, torch.float32):
            d = f.dist(c, th, lens, dt)
            tol = 2e-4 if dt == torch.float32 else 1e-7
            got, want = float(d.partition[0]), float(Z[0].log())
            if not abs(got - want) <= 2 * slack + tol * (1 + abs(want)):
                raise Violation("partition of %d words: got %r, expected %r" % (l, got, want), cfg=c, theta=theta)
            gm = f.flat(c, d.marginals)[0].reshape(N, N)
            allow = 4 * float((mu - m).abs().sum() + ((EPS + pad) / w.reshape(-1) * m).sum()) + 2 * slack + 4 * tol
            full = torch.zeros(N, N, dtype=torch.float64)
            full[:l, :l] = m.reshape(l, l)
            if not bool(((gm - full).abs() <= allow).all()):
                i = int((gm - full).abs().argmax())
                raise Violation("marginal of arc %s of %d words: got %r, expected %r" % (
                    divmod(i, N), l, float(gm.reshape(-1)[i]), float(full.reshape(-1)[i])), cfg=c, theta=theta)
            st.evals += 1 + N * N
        st.traces += 1
        st.outcome(round(want, 3))
    st.sample({"config": F.cname("nonproj", c), "length": l, "allowed error of a marginal": allow})


def layout(st, c):
    """no_grad, non-contiguous, gradients: d logZ / d potentials are the marginals."""
    f = F.FAMS["nonproj"]
    orc = F.seen(st, f, c, None)
    theta = F.generic(orc.P, 3, "np", "layout")
    (z, ez), (m, em) = bounds(f, c, c["N"], theta)
    for mode in F.LAYOUTS:
        for ng in (False, True):
            with torch.set_grad_enabled(not ng):
                d, B = F.laid_out(f, c, theta, mode, torch.float64)
                F.close(st, d.partition, z[:B], torch.float64, "partition, %s" % mode, scale=1e6 * (1e-2 + float(ez.abs().max())), cfg=c)
                F.close(st, f.flat(c, d.marginals), m[:B], torch.float64, "marginals, %s" % mode, scale=1e5, cfg=c)
    pot = f.pot(c, theta, torch.float64).requires_grad_(True)
    g = torch.autograd.grad(f.of(c, pot).partition.sum(), pot)[0]
    F.close(st, f.flat(c, g), m, torch.float64, "gradient of the partition", scale=1e5, cfg=c)
    st.traces += 1
    st.outcome("layout")


def run(tier):
    th = tier == "thorough"
    cases = []
    for s in (0, 1):
        for N in (1, 2, 3):
            cases.append(("sweep", dict(c=F.d(N=N, single=s), kinds=["grid"], budget=300000 if th else 20000)))
        for N, l in [(5, 5), (5, 4), (7, 7), (8, 8), (8, 7), (8, 5)] + ([(9, 9), (10, 8)] if th else []):
            cases.append(("large", dict(c=F.d(N=N, single=s), l=l)))
        for N in range(1, 7):
            cases.append(("sweep", dict(c=F.d(N=N, single=s), kinds=["generic"] + (["pin"] if N < 6 or th else []), budget=0)))
            cases.append(("layout", dict(c=F.d(N=N, single=s))))
        for N in (2, 3, 4):
            cases.append(("mixed", dict(c=F.d(N=N, single=s), B=2)))
        cases.append(("mixed", dict(c=F.d(N=3, single=s), B=3)))
    return run_check("C11", "mc.c11", cases, tier,
                     bounds="all arborescences up to %d words, single- and multi-root, every length; every one pinned; all "
                            "alphabet assignments up to 3 words; up to 8 words over the state graph" % 6,
                     rule="an outcome is a distinct log-partition value",
                     assumptions=["results may deviate by the effect of a smoothing weight of 1e-5 per arc"])
