"""C01: partition and log_prob."""
import torch

from . import fam as F
from .core import Violation, run_check

A2 = [(0.0, 1.5)]
ALPH = [(0.0, 1.5), (-2.0, 0.0, 1.5), (-2.0, 0.0, 1.5, 7.0), (-2.0, -0.5, 0.0, 1.5, 7.0)]


def _part(st, f, c, theta, l, dtype, what):
    orc = f.oracle(c, l)
    th, lens, B = F.with_full(f, c, theta, l)
    got = f.dist(c, th, lens, dtype).partition[:B]
    F.close(st, got, orc.logZ(theta.to(dtype)), dtype, what, scale=max(1.0, 0.02 * float(theta.clamp(min=-1e3).abs().max())),
            family=f.key, cfg=c, length=l)
    st.traces += B


def _seen(st, orc):
    st.states += orc.states
    st.transitions += orc.transitions


def certificate(st, fam, c, cap):
    """Every structure alone is a term with coefficient one and each of its parts entering once; nothing else is."""
    f = F.FAMS[fam]
    for l in F.lens_of(f, c):
        orc = f.oracle(c, l)
        _seen(st, orc)
        _part(st, f, c, torch.zeros(1, orc.P, dtype=torch.float64), l, torch.float64, "partition, uniform potentials")
        for th in F.batches(F.certificate(orc, cap), 2048):
            _part(st, f, c, th, l, torch.float64, "partition, single-structure certificate")
        st.outcome((l, orc.S))
        st.sample({"config": F.cname(fam, c), "length": l, "structures": orc.S, "first_structure": list(orc.runs[0])})


def grid(st, fam, c, budget):
    f = F.FAMS[fam]
    for l in F.lens_of(f, c):
        orc = f.oracle(c, l)
        for off in (False, True):
            al = ALPH if not off else [a + (F.OFF,) for a in ALPH]
            th, a = F.grid_theta(orc, budget, al)
            if th is None:
                continue
            _seen(st, orc)
            for t in F.chunks(th, 8192):
                _part(st, f, c, t, l, torch.float32, "partition, potentials over %s" % (a,))
            st.outcome((l, len(a)))
            st.sample({"config": F.cname(fam, c), "length": l, "alphabet": a, "assignments": th.shape[0]})


def logprob(st, fam, c):
    """log_prob of every structure, several sample/batch layouts; probabilities sum to one."""
    f = F.FAMS[fam]
    for l in F.lens_of(f, c):
        orc = f.oracle(c, l)
        _seen(st, orc)
        for dtype in (torch.float32, torch.float64):
            theta = F.generic(orc.P, 3, fam, l)
            th, lens, B = F.with_full(f, c, theta, l)
            _part(st, f, c, theta, l, dtype, "partition, generic potentials")
            if f.tuple_event:
                continue
            dist = f.dist(c, th, lens, dtype)
            for lo in range(0, orc.S, 4096):
                M = orc.M[lo:lo + 4096]
                ev = M.unsqueeze(1).expand(M.shape[0], th.shape[0], orc.P)
                want = orc.logp(theta.to(dtype)).t()[lo:lo + 4096]
                for edt in (torch.float32, torch.long):
                    got = dist.log_prob(f.event(c, ev, edt))
                    F.close(st, got[:, :B], want, dtype, "log_prob of a structure", family=fam, cfg=c, length=l)
                if lo == 0:
                    e0 = M[:1].expand(th.shape[0], orc.P)
                    got = dist.log_prob(f.event(c, e0, dtype))
                    F.close(st, got[:B], want[0], dtype, "log_prob without sample dimension", family=fam, cfg=c, length=l)
                    n2 = (M.shape[0] // 2) * 2
                    if n2:
                        e2 = ev[:n2].reshape((2, n2 // 2) + tuple(ev.shape[1:]))
                        got = dist.log_prob(f.event(c, e2, dtype))
                        F.close(st, got[..., :B], want[:n2].reshape(2, n2 // 2, B), dtype,
                                "log_prob with two sample dimensions", family=fam, cfg=c, length=l)
                        for lead in ((n2 // 2, 1, 2), (1, 2, 1, n2 // 2), (2, 1, 1, n2 // 2, 1), (1, 1, 2, 1, 1, 1, n2 // 2)):
                            got = dist.log_prob(f.event(c, ev[:n2].reshape(lead + tuple(ev.shape[1:])), dtype))
                            F.close(st, got[..., :B], want[:n2].reshape(lead + (B,)), dtype,
                                    "log_prob with %d sample dimensions" % len(lead), family=fam, cfg=c, length=l)
            st.traces += orc.S
            for s in range(min(orc.S, 200)):
                st.outcome((l, s))


def wide(st, fam, c):
    """Potentials of large magnitude and with forbidden parts (finite)."""
    f = F.FAMS[fam]
    for l in F.lens_of(f, c):
        orc = f.oracle(c, l)
        _seen(st, orc)
        for k, scale in enumerate((30.0, 500.0, 1e-3)):
            theta = F.generic(orc.P, 4, fam, l, k, scale=scale)
            _part(st, f, c, theta, l, torch.float64, "partition, potentials of magnitude %g" % scale)
            _part(st, f, c, theta, l, torch.float32, "partition, potentials of magnitude %g" % scale)
        for total in (-6e4, 6e4):
            theta = F.shifted(orc, 3, total, fam, l, "shift")
            _part(st, f, c, theta, l, torch.float64, "partition, structures scoring about %g" % total)
        theta = F.generic(orc.P, 8, fam, l, "off")
        mask = F.generic(orc.P, 8, fam, l, "offmask") > 1.0
        theta = torch.where(mask, torch.tensor(F.OFF, dtype=torch.float64), theta)
        _part(st, f, c, theta, l, torch.float64, "partition, some parts forbidden")
        # shift invariance: adding a constant to every part a structure uses
        st.outcome(l)


def layout(st, fam, c):
    """The same numbers through other tensor layouts: batch of one, non-contiguous, requires_grad, explicit lengths."""
    f = F.FAMS[fam]
    orc = f.oracle(c)
    _seen(st, orc)
    theta = F.generic(orc.P, 3, fam, "layout")
    want = orc.logZ(theta.float())
    N = f.N(c)

    def noncontig(t):
        p = list(range(t.dim()))[::-1]
        return t.permute(p).contiguous().permute(p)

    for b in (1, 2, 3):
        for mode in ("plain", "noncontiguous", "requires_grad", "nonleaf", "expanded"):
            for lens in (None, torch.tensor([N] * b)):
                th = theta[:b]
                w = want[:b]
                if mode == "expanded":
                    th = theta[:1].expand(b, -1)
                    w = want[:1].expand(b)
                pot = f.pot(c, th)
                one = not isinstance(pot, tuple)
                pots = [pot] if one else list(pot)
                if mode == "noncontiguous":
                    pots = [noncontig(p) for p in pots]
                elif mode == "requires_grad":
                    pots = [p.requires_grad_(True) for p in pots]
                elif mode == "nonleaf":
                    pots = [p.requires_grad_(True) * 1.0 for p in pots]
                elif mode == "expanded":
                    pots = [p[:1].expand(*((b,) + tuple(p.shape[1:]))) for p in pots]
                dist = f.of(c, pots[0] if one else tuple(pots), lens)
                F.close(st, dist.partition, w, torch.float32, "partition, %s potentials, batch %d" % (mode, b),
                        family=fam, cfg=c)
                if one:
                    ev = f.event(c, orc.M[:3].unsqueeze(1).expand(-1, b, -1))
                    lp = orc.logp(th.float())[:, :3].t()
                    for e in (ev, noncontig(ev)):
                        F.close(st, dist.log_prob(e), lp, torch.float32, "log_prob, %s layout, batch %d" % (mode, b),
                                family=fam, cfg=c)
                if mode in ("requires_grad", "nonleaf"):
                    if not dist.partition.requires_grad:
                        raise Violation("partition lost its gradient", family=fam, cfg=c)
                st.traces += 1
                st.outcome((mode, b))


def mixed(st, fam, c, B):
    """Every vector of lengths: each item of the batch is right at its own length."""
    f = F.FAMS[fam]
    for v, (theta,), dtype in F.mixed(f, c, B):
        dist = f.dist(c, theta, torch.tensor(v), dtype)
        orcs = [f.oracle(c, l) for l in v]
        want = torch.cat([o.logZ(theta[b:b + 1].to(dtype)) for b, o in enumerate(orcs)])
        F.close(st, dist.partition, want, dtype, "partition, lengths %s" % (v,), family=fam, cfg=c)
        st.traces += B
        st.outcome(v)
        if f.tuple_event:
            continue
        n = min(12, max(o.S for o in orcs))
        idx = [[(s * o.S) // n for s in range(n)] for o in orcs]
        ev = torch.stack([o.M[i] for o, i in zip(orcs, idx)], 1)
        lp = torch.stack([o.logp(theta[b:b + 1].to(dtype))[0][i] for b, (o, i) in enumerate(zip(orcs, idx))], 1)
        F.close(st, dist.log_prob(f.event(c, ev, dtype)), lp, dtype, "log_prob, lengths %s" % (v,), family=fam, cfg=c)


def deep(st, fam, c):
    """Large sizes with few parts allowed: every structure of the sub-model favoured in turn, and its log_prob."""
    f = F.FAMS[fam]
    for l in F.lens_of(f, c):
        orc = f.oracle(c, l)
        _seen(st, orc)
        for label, theta, l2, dtype in F.sweep(f, c, ["deep", "deep-pin"], 0, lens=[l]):
            _part(st, f, c, theta, l, dtype, "partition, %s" % label)
            if label == "deep-pin" or f.tuple_event:
                continue
            th, lens, B = F.with_full(f, c, theta, l)
            ev = orc.M.unsqueeze(1).expand(orc.S, th.shape[0], orc.P)
            got = f.dist(c, th, lens, dtype).log_prob(f.event(c, ev))[:, :B]
            F.close(st, got, orc.logp(theta.to(dtype)).t(), dtype, "log_prob, %s" % label, family=fam, cfg=c, length=l)
        st.outcome((l, orc.S))
        st.sample({"config": F.cname(fam, c), "length": l, "structures": orc.S})


def large(st, fam, c):
    """Full models of larger sizes: the partition over the explored state graph."""
    f = F.FAMS[fam]
    for l in F.large_lens(f, c):
        theta = F.generic(f.P(c), 2, fam, "large", l)
        want = torch.tensor([float(v[0]) for v in F.large_values(st, f, c, l, theta.float())], dtype=torch.float64)
        th, lens, B = F.with_full(f, c, theta.float().double(), l)
        for dt in (torch.float64, torch.float32):
            F.close(st, f.dist(c, th, lens, dt).partition[:B], want, dt, "partition, full model", family=fam, cfg=c, length=l)
        st.traces += B
        st.outcome((l, round(float(want[0]), 3)))
    st.sample({"config": F.cname(fam, c)})


def run(tier):
    th = tier == "thorough"
    cases = [("deep", dict(fam=k, c=c)) for k, c in F.deep_sizes(tier)]
    cases += [("large", dict(fam=k, c=c)) for k, c in F.pick([F.LARGE])]
    for k, c in F.pick([F.TINY, F.SMALL]):
        cases.append(("certificate", dict(fam=k, c=c, cap=None if th else 700)))
        cases.append(("logprob", dict(fam=k, c=c)))
        cases.append(("wide", dict(fam=k, c=c)))
        cases.append(("layout", dict(fam=k, c=c)))
    for k, c in F.pick([F.TINY]):
        cases.append(("grid", dict(fam=k, c=c, budget=600000 if th else 20000)))
    for k, c in F.pick([F.BIG]):
        cases.append(("logprob", dict(fam=k, c=c)))
        if th:
            cases.append(("certificate", dict(fam=k, c=c, cap=4000)))
            cases.append(("wide", dict(fam=k, c=c)))
    for k, c, B in F.mixed_sizes(tier):
        cases.append(("mixed", dict(fam=k, c=c, B=B)))
    return run_check("C01", "mc.c01", cases, tier,
                     bounds="all configurations of mc/fam.py (DEEP: pruned sub-models, LARGE: state graph), every length of each; all structures; "
                            "certificate capped at %s structures per model" % ("4000" if th else "700"),
                     rule="one case per family configuration; an outcome is a distinct (length, structure) or potential set")
