"""C13: hidden Markov and hidden semi-Markov models are the sequence models they stand for."""
import itertools

import torch

from . import fam as F
from .core import Violation, run_check


def joint(tr, em, init, x, z):
    """log p(x, z): tr[next, previous], em[symbol, state], init[state]"""
    s = init[z[0]] + em[x[0], z[0]]
    for n in range(1, len(z)):
        s = s + tr[z[n], z[n - 1]] + em[x[n], z[n]]
    return s


def params(C, V, kind, tag):
    n = C * C + V * C + C
    if kind == "generic":
        th = F.generic(n, 3, "hmm", C, V, tag)
    elif kind == "zero":
        th = torch.zeros(1, n, dtype=torch.float64)
    elif kind == "wide":
        th = F.generic(n, 3, "hmm", C, V, "wide", scale=30.0)
    else:
        th = F.grid(n, kind)
    for r in th:
        yield r[:C * C].reshape(C, C), r[C * C:C * C + V * C].reshape(V, C), r[C * C + V * C:]


def normal(tr, em, init):
    return tr.log_softmax(0), em.log_softmax(0), init.log_softmax(0)


def hmm(st, C, V, N, kind, norm, dtype="float64", layout="plain", no_grad=False, lo=0, step=1):
    """Every observation sequence (one batch), every hidden sequence."""
    from torch_struct import HMM
    dt = getattr(torch, dtype)
    obs = torch.tensor(list(itertools.product(range(V), repeat=N)))
    seqs = list(itertools.product(range(C), repeat=N))
    B = obs.shape[0]
    f, c = F.FAMS["chain"], F.d(N=N, C=C)
    kw = dict(C=C, V=V, N=N, kind=str(kind), layout=layout)
    for tr, em, init in itertools.islice(params(C, V, kind, N), lo, None, step):
        if norm:
            tr, em, init = normal(tr, em, init)
        tr, em, init = tr.to(dt), em.to(dt), init.to(dt)
        want = torch.stack([torch.stack([joint(tr.double(), em.double(), init.double(), x, z) for z in seqs])
                            for x in obs.tolist()])
        a, b, i, o = tr, em, init, obs
        if layout == "noncontiguous":
            a, b, o = tr.t().contiguous().t(), em.t().contiguous().t(), obs.t().contiguous().t()
            i = torch.stack([init, init], 1)[:, 0]
        elif layout == "repeated":          # one observation sequence, expanded
            o = obs[-1:].expand(3, N)
            want = want[-1:].expand(3, len(seqs))
        keep = [t.clone() for t in (a, b, i, o)]
        for lens in (None,) if layout != "lengths" else (torch.full((o.shape[0],), N),):
            with torch.set_grad_enabled(not no_grad):
                d = HMM(a, b, i, o, lens)
                lz = torch.logsumexp(want, -1)
                F.close(st, d.partition, lz, dt, "evidence of the observations", scale=3.0, **kw)
                F.close(st, d.max, want.max(-1).values, dt, "best hidden sequence", scale=3.0, **kw)
                if norm and layout == "plain":
                    F.close(st, torch.logsumexp(d.partition, 0), torch.zeros(()), dt, "total evidence", scale=5.0, **kw)
                ev = d.to_event(torch.tensor(seqs), C)
                ev = ev.unsqueeze(1).expand((len(seqs), o.shape[0]) + tuple(ev.shape[1:]))
                F.close(st, d.log_prob(ev), (want - lz.unsqueeze(-1)).t(), dt, "posterior of a hidden sequence", scale=3.0, **kw)
                # posterior of adjacent states
                p = (want - lz.unsqueeze(-1)).exp()
                m = torch.zeros(o.shape[0], N - 1, C, C, dtype=torch.float64)
                for s, z in enumerate(seqs):
                    for n in range(N - 1):
                        m[:, n, z[n + 1], z[n]] += p[:, s]
                F.close(st, d.marginals, m, dt, "posterior of adjacent states", scale=3.0, **kw)
                best = d.from_event(d.argmax)[0]
        gb = torch.tensor([seqs.index(tuple(z)) for z in best.tolist()])
        F.close(st, want.gather(1, gb.unsqueeze(1))[:, 0], want.max(-1).values, dt, "score of the decoded sequence", scale=3.0, **kw)
        for t, k in zip((a, b, i, o), keep):
            if not torch.equal(t, k):
                raise Violation("the parameters were modified", **kw)
        st.traces += want.shape[0]
        st.states += len(seqs)
        st.transitions += len(seqs) * N
        for v in want.max(-1).values[:50].tolist():
            st.outcome(round(v, 3))
    st.sample({"states": C, "symbols": V, "length": N, "observation_sequences": B, "hidden_sequences": len(seqs)})


def hmm_lengths(st, C, V, N, B):
    """Every vector of lengths: a shorter item is the model of its first observations."""
    from torch_struct import HMM
    tr, em, init = normal(*next(params(C, V, "generic", "len")))
    for v in itertools.product(range(2, N + 1), repeat=B):
        if max(v) != N:
            continue
        r = F.rng("hmmlen", C, V, N, v)
        obs = torch.tensor(r.randint(0, V, (B, N)))
        d = HMM(tr, em, init, obs, torch.tensor(v))
        want, marg = [], torch.zeros(B, N - 1, C, C, dtype=torch.float64)
        for b, l in enumerate(v):
            sc = torch.stack([joint(tr, em, init, obs[b].tolist(), z) for z in itertools.product(range(C), repeat=l)])
            want.append(torch.logsumexp(sc, -1))
            for z, p in zip(itertools.product(range(C), repeat=l), sc.softmax(-1)):
                for n in range(l - 1):
                    marg[b, n, z[n + 1], z[n]] += p
        F.close(st, d.partition, torch.stack(want), torch.float64, "evidence at lengths %s" % (v,), C=C, V=V)
        F.close(st, d.marginals, marg, torch.float64, "posterior at lengths %s" % (v,), C=C, V=V)
        st.traces += 1
        st.states += B
        st.transitions += sum(v)
        st.outcome(v)


def trellis(st, C, V, N, B):
    """Many states and symbols, long sequences: sums, maxima and posteriors over the graph of (position, state) pairs."""
    from torch_struct import HMM
    tr, em, init = normal(*next(params(C, V, "generic", "trellis")))
    obs = (torch.arange(B).unsqueeze(1) * 13 + torch.arange(N) * 29 + V - 1) % V      # every symbol that fits is used
    fw = [init + em[obs[:, 0]]]                                                  # B x C
    for n in range(1, N):
        fw.append(torch.logsumexp(fw[-1].unsqueeze(1) + tr, -1) + em[obs[:, n]])
    bw = [torch.zeros(B, C, dtype=torch.float64)]
    for n in range(N - 1, 0, -1):
        bw.insert(0, torch.logsumexp((bw[0] + em[obs[:, n]]).unsqueeze(-1) + tr, 1))
    best = init + em[obs[:, 0]]
    for n in range(1, N):
        best = (best.unsqueeze(1) + tr).max(-1).values + em[obs[:, n]]
    z = torch.logsumexp(fw[-1], -1)
    marg = torch.stack([(fw[n].unsqueeze(1) + tr + (em[obs[:, n + 1]] + bw[n + 1]).unsqueeze(-1) - z.reshape(B, 1, 1)).exp()
                        for n in range(N - 1)], 1)
    for dt in (torch.float32, torch.float64):
        d = HMM(tr.to(dt), em.to(dt), init.to(dt), obs)
        kw = dict(scale=float(N), C=C, V=V, N=N)
        F.close(st, d.partition, z, dt, "evidence of the observations", **kw)
        F.close(st, d.max, best.max(-1).values, dt, "best hidden sequence", **kw)
        F.close(st, d.marginals, marg, dt, "posterior of adjacent states", **kw)
    st.traces += B
    st.states += B * N * C
    st.transitions += B * N * C * C
    st.outcome((C, V, N))
    st.sample({"states": C, "symbols": V, "length": N, "observation_sequences": B})


def segmentations(N, K, C):
    """All (auxiliary state, [(state, duration)...]) covering N steps with durations 1..K-1."""
    def rec(left):
        if left == 0:
            yield ()
        for k in range(1, min(K - 1, left) + 1):
            for z in range(C):
                for rest in rec(left - k):
                    yield ((z, k),) + rest
    for z0 in range(C):
        for segs in rec(N):
            yield z0, segs


def hsmm(st, C, K, N, kind, per_item, dtype="float64", layout="plain"):
    from torch_struct import SemiMarkov, SemiMarkovCRF
    dt = getattr(torch, dtype)
    B = 2
    sizes = [B * C, C * C, C * K, B * N * K * C]
    if kind == "generic":
        sets = F.generic(sum(sizes), 3, "hsmm", C, K, N)
    elif kind == "zero":
        sets = torch.zeros(1, sum(sizes), dtype=torch.float64)
    else:       # every single parameter raised in turn
        sets = torch.eye(sum(sizes), dtype=torch.float64) * kind
    runs = list(segmentations(N, K, C))
    for th in sets.to(dt):
        init, zz, zl, em = [t.reshape(s) for t, s in zip(th.split(sizes), ((B, C), (C, C), (C, K), (B, N, K, C)))]
        if not per_item:
            init = init[0]
        args = [init, zz, zl, em]
        if layout == "noncontiguous":
            args = [F.noncontig(t) for t in args]
        edges = SemiMarkov.hsmm(*args)
        ini = init.double() if per_item else init.double().expand(B, C)
        zz, zl, em = zz.double(), zl.double(), em.double()
        want = (zz.t().reshape(1, 1, 1, C, C) + zl.t().reshape(1, 1, K, C, 1) + em.reshape(B, N, K, C, 1)).clone()
        want[:, 0] += ini.reshape(B, 1, 1, C)
        F.close(st, edges, want.expand(B, N, K, C, C), dt, "edge scores", C=C, K=K, N=N, layout=layout)
        sc = []
        for z0, segs in runs:
            s = ini[:, z0].clone()
            n, prev = 0, z0
            for z, k in segs:
                s += zz[prev, z] + zl[z, k] + em[:, n, k, z]
                n, prev = n + k, z
            sc.append(s)
        sc = torch.stack(sc, 1)
        d = SemiMarkovCRF(edges)
        F.close(st, d.partition, torch.logsumexp(sc, -1), dt, "evidence of the semi-Markov model", scale=2.0, C=C, K=K, N=N)
        F.close(st, d.max, sc.max(-1).values, dt, "best segmentation", scale=2.0, C=C, K=K, N=N)
        st.traces += len(runs)
        st.states += len(runs)
        st.transitions += sum(len(r[1]) for r in runs)
        st.outcome(round(float(torch.logsumexp(sc, -1)[0]), 4))
    st.sample({"states": C, "durations": K - 1, "steps": N, "segmentations": len(runs)})


def run(tier):
    th = tier == "thorough"
    cases = []
    for C, V, N in [(1, 1, 2), (2, 1, 2), (1, 2, 3), (2, 2, 2), (2, 2, 3), (2, 3, 3), (3, 2, 2), (3, 3, 3), (2, 2, 4), (2, 2, 5),
                    (4, 2, 3), (2, 4, 2), (3, 2, 4)] + ([(2, 2, 6), (3, 2, 5), (3, 3, 4), (5, 3, 3), (2, 2, 8)] if th else []):
        for norm in (True, False):
            for layout in ("plain", "noncontiguous", "repeated", "lengths"):
                dt = "float32" if layout == "lengths" else "float64"
                cases.append(("hmm", dict(C=C, V=V, N=N, kind="generic", norm=norm, layout=layout, dtype=dt,
                                          no_grad=layout == "repeated")))
        cases.append(("hmm", dict(C=C, V=V, N=N, kind="zero", norm=False)))
        cases.append(("hmm", dict(C=C, V=V, N=N, kind="wide", norm=False)))
        if N >= 3 and C < 5 and N < 7:
            for B in (2, 3) if N < 6 else (2,):
                cases.append(("hmm_lengths", dict(C=C, V=V, N=N, B=B)))
    for C, V, N, B in [(3, 80, 30, 9), (20, 50, 12, 3), (40, 3, 7, 4), (2, 300, 40, 20), (6, 6, 65, 2)] + ([(3, 1000, 200, 12)] if th else []):
        cases.append(("trellis", dict(C=C, V=V, N=N, B=B)))
    n = 16
    for lo in range(n):
        cases.append(("hmm", dict(C=2, V=1, N=2, kind=[0.0, 1.5], norm=False, lo=lo, step=n)))
        if th:
            cases.append(("hmm", dict(C=2, V=2, N=3, kind=[0.0, 1.5], norm=False, lo=lo, step=n)))
    for C, K, N in [(1, 2, 1), (1, 2, 3), (2, 2, 2), (2, 3, 2), (2, 3, 3), (1, 4, 4), (2, 4, 3), (3, 3, 2), (2, 3, 4), (2, 5, 3), (1, 3, 6)] + (
            [(2, 3, 6), (3, 3, 4), (2, 6, 5), (1, 5, 8)] if th else []):
        for per_item in (True, False):
            for kind in ("generic", "zero", 1.5):
                cases.append(("hsmm", dict(C=C, K=K, N=N, kind=kind, per_item=per_item)))
            cases.append(("hsmm", dict(C=C, K=K, N=N, kind="generic", per_item=per_item, dtype="float32", layout="noncontiguous")))
    return run_check("C13", "mc.c13", cases, tier,
                     bounds="all observation and hidden sequences up to %s; all parameter assignments over {0,1.5} for 2 states; all "
                            "segmentations up to %d steps, every parameter raised in turn" % ("3 states x 5 steps" if th else "3 states x 4 steps", 8 if th else 6),
                     rule="an outcome is a distinct best score, evidence or length vector")
