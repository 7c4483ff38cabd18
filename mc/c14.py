"""C14: checkpointed and sharded semirings give the values and gradients of the plain ones."""
import itertools

import torch

from . import fam as F
from .core import Violation, run_check


def bases():
    import torch_struct as ts
    return {"log": ts.LogSemiring, "max": ts.MaxSemiring, "std": ts.StdSemiring, "entropy": ts.EntropySemiring,
            "kmax2": ts.KMaxSemiring(2), "kmax3": ts.KMaxSemiring(3), "kl": ts.KLDivergenceSemiring,
            "ce": ts.CrossEntropySemiring}


SIZE = {"entropy": 2, "kmax2": 2, "kmax3": 3, "kl": 3, "ce": 3}


def wrapped(base):
    """Every variant: name -> semiring."""
    import torch_struct as ts
    out = {"checkpoint(default)": ts.CheckpointSemiring(base), "shard(max=2)": ts.CheckpointShardSemiring(base, 2)}
    for s in (1, 3, 9, 20, 10 ** 6):
        out["checkpoint(min=%d)" % s] = ts.CheckpointSemiring(base, s)
    for s, t in itertools.product((1, 3, 5, 10, 50, 10 ** 6), (0, 5, 10 ** 6)):
        out["shard(max=%d,min=%d)" % (s, t)] = ts.CheckpointShardSemiring(base, s, t)
    return out


def evaluate(sr, a, b, need, shape, op="matmul"):
    a, b = a.clone().requires_grad_(need[0]), b.clone().requires_grad_(need[1])
    x, y = a, b
    if shape == "noncontiguous":
        x, y = F.noncontig(a), F.noncontig(b)
    q = getattr(sr, op)(x, y)
    out = q
    if shape == "transposed":
        out = q.transpose(-1, -2)
    elif shape == "reversed":
        out = q.permute(*range(q.dim())[::-1])
    w = (torch.arange(1, out.numel() + 1, dtype=torch.float64).sqrt().reshape(out.shape) - 1.5)
    ins = [t for t in (a, b) if t.requires_grad]
    g = torch.autograd.grad((out * w).sum(), ins) if ins else []
    return [q.detach()] + list(g)


def definition(name, a, b):
    """matmul of the one-component semirings straight from the definition"""
    a, b = a.unsqueeze(-1), b.unsqueeze(-3)
    if name == "log":
        return torch.logsumexp(a + b, -2)
    if name == "max":
        return (a + b).max(-2).values
    if name == "std":
        return (a * b).sum(-2)
    return None


def leads(name):
    s = SIZE.get(name, 1)
    if s == 1:
        return [((), ()), ((1,), (1,)), ((3,), (3,)), ((3,), (1,)), ((1, 3), (1, 3)), ((1, 4), (1, 1)), ((1, 1), (1, 4)),
                ((2, 3), (2, 3)), ((1, 3), (2, 1)), ((1, 2, 3), (1, 2, 3)), ((1, 2, 1), (1, 1, 3)), ((1, 2, 2, 2), (1, 2, 2, 2)),
                ((1, 7), (1, 7))]
    return [((s,), (s,)), ((s, 3), (s, 3)), ((s, 4), (s, 1)), ((s, 1), (s, 3)), ((s, 2, 3), (s, 2, 3)), ((s, 2, 1), (s, 1, 3)),
            ((s, 7), (s, 7))]


def products(st, name, lead, dims):
    base = bases()[name]
    for n, k, m in itertools.product(dims, repeat=3):
        r = F.rng("ck", name, lead, n, k, m)
        a = torch.tensor(r.uniform(-2, 2, lead[0] + (n, k)))
        b = torch.tensor(r.uniform(-2, 2, lead[1] + (k, m)))
        for need, shape in itertools.product(((True, True), (True, False), (False, True), (False, False)),
                                             ("plain", "transposed", "reversed", "noncontiguous")):
            if not any(need) and shape != "plain":
                continue
            ref = evaluate(base, a, b, need, shape)
            want = definition(name, a, b)
            if want is not None:
                F.close(st, ref[0], want, torch.float64, "plain product in " + name)
            for label, sr in wrapped(base).items():
                got = evaluate(sr, a, b, need, shape)
                for what, x, y in zip(("value", "first gradient", "second gradient"), got, ref):
                    F.close(st, x, y, torch.float64, "%s of %s(%s), operands %s x %s, %s" % (
                        what, label, name, tuple(a.shape), tuple(b.shape), shape), scale=100.0)
                st.traces += 1
                st.outcome((label, n, k, m, shape))
        st.states += 1
        st.transitions += 1
    # dot products along the last dimension
    for n in dims:
        r = F.rng("dot", name, lead, n)
        a = torch.tensor(r.uniform(-2, 2, lead[0] + (n,)))
        b = torch.tensor(r.uniform(-2, 2, lead[1] + (n,)))
        if len(lead[0]) == 0:
            continue
        ref = evaluate(base, a, b, (True, True), "plain", "dot")
        for label, sr in wrapped(base).items():
            got = evaluate(sr, a, b, (True, True), "plain", "dot")
            for what, x, y in zip(("value", "first gradient", "second gradient"), got, ref):
                F.close(st, x, y, torch.float64, "dot: %s of %s(%s)" % (what, label, name), scale=100.0)
    st.sample({"semiring": name, "leading dimensions": lead, "variants": len(wrapped(base))})


STRUCTS = {"chain": "LinearChain", "semi": "SemiMarkov", "dep": "DepTree", "tree": "CKY_CRF", "cfg": "CKY"}


def structures(st, fam, c, lens_all):
    """Inside sums and marginals of a whole model under every variant."""
    import torch_struct as ts
    f = F.FAMS[fam]
    S = getattr(ts, STRUCTS[fam])
    theta = F.generic(f.P(c), 2, fam, "ck")
    lengths = [None]
    if lens_all:
        lengths += [torch.tensor(v) for v in F.length_vectors(f, c, 2)]
    for lens in lengths:
        for name in ("log", "max"):
            base = bases()[name]
            orc = [F.seen(st, f, c, None if lens is None else int(lens[b])) for b in range(2)]
            sc = [o.scores(theta[b:b + 1]) for b, o in enumerate(orc)]
            want = torch.cat([torch.logsumexp(s, -1) if name == "log" else s.max(-1).values for s in sc])
            wm = torch.cat([o.marginals(theta[b:b + 1]) if name == "log" else o.M[s.argmax(-1)] for b, (o, s) in enumerate(zip(orc, sc))])
            for label, sr in wrapped(base).items():
                pot = f.pot(c, theta, torch.float64)
                got = S(sr).sum(pot, lens)
                F.close(st, got, want, torch.float64, "%s of %s under %s(%s)" % ("sum", F.cname(fam, c), label, name), lengths=lens)
                got = S(sr).marginals(f.pot(c, theta, torch.float64), lens)
                F.close(st, f.flat(c, got), wm, torch.float64, "marginals of %s under %s(%s)" % (F.cname(fam, c), label, name), lengths=lens)
                st.traces += 1
                st.outcome((fam, label, name, str(lens)))
        for name in ("entropy", "kmax2", "std"):
            base = bases()[name]
            want = S(base).sum(f.pot(c, theta, torch.float64), lens, _raw=True)
            for label, sr in wrapped(base).items():
                got = S(sr).sum(f.pot(c, theta, torch.float64), lens, _raw=True)
                F.close(st, got, want, torch.float64, "sum of %s under %s(%s)" % (F.cname(fam, c), label, name), scale=10.0, lengths=lens)


def run(tier):
    th = tier == "thorough"
    cases = []
    for name in ("log", "max", "std", "entropy", "kmax2", "kmax3", "kl", "ce"):
        for lead in leads(name):
            cases.append(("products", dict(name=name, lead=lead, dims=[1, 2, 3] if th else [1, 3])))
        s = SIZE.get(name, 1)
        for lead in [((s, 60), (s, 60)), ((s, 9, 8), (s, 9, 8)), ((s, 61), (s, 1))]:
            cases.append(("products", dict(name=name, lead=lead, dims=[1, 2])))
    for k, c in F.pick([F.TINY, F.SMALL] + ([F.BIG] if th else [])):
        if c.get("L") or c.get("single"):
            continue
        cases.append(("structures", dict(fam=k, c=c, lens_all=F.FAMS[k].N(c) <= (5 if th else 3))))
    return run_check("C14", "mc.c14", cases, tier,
                     bounds="all operand sizes in %s^3 with up to four leading dimensions and every broadcast pattern listed; 25 "
                            "variants per semiring; every gradient setting; whole models of mc/fam.py" % ([1, 2, 3] if th else [1, 3]),
                     rule="an outcome is a distinct (variant, operand sizes, layout)")
