"""C09: compact representation <-> event is a bijection on structures."""
import itertools

import torch

from . import fam as F
from .core import Violation, run_check


def compact(fam, c, l, run):
    """The documented compact representation of a structure (a list of its parts), length l."""
    if fam == "chain":
        seq = [None] * l
        for n, z, z0 in run:
            if n == 0:
                seq[0] = z0
            seq[n + 1] = z
        return seq
    if fam == "semi":
        seq = [-1] * l
        for n, k, z, z0 in run:
            if n == 0:
                seq[0] = z0
            seq[n + k] = z
        return seq
    seq = [None] * l        # dependency: head of each word, 0 for the root
    for h, m in [p[:2] for p in run]:
        seq[m] = 0 if h == m else h + 1
    return seq


def extra(fam, c):
    return {"chain": c.get("C"), "semi": (c.get("C"), c.get("K")), "dep": None, "nonproj": None}[fam]


def domain(fam, c):
    return {"chain": range(c.get("C", 0)), "semi": range(-1, c.get("C", 0)), "dep": range(c["N"] + 1)}[fam]


def paddings(fam, c, n, budget):
    """Contents of the n padded positions: all of them if there are few, else constant ones."""
    dom = list(domain(fam, c))
    if len(dom) ** n <= budget:
        return list(itertools.product(dom, repeat=n))
    return [(x,) * n for x in dom]


def dist_of(f, c):
    return f.dist(c, F.generic(f.P(c), 2, f.key, "ev"))


def convert(st, fam, c, budget):
    f = F.FAMS[fam]
    N = f.N(c)
    dist = dist_of(f, c)
    ext = extra(fam, c)
    for l in F.long_lens(f, c):
        orc = F.seen(st, f, c, l)
        comp = [compact(fam, c, l, r) for r in orc.runs]
        if len(set(map(tuple, comp))) != orc.S:
            raise Violation("two structures share one compact representation", family=fam, cfg=c)
        # to_event, for every padding content
        for pad in paddings(fam, c, N - l, budget):
            seq = torch.tensor([s + list(pad) for s in comp])
            lens = torch.tensor([l] * len(comp))
            forms = [dist.to_event(seq, ext, lengths=lens)] + ([dist.to_event(seq, ext)] if l == N else [])
            for ev in forms:
                got = f.flat(c, ev)
                if tuple(got.shape) != (orc.S, orc.P) or not torch.equal(got, orc.M):
                    b = int((got != orc.M).any(-1).nonzero()[0]) if got.shape == orc.M.shape else 0
                    raise Violation("to_event of %s (length %d) is not the event of that structure" % (seq[b].tolist(), l),
                                    family=fam, cfg=c, got=got[b], want=orc.M[b])
                st.evals += orc.S
            st.outcome((l, pad))
        # from_event, for events of several types
        for dt in (torch.float32, torch.float64, torch.long, torch.bool):
            e = f.event(c, orc.M, dt)
            for ev in (e, F.noncontig(e)):
                seq, x = dist.from_event(ev)
                if tuple(seq.shape) != (orc.S, N) or seq.is_floating_point():
                    raise Violation("from_event shape or type", got=list(seq.shape), family=fam)
                if seq[:, :l].tolist() != comp:
                    b = [i for i in range(orc.S) if seq[i, :l].tolist() != comp[i]][0]
                    raise Violation("from_event gives %s for structure %s" % (seq[b].tolist(), comp[b]), family=fam, cfg=c, length=l)
                if x != ext:
                    raise Violation("from_event reports %r for the extra information, expected %r" % (x, ext), family=fam, cfg=c)
                back = f.flat(c, dist.to_event(seq, x, lengths=torch.tensor([l] * orc.S)))
                if not torch.equal(back, orc.M):
                    raise Violation("event -> sequence -> event is not the identity", family=fam, cfg=c, length=l)
                st.evals += orc.S
        st.traces += orc.S
        for r in range(min(orc.S, 300)):
            st.outcome((l, r))
        st.sample({"config": F.cname(fam, c), "length": l, "structures": orc.S, "first": comp[0]})


def mixed(st, fam, c, B):
    """Batches of every length vector."""
    f = F.FAMS[fam]
    N = f.N(c)
    dist = dist_of(f, c)
    ext = extra(fam, c)
    dom = list(domain(fam, c))
    for v in itertools.product(F.long_lens(f, c), repeat=B):
        orcs = [f.oracle(c, l) for l in v]
        for j in range(min(6, max(o.S for o in orcs))):
            idx = [(j * 7 + b) % o.S for b, o in enumerate(orcs)]
            comp = [compact(fam, c, l, o.runs[i]) for l, o, i in zip(v, orcs, idx)]
            seq = torch.tensor([s + [dom[(j + b) % len(dom)]] * (N - len(s)) for b, s in enumerate(comp)])
            want = torch.stack([o.M[i] for o, i in zip(orcs, idx)])
            got = f.flat(c, dist.to_event(seq, ext, lengths=torch.tensor(v)))
            if not torch.equal(got, want):
                raise Violation("to_event of a batch with lengths %s" % (v,), family=fam, cfg=c, sequence=seq)
            s2, _ = dist.from_event(f.event(c, want))
            if any(s2[b, :len(s)].tolist() != s for b, s in enumerate(comp)):
                raise Violation("from_event of a batch with lengths %s" % (v,), family=fam, cfg=c)
            st.evals += 2
        st.traces += 1
        st.outcome(v)


def trees(st, c):
    f = F.FAMS["tree"]
    orc = F.seen(st, f, c, None)
    dist = dist_of(f, c)
    e = f.event(c, orc.M)
    s, x = dist.from_event(e)
    back = dist.to_event(s, x)
    if not torch.equal(f.flat(c, back), orc.M):
        raise Violation("span trees: event -> compact -> event is not the identity", cfg=c)
    st.traces += orc.S
    st.outcome(orc.S)


def cfg_spans(c, l, run):
    """Span indicators (i, j, symbol) of a derivation, symbols = nonterminals then terminals."""
    out = torch.zeros(c["N"], c["N"], c["NT"] + c["T"])
    for p in run:
        if p[0] == "s":
            out[p[1], p[2], p[3]] = 1
        elif p[0] == "t":
            out[p[1], p[1], c["NT"] + p[2]] = 1
    return out


def cfg(st, c, cap):
    """PCFG: spans -> (terms, rules, roots) for every derivation; anchored rules -> spans."""
    f = F.FAMS["cfg"]
    N, NT, S = c["N"], c["NT"], c["NT"] + c["T"]
    dist = f.dist(c, F.generic(f.P(c), 2, "cfg", "ev"))
    for l in F.long_lens(f, c):
        orc = F.seen(st, f, c, l)
        for lo in range(0, min(orc.S, cap), 64):
            runs = orc.runs[lo:min(lo + 64, cap)]
            spans = torch.stack([cfg_spans(c, l, r) for r in runs])
            ev = dist.to_event(spans, (NT, c["T"]), lengths=torch.tensor([l] * len(runs)))
            got = f.flat(c, ev)
            if not torch.equal(got, orc.M[lo:lo + len(runs)]):
                raise Violation("to_event of the spans of a derivation", cfg=c, length=l)
            # back from anchored rules
            rules = torch.zeros(len(runs), N, N, NT, S, S)
            for b, r in enumerate(runs):
                stack = []
                for p in r:         # shift/reduce order: rebuild the anchoring of every rule
                    if p[0] == "t":
                        stack.append(p[1])
                    elif p[0] == "r":
                        stack.pop()
                    elif p[0] == "s":
                        prev = r[r.index(p) - 1]
                        rules[b, p[2] - p[1] - 1, p[1], prev[1], prev[2], prev[3]] = 1
            s2, x2 = dist.from_event((ev[0], rules, ev[2]))
            if tuple(x2) != (NT, c["T"]) or not torch.equal(s2, spans):
                raise Violation("from_event of the anchored rules of a derivation", cfg=c, length=l)
            st.traces += len(runs)
            st.evals += 2 * len(runs)
        for r in range(min(orc.S, 300)):
            st.outcome((l, r))


def logprob(st, fam, c):
    """log_prob of a converted sequence is the log-probability of that sequence; probabilities add up to one."""
    f = F.FAMS[fam]
    theta = F.generic(f.P(c), 2, fam, "lp")
    for l in F.long_lens(f, c):
        orc = F.seen(st, f, c, l)
        th, lens, B = F.with_full(f, c, theta, l)
        dist = f.dist(c, th, lens, torch.float64)
        seq = torch.tensor([compact(fam, c, l, r) + [0] * (f.N(c) - l) for r in orc.runs])
        ev = dist.to_event(seq, extra(fam, c), lengths=torch.tensor([l] * orc.S))
        ev = ev.unsqueeze(1).expand((ev.shape[0], th.shape[0]) + tuple(ev.shape[1:]))
        got = dist.log_prob(ev)[:, :B]
        F.close(st, got, orc.logp(theta).t(), torch.float64, "log_prob of a sequence", family=fam, cfg=c, length=l)
        st.traces += orc.S
        st.outcome((l, orc.S))


def run(tier):
    th = tier == "thorough"
    cases = []
    lists = [F.TINY, F.SMALL, F.DEEP] + ([F.BIG] if th else [])
    for k, c in F.pick(lists, "chain", "semi", "dep"):
        if c.get("L") or c.get("single"):
            continue
        if k in ("dep",) and c["N"] > 6 and not c.get("deep"):
            continue
        cases.append(("convert", dict(fam=k, c=c, budget=1000 if th else 64)))
        if not c.get("deep"):
            cases.append(("logprob", dict(fam=k, c=c)))
        if c["N"] <= 5:
            cases.append(("mixed", dict(fam=k, c=c, B=2)))
        if c["N"] <= 4:
            cases.append(("mixed", dict(fam=k, c=c, B=3)))
    for k, c in F.pick(lists, "tree"):
        cases.append(("trees", dict(c=c)))
    for k, c in F.pick(lists, "cfg"):
        cases.append(("cfg", dict(c=c, cap=100000 if th else 1500)))
    return run_check("C09", "mc.c09", cases, tier,
                     bounds="all structures of the configurations of mc/fam.py at every length; all contents of the padding "
                            "when at most %d" % (1000 if th else 64),
                     rule="an outcome is a distinct structure or padding content")
