"""C08: a batch is its items: no influence of other items, of the order, or of the content of the padding."""
import itertools

import torch

from . import fam as F
from .core import Violation, run_check

PAD = (0.0, 40.0, -40.0, 1e4, -1e4, F.OFF)


def trim(f, c, l):
    """The configuration of the item alone, trimmed to its length."""
    t = dict(c)
    t["N"] = l
    return t


def pad_mask(f, c, l):
    """Parts of the full event that no structure of length l can use (padding), and the positions of the others."""
    t = trim(f, c, l)
    idx = torch.arange(f.P(c))
    if f.tuple_event:
        sh = f.shapes(c)
        n0 = sh[0][0] * sh[0][1]
        keep = torch.ones(f.P(c), dtype=torch.bool)
        keep[:n0] = idx[:n0] // sh[0][1] < l
        return keep
    full = idx.reshape(f.shape(c))
    small = f.shape(t)
    sub = full
    for dim, n in enumerate(small):
        if n < sub.shape[dim]:
            sub = sub.narrow(dim, 0, n)
    keep = torch.zeros(f.P(c), dtype=torch.bool)
    keep[sub.reshape(-1)] = True
    return keep


def answers(f, c, dist, other, B, rand=True):
    """Everything observable about a batch, as {name: tensor with the batch first}; other: for kl and cross entropy."""
    out = {"partition": dist.partition, "max": dist.max, "entropy": dist.entropy,
           "kmax": dist.kmax(3).transpose(0, 1)}
    ev = {"marginals": f.flat(c, dist.marginals), "argmax": f.flat(c, dist.argmax)}
    if f.tuple_event:
        ev["spans"] = dist.marginals[3].detach().double().reshape(B, -1)
        ev["argmax spans"] = dist.argmax[3].detach().double().reshape(B, -1)
    else:
        out["count"] = dist.count
        out["kl"] = dist.kl(other)
        out["cross_entropy"] = dist.cross_entropy(other)
        # ranks beyond the number of structures have no meaningful event
        live = (dist.kmax(2) > F.DEAD).double().unsqueeze(-1)
        ev["topk"] = (f.flat(c, dist.topk(2)) * live).transpose(0, 1)
    return out, ev


def embed(f, c, l, flat):
    """Trimmed flat event (.., P_l) -> full flat event with zeros in the padding."""
    full = torch.zeros(tuple(flat.shape[:-1]) + (f.P(c),), dtype=torch.float64)
    full[..., pad_mask(f, c, l)] = flat
    return full


_ALONE = {}


def alone(f, c, l, theta, phi, dtype):
    t = trim(f, c, l)
    keep = pad_mask(f, c, l)
    th, ph = theta[keep].unsqueeze(0), phi[keep].unsqueeze(0)
    o, e = answers(f, t, f.dist(t, th, None, dtype), f.dist(t, ph, None, dtype), 1)
    for k in e:
        if k in ("spans", "argmax spans"):
            x = torch.zeros(1, c["N"], c["N"], c["NT"], dtype=torch.float64)
            x[:, :l, :l] = e[k].reshape(1, l, l, c["NT"])
            e[k] = x.reshape(1, -1)
        else:
            e[k] = embed(f, c, l, e[k])
    return o, e


def vectors(st, fam, c, B, pads, dtype="float32"):
    f = F.FAMS[fam]
    dt = getattr(torch, dtype)
    N = f.N(c)
    base = F.generic(f.P(c), B, fam, "iso")
    base2 = F.generic(f.P(c), B, fam, "iso2")
    for l in F.lens_of(f, c):
        F.seen(st, f, c, l)
    cache = {}
    for v in F.length_vectors(f, c, B):
        for pad in pads:
            theta, phi = base.clone(), base2.clone()
            for b, l in enumerate(v):
                keep = pad_mask(f, c, l)
                if pad is not None:
                    theta[b, ~keep] = pad
                    phi[b, ~keep] = pad
            lens = torch.tensor(v)
            o, e = answers(f, c, f.dist(c, theta, lens, dt), f.dist(c, phi, lens, dt), B)
            for b, l in enumerate(v):
                if l < f.min_alone:
                    continue
                if (b, l) not in cache:
                    cache[b, l] = alone(f, c, l, base[b], base2[b], dt)
                wo, we = cache[b, l]
                kw = dict(family=fam, cfg=c, lengths=v, item=b, padding=pad)
                for k in o:
                    F.close(st, o[k][b:b + 1], wo[k], dt, "%s of item %d, lengths %s, padding %s" % (k, b, v, pad),
                            scale=5.0, **kw)
                for k in e:
                    F.close(st, e[k][b:b + 1], we[k], dt, "%s of item %d, lengths %s, padding %s" % (k, b, v, pad),
                            scale=5.0, **kw)
            st.traces += B
            st.outcome((v, pad))
    st.sample({"config": F.cname(fam, c), "batch": B, "length_vectors": len(list(F.length_vectors(f, c, B)))})


def order(st, fam, c, B):
    """Every reordering and repetition of the items of a batch."""
    f = F.FAMS[fam]
    N = f.N(c)
    theta, phi = F.generic(f.P(c), B, fam, "ord"), F.generic(f.P(c), B, fam, "ord2")
    ls = [max(f.min_alone, N - b) for b in range(B)]
    ref = None
    for sel in itertools.product(range(B), repeat=B):
        v = tuple(ls[i] for i in sel)
        if f.needs_full and max(v) < N:
            continue
        o, e = answers(f, c, f.dist(c, theta[list(sel)], torch.tensor(v)), f.dist(c, phi[list(sel)], torch.tensor(v)), B)
        if ref is None:
            v0 = tuple(ls)
            ref = answers(f, c, f.dist(c, theta, torch.tensor(v0)), f.dist(c, phi, torch.tensor(v0)), B)
        for d, r in ((o, ref[0]), (e, ref[1])):
            for k in d:
                F.close(st, d[k], r[k][list(sel)], torch.float32, "%s with the items in order %s" % (k, sel), scale=5.0,
                        family=fam, cfg=c)
        st.traces += 1
        st.outcome(sel)


def big_batch(st, fam, c, B, dtype="float32"):
    """One large batch of all lengths, against its items alone."""
    f, dt = F.FAMS[fam], getattr(torch, dtype)
    ls = F.long_lens(f, c)
    v = tuple(ls[::-1][i % len(ls)] for i in range(B))
    same = torch.arange(B) % 37 if B > 100 else torch.arange(B)     # a very large batch repeats its items
    theta, phi = F.generic(f.P(c), B, fam, "bb")[same], F.generic(f.P(c), B, fam, "bb2")[same]
    known = {}
    o, e = answers(f, c, f.dist(c, theta, torch.tensor(v), dt), f.dist(c, phi, torch.tensor(v), dt), B)
    for b, l in enumerate(v):
        if (int(same[b]), l) not in known:
            known[int(same[b]), l] = alone(f, c, l, theta[b], phi[b], dt)
        wo, we = known[int(same[b]), l]
        for d, r in ((o, wo), (e, we)):
            for k in d:
                F.close(st, d[k][b:b + 1], r[k], dt, "%s of item %d of a batch of %d" % (k, b, B), scale=5.0,
                        family=fam, cfg=c, length=l)
        st.traces += 1
        st.outcome((b, l))


def uneven(st, fam, c):
    """Neighbours of very different magnitude: every item against itself alone."""
    f = F.FAMS[fam]
    N = f.N(c)
    for v in F.length_vectors(f, c, 2):
        if min(v) < f.min_alone:
            continue
        for hi in (300.0, -300.0, 40.0):
            theta, phi = F.generic(f.P(c), 2, fam, "un", v), F.generic(f.P(c), 2, fam, "un2", v)
            for big in (0, 1):
                th, ph = theta.clone(), phi.clone()
                th[big] += hi
                ph[big] += hi
                o, e = answers(f, c, f.dist(c, th, torch.tensor(v), torch.float64), f.dist(c, ph, torch.tensor(v), torch.float64), 2)
                for b in (0, 1):
                    wo, we = alone(f, c, v[b], th[b], ph[b], torch.float64)
                    for d, r in ((o, wo), (e, we)):
                        for k in d:
                            F.close(st, d[k][b:b + 1], r[k], torch.float64, "%s of item %d next to an item of other magnitude" % (k, b),
                                    scale=100.0, family=fam, cfg=c, lengths=v, offset=hi)
                st.traces += 2
                st.outcome((v, hi, big))


HUGE = [("chain", F.d(N=40, C=3)), ("chain", F.d(N=17, C=8)), ("semi", F.d(N=20, K=5, C=2)), ("semi", F.d(N=33, K=3, C=1)),
        ("dep", F.d(N=15)), ("dep", F.d(N=20, single=1)), ("dep", F.d(N=9, L=3)), ("dep", F.d(N=8, L=2, single=1)),
        ("tree", F.d(N=17, NT=3)), ("tree", F.d(N=24, NT=1)), ("cfg", F.d(N=9, NT=3, T=3)), ("cfg", F.d(N=12, NT=2, T=4))]


def run(tier):
    th = tier == "thorough"
    cases = []
    for k, c in F.pick([F.TINY, F.SMALL]):
        N = F.FAMS[k].N(c)
        cases.append(("vectors", dict(fam=k, c=c, B=1, pads=[None])))
        if N <= (7 if th else 5):
            cases.append(("vectors", dict(fam=k, c=c, B=2, pads=list(PAD) if th or N <= 3 else [None, 40.0, -1e4, F.OFF])))
        if N <= (5 if th else 4):
            cases.append(("vectors", dict(fam=k, c=c, B=3, pads=[None, 40.0] if th or N <= 3 else [40.0], dtype="float64")))
        if N <= (5 if th else 4):
            cases.append(("uneven", dict(fam=k, c=c)))
        cases.append(("order", dict(fam=k, c=c, B=3)))
        cases.append(("big_batch", dict(fam=k, c=c, B=17 if th else 9)))
    for k, c in HUGE:
        cases += [("big_batch", dict(fam=k, c=c, B=B, dtype=t)) for B, t in ((12, "float32"), (5, "float64"))]
    for k, c in F.pick([F.TINY]):
        cases.append(("big_batch", dict(fam=k, c=c, B=70)))
        cases.append(("big_batch", dict(fam=k, c=c, B=600 if th else 300)))
    for k, c in F.pick([F.BIG]):
        if th or F.FAMS[k].N(c) <= 7:
            cases.append(("big_batch", dict(fam=k, c=c, B=8)))
            if th and F.FAMS[k].N(c) <= 8:
                cases.append(("vectors", dict(fam=k, c=c, B=2, pads=[40.0])))
    return run_check("C08", "mc.c08", cases, tier,
                     bounds="every length vector of batches up to 3 for N up to %d, paddings %s, every reordering of three items, items of unequal magnitude"
                            % (7 if th else 5, PAD),
                     rule="an outcome is a distinct (length vector, padding) or reordering",
                     assumptions=["padding values are finite"])
