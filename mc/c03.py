"""C03: kmax and topk."""
import torch

from . import fam as F
from .core import Violation, run_check


def verify(st, f, c, make, theta, l, dtype, B, label, ks):
    orc = f.oracle(c, l)
    sc = orc.scores(theta.to(dtype))
    live = (sc > F.DEAD).sum(-1)
    order = sc.sort(-1, descending=True).values
    scale = max(1.0, 0.02 * float(theta.clamp(min=-1e3).abs().max()))
    if label in ("low", "high"):
        scale = 1.0
    for k in ks:
        want = torch.full((k, theta.shape[0]), -1e9, dtype=torch.float64)
        m = min(k, orc.S)
        want[:m] = order[:, :m].t()
        got = make().kmax(k)[:, :B]
        F.close(st, got, want, dtype, "kmax(%d) (%s)" % (k, label), scale=scale, family=f.key, cfg=c, length=l)
        top = make().topk(k)
        if f.tuple_event:
            sp = top[3].detach().double()[:, :B].reshape(k, B, -1)
            all_sp = f.spans(c, l)
            for b in range(min(B, 48)):
                for j in range(min(k, int(live[b]))):
                    m_ = (all_sp == sp[j, b]).all(-1)
                    s_ = sc[b][m_]
                    if not m_.any() or float((s_ - want[j, b]).abs().min()) > 1e-3 * scale * (1 + abs(float(want[j, b]))):
                        raise Violation("topk(%d)[%d] (%s): spans belong to no derivation of that score" % (k, j, label),
                                        family=f.key, cfg=c, length=l, spans=sp[j, b])
                    st.evals += 1
                # a span set may be returned at most as often as derivations share it
                if orc.S <= 2000:
                    n = min(k, int(live[b]))
                    for j in range(n):
                        used = int((sp[:n, b] == sp[j, b]).all(-1).sum())
                        have = int((all_sp == sp[j, b]).all(-1).sum())
                        if used > have:
                            raise Violation("topk(%d) (%s) repeats a derivation" % (k, label), family=f.key, cfg=c, length=l)
            continue
        ev = f.flat(c, top)[:, :B]
        if ev.shape[0] != k:
            raise Violation("topk(%d) returned %d structures" % (k, ev.shape[0]), family=f.key, cfg=c)
        rows = torch.stack([orc.rows(e) for e in ev])
        for j in range(m):
            alive = live > j
            if not bool(alive.any()):
                break
            r = rows[j][alive]
            if bool((r < 0).any()):
                b = int((r < 0).nonzero()[0])
                raise Violation("topk(%d)[%d] (%s) is not a structure" % (k, j, label), family=f.key, cfg=c, length=l,
                                event=ev[j][alive][b], theta=theta[alive][b])
            F.close(st, sc[alive].gather(1, r[:, None])[:, 0], want[j][alive], dtype,
                    "score of topk(%d)[%d] (%s)" % (k, j, label), scale=scale, family=f.key, cfg=c, length=l)
            for i in range(j) if orc.distinct else ():
                if bool((rows[i][alive] == r).any()):
                    raise Violation("topk(%d) (%s): entries %d and %d are the same structure" % (k, label, i, j),
                                    family=f.key, cfg=c, length=l)
        for r in set(map(tuple, rows.t().tolist()[:500])):
            st.outcome((l, k, r))
        st.traces += B * k


def sweep(st, fam, c, kinds, budget, ks):
    f = F.FAMS[fam]
    for l in F.lens_of(f, c):
        F.seen(st, f, c, l)
    for label, theta, l, dtype in F.sweep(f, c, kinds, budget):
        th, lens, B = F.with_full(f, c, theta, l)
        S = f.oracle(c, l).S
        kk = sorted(set(k for k in ks) | ({S, S + 1} if S <= 12 else set()))
        if label == "high":        # beyond the last structure the scores of impossible ones come close
            kk = [k for k in kk if k <= S]
        verify(st, f, c, lambda: f.dist(c, th, lens, dtype), theta, l, dtype, B, label, kk)
        st.sample({"config": F.cname(fam, c), "length": l, "potentials": label, "items": B, "k": kk})


def layout(st, fam, c):
    f = F.FAMS[fam]
    orc = F.seen(st, f, c, None)
    theta = F.generic(orc.P, 3, fam, "layout")
    for mode in F.LAYOUTS:
        for ng in (False, True):
            with torch.set_grad_enabled(not ng):
                B = F.laid_out(f, c, theta, mode)[1]
                verify(st, f, c, lambda: F.laid_out(f, c, theta, mode)[0], theta[:B], f.N(c), torch.float32, B, mode, (1, 2, 3))


def mixed(st, fam, c, B):
    """Every vector of lengths: each item of the batch is right at its own length."""
    f = F.FAMS[fam]
    for v, (theta,), dtype in F.mixed(f, c, B):
        for b, l in enumerate(v):
            verify(st, f, c, lambda: F.Item(f.dist(c, theta, torch.tensor(v), dtype), b), theta[b:b + 1], l, dtype, 1,
                   "lengths %s" % (v,), (1, 3) if B == 2 else (2,))


def run(tier):
    th = tier == "thorough"
    cases = []
    for k, c in F.pick([F.TINY]):
        cases.append(("sweep", dict(fam=k, c=c, kinds=["grid"], budget=20000 if th else 2500, ks=[1, 2, 3])))
    for k, c in F.pick([F.TINY, F.SMALL]):
        cases.append(("sweep", dict(fam=k, c=c, kinds=["generic", "wide", "off"], budget=0, ks=[1, 2, 3, 4, 7] + ([12] if th else []))))
        cases.append(("layout", dict(fam=k, c=c)))
        if th:
            cases.append(("sweep", dict(fam=k, c=c, kinds=["pin"], budget=0, ks=[2, 3])))
    for k, c in F.pick([F.BIG]):
        cases.append(("sweep", dict(fam=k, c=c, kinds=["generic", "off"] if th else ["generic"], budget=0, ks=[2, 5] if th else [3])))
    for k, c in F.pick([F.SPARSE]):
        if c.get("K", 0) * c.get("C", 1) <= 8:
            cases.append(("sweep", dict(fam=k, c=c, kinds=["deep"], budget=0, ks=[10, 16] + ([33] if th else []))))
    for k, c in F.deep_sizes(tier):
        cases.insert(0, ("sweep", dict(fam=k, c=c, kinds=["deep"], budget=0, ks=[1, 2, 3, 5, 8] if th else [2, 5])))
    for k, c, B in F.mixed_sizes(tier):
        if th or F.FAMS[k].N(c) <= 6 - B:
            cases.append(("mixed", dict(fam=k, c=c, B=B)))
    return run_check("C03", "mc.c03", cases, tier,
                     bounds="all configurations of mc/fam.py, every length, k in {1,2,3,4,7} and S, S+1 for small models; pruned sub-models of the DEEP sizes, all their structures",
                     rule="an outcome is a distinct ranked list of structures")
