"""C18: the sparsemax semiring: every support enumerated, values, gradients and second derivatives."""
import itertools

import torch

from . import fam as F
from .core import Violation, run_check, load_library

ts = load_library()
SM = ts.SparseMaxSemiring


def exact(X):
    """Rows of X -> (max over the simplex of <w,x> - |w|^2/2, its maximiser), by trying every support."""
    n = X.shape[-1]
    best = torch.full(X.shape[:-1], float("-inf"), dtype=X.dtype)
    W = torch.zeros_like(X)
    for r in range(1, n + 1):
        for S in itertools.combinations(range(n), r):
            w = torch.zeros_like(X)
            sub = X[..., list(S)]
            w[..., list(S)] = sub - (sub.sum(-1, keepdim=True) - 1) / r
            ok = (w >= -1e-12).all(-1)
            v = (w * X).sum(-1) - 0.5 * (w * w).sum(-1)
            take = ok & (v > best)
            best = torch.where(take, v, best)
            W = torch.where(take.unsqueeze(-1), w.clamp(min=0), W)
    return best, W


def rows(n, kind):
    if kind == "coarse":
        return F.grid(n, (-1.0, 0.0, 0.25, 1.0))
    if kind == "fine":
        return F.grid(n, (-2.0, -0.5, 0.0, 0.3, 0.5, 1.0, 5.0))
    if kind == "dead":
        return F.grid(n, (-1e5, 0.0, 0.4))
    if kind == "steep":
        return F.grid(n, (-40.0, 0.0, 0.5, 40.0))
    if kind == "bits":
        return F.grid(n, (0.0, 0.1))
    return F.generic(n, 400, "sm", n, scale=0.05 if kind == "close" else 1.0)


def operator(st, n, kind, dtype):
    """sum over every axis, positive and negative, of tensors of 1 to 4 dimensions."""
    dt = getattr(torch, dtype)
    X = rows(n, kind)
    X = X[:(X.shape[0] // 6) * 6] if X.shape[0] >= 6 else X
    v, w = exact(X.to(dt).double())
    tol = 1e-4 if dt == torch.float32 else 1e-9
    scale = 1e2 if (kind in ("dead", "steep") and dt == torch.float32) else 1.0
    B = X.shape[0]
    shapes = [(B,)] + ([(2, B // 2), (B // 6, 2, 3)] if B % 6 == 0 else [])
    g = F.rng("sm", n)
    for sh in shapes:
        for ax in range(len(sh) + 1):
            x = X.reshape(sh + (n,)).movedim(-1, ax).to(dt)
            for dim in (ax, ax - len(sh) - 1):
                for lay in ("plain", "contiguous"):
                    y = (x.contiguous() if lay == "contiguous" else x).detach().requires_grad_(True)
                    if dim == -1 and lay == "plain":
                        out = SM.sum(y)
                        if not torch.equal(out, SM.sum(y, dim=-1)):
                            raise Violation("the default axis is not the last one", n=n)
                    else:
                        out = SM.sum(y, dim=dim)
                    if tuple(out.shape) != sh:
                        raise Violation("sum over axis %d of shape %s has shape %s" % (dim, tuple(x.shape), tuple(out.shape)))
                    # rows of impossible values only: in single precision they must stay impossible, nothing more
                    dead = (v.reshape(sh) < F.DEAD) & (dt == torch.float32)
                    bad = (out.detach().double() - v.reshape(sh)).abs() > tol * scale * (1 + v.reshape(sh).abs())
                    bad = torch.where(dead, ~(out.detach().double() < F.DEAD), bad)
                    if bool(bad.any()):
                        i = tuple(bad.nonzero()[0].tolist())
                        raise Violation("sparsemax of %s over axis %d: got %r, expected %r" % (
                            X.reshape(sh + (n,))[i].tolist(), dim, float(out[i]), float(v.reshape(sh)[i])))
                    co = torch.as_tensor(g.uniform(0.5, 1.5, sh), dtype=dt)
                    gr = torch.autograd.grad((out * co).sum(), y)[0]
                    want = w.reshape(sh + (n,)) * co.double().unsqueeze(-1)
                    bad = ((gr.double().movedim(ax, -1) - want).abs() > tol * scale * 3).any(-1) & ~dead
                    if bool(bad.any()):
                        i = tuple(bad.nonzero()[0].tolist())
                        raise Violation("gradient of the sparsemax of %s over axis %d" % (X.reshape(sh + (n,))[i].tolist(), dim),
                                        got=gr.movedim(ax, -1)[i], want=want[i])
                    st.evals += out.numel() + gr.numel()
    for s, c in zip(v[:200].tolist(), (w > 0).sum(-1)[:200].tolist()):
        st.outcome((round(s, 4), c))
    st.states += B * (2 ** n - 1)
    st.transitions += B * (2 ** n - 1)
    st.traces += B
    st.sample({"n": n, "kind": kind, "row": X[0].tolist(), "value": float(v[0]), "weights": w[0].tolist()})


def long_rows(st, n, dtype):
    """Rows of n elements whose optimal support has each size from 1 to n, in two orders; the optimum is known by the
    construction: chosen positive weights of sum one, a chosen threshold, the rest below it."""
    dt = getattr(torch, dtype)
    r = F.rng("long", n)
    X, W = [], []
    for m in range(1, n + 1):
        for low in (0.01, 1e5):
            w = torch.zeros(n, dtype=torch.float64)
            u = torch.as_tensor(r.uniform(0.5, 1.5, m))
            at = torch.as_tensor(r.permutation(n)[:m])
            w[at] = u / u.sum()
            tau = float(r.uniform(-2, 2))
            x = torch.where(w > 0, w + tau, tau - low * torch.as_tensor(r.uniform(0.5, 1.5, n)))
            X.append(x)
            W.append(w)
    X, W = torch.stack(X), torch.stack(W)
    v = (W * X).sum(-1) - 0.5 * (W * W).sum(-1)
    for ax in (0, 1):
        for dim in (ax, ax - 2):
            y = (X if ax else X.t()).to(dt).requires_grad_(True)
            out = SM.sum(y, dim=dim)
            F.close(st, out, v, dt, "sparsemax of %d elements over axis %d" % (n, dim), scale=10.0)
            g = torch.autograd.grad(out.sum(), y, create_graph=True)[0]
            F.close(st, g if ax else g.t(), W, dt, "gradient of the sparsemax of %d elements over axis %d" % (n, dim), scale=10.0)
            co = torch.as_tensor(r.uniform(0.5, 1.5, tuple(X.shape)))
            S = (W > 0).double()
            want = S * (co - ((S * co).sum(-1) / S.sum(-1)).unsqueeze(-1))
            h = torch.autograd.grad((g * (co if ax else co.t()).to(dt)).sum(), y)[0]
            F.close(st, h if ax else h.t(), want, dt, "second derivative of the sparsemax of %d elements" % n, scale=10.0)
    st.states += 2 * n
    st.traces += 2 * n
    st.outcome(n)


def second(st, n):
    """The derivative of the gradient: identity minus mean on the support. Rows with the support's border are skipped."""
    X = torch.cat([rows(n, "coarse"), rows(n, "generic")])
    v, w = exact(X)
    tau = ((X * (w > 0)).sum(-1) - 1) / (w > 0).sum(-1)
    clear = (X - tau.unsqueeze(-1)).abs().min(-1).values > 1e-6
    X, w = X[clear], w[clear]
    S = (w > 0).double()
    J = torch.diag_embed(S) - S.unsqueeze(-1) * S.unsqueeze(-2) / S.sum(-1)[:, None, None]
    x = X.clone().requires_grad_(True)
    g = torch.autograd.grad(SM.sum(x, dim=-1).sum(), x, create_graph=True)[0]
    for i in range(n):
        h = torch.autograd.grad(g[:, i].sum(), x, retain_graph=True)[0]
        F.close(st, h, J[:, i], torch.float64, "second derivative of sparsemax", n=n, i=i)
    st.traces += X.shape[0]
    for m in S[:500].tolist():
        st.outcome(tuple(m))


STRUCT = {"chain": lambda: ts.LinearChain, "semi": lambda: ts.SemiMarkov, "dep": lambda: ts.DepTree,
          "tree": lambda: ts.CKY_CRF}


def structure(st, fam, c):
    """Marginals under sparsemax: the gradient of the value, inside the span of the structures, sparse in the limit."""
    f = F.FAMS[fam]
    orc = F.seen(st, f, c, None)
    model = STRUCT[fam]()(SM)
    # equations that all structures satisfy
    A = torch.cat([orc.M, torch.ones(orc.S, 1, dtype=torch.float64)], 1)
    sv = torch.linalg.svd(A, full_matrices=True)
    rank = int((sv.S > 1e-9).sum())
    null = sv.Vh[rank:]

    def run(theta):
        p = f.pot(c, theta, torch.float64)
        v = model.sum(p)
        return v.detach().double().reshape(-1), f.flat(c, model.marginals(f.pot(c, theta, torch.float64)))

    B = 12
    for scale in (0.2, 1.0, 3.0):
        theta = F.generic(orc.P, B, "smst", scale, scale=scale)
        v, m = run(theta)
        if bool((m < -1e-9).any()) or bool((m > float(orc.M.max()) + 1e-9).any()):
            raise Violation("sparsemax marginals outside the range of the structures", fam=fam, cfg=c, got=m)
        off = (torch.cat([m, torch.ones(B, 1, dtype=torch.float64)], 1) @ null.t()).abs()
        if bool((off > 1e-7).any()):
            raise Violation("sparsemax marginals are not an average of structures", fam=fam, cfg=c, got=m[int(off.max(1).values.argmax())])
        h = 1e-5
        for p in range(orc.P):
            e = torch.zeros(orc.P, dtype=torch.float64)
            e[p] = h
            d = (run(theta + e)[0] - run(theta - e)[0]) / (2 * h)
            bad = (d - m[:, p]).abs() > 2e-4
            # a value whose support changes inside the interval has no exact difference: compare one-sided bounds
            if bool(bad.any()):
                lo, hi = run(theta - e)[1][:, p], run(theta + e)[1][:, p]
                if bool((bad & ((d < torch.minimum(lo, hi) - 2e-4) | (d > torch.maximum(lo, hi) + 2e-4))).any()):
                    raise Violation("sparsemax marginals are not the gradient of the value", fam=fam, cfg=c, part=p, got=m[:, p], want=d)
            st.evals += B
        for x in (m > 0).sum(-1).tolist():
            st.outcome((scale, x))
    # every structure pinned far above the others is the whole answer
    n = int(orc.M.sum(-1).max())
    for t in F.chunks(6.0 * n * (2 * orc.M - 1).clamp(min=-1.0), 256):
        v, m = run(t)
        best = orc.M[(t @ orc.M.t()).argmax(-1)]
        F.close(st, m, best, torch.float64, "sparsemax marginals of a clearly best structure", fam=fam, cfg=c)
    st.traces += orc.S
    st.sample({"config": F.cname(fam, c), "structures": orc.S, "equations": null.shape[0]})


def run(tier):
    th = tier == "thorough"
    cases = []
    for n in range(1, 7 if th else 6):
        for dt in ("float64", "float32"):
            for kind in ("coarse", "dead", "steep", "generic") + (("fine",) if n < (6 if th else 5) else ()):
                cases.append(("operator", dict(n=n, kind=kind, dtype=dt)))
        cases.append(("second", dict(n=n)))
    for n in (8, 12):
        for dt in ("float64", "float32"):
            for kind in ("generic", "close") + (("bits",) if n == 8 else ()):
                cases.append(("operator", dict(n=n, kind=kind, dtype=dt)))
    for n in (1, 2, 3, 7, 15, 16, 17, 31, 33, 50, 64, 65) + ((100, 129, 257) if th else ()):
        for dt in ("float64", "float32"):
            cases.append(("long_rows", dict(n=n, dtype=dt)))
    S = [("chain", dict(N=2, C=2)), ("chain", dict(N=3, C=2)), ("chain", dict(N=4, C=2)), ("chain", dict(N=3, C=3)),
         ("semi", dict(N=3, K=3, C=2)), ("semi", dict(N=4, K=3, C=2)), ("dep", dict(N=2)), ("dep", dict(N=3)),
         ("tree", dict(N=2, NT=2)), ("tree", dict(N=3, NT=2)), ("tree", dict(N=4, NT=1))]
    cases += [("structure", dict(fam=a, c=F.d(**b))) for a, b in S]
    return run_check("C18", "mc.c18", cases, tier,
                     bounds="all rows over 3 to 7 value alphabets up to %d elements on every axis of tensors of 1 to 4 dimensions, "
                            "every support enumerated; rows up to %d with every support size; structures up to 4 positions" % (5 if th else 4, 257 if th else 65),
                     rule="an outcome is a distinct (value, support size)")
