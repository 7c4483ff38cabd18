"""C21: requests that do not fit together are refused, all others are answered."""
import itertools

import torch

from . import fam as F
from .core import Violation, run_check

SEQ = ("partition", "max", "argmax", "mode", "marginals", "entropy", "count", "kmax", "topk", "sample", "gumbel_crf",
       "kl", "cross_entropy")
GRAMMAR = ("partition", "max", "argmax", "marginals", "kmax")


def ask(d, op, e):
    if op in ("kmax", "topk"):
        return getattr(d, op)(2)
    if op == "sample":
        return d.sample((2,))
    if op == "gumbel_crf":
        return d.gumbel_crf(1.0)
    if op in ("kl", "cross_entropy"):
        return getattr(d, op)(e)
    return getattr(d, op)


def refused(fn):
    try:
        fn()
    except Exception as e:
        return type(e).__name__
    return None


def judge(st, fn, fits, what, **detail):
    st.evals += 1
    st.traces += 1
    got = refused(fn)
    if fits is None:
        return got
    if fits and got:
        raise Violation("%s: a request that fits was refused (%s)" % (what, got), **detail)
    if not fits and got is None:
        raise Violation("%s: a request that does not fit was answered" % what, **detail)
    st.outcome((what, fits))
    return got


def draw(shape, *tag):
    n = 1
    for s in shape:
        n *= s
    return F.generic(max(n, 1), 1, "c21", shape, *tag)[0][:n].reshape(shape).float()


def vectors(top, B):
    return [None] + list(itertools.product(range(1, top + 1), repeat=B))


def every(st, make, fits, ops, what, **detail):
    for op in ops:
        for grad in (True, False):
            with torch.set_grad_enabled(grad):
                judge(st, lambda: ask(make(0), op, make(1)), fits, "%s of %s" % (op, what), **detail)
    st.states += 1
    st.transitions += len(ops)


def lens(v):
    return None if v is None else torch.tensor(v)


def chain(st, B, N, C, C2):
    from torch_struct import LinearChainCRF
    for v in vectors(N + 3, B) if C == C2 else [None]:
        fits = C == C2 and (v is None or max(v) == N + 1)
        if v is not None and max(v) < N + 1:
            continue                   # no item of full length: not claimed
        every(st, lambda i: LinearChainCRF(draw((B, N, C, C2), i), lens(v)), fits, SEQ, "a chain",
              shape=[B, N, C, C2], lengths=v)


def semi(st, B, N, K, C, C2):
    from torch_struct import SemiMarkovCRF
    for v in vectors(N + 3, B) if C == C2 else [None]:
        fits = C == C2 and (v is None or max(v) == N + 1)
        if v is not None and max(v) < N + 1:
            continue
        every(st, lambda i: SemiMarkovCRF(draw((B, N, K, C, C2), i), lens(v)), fits, SEQ, "a semi-Markov chain",
              shape=[B, N, K, C, C2], lengths=v)


def dep(st, B, N, N2, rest, multi):
    from torch_struct import DependencyCRF
    for v in vectors(N + 2, B) if N == N2 and len(rest) < 2 else [None]:
        fits = N == N2 and len(rest) < 2 and (v is None or max(v) <= N)
        every(st, lambda i: DependencyCRF(draw((B, N, N2) + tuple(rest), i), lens(v), multiroot=multi), fits, SEQ,
              "a dependency tree", shape=[B, N, N2] + list(rest), lengths=v, multiroot=multi)


def tree(st, B, N, NT):
    from torch_struct import TreeCRF
    for v in vectors(N + 2, B):
        every(st, lambda i: TreeCRF(draw((B, N, N, NT), i), lens(v)), v is None or max(v) <= N, SEQ, "a span tree",
              shape=[B, N, N, NT], lengths=v)


def cfg(st, B, N, NT, T):
    from torch_struct import SentCFG
    S = NT + T
    for v in vectors(N + 2, B):
        if v is not None and min(v) < 2:
            continue                   # a sentence of one word has no derivation
        every(st, lambda i: SentCFG((draw((B, N, T), i), draw((B, NT, S, S), i), draw((B, NT), i)), lens(v)),
              v is None or max(v) <= N, GRAMMAR, "a grammar", shape=[B, N, NT, T], lengths=v)


def compact(st, kind, N, C):
    """Every sequence over a range that goes beyond the last admissible index."""
    from torch_struct import DependencyCRF, HMM, LinearChainCRF, SemiMarkovCRF
    if kind == "chain":
        d = LinearChainCRF(draw((1, max(N - 1, 1), C, C)))
        for s in itertools.product(range(C + 2), repeat=N):
            judge(st, lambda: d.to_event(torch.tensor([s]), C), max(s) < C, "labels to event", sequence=s, C=C)
    elif kind == "dep":
        d = DependencyCRF(draw((1, N, N)))
        for s in itertools.product(range(N + 3), repeat=N):
            judge(st, lambda: d.to_event(torch.tensor([s]), None), max(s) <= N, "heads to event", sequence=s)
    elif kind == "hmm":
        V = 2
        for s in itertools.product(range(V + 2), repeat=N):
            judge(st, lambda: HMM(draw((C, C)), draw((V, C)), draw((C,)), torch.tensor([s])).partition, max(s) < V,
                  "observations of an HMM", sequence=s, V=V)
    else:
        K = 3
        d = SemiMarkovCRF(draw((1, max(N - 1, 1), K, C, C)))
        for s in itertools.product(range(-1, C), repeat=N):
            starts = [i for i in range(N) if s[i] != -1]
            wide = any(b - a >= K for a, b in zip(starts, starts[1:]))
            open_end = bool(starts) and N - starts[-1] >= K
            if s[0] != -1 and open_end and not wide:
                continue               # the last segment's end is not part of the event
            judge(st, lambda: d.to_event(torch.tensor([s]), (C, K)), s[0] != -1 and not wide, "segments to event",
                  sequence=s, C=C, K=K)
    st.states += 1
    st.sample({"kind": kind, "N": N, "C": C})


class Shaped(torch.nn.Module):
    """Answers with logits and state of chosen extra sizes."""
    def __init__(self, C, extra, bad_state, when):
        super().__init__()
        self.C, self.extra, self.bad_state, self.when, self.t = C, extra, bad_state, when, 0

    def forward(self, x, state):
        B, N = x.shape[0], x.shape[1]
        db, dn, dc = self.extra if self.t >= self.when else (0, 0, 0)
        bad = self.bad_state if self.t >= self.when else 0
        self.t += 1
        return torch.zeros(B + db, N + dn, self.C + dc), (torch.zeros(B + bad, 2),)


def autoregressive(st, B, N, C):
    """Every size of the model's answers around the right one, wrong from the first call or from a later one."""
    from torch_struct import Autoregressive
    hot = torch.nn.functional.one_hot(torch.zeros(2, B, N).long(), C)
    for extra in itertools.product((-1, 0, 1), repeat=3):
        for bad in (-1, 0, 1):
            for when in range(N):
                shape = (B + extra[0], 1 + extra[1], C + extra[2])
                if min(shape) < 0 or B + bad < 0:
                    continue

                def d(k=1):
                    return Autoregressive(Shaped(C, extra, bad, when), (torch.zeros(B, 2),), C, N)
                ok = extra == (0, 0, 0)
                kw = dict(extra=list(extra), state=bad, B=B, N=N, C=C, step=when)
                for name, op in (("greedy_max", lambda: d().greedy_max()), ("beam_topk", lambda: d().beam_topk(1)),
                                 ("beam_topk 2", lambda: d().beam_topk(2))):
                    judge(st, op, ok and bad == 0, name, **kw)
                if when == 0 and bad == 0:
                    judge(st, lambda: d().log_prob(hot), ok, "log_prob", **kw)
                    judge(st, lambda: d().log_prob(hot.argmax(-1), sparse=True), ok, "sparse log_prob", **kw)
                st.states += 1
    st.sample({"B": B, "N": N, "C": C})


def run(tier):
    th = tier == "thorough"
    cases = []
    bs = (1, 2, 3) if th else (1, 2)
    for B in bs:
        for N, C, C2 in itertools.product((1, 2, 3, 4), (1, 2, 3), (1, 2, 3)):
            cases.append(("chain", dict(B=B, N=N, C=C, C2=C2)))
        for N, K, C, C2 in itertools.product((1, 2, 3), (2, 3), (1, 2, 3), (1, 2, 3)):
            cases.append(("semi", dict(B=B, N=N, K=K, C=C, C2=C2)))
        for N, N2, rest in itertools.product((1, 2, 3, 4), (1, 2, 3, 4), ((), (1,), (2,), (1, 1), (2, 2))):
            for m in (True, False):
                cases.append(("dep", dict(B=B, N=N, N2=N2, rest=rest, multi=m)))
        for N, NT in itertools.product((1, 2, 3, 4), (1, 2)):
            cases.append(("tree", dict(B=B, N=N, NT=NT)))
        for N, NT, T in itertools.product((2, 3, 4), (1, 2), (1, 2)):
            cases.append(("cfg", dict(B=B, N=N, NT=NT, T=T)))
    for kind in ("chain", "dep", "hmm", "semi"):
        for N, C in itertools.product((2, 3, 4, 5) if th else (2, 3, 4), (1, 2, 3)):
            if kind != "dep" or C == 1:
                cases.append(("compact", dict(kind=kind, N=N, C=C)))
    for B, N, C in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3)):
        cases.append(("autoregressive", dict(B=B, N=N, C=C)))
    return run_check("C21", "mc.c21", cases, tier,
                     bounds="all shapes with axes up to 3-4, all length vectors of up to %d items from 1 to beyond the size, all "
                            "questions, both gradient modes; all short index sequences over a range beyond the admissible one; all "
                            "model answers of sizes one off per axis" % max(bs),
                     rule="an outcome is a question together with whether it fits")
