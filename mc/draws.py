"""Control of the library's random choices: every torch.multinomial draw is answered from a script."""
import contextlib
import time

import torch

from .core import Violation

MIN_P = 1e-12       # choices less likely than this are never explored


class Script:
    """Answers multinomial draws.  `choice` maps (call, row, col) -> option; everything else takes the likeliest one.
    With `shared`, the key is (call, row) and column c is answered from the script number lanes[c]."""

    def __init__(self, answer):
        self.answer = answer
        self.calls = []         # (probabilities (R, C), num_samples, replacement)

    def multinomial(self, probs, num_samples, replacement=False, *, generator=None, out=None):
        p = probs.detach().double()
        one = p.dim() == 1
        if one:
            p = p.unsqueeze(0)
        if torch.isnan(p).any() or torch.isinf(p).any() or (p < 0).any() or (p.sum(-1) <= 0).any():
            raise Violation("random draw from an invalid distribution", probabilities=p[:5])
        p = p / p.sum(-1, keepdim=True)
        call = len(self.calls)
        self.calls.append((p, int(num_samples), bool(replacement)))
        best = p.argmax(-1)
        draws = best.unsqueeze(1).repeat(1, int(num_samples))
        self.answer(call, p, draws)
        return draws[0] if one else draws


@contextlib.contextmanager
def scripted(answer):
    s = Script(answer)
    orig, orig_t = torch.multinomial, torch.Tensor.multinomial
    torch.multinomial = s.multinomial
    torch.Tensor.multinomial = lambda self, *a, **k: s.multinomial(self, *a, **k)
    try:
        yield s
    finally:
        torch.multinomial = orig
        torch.Tensor.multinomial = orig_t


class TooMany(Exception):
    pass


def explore(run, cap, st=None, limit=None):
    """All sequences of draws of run(), whose later draws may depend on earlier ones: yields (probability, outcome).
    Every row and column of every draw is a choice point."""
    stack = [()]
    n = 0
    t0 = time.time()
    while stack:
        if limit is not None and time.time() - t0 > limit:
            raise TooMany()
        prefix = stack.pop()
        trace = []          # (option, probability, other options) of every choice point in order

        def answer(call, p, draws):
            for r in range(draws.shape[0]):
                opts = (p[r] > MIN_P).nonzero().flatten().tolist()
                for col in range(draws.shape[1]):
                    i = len(trace)
                    o = prefix[i] if i < len(prefix) else opts[0]
                    draws[r, col] = o
                    trace.append((o, float(p[r, o]), opts))
        with scripted(answer) as s:
            out = run()
        if not s.calls:
            yield None, out
            return
        n += 1
        if n > cap:
            raise TooMany()
        prob = 1.0
        for _, p, _ in trace:
            prob *= p
        if st is not None:
            st.states += len(trace) - len(prefix) + 1
        yield prob, out
        for i in range(len(prefix), len(trace)):
            o, _, opts = trace[i]
            for alt in opts:
                if alt != o:
                    if st is not None:
                        st.transitions += 1
                    stack.append(tuple(t[0] for t in trace[:i]) + (alt,))
