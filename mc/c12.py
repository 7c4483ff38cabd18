"""C12: autoregressive models: log-probabilities, greedy and beam search, ancestral sampling."""
import itertools

import torch

from . import draws
from . import fam as F
from .core import Violation, run_check


class Trie:
    """All prefixes over C classes up to length T: the state space of a model that remembers everything."""

    def __init__(self, C, T):
        self.C, self.T = C, T
        self.nodes = {}
        for t in range(T + 1):
            for p in itertools.product(range(C), repeat=t):
                self.nodes[p] = len(self.nodes)
        self.n = len(self.nodes)
        self.ROOT, self.BAD = self.n, self.n + 1        # before the start symbol; an impossible history
        self.paths = list(itertools.product(range(C), repeat=T))

    def step_table(self, start):
        """next node by (node, token); the start symbol leads from ROOT to the empty prefix, anything else is BAD"""
        nxt = torch.full((self.n + 2, self.C), self.BAD, dtype=torch.long)
        nxt[self.ROOT, start] = self.nodes[()]
        for p, i in self.nodes.items():
            if len(p) < self.T:
                for a in range(self.C):
                    nxt[i, a] = self.nodes[p + (a,)]
        return nxt


class Thin(Trie):
    """Long sequences over many classes of which a few are likely: the prefixes of eight paths that part at three steps;
    whatever leaves them leads to one further node."""

    def __init__(self, C, T, where):
        self.C, self.T = C, T
        self.paths = []
        for code in itertools.product((0, 1), repeat=len(where)):
            p = [(7 * t + C - 1) % C for t in range(T)]
            for t, x in zip(where, code):
                p[t] = (p[t] + x * (1 + C // 2)) % C
                for u in range(t + 1, T):
                    p[u] = (p[u] + 5 * x) % C
            self.paths.append(tuple(p))
        self.nodes = {}
        for p in self.paths:
            for t in range(T + 1):
                self.nodes.setdefault(p[:t], len(self.nodes))
        self.OFF = len(self.nodes)
        self.n = self.OFF + 1
        self.ROOT, self.BAD = self.n, self.n + 1

    def step_table(self, start):
        nxt = torch.full((self.n + 2, self.C), self.BAD, dtype=torch.long)
        nxt[self.ROOT, start] = self.nodes[()]
        nxt[self.OFF] = self.OFF
        for p, i in self.nodes.items():
            if len(p) < self.T:
                for a in range(self.C):
                    nxt[i, a] = self.nodes.get(p + (a,), self.OFF)
        return nxt

    def tables(self, B):
        out = F.generic(self.n * self.C, B, "thin", self.C, self.T).reshape(B, self.n, self.C)
        for p, i in self.nodes.items():
            if len(p) < self.T:
                for a in range(self.C):
                    if p + (a,) not in self.nodes:
                        out[:, i, a] -= 60.0
        out[:, self.OFF] *= 0.1
        return out

    def find(self, ev, what):
        ev = ev.detach().double()
        if tuple(ev.shape[-2:]) != (self.T, self.C) or not bool((ev.sum(-1) == 1).all() and (ev >= 0).all()):
            raise Violation("%s is not a sequence of one choice per step" % what, shape=list(ev.shape))
        rows = [tuple(x) for x in ev.argmax(-1).reshape(-1, self.T).tolist()]
        bad = [x for x in rows if x not in self.paths]
        if bad:
            raise Violation("%s is a sequence of probability below 1e-20" % what, C=self.C, T=self.T, path=bad[0])
        return [self.paths.index(x) for x in rows]


class Model(torch.nn.Module):
    """Table model: the logits are a function of the item and of the whole history.  State: three tensors of
    different ranks and types; each holds the current node, and a state whose tensors disagree is an impossible history."""

    def __init__(self, trie, tables, start):
        super().__init__()
        self.trie, self.tables = trie, tables           # tables: items x n x C
        self.nxt = trie.step_table(start)
        pad = torch.full((tables.shape[0], 2, tables.shape[2]), 50.0).to(tables)
        pad[:, :, 0] = -50.0                            # recognisably wrong
        self.full = torch.cat([tables, pad], 1)
        self.seen = []

    def init(self):
        B = self.tables.shape[0]
        node = torch.full((B,), self.trie.ROOT, dtype=torch.long)
        return (node, torch.stack([torch.arange(B), node], 1).view(B, 1, 2).double(), torch.stack([node, torch.arange(B)], 1))

    def forward(self, inputs, state=None):
        node, item, rec = state
        out = []
        self.seen.append(tuple(inputs.shape))
        for i in range(inputs.shape[1]):
            agree = (item[:, 0, 1].long() == node) & (rec[:, 0] == node) & (item[:, 0, 0].long() == rec[:, 1])
            node = torch.where(agree, self.nxt[node, inputs[:, i]], torch.full_like(node, self.trie.BAD))
            item = torch.stack([item[:, 0, 0], node.double()], 1).unsqueeze(1)
            rec = torch.stack([node, rec[:, 1]], 1)
            out.append(self.full[rec[:, 1], node])
        return torch.stack(out, 1), (node, item, rec)


class SoftModel(torch.nn.Module):
    """The same table model for soft tokens: a belief over the nodes, moved linearly."""

    def __init__(self, trie, tables, start):
        super().__init__()
        self.trie = trie
        self.nxt = trie.step_table(start)
        self.full = torch.cat([tables, torch.zeros_like(tables[:, :2])], 1)
        self.inputs = []

    def init(self):
        B = self.full.shape[0]
        b = torch.zeros(B, self.trie.n + 2).to(self.full)
        b[:, self.trie.ROOT] = 1
        return (b, torch.arange(B))

    def forward(self, inputs, state=None):
        b, item = state
        if inputs.dim() == 2:
            inputs = torch.nn.functional.one_hot(inputs.long(), self.trie.C).to(self.full)
        out = []
        for i in range(inputs.shape[1]):
            x = inputs[:, i]
            self.inputs.append(x.detach().clone())
            new = torch.zeros_like(b)
            for a in range(self.trie.C):
                new = new.index_add(1, self.nxt[:, a], b * x[:, a:a + 1])
            b = new
            out.append(torch.einsum("bn,bnc->bc", b, self.full[item]))
        return torch.stack(out, 1), (b, item)


def path_scores(trie, tables, normalize):
    """paths x items: the score of every path"""
    lp = tables.log_softmax(-1) if normalize else tables
    out = []
    for p in trie.paths:
        s = 0.0
        for t in range(trie.T):
            s = s + lp[:, trie.nodes[p[:t]], p[t]]
        out.append(s)
    return torch.stack(out)


def dist_of(trie, tables, normalize, start, model=Model):
    from torch_struct import Autoregressive
    m = model(trie, tables, start)
    return Autoregressive(m, m.init(), trie.C, trie.T, normalize=normalize, start_class=start), m


def table_sets(trie, kind, seed_tags=()):
    """items x n x C potential tables (only prefixes shorter than T matter)."""
    inner = sum(trie.C ** t for t in range(trie.T))
    n = inner * trie.C
    if kind == "generic":
        th = F.generic(n, 5, "ar", trie.C, trie.T, *seed_tags)
    elif kind == "pin":
        th = F.generic(n, len(trie.paths), "ar", "pin", trie.C, trie.T, scale=1.0)
        for i, p in enumerate(trie.paths):
            for t in range(trie.T):
                th[i, trie.nodes[p[:t]] * trie.C + p[t]] += 9.0
    elif kind == "trap":      # a greedy first step into a poor region: the best path starts with the second best token
        th = F.generic(n, 5, "ar", "trap", trie.C, trie.T, scale=0.3)
        th[:, 0] += 1.0
        for t in range(1, trie.T):
            for p in itertools.product(range(trie.C), repeat=t):
                if p[0] != 0:
                    th[:, trie.nodes[p] * trie.C + (trie.C - 1)] += 5.0
    elif kind == "zero":
        th = torch.zeros(2, n, dtype=torch.float64)
    else:
        th = F.grid(n, kind)
    out = torch.zeros(th.shape[0], trie.n, trie.C, dtype=torch.float64)
    out[:, :inner] = th.reshape(th.shape[0], inner, trie.C)
    return out


def one_hot(trie, dtype=torch.float32):
    return torch.nn.functional.one_hot(torch.tensor(trie.paths), trie.C).to(dtype)


def decode(trie, ev, what):
    """0/1 event (..., T, C) -> index of the path"""
    ev = ev.detach().double()
    if tuple(ev.shape[-2:]) != (trie.T, trie.C):
        raise Violation("%s: shape %s" % (what, tuple(ev.shape)))
    ok = ((ev - ev.round()).abs() < 1e-6).all() and (ev.sum(-1).round() == 1).all() and (ev > -1e-6).all()
    if not bool(ok):
        raise Violation("%s is not a sequence of one choice per step" % what, got=ev.reshape(-1, trie.T, trie.C)[:4])
    tok = ev.argmax(-1)
    w = torch.tensor([trie.C ** (trie.T - 1 - t) for t in range(trie.T)])
    return (tok * w).sum(-1)


def logprob(st, C, T, kind, normalize, start, dtype, no_grad=False):
    trie = Trie(C, T)
    dt = getattr(torch, dtype)
    tables = table_sets(trie, kind).to(dt)
    with torch.set_grad_enabled(not no_grad):
        dist, m = dist_of(trie, tables, normalize, start)
        want = path_scores(trie, tables.double(), normalize)
        B = tables.shape[0]
        ev = one_hot(trie).unsqueeze(1).expand(len(trie.paths), B, T, C)
        for v in (ev, ev.contiguous().long(), F.noncontig(ev)):
            F.close(st, dist.log_prob(v), want, dt, "log_prob", scale=2.0, C=C, T=T, kind=str(kind))
        idx = torch.tensor(trie.paths).unsqueeze(1).expand(len(trie.paths), B, T)
        F.close(st, dist.log_prob(idx, sparse=True), want, dt, "log_prob (sparse)", scale=2.0, C=C, T=T, kind=str(kind))
        # every item given another path: no mixing of items and samples
        S = len(trie.paths)
        shift = (torch.arange(S).unsqueeze(1) + torch.arange(B).unsqueeze(0)) % S
        idx = torch.tensor(trie.paths)[shift]
        F.close(st, dist.log_prob(idx, sparse=True), want.gather(0, shift), dt, "log_prob (different paths)", scale=2.0)
        F.close(st, dist.log_prob(one_hot(trie)[shift]), want.gather(0, shift), dt, "log_prob (different paths)", scale=2.0)
    if normalize:
        F.close(st, torch.logsumexp(dist.log_prob(idx, sparse=True)[:, :1], 0) if B == 1 else
                torch.logsumexp(dist.log_prob(ev), 0), torch.zeros(B), dt, "total probability", scale=5.0)
    if not no_grad:
        t = tables.clone().requires_grad_(True)
        d2, _ = dist_of(trie, t, normalize, start)
        t2 = tables.double().clone().requires_grad_(True)
        g = torch.autograd.grad((d2.log_prob(ev) * torch.arange(1, S + 1).unsqueeze(1)).sum(), t)[0]
        w = torch.autograd.grad((path_scores(trie, t2, normalize) * torch.arange(1, S + 1).unsqueeze(1)).sum(), t2)[0]
        F.close(st, g, w, dt, "gradient of log_prob", scale=20.0 * S, C=C, T=T)
    if tuple(dist.batch_shape) != (B,) or tuple(dist.event_shape) != (T, C):
        raise Violation("shapes of the distribution", batch=list(dist.batch_shape), event=list(dist.event_shape))
    st.states += trie.n
    st.transitions += trie.n * C
    st.traces += S * B
    for i in range(S):
        st.outcome(("path", i))
    st.sample({"classes": C, "length": T, "paths": S, "items": B, "potentials": str(kind)})


def greedy_ok(trie, tables, normalize, path, tol):
    """the path takes a best choice at every step"""
    lp = tables.log_softmax(-1) if normalize else tables
    p = trie.paths[path]
    for t in range(trie.T):
        row = lp[trie.nodes[p[:t]]]
        if float(row[p[t]]) < float(row.max()) - tol:
            return False
    return True


def beam_model(trie, scores, K):
    """Breadth-bounded search over prefixes: the K best prefixes of every length (scores: node -> row of token scores)."""
    beam = [((), 0.0)]
    for t in range(trie.T):
        nxt = [(p + (a,), s + float(scores[trie.nodes[p]][a])) for p, s in beam for a in range(trie.C)]
        nxt.sort(key=lambda x: -x[1])
        beam = nxt[:K]
    return beam


def search(st, C, T, kind, normalize, start, dtype="float32", no_grad=False, kmax=None):
    trie = Trie(C, T)
    dt = getattr(torch, dtype)
    tables = table_sets(trie, kind).to(dt)
    ties = kind not in ("generic", "pin", "trap")
    scores = path_scores(trie, tables.double(), normalize)
    lp = tables.double().log_softmax(-1) if normalize else tables.double()
    B, S = tables.shape[0], len(trie.paths)
    tol = 1e-4 if dt == torch.float32 else 1e-9
    kw = dict(C=C, T=T, kind=str(kind), normalize=normalize)
    with torch.set_grad_enabled(not no_grad):
        dist, m = dist_of(trie, tables, normalize, start)
        path, value, logits = dist.greedy_max()
    if tuple(path.shape) != (B, T, C):
        raise Violation("greedy path shape", got=list(path.shape), **kw)
    idx = decode(trie, path, "greedy path")
    F.close(st, value, scores.gather(0, idx.unsqueeze(0))[0], dt, "score of the greedy path", **kw)
    for b in range(B):
        if not greedy_ok(trie, tables[b].double(), normalize, int(idx[b]), tol):
            raise Violation("the greedy path does not take the best choice at every step", path=trie.paths[int(idx[b])],
                            table=tables[b], **kw)
    want = torch.stack([torch.stack([lp[b, trie.nodes[trie.paths[int(idx[b])][:t]]] for t in range(T)]) for b in range(B)])
    F.close(st, logits, want, dt, "logits along the greedy path", **kw)
    st.traces += B
    top = scores.topk(S, 0)
    ks = [k for k in (range(1, S + 1) if S <= 9 else (1, 2, 3, 4, 5, 7, 8, S - 1, S)) if kmax is None or k <= kmax]
    ks += [S + 1] if kmax is None else []
    for K in ks:
        with torch.set_grad_enabled(not no_grad):
            got = dist_of(trie, tables, normalize, start)[0].beam_topk(K)
        if tuple(got.shape) != (K, B, T, C):
            raise Violation("shape of the %d best paths" % K, got=list(got.shape), **kw)
        live = min(K, S)
        idx = decode(trie, got[:live], "beam of %d" % K)
        for b in range(B):
            if len(set(idx[:, b].tolist())) != live:
                raise Violation("the %d best paths are not different" % K, paths=idx[:, b], table=tables[b], **kw)
            gs = scores[idx[:, b], b]
            if bool((gs[1:] > gs[:-1] + tol * 10).any()):
                raise Violation("the %d best paths are not in order" % K, scores=gs, **kw)
            if K >= C ** (T - 1):       # the beam holds every prefix: the search is exact
                if not bool(((gs - top.values[:live, b]).abs() <= 10 * tol * (1 + gs.abs())).all()):
                    raise Violation("beam of %d with room for everything: scores differ from the best" % K, got=gs,
                                    want=top.values[:live, b], table=tables[b], **kw)
            elif not ties:
                bm = beam_model(trie, lp[b], K)
                gaps = [bm[i][1] - bm[i + 1][1] for i in range(len(bm) - 1)]
                if [trie.paths[i] for i in idx[:, b].tolist()] != [p for p, _ in bm] and min(gaps + [1]) > 10 * tol:
                    raise Violation("beam of %d keeps other prefixes than the best" % K,
                                    got=[trie.paths[i] for i in idx[:, b].tolist()], want=[p for p, _ in bm],
                                    table=tables[b], **kw)
            st.evals += 1
            st.outcome((K, tuple(idx[:, b].tolist())))
    st.states += trie.n
    st.transitions += trie.n * C
    if not no_grad and not ties:
        t = tables.clone().requires_grad_(True)
        value = dist_of(trie, t, normalize, start)[0].greedy_max()[1]
        g = torch.autograd.grad(value.sum(), t)[0]
        t2 = tables.double().clone().requires_grad_(True)
        sc = path_scores(trie, t2, normalize)
        w = torch.autograd.grad(sc.gather(0, decode(trie, path, "greedy path").unsqueeze(0)).sum(), t2)[0]
        F.close(st, g, w, dt, "gradient of the greedy score", scale=5.0, **kw)


def sampling(st, C, T, n, B, start, kind="generic", normalize=True, no_grad=False, cap=20000):
    """All sequences of draws: the joint law of n samples of B items is the product of the model's laws."""
    trie = Trie(C, T)
    tables = table_sets(trie, kind, ("s", n))[:B]
    logp = path_scores(trie, tables, True)
    law = {}

    def run():
        with torch.set_grad_enabled(not no_grad):
            s = dist_of(trie, tables, normalize, start)[0].sample((n,))
        if tuple(s.shape) != (n, B, T, C):
            raise Violation("shape of the samples", got=list(s.shape), want=[n, B, T, C])
        return tuple(decode(trie, s, "sample").reshape(-1).tolist())

    for prob, out in draws.explore(run, cap, st):
        if prob is None:
            st.note("draws of the autoregressive sampler not intercepted: support checked only")
            return
        law[out] = law.get(out, 0.0) + prob
        st.traces += 1
    for joint in itertools.product(range(len(trie.paths)), repeat=n * B):
        want = 0.0
        for i, p in enumerate(joint):
            want += float(logp[p, i % B])
        want = float(torch.tensor(want).exp())
        got = law.get(joint, 0.0)
        st.evals += 1
        if abs(got - want) > 1e-5 + 1e-5 * want:
            raise Violation("probability of a sample: got %r, expected %r" % (got, want), C=C, T=T, n=n, B=B,
                            paths=[trie.paths[p] for p in joint])
        st.outcome(joint)


class Noise:
    """Replaces the Gumbel draws by a scripted +-large preference."""

    def __init__(self, pick):
        self.pick, self.calls = pick, 0

    def __enter__(self):
        G = torch.distributions.Gumbel
        self.orig = (G.sample, G.rsample)
        outer = self

        def sample(self_, shape=torch.Size()):
            out = outer.orig[0](self_, shape)
            if out.dim() < 1:
                return out
            k = outer.pick(outer.calls)
            outer.calls += 1
            new = torch.zeros_like(out)
            new[..., k % out.shape[-1]] = 60.0
            return new + 1e-3 * torch.arange(out.numel()).reshape(out.shape).to(out) / out.numel()
        G.sample, G.rsample = sample, sample
        return self

    def __exit__(self, *a):
        torch.distributions.Gumbel.sample, torch.distributions.Gumbel.rsample = self.orig


def without(st, C, T, B, start, normalize=True):
    """Sampling without replacement: different valid paths for every number asked and every noise preference."""
    trie = Trie(C, T)
    S = len(trie.paths)
    tables = table_sets(trie, "generic", ("w",))[:B]
    reach = set()
    for prefs in list(itertools.product(range(C), repeat=T)) + [None, None, None]:
        for K in range(1, S + 1):
            def go():
                return dist_of(trie, tables, normalize, start)[0].sample_without_replacement((K,))
            if prefs is None:
                got = go()
            else:
                with Noise(lambda c: prefs[c % T]) as nz:
                    got = go()
                if nz.calls == 0:
                    st.note("Gumbel noise not intercepted: real noise used")
            if tuple(got.shape) != (K, B, T, C):
                raise Violation("shape of %d samples without replacement" % K, got=list(got.shape))
            idx = decode(trie, got, "sample without replacement")
            for b in range(B):
                if len(set(idx[:, b].tolist())) != K:
                    raise Violation("%d samples without replacement are not different" % K, C=C, T=T,
                                    paths=[trie.paths[i] for i in idx[:, b].tolist()], preference=prefs)
                st.evals += 1
            if K == 1 and prefs is not None and nz.calls:
                reach.add(int(idx[0, 0]))
            st.traces += 1
            st.outcome((prefs, K, tuple(idx[:, 0].tolist())))
    if reach and len(reach) != S:
        raise Violation("some paths cannot be drawn by any noise", reached=[trie.paths[i] for i in sorted(reach)])
    st.states += trie.n
    st.transitions += trie.n * C


def thin(st, C, T, where, normalize, start, dtype):
    trie = Thin(C, T, where)
    B, S, dt = 3, len(trie.paths), getattr(torch, dtype)
    tables = trie.tables(B).to(dt)
    scores = path_scores(trie, tables.double(), normalize)
    lp = tables.double().log_softmax(-1) if normalize else tables.double()
    kw = dict(C=C, T=T, normalize=normalize)
    dist = dist_of(trie, tables, normalize, start)[0]
    idx = torch.tensor(trie.paths).unsqueeze(1).expand(S, B, T)
    F.close(st, dist.log_prob(idx, sparse=True), scores, dt, "log_prob (sparse)", scale=float(T), **kw)
    F.close(st, dist.log_prob(torch.nn.functional.one_hot(idx, C)), scores, dt, "log_prob", scale=float(T), **kw)
    for K in (0, 1, 2, 3, 5, S):
        got = dist.beam_topk(K) if K else dist.greedy_max()[0].unsqueeze(0)
        if tuple(got.shape) != (max(K, 1), B, T, C):
            raise Violation("shape of the %d best paths" % K, got=list(got.shape), **kw)
        for b in range(B):
            beam = [((), 0.0)]
            for t in range(T):
                beam = [(p + (a,), s + float(lp[b, trie.nodes[p], a])) for p, s in beam for a in range(C) if p + (a,) in trie.nodes]
                beam = sorted(beam, key=lambda x: -x[1])[:max(K, 1)]
            if trie.find(got[:, b], "beam of %d" % K) != [trie.paths.index(p) for p, _ in beam]:
                raise Violation("beam of %d keeps other prefixes than the best" % K, **kw)
            st.outcome((K, tuple(p for p, _ in beam)))
            st.evals += 1
    one = dist_of(trie, tables[:1], normalize, start)[0]
    logp, law = path_scores(trie, tables[:1].double(), True)[:, 0], {}
    for prob, out in draws.explore(lambda: one.sample((1,)), 1000, st):
        i = trie.find(out[0], "sample")[0]
        if prob is None:
            st.note("draws of the autoregressive sampler not intercepted: support checked only")
            return
        law[i] = law.get(i, 0.0) + prob
        st.traces += 1
    for i in range(S):
        if abs(law.get(i, 0.0) - float(logp[i].exp())) > 1e-4:
            raise Violation("probability of a sample: got %r, expected %r" % (law.get(i, 0.0), float(logp[i].exp())), **kw)
    st.states += trie.n
    st.transitions += trie.n * C
    st.sample({"classes": C, "length": T, "paths": S})


def tempmax(st, C, T, alpha, normalize, start):
    """Soft greedy search: the score, path and tokens fed back all follow from the logits that it reports."""
    trie = Trie(C, T)
    tables = table_sets(trie, "generic", ("t",)).float()
    B = tables.shape[0]
    dist, m = dist_of(trie, tables, normalize, start, SoftModel)
    path, value, logits = dist.greedy_tempmax(alpha)
    if tuple(path.shape) != (B, T, C) or tuple(logits.shape) != (B, T, C) or tuple(value.shape) != (B,):
        raise Violation("shapes of the soft greedy search", path=list(path.shape), value=list(value.shape), logits=list(logits.shape))
    F.close(st, value, logits.max(-1).values.sum(-1), torch.float32, "soft greedy score", scale=3.0)
    # earlier steps carry the derivative through the soft tokens as well; the last one is a plain choice
    F.close(st, path[:, -1], torch.nn.functional.one_hot(logits[:, -1].argmax(-1), C), torch.float32, "soft greedy path, last step")
    if len(m.inputs) != T:
        raise Violation("the model was asked %d times for %d steps" % (len(m.inputs), T))
    F.close(st, m.inputs[0], torch.nn.functional.one_hot(torch.full((B,), start), C), torch.float32, "first input")
    for t in range(1, T):
        F.close(st, m.inputs[t], torch.softmax(alpha * logits[:, t - 1], -1), torch.float32, "token fed back at step %d" % t,
                scale=5.0, alpha=alpha)
    if normalize:
        F.close(st, torch.logsumexp(logits, -1), torch.zeros(B, T), torch.float32, "normalised logits")
    st.traces += B
    st.states += trie.n
    st.transitions += T
    st.outcome((C, T, alpha, normalize, start))


def run(tier):
    th = tier == "thorough"
    cases = []
    sizes = [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 2), (2, 4), (3, 3), (5, 1), (2, 9), (3, 6), (12, 2), (9, 3)]
    if th:
        sizes += [(2, 5), (2, 6), (3, 4), (4, 3), (6, 2)]
    for C, T in sizes:
        for norm in (True, False):
            for start in sorted({0, C - 1, C // 2}):
                for kind in ("generic", "pin", "trap", "zero"):
                    if kind == "pin" and C ** T > 100:
                        continue
                    dt = "float64" if (C + T + start) % 2 else "float32"
                    ng = kind == "trap"
                    cases.append(("logprob", dict(C=C, T=T, kind=kind, normalize=norm, start=start, dtype=dt, no_grad=ng)))
                    cases.append(("search", dict(C=C, T=T, kind=kind, normalize=norm, start=start, dtype=dt, no_grad=ng)))
                for alpha in (1, 0.3, 5.0):
                    cases.append(("tempmax", dict(C=C, T=T, alpha=alpha, normalize=norm, start=start)))
    for C, T, where in [(2, 30, (0, 13, 28)), (3, 40, (0, 20, 39)), (20, 17, (1, 8, 15)), (40, 9, (0, 4, 8)), (150, 3, (0, 1, 2))] + (
            [(2, 130, (0, 70, 128)), (300, 12, (2, 6, 10)), (5, 70, (10, 33, 64))] if th else []):
        for norm in (True, False):
            for start in sorted({0, C - 1, C // 2}):
                cases.append(("thin", dict(C=C, T=T, where=where, normalize=norm, start=start,
                                           dtype="float64" if start else "float32")))
    grids = [(1, 2, [-1.0, 0.0, 2.0]), (2, 1, [-1.0, 0.0, 0.5, 2.0]), (3, 1, [-1.0, 0.0, 2.0]), (2, 2, [-1.0, 0.0, 2.0])]
    if th:
        grids += [(2, 3, [0.0, 1.5]), (3, 2, [0.0, 1.5])]
    for C, T, a in grids:
        for norm in (True, False):
            cases.append(("logprob", dict(C=C, T=T, kind=a, normalize=norm, start=0, dtype="float32")))
            cases.append(("search", dict(C=C, T=T, kind=a, normalize=norm, start=C - 1, kmax=4)))
    for C, T, n, B in [(2, 1, 1, 1), (2, 2, 1, 1), (3, 2, 1, 1), (2, 3, 1, 1), (3, 3, 1, 1), (2, 2, 2, 1), (2, 2, 1, 2), (2, 2, 2, 2),
                       (3, 1, 2, 2), (2, 1, 3, 2), (2, 1, 2, 3), (1, 3, 2, 2), (3, 1, 5, 1), (2, 4, 1, 1)] + (
                           [(2, 5, 1, 2), (3, 2, 2, 1), (2, 3, 2, 2), (2, 1, 6, 2), (4, 3, 1, 1), (2, 2, 3, 2)] if th else []):
        for norm in (True, False):
            cases.append(("sampling", dict(C=C, T=T, n=n, B=B, start=C - 1 if norm else 0, normalize=norm, no_grad=not norm)))
    for C, T, B in [(2, 1, 1), (2, 2, 2), (3, 2, 2), (2, 3, 2), (1, 2, 1)] + ([(3, 3, 1), (2, 4, 2)] if th else []):
        for norm in (True, False):
            cases.append(("without", dict(C=C, T=T, B=B, start=C - 1, normalize=norm)))
    return run_check("C12", "mc.c12", cases, tier,
                     bounds="all paths of up to %d classes and %d steps; models whose logits depend on the whole history; every "
                            "path made the best; all tables over small alphabets on the tiniest sizes; every beam size" % (6, 6 if th else 4),
                     rule="an outcome is a distinct path, beam or joint sample",
                     assumptions=["draws go through torch.multinomial (otherwise only the support is checked)"])
