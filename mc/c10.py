"""C10: answers do not depend on what was asked before, on other distributions, or on the ambient grad mode."""
import itertools

import torch

from . import fam as F
from .core import Violation, in_child, load_library, run_check
from .draws import scripted

CORE = ["new", "partition", "max", "argmax", "marginals", "entropy", "grad"]
MORE = ["count", "kmax", "topk", "sample", "log_prob", "kl", "cross_entropy", "gumbel", "gumbel_cold", "gumbel_hot"]


def ops_of(f):
    if f.key == "nonproj":
        return ["new", "partition", "marginals", "grad"]
    if f.tuple_event:
        return CORE + ["kmax", "topk"]
    return CORE + MORE


def seeded_gumbel(make, p, op):
    """A Gumbel sample and its gradient from the same state of the random generator."""
    p = p.detach().clone().requires_grad_(True)
    torch.manual_seed(17)
    e = make(p).gumbel_crf(0.5 if op == "gumbel_cold" else 2.0)
    w = torch.arange(1, e.numel() + 1, dtype=e.dtype).sqrt().reshape(e.shape)
    with torch.enable_grad():
        g = torch.autograd.grad((e * w).sum(), p, allow_unused=True)[0]
    return (e.detach(),) + (() if g is None else (g.detach(),))


class World:
    """Two distributions (possibly over the same tensor), and the operations on them."""

    def __init__(self, specs, theta, shared):
        self.specs, self.theta = specs, theta
        self.pots = []
        for i, (fam, c) in enumerate(specs):
            self.pots.append(self.pots[0] if shared and i else F.FAMS[fam].pot(c, theta[i], torch.float64))
        self.keep = [self._vals(p) for p in self.pots]
        self.ds = [self._make(i) for i in range(len(specs))]

    @staticmethod
    def _vals(p):
        return [x.detach().clone() for x in (p if isinstance(p, tuple) else (p,))]

    def _make(self, i):
        fam, c = self.specs[i]
        return F.FAMS[fam].of(c, self.pots[i])

    def apply(self, i, op):
        fam, c = self.specs[i]
        f, d = F.FAMS[fam], self.ds[i]
        if op == "new":
            self.ds[i] = self._make(i)
            return ()
        if op in ("partition", "max", "entropy", "count"):
            return (getattr(d, op).detach(),)
        if op in ("argmax", "marginals"):
            v = getattr(d, op)
            return tuple(x.detach() for x in (v if isinstance(v, tuple) else (v,)))
        if op == "kmax":
            return (d.kmax(2).detach(),)
        if op == "topk":
            v = d.topk(2)
            return tuple(x.detach() for x in (v if isinstance(v, tuple) else (v,)))
        if op == "sample":
            with scripted(lambda *a: None) as s:
                out = d.sample((2,)).detach()
            return (out,) if s.calls else ()
        if op == "log_prob":
            return (d.log_prob(f.event(c, f.oracle(c).M[:2].unsqueeze(1).expand(-1, 2, -1), torch.float64)).detach(),)
        if op in ("kl", "cross_entropy"):
            other = self.ds[1 - i] if len(self.ds) > 1 and self.specs[1 - i][0] == fam and self._same(i) else d
            return (getattr(d, op)(other).detach(),)
        if op == "gumbel":
            ev = f.flat(c, d.gumbel_crf())
            return (((f.oracle(c).rows(ev) >= 0).double()),)
        if op in ("gumbel_cold", "gumbel_hot"):
            return seeded_gumbel(lambda p: f.of(c, p), self.pots[i], op)
        if op == "grad":
            with torch.enable_grad():
                p = self.pots[i]
                ps = p if isinstance(p, tuple) else (p,)
                d2 = f.of(c, tuple(x.requires_grad_(True) for x in ps) if isinstance(p, tuple) else p.requires_grad_(True))
                return tuple(g.detach() for g in torch.autograd.grad(d2.partition.sum(), ps))
        raise KeyError(op)

    def _same(self, i):
        a, b = self.specs[i][1], self.specs[1 - i][1]
        return all(a.get(k) == b.get(k) for k in ("N", "C", "K", "NT", "L"))

    def check_inputs(self, what):
        for p, k in zip(self.pots, self.keep):
            for a, b in zip(self._vals(p), k):
                if not torch.equal(a, b):
                    raise Violation("the caller's potentials were modified by %s" % (what,))


def tables(specs, shared):
    theta = [F.generic(F.FAMS[f].P(c), 2, f, "hist", i) for i, (f, c) in enumerate(specs)]
    if shared:
        theta[1] = theta[0]
    return theta


READY = {}      # filled before the workers start


def references(specs, theta, shared, alphabet):
    """The answer to each operation alone, each in a process of its own in which nothing was asked before."""
    ref = READY.get(str((specs, shared)), {})
    for i, op in alphabet:
        if op == "new" or (i, op) in ref:
            continue
        value, error = in_child(lambda: [x.numpy() for x in World(specs, theta, shared).apply(i, op)])
        if error:
            raise Violation("%s of a new %s fails: %s" % (op, F.cname(*specs[i]), error))
        ref[i, op] = tuple(torch.as_tensor(x) for x in value)
    return ref


def histories(st, specs, shared, depth, first, step, ops=None):
    """All sequences of (object, operation, grad mode) up to the depth; every answer must be the reference answer."""
    theta = tables(specs, shared)
    alphabet = [(i, op, ng) for i, (f, c) in enumerate(specs) for op in ops_of(F.FAMS[f]) for ng in (False, True)
                if ops is None or op in ops]
    ref = references(specs, theta, shared, [(i, op) for i, op, ng in alphabet])
    # the references themselves against the enumerated structures
    for i, (fam, c) in enumerate(specs):
        f = F.FAMS[fam]
        orc = F.seen(st, f, c, None)
        tol = 3e-3 if fam == "nonproj" else 1e-6
        for op, want in (("partition", orc.logZ(theta[i])), ("max", orc.scores(theta[i]).max(-1).values),
                         ("count", torch.full((2,), float(orc.S), dtype=torch.float64))):
            if (i, op) in ref and not torch.allclose(ref[i, op][0].double(), want, atol=tol, rtol=tol):
                raise Violation("%s of a new %s is wrong" % (op, F.cname(fam, c)), got=ref[i, op], want=want)

    def same(a, b):
        return len(a) == len(b) and all(x.shape == y.shape and torch.allclose(x.double(), y.double(), atol=1e-9, rtol=1e-9)
                                        for x, y in zip(a, b))

    count = 0
    for hist in itertools.product(alphabet[first:first + step], *[alphabet] * (depth - 1)):
        if hist[-1][1] == "new":
            continue
        w = World(specs, theta, shared)
        for n, (i, op, ng) in enumerate(hist):
            with torch.set_grad_enabled(not ng):
                got = w.apply(i, op)
            st.transitions += 1
            if op != "new":
                st.evals += 1
                if not same(got, ref[i, op]):
                    raise Violation("%s of object %d (%s) after %s differs from the same call on a new object" % (
                        op, i, F.cname(*specs[i]), [(a, b, "no_grad" if g else "grad") for a, b, g in hist[:n]]),
                        history=[list(h) for h in hist[:n + 1]], got=got, want=ref[i, op])
        w.check_inputs([h[:2] for h in hist])
        count += 1
    st.states += count
    st.traces += count
    st.outcome((tuple(F.cname(*s) for s in specs), shared, depth, count))
    for h in itertools.islice(itertools.product(alphabet, repeat=depth), 200):
        st.outcome(h)
    st.sample({"objects": [F.cname(*s) for s in specs], "shared_tensor": shared, "depth": depth, "histories": count})


def repeats(st, specs, shared, i, step, times):
    """Each operation asked many times over, of one object and of new ones, and every ordered pair of operations in turns:
    nothing may depend on how often something was asked."""
    theta = tables(specs, shared)
    alphabet = [(j, op) for j, (f, c) in enumerate(specs) for op in ops_of(F.FAMS[f]) if op != "new"]
    ref = references(specs, theta, shared, alphabet)
    for first, second in itertools.product(alphabet[i:i + step], alphabet):
        for renew in (False, True):
            w = World(specs, theta, shared)
            for n in range(times if second == first else 4):
                for j, op in (first, second):
                    if renew:
                        w.apply(j, "new")
                    got = w.apply(j, op)
                    st.transitions += 1
                    st.evals += 1
                    want = ref[j, op]
                    if len(got) != len(want) or not all(x.shape == y.shape and torch.allclose(
                            x.double(), y.double(), atol=1e-9, rtol=1e-9) for x, y in zip(got, want)):
                        raise Violation("%s of %s, asked for the %d. time in turns with %s, differs from the first time" % (
                            op, F.cname(*specs[j]), n + 1, [first, second]), got=got, want=want)
            w.check_inputs([first, second])
            st.traces += 1
        st.outcome((first, second))
    st.states += len(alphabet)
    st.sample({"objects": [F.cname(*s) for s in specs], "first": list(alphabet[i]), "times": times})


def inputs(st, fam, c, B):
    """Every vector of lengths, every operation: nothing that the caller passed in is modified, and asking again on the
    same and on a new object gives the same answer."""
    f = F.FAMS[fam]
    for v in F.length_vectors(f, c, B):
        theta = F.generic(f.P(c), B, fam, "inputs", v)
        for layout in ("contiguous", "noncontiguous"):
            for op in ops_of(f):
                for ng in (False, True):
                    w = Padded(f, c, theta, v, layout)
                    with torch.set_grad_enabled(not ng):
                        a = w.apply(op)
                        w.unchanged(op)
                        b = w.apply(op)
                        w.unchanged(op)
                        w.new()
                        e = w.apply(op)
                    for x in (b, e):
                        if len(a) != len(x) or not all(p.shape == q.shape and torch.equal(torch.isnan(p), torch.isnan(q)) and torch.allclose(
                                p.double(), q.double(), atol=1e-9, rtol=1e-9, equal_nan=True) for p, q in zip(a, x)):
                            raise Violation("%s asked again gives another answer" % op, family=fam, cfg=c, lengths=v, layout=layout)
                    st.evals += 2
                    st.transitions += 3
            st.traces += 1
            st.outcome((v, layout))
    st.states += 1
    st.sample({"config": F.cname(fam, c), "batch": B})


class Padded(World):
    """One distribution with lengths; events and a second distribution are passed in as well."""

    def __init__(self, f, c, theta, v, layout):
        self.f, self.c, self.specs = f, c, [(f.key, c)]
        pots = [f.pot(c, t, torch.float64) for t in (theta, theta.flip(1))]
        if layout == "noncontiguous":
            pots = [tuple(F.noncontig(x) for x in p) if isinstance(p, tuple) else F.noncontig(p) for p in pots]
        self.pots = pots[:1]
        self.other = pots[1]
        self.lens = torch.tensor(v)
        self.orcs = [f.oracle(c, l) for l in v]
        self.ev = None
        if not f.tuple_event:
            self.ev = f.event(c, torch.stack([o.M[o.S // 2] for o in self.orcs]), torch.float64)
        self.keep2 = [self._vals(x) for x in self.args()]
        self.new()

    def args(self):
        return [self.pots[0], self.other, self.lens] + ([] if self.ev is None else [self.ev])

    def new(self):
        self.ds = [self.f.of(self.c, self.pots[0], self.lens)]

    def unchanged(self, op):
        for name, x, k in zip(("potentials", "second distribution's potentials", "lengths", "event"), self.args(), self.keep2):
            if not all(torch.equal(a, b) for a, b in zip(self._vals(x), k)):
                raise Violation("%s modified the caller's %s" % (op, name), family=self.f.key, cfg=self.c, lengths=self.keep2[2])

    def apply(self, op):
        f, c, d = self.f, self.c, self.ds[0]
        if op == "new":
            self.new()
            return ()
        if op == "log_prob":
            return (d.log_prob(self.ev).detach(),)
        if op in ("kl", "cross_entropy"):
            return (getattr(d, op)(f.of(c, self.other, self.lens)).detach(),)
        if op == "gumbel":
            ev = f.flat(c, d.gumbel_crf())
            return (torch.tensor([float(o.rows(ev[b:b + 1])[0] >= 0) for b, o in enumerate(self.orcs)]),)
        if op in ("gumbel_cold", "gumbel_hot"):
            return seeded_gumbel(lambda p: f.of(c, p, self.lens), self.pots[0], op)
        if op == "grad":
            return ()
        return super().apply(0, op)


D = F.d
PAIRS = [
    (("dep", D(N=3)), ("dep", D(N=3, single=1)), True),
    (("dep", D(N=3, single=1)), ("dep", D(N=3)), False),
    (("dep", D(N=2, L=2)), ("dep", D(N=3, single=1)), False),
    (("dep", D(N=3)), ("nonproj", D(N=3)), True),
    (("nonproj", D(N=3, single=1)), ("nonproj", D(N=3)), True),
    (("chain", D(N=3, C=2)), ("chain", D(N=3, C=2)), False),
    (("chain", D(N=3, C=2)), ("chain", D(N=4, C=3)), False),
    (("semi", D(N=4, K=3, C=2)), ("semi", D(N=4, K=3, C=2)), True),
    (("semi", D(N=3, K=2, C=2)), ("chain", D(N=3, C=2)), False),
    (("tree", D(N=3, NT=2)), ("tree", D(N=3, NT=2)), False),
    (("tree", D(N=3, NT=2)), ("cfg", D(N=3, NT=2, T=1)), False),
    (("cfg", D(N=3, NT=1, T=2)), ("cfg", D(N=2, NT=2, T=1)), False),
    (("cfg", D(N=3, NT=1, T=2)), ("dep", D(N=3)), False),
]


def run(tier):
    th = tier == "thorough"
    cases = []
    load_library()
    for a, b, shared in PAIRS:
        specs = [a, b]
        try:
            READY[str((specs, shared))] = references(specs, tables(specs, shared), shared, [
                (i, op) for i, (f, c) in enumerate(specs) for op in ops_of(F.FAMS[f])])
        except Violation:       # met again, and reported, by the cases below
            pass
        n = 2 * sum(len(ops_of(F.FAMS[x[0]])) for x in (a, b))
        for k in range(0, n, 6):
            cases.append(("histories", dict(specs=[a, b], shared=shared, depth=2, first=k, step=6)))
        ops = ["new", "partition", "argmax", "marginals"] if not th else CORE
        m = sum(len([o for o in ops_of(F.FAMS[x[0]]) if o in ops]) for x in (a, b)) * 2
        for k in range(0, m, 4):
            cases.append(("histories", dict(specs=[a, b], shared=shared, depth=3, first=k, step=4, ops=ops)))
    for a, b, shared in PAIRS if th else PAIRS[:2] + PAIRS[4:6] + PAIRS[7:8] + PAIRS[10:11]:
        for k in range(0, sum(len(ops_of(F.FAMS[x[0]])) - 1 for x in (a, b)), 3):
            cases.append(("repeats", dict(specs=[a, b], shared=shared, i=k, step=3, times=40)))
    for k, c, B in F.mixed_sizes(tier):
        if th or B == 2:
            cases.append(("inputs", dict(fam=k, c=c, B=B)))
    for k, c in (("chain", D(N=9, C=2)), ("dep", D(N=5)), ("semi", D(N=6, K=3, C=1)), ("nonproj", D(N=3)), ("nonproj", D(N=4, single=1)), ("nonproj", D(N=3, single=1))):
        cases.append(("inputs", dict(fam=k, c=c, B=2)))
    return run_check("C10", "mc.c10", cases, tier,
                     bounds="13 pairs of distributions (shared and separate tensors); every history of 2 operations over the "
                            "full alphabet and of 3 over %s, each in both grad modes; every operation on every length vector with its arguments compared; each operation 40 times over, each pair in turns" % ("the core" if th else "four operations"),
                     fresh=True,
                     rule="one trace per operation history; an outcome is a distinct history prefix")
