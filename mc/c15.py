"""C15: other views of parse trees: the graph of a tree, the score of a set of parts."""
import itertools

import torch

from . import fam as F
from .c09 import cfg_spans
from .core import Violation, load_library, run_check

ts = load_library()


def ordered_tree(c, run):
    """Nested (label, left, right) of a derivation in shift/reduce order."""
    stack = []
    for p in run:
        if p[0] == "t":
            stack.append((c["NT"] + p[2],))
        elif p[0] == "r":
            r, l = stack.pop(), stack.pop()
            stack.append((p[1], l, r))
    return stack[0]


def graph_ok(st, c, runs, ls):
    """The graph of a batch of derivations is the disjoint union of their trees."""
    spans = torch.stack([cfg_spans(c, l, r) for l, r in zip(ls, runs)])
    (n, child, parent, label), indices, topo = ts.CKY.to_networkx(spans)
    want = [ordered_tree(c, r) for r in runs]
    total = sum(2 * l - 1 for l in ls)
    if n != total or len(label) != total:
        raise Violation("graph has %d nodes and %d labels, expected %d" % (n, len(label), total), cfg=c)
    if len(child) != len(parent) or len(child) != sum(2 * l - 2 for l in ls):
        raise Violation("graph has %d edges, expected %d" % (len(child), sum(2 * l - 2 for l in ls)), cfg=c)
    kids = {}
    for a, b in zip(child, parent):
        kids.setdefault(int(b), []).append(int(a))
    layer = {}
    for h, nodes in enumerate(topo):
        for x in nodes:
            if int(x) in layer:
                raise Violation("a node appears in two layers", cfg=c)
            layer[int(x)] = h
    if sorted(layer) != list(range(total)):
        raise Violation("the layers do not list every node once", cfg=c, got=sorted(layer))
    used = set()

    def unfold(x):
        if x in used:
            raise Violation("a node has two parents", cfg=c)
        used.add(x)
        k = kids.get(x, [])
        for y in k:
            if layer[y] >= layer[x]:
                raise Violation("a child is not in an earlier layer than its parent", cfg=c)
        return (int(label[x]),) + tuple(unfold(y) for y in k)
    for b, l in enumerate(ls):
        root = indices[(b, 0)][0]
        got = unfold(int(root))
        if got != want[b]:
            raise Violation("the graph of item %d unfolds to %s, the tree is %s" % (b, got, want[b]), cfg=c)
        height = {}

        def depth(t):
            return 0 if len(t) == 1 else 1 + max(depth(t[1]), depth(t[2]))
        if layer[int(root)] != depth(want[b]):
            raise Violation("the root is in layer %d of a tree of height %d" % (layer[int(root)], depth(want[b])), cfg=c)
        st.outcome(str(want[b]))
        st.evals += 1
    st.traces += len(ls)


def graph(st, c, cap):
    f = F.FAMS["cfg"]
    for l in F.lens_of(f, c):
        orc = F.seen(st, f, c, l)
        for r in orc.runs[:cap]:
            graph_ok(st, c, [r], [l])
        for lo in range(0, min(orc.S, cap), 16):
            graph_ok(st, c, orc.runs[lo:lo + 16], [l] * len(orc.runs[lo:lo + 16]))
    st.sample({"config": F.cname("cfg", c)})


def pairs(st, c, cap):
    """Every pair of trees, of any two lengths, in one batch."""
    f = F.FAMS["cfg"]
    allr = [(l, r) for l in F.lens_of(f, c) for r in F.seen(st, f, c, l).runs]
    step = max(1, len(allr) // cap)
    for (l, r), (m, s) in itertools.product(allr[::step], repeat=2):
        graph_ok(st, c, [r, s], [l, m])


def score(st, fam, c, layout):
    """The score of every structure is the sum of the potentials of its parts."""
    f = F.FAMS[fam]
    model = {"cfg": lambda: ts.CKY(ts.LogSemiring), "chain": lambda: ts.LinearChain(ts.LogSemiring), "dep": lambda: ts.DepTree(ts.LogSemiring),
             "semi": lambda: ts.SemiMarkov(ts.LogSemiring), "tree": lambda: ts.CKY_CRF(ts.LogSemiring)}[fam]()
    for l in F.lens_of(f, c):
        orc = F.seen(st, f, c, l)
        for lo in range(0, min(orc.S, 512), 128):
            M = orc.M[lo:lo + 128]
            theta = F.generic(orc.P, M.shape[0], fam, "score", l, lo)
            for dt in (torch.float32, torch.float64):
                pot, ev = f.pot(c, theta, dt), f.pot(c, M, dt)
                if layout == "noncontiguous":
                    if isinstance(pot, tuple):
                        pot, ev = tuple(F.noncontig(p) for p in pot), tuple(F.noncontig(p) for p in ev)
                    else:
                        pot, ev = F.noncontig(pot), F.noncontig(ev)
                got = model.score(pot, ev)
                F.close(st, got, (theta.to(dt).double() * M).sum(-1), dt, "score of a structure", scale=10, family=fam, cfg=c, length=l)
                if fam == "cfg":
                    # a fourth component (the spans) is allowed and does not count
                    got = model.score(pot, tuple(ev) + (torch.ones(1),))
                    F.close(st, got, (theta.to(dt).double() * M).sum(-1), dt, "score with spans", scale=10, cfg=c)
            st.traces += M.shape[0]
        st.outcome((l, orc.S))


def run(tier):
    th = tier == "thorough"
    cases = []
    cfgs = F.pick([F.TINY, F.SMALL, F.DEEP] + ([F.BIG] if th else []), "cfg")
    for _, c in cfgs:
        cases.append(("graph", dict(c=c, cap=20000 if th else 6000)))
        cases.append(("pairs", dict(c=c, cap=150 if th else 80)))
    for k, c in F.pick([F.TINY, F.SMALL, F.DEEP]):
        for lay in ("plain", "noncontiguous"):
            cases.append(("score", dict(fam=k, c=c, layout=lay)))
    return run_check("C15", "mc.c15", cases, tier,
                     bounds="every derivation of the PCFG configurations (up to %d per length), batches of 16 and pairs of any two "
                            "lengths; every structure scored" % (20000 if th else 6000),
                     rule="an outcome is a distinct labelled tree")
