"""Explicit-state models of the structured families.

Each model is a transition system whose complete runs are exactly the structures of the family: a run
adds one part (an index of the event tensor) per transition.  None of them uses the dynamic programs of
the library: chains are walked left to right, dependency trees are built head by head with the textbook
definition of projectivity, constituency trees and CFG derivations are built by shift/reduce.
"""


class TS:
    """A transition system.  succ(state) -> [(parts, next_state)]; final(state) -> bool."""

    def init(self):
        raise NotImplementedError

    def succ(self, s):
        raise NotImplementedError

    def final(self, s):
        raise NotImplementedError


class Chain(TS):
    def __init__(self, N, C):
        self.N, self.C = N, C

    def init(self):
        return (0, None)

    def succ(self, s):
        n, c = s
        if n == self.N:
            return []
        if c is None:
            return [((), (1, z)) for z in range(self.C)]
        return [(((n - 1, z, c),), (n + 1, z)) for z in range(self.C)]

    def final(self, s):
        return s[0] == self.N


class Semi(TS):
    """N boundary positions; a segment of width k in 1..K-1 from position n moves to n+k with a new label."""

    def __init__(self, N, K, C):
        self.N, self.K, self.C = N, K, C

    def init(self):
        return (None, None)

    def succ(self, s):
        n, c = s
        if n is None:
            return [((), (0, z)) for z in range(self.C)]
        out = []
        for k in range(1, self.K):
            if n + k <= self.N - 1:
                out += [(((n, k, z, c),), (n + k, z)) for z in range(self.C)]
        return out

    def final(self, s):
        return s[0] == self.N - 1


class Dep(TS):
    """Head assignment word by word; word m (1-based) gets a head in 0..N and a label."""

    def __init__(self, N, L=None, multiroot=True, projective=True, heads=None):
        self.N, self.L, self.multiroot, self.projective = N, L, multiroot, projective
        self.heads = heads      # word -> heads to consider (None: all)

    def init(self):
        return ()

    def _ok_prefix(self, heads):
        # no cycle among the assigned words
        for m in range(1, len(heads) + 1):
            seen, cur = set(), m
            while cur != 0 and cur <= len(heads):
                if cur in seen:
                    return False
                seen.add(cur)
                cur = heads[cur - 1]
        if not self.multiroot and sum(1 for h in heads if h == 0) > 1:
            return False
        return True

    def succ(self, s):
        m = len(s) + 1
        if m > self.N:
            return []
        out = []
        for h in range(0, self.N + 1) if self.heads is None else sorted(self.heads.get(m, ())):
            if h == m:
                continue
            heads = tuple(x[0] for x in s) + (h,)
            if not self._ok_prefix(heads):
                continue
            if self.projective and _crosses(heads):
                continue
            base = (m - 1, m - 1) if h == 0 else (h - 1, m - 1)
            if self.L is None:
                out.append(((base,), s + ((h, None),)))
            else:
                for l in range(self.L):
                    out.append(((base + (l,),), s + ((h, l),)))
        return out

    def limited(self, allowed):
        heads = {}
        for p in allowed:
            heads.setdefault(p[1] + 1, set()).add(0 if p[0] == p[1] else p[0] + 1)
        return Dep(self.N, self.L, self.multiroot, self.projective, heads)

    def some(self, rng):
        """One complete run chosen by rng, built top down (only for projective trees)."""
        heads = [0] * (self.N + 1)

        def blocks(h, lo, hi, most=None):
            while lo <= hi:
                end = hi if most == 1 else lo + rng.randint(hi - lo + 1)
                r = lo + rng.randint(end - lo + 1)
                heads[r] = h
                blocks(r, lo, r - 1)
                blocks(r, r + 1, end)
                lo = end + 1
        blocks(0, 1, self.N, None if self.multiroot else 1)
        out = []
        for m in range(1, self.N + 1):
            p = (m - 1, m - 1) if heads[m] == 0 else (heads[m] - 1, m - 1)
            out.append(p if self.L is None else p + (rng.randint(self.L),))
        return tuple(out)

    def final(self, s):
        if len(s) != self.N:
            return False
        heads = [x[0] for x in s]
        if self.N and 0 not in heads:
            return False
        if self.projective:
            # definition: every word strictly between head and modifier descends from the head
            for m in range(1, self.N + 1):
                h = heads[m - 1]
                for w in range(min(h, m) + 1, max(h, m)):
                    cur = w
                    while cur != 0 and cur != h:
                        cur = heads[cur - 1]
                    if cur != h:
                        return False
        return True


def _crosses(heads):
    """Necessary condition only (pruning): two assigned arcs cross."""
    arcs = [(min(h, m), max(h, m)) for m, h in enumerate(heads, 1)]
    a, b = arcs[-1]
    for c, d in arcs[:-1]:
        if a < c < b < d or c < a < d < b:
            return True
    return False


class Tree(TS):
    """Labelled binary bracketings by shift/reduce; state = (next word, stack of left ends)."""

    def __init__(self, N, NT):
        self.N, self.NT = N, NT

    def init(self):
        return (0, ())

    def succ(self, s):
        pos, stack = s
        out = []
        if pos < self.N:
            out += [(((pos, pos, a),), (pos + 1, stack + (pos,))) for a in range(self.NT)]
        if len(stack) >= 2:
            i = stack[-2]
            out += [(((i, pos - 1, a),), (pos, stack[:-1])) for a in range(self.NT)]
        return out

    def final(self, s):
        return s[0] == self.N and len(s[1]) == 1

    def limited(self, allowed):
        return TopDown(self.N, self.NT, allowed)

    def around(self, run, rng):
        """Parts that vary the run: every span inside one of its small constituents."""
        inner = [(i, j) for i, j, _ in run if 2 <= j - i <= 3]
        if not inner:
            return ()
        i, j = inner[rng.randint(len(inner))]
        return tuple((a, b, rng.randint(self.NT)) for a in range(i, j + 1) for b in range(a, j + 1))


class TopDown(TS):
    """The same bracketings from the top, allowed spans only; state = open spans, the leftmost last."""

    def __init__(self, N, NT, allowed):
        self.N, self.NT, self.allowed = N, NT, allowed
        self.some = {}
        for i, j, a in allowed:
            self.some.setdefault((i, j), []).append(a)

    def init(self):
        return ((0, self.N - 1),)

    def succ(self, s):
        if not s:
            return []
        i, j = s[-1]
        rests = [()] if i == j else [((k + 1, j), (i, k)) for k in range(i, j)
                                     if (i, k) in self.some and (k + 1, j) in self.some]
        return [(((i, j, a),), s[:-1] + rest) for a in sorted(self.some.get((i, j), ())) for rest in rests]

    def final(self, s):
        return not s


class CFG(TS):
    """PCFG derivations by shift/reduce.  Parts: ('t',i,T) ('r',A,B,C) ('R',A) and spans ('s',i,j,A)."""

    def __init__(self, N, NT, T):
        self.N, self.NT, self.T = N, NT, T

    def init(self):
        return (0, (), False)

    def succ(self, s):
        pos, stack, done = s
        if done:
            return []
        out = []
        if pos < self.N:
            out += [((("t", pos, t),), (pos + 1, stack + ((pos, self.NT + t),), False)) for t in range(self.T)]
        if len(stack) >= 2:
            (i, b), (_, c) = stack[-2], stack[-1]
            out += [((("r", a, b, c), ("s", i, pos - 1, a)), (pos, stack[:-2] + ((i, a),), False))
                    for a in range(self.NT)]
        if pos == self.N and len(stack) == 1 and stack[0][1] < self.NT:
            out.append(((("R", stack[0][1]),), (pos, stack, True)))
        return out

    def final(self, s):
        return s[2]


class Explored:
    """All complete runs of a transition system, with the size of the explored graph."""

    def __init__(self, ts, cap=10 ** 7):
        self.runs = []
        seen = {ts.init()}
        trans = set()
        stack = [(ts.init(), ())]
        while stack:
            s, parts = stack.pop()
            if ts.final(s):
                self.runs.append(parts)
                if len(self.runs) > cap:
                    raise RuntimeError("model too large")
                continue
            for p, s2 in ts.succ(s):
                seen.add(s2)
                trans.add((s, p, s2))
                stack.append((s2, parts + p))
        self.runs.sort()
        self.states = len(seen)
        self.transitions = len(trans)


# ---------------------------------------------------------------- large sizes, few parts allowed

class Restricted(TS):
    """The same transition system with only some parts allowed."""

    def __init__(self, ts, allowed):
        self.ts, self.allowed = ts, allowed
        if hasattr(ts, "limited"):
            self.ts = ts.limited(allowed)

    def init(self):
        return self.ts.init()

    def succ(self, s):
        return [(p, s2) for p, s2 in self.ts.succ(s) if all(x in self.allowed for x in p if x[0] != "s")]

    def final(self, s):
        return self.ts.final(s)


def some_run(ts, rng, patience=1500):
    """The first complete run of a depth-first search that tries successors in a shuffled order (with restarts)."""
    if hasattr(ts, "some"):
        return ts.some(rng)
    stack, n = [(ts.init(), ())], 0
    while stack:
        s, parts = stack.pop()
        n += 1
        if n > patience:
            return some_run(ts, rng, patience + 100)
        if ts.final(s):
            return parts
        out = ts.succ(s)
        for i in rng.permutation(len(out)):
            stack.append((out[i][1], parts + out[i][0]))
    return None


def count_runs(ts, limit):
    """Number of complete runs by path counting over the reachable states; None if the graph is too large."""
    order, seen, stack = [], set(), [(ts.init(), False)]
    nxt = {}
    while stack:
        s, done = stack.pop()
        if done:
            order.append(s)
            continue
        if s in seen:
            continue
        seen.add(s)
        if len(seen) > limit:
            return None, None
        nxt[s] = [] if ts.final(s) else [s2 for _, s2 in ts.succ(s)]
        stack.append((s, True))
        stack += [(s2, False) for s2 in nxt[s] if s2 not in seen]
    n = {}
    for s in order:
        n[s] = 1 if ts.final(s) else sum(n[t] for t in nxt[s])
    return n[ts.init()], n


class Alive(TS):
    """Only the states from which a complete run is reachable."""

    def __init__(self, ts, n):
        self.ts, self.n = ts, n

    def init(self):
        return self.ts.init()

    def succ(self, s):
        return [(p, s2) for p, s2 in self.ts.succ(s) if self.n.get(s2)]

    def final(self, s):
        return self.ts.final(s)


def deep(ts, rng, lo=60, hi=900, tries=30, limit=3000):
    """Allow the parts of a few complete runs, as many as keep the number of structures at most hi."""
    allowed, best = set(), None
    while best is None:
        for _ in range(tries):
            run = some_run(ts, rng)
            if run is None:
                return None, None
            run = [x for x in run if x[0] != "s"]
            if best is not None and hasattr(ts, "around"):
                run = list(ts.around(first, rng)) or run
            elif best is None:
                first = run
            for part in (1, 2, 4, 8):
                if part > 1 and best is None:
                    break
                more = allowed | set(run[:max(1, len(run) // part)])
                r = Restricted(ts, more)
                n, table = count_runs(r, limit)
                if n is not None and n <= hi:
                    allowed, best = more, Alive(r, table)
                    break
            if n is not None and lo <= n <= hi:
                break
        hi, limit = 4 * hi, 4 * limit
    return best, allowed


def path_marginals(ts, weight):
    """(log of the sum, {part: expected number of uses}) over all complete runs, by two passes over the explored graph."""
    import math
    z, order, nxt = _inside(ts, weight)
    flow, use = {ts.init(): 1.0}, {}
    for s in reversed(order):
        f = flow.get(s, 0.0)
        if f == 0.0:
            continue
        for p, s2 in nxt[s]:
            if z[s2][2]:
                x = f * math.exp(sum(weight(y) for y in p) + z[s2][0] - z[s][0])
                flow[s2] = flow.get(s2, 0.0) + x
                for y in p:
                    use[y] = use.get(y, 0.0) + x
    return z[ts.init()][0], use, len(order), sum(len(v) for v in nxt.values())


def path_values(ts, weight):
    """(log of the sum, maximum, number) over all complete runs, by one pass over the explored state graph.

    weight(part) -> float.  No run is listed, so the state graph may have astronomically many of them."""
    val, order, nxt = _inside(ts, weight)
    return val[ts.init()], len(order), sum(len(v) for v in nxt.values())


def _inside(ts, weight):
    import math
    order, seen, nxt, stack = [], set(), {}, [(ts.init(), False)]
    while stack:
        s, done = stack.pop()
        if done:
            order.append(s)
            continue
        if s in seen:
            continue
        seen.add(s)
        nxt[s] = [] if ts.final(s) else ts.succ(s)
        stack.append((s, True))
        stack += [(s2, False) for _, s2 in nxt[s] if s2 not in seen]
    val = {}
    for s in order:
        if ts.final(s):
            val[s] = (0.0, 0.0, 1)
            continue
        terms = []
        for p, s2 in nxt[s]:
            z, m, n = val[s2]
            if n:
                w = sum(weight(x) for x in p)
                terms.append((z + w, m + w, n))
        if terms:
            top = max(t[0] for t in terms)
            val[s] = (top + math.log(sum(math.exp(t[0] - top) for t in terms)), max(t[1] for t in terms), sum(t[2] for t in terms))
        else:
            val[s] = (-math.inf, -math.inf, 0)
    return val, order, nxt
