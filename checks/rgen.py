"""Seeded generators for routing scenarios (graphs, weights, orders, query histories)."""
import heapq, random
INF = 2147483647


def lst(v):
    return "%d %s" % (len(v), " ".join(map(str, v))) if v else "0"


def seedstr(S):
    return "%d %s" % (len(S), " ".join("%d %d" % x for x in S)) if S else "0"


def graph(rng, n, m=None, family=None):
    """Returns (n, tail, head, undirected_hint)."""
    family = family or rng.choice(["random", "random", "random", "sym", "grid", "path", "cycle", "star", "dense", "tree", "twoparts", "multi"])
    A = []
    if n == 0:
        return 0, [], []
    if n == 1:
        k = rng.randrange(3)
        return 1, [0] * k, [0] * k
    if family == "random":
        m = m if m is not None else rng.randrange(0, 3 * n + 1)
        A = [(rng.randrange(n), rng.randrange(n)) for _ in range(m)]
    elif family == "sym":
        for _ in range(m or rng.randrange(1, 2 * n + 1)):
            a, b = rng.randrange(n), rng.randrange(n)
            A += [(a, b), (b, a)]
    elif family == "grid":
        w = max(2, int(n ** 0.5))
        for i in range(n):
            if (i + 1) % w and i + 1 < n:
                A += [(i, i + 1), (i + 1, i)]
            if i + w < n:
                A += [(i, i + w), (i + w, i)]
    elif family == "path":
        p = list(range(n))
        if rng.random() < 0.5: rng.shuffle(p)
        for x, y in zip(p, p[1:]):
            A.append((x, y))
            if rng.random() < 0.7:
                A.append((y, x))
    elif family == "chain":
        for x in range(n - 1):
            A.append((x, x + 1))
            if rng.random() < 0.9: A.append((x + 1, x))
        for _ in range(rng.choice([0, 0, 1, 3])):
            x = rng.randrange(n); A.append((x, min(n - 1, x + rng.randrange(1, 4))))
    elif family == "cycle":
        p = list(range(n)); rng.shuffle(p)
        for x, y in zip(p, p[1:] + p[:1]):
            A.append((x, y))
    elif family == "star":
        c = rng.randrange(n)
        for x in range(n):
            if x != c:
                if rng.random() < 0.8: A.append((c, x))
                if rng.random() < 0.8: A.append((x, c))
    elif family == "dense":
        for x in range(n):
            for y in range(n):
                if x != y and rng.random() < 0.7: A.append((x, y))
    elif family == "tree":
        for x in range(1, n):
            p = rng.randrange(x)
            A.append((p, x))
            if rng.random() < 0.6: A.append((x, p))
    elif family == "twoparts":
        k = rng.randrange(1, n)
        for _ in range(2 * n):
            if rng.random() < 0.5: A.append((rng.randrange(k), rng.randrange(k)))
            else: A.append((rng.randrange(k, n), rng.randrange(k, n)))
        if rng.random() < 0.5: A.append((rng.randrange(k), rng.randrange(k, n)))
    elif family == "multi":
        base = [(rng.randrange(n), rng.randrange(n)) for _ in range(n + 1)]
        for b in base:
            A += [b] * rng.randrange(1, 4)
            if rng.random() < 0.5: A += [(b[1], b[0])] * rng.randrange(1, 3)
        rng.shuffle(A)
    if rng.random() < 0.15:
        x = rng.randrange(n); A.append((x, x))
    return n, [a for a, _ in A], [b for _, b in A]


def weights(rng, m, family=None):
    family = family or rng.choice(["unit", "small", "small", "zero", "zero", "tight", "tight", "medium", "medium", "inf", "big", "huge"])
    if family == "unit": return [1] * m
    if family == "small": return [rng.randrange(1, 5) for _ in range(m)]
    if family == "zero": return [rng.choice([0, 0, 1, 2]) for _ in range(m)]
    if family == "tight": return [rng.choice([0, 1, 1, 2, 3]) for _ in range(m)]
    if family == "medium": return [rng.randrange(1, 1000) for _ in range(m)]
    if family == "inf": return [INF if rng.random() < 0.3 else rng.randrange(0, 10) for _ in range(m)]
    if family == "big": return [rng.randrange(1, 200000000) for _ in range(m)]
    if family == "huge": return [rng.choice([INF, INF - 1, INF - 2, INF // 2, INF // 2 + 1, INF // 3, 1, 0, 7]) for _ in range(m)]
    raise KeyError(family)


def perm(rng, n):
    p = list(range(n)); rng.shuffle(p); return p


def order(rng, n):
    """contraction orders: mostly arbitrary, sometimes along the node numbers (long chains of upward arcs)"""
    r = rng.random()
    return perm(rng, n) if r < 0.7 else list(range(n)) if r < 0.85 else list(range(n - 1, -1, -1))


def offset(rng, W=None):
    r = rng.random()
    if r < 0.35: return 0
    if r < 0.9: return rng.randrange(0, 12)
    if r < 0.97: return rng.randrange(0, 100000)
    return rng.choice([INF - 1, INF - 2, INF // 2])


def seeds(rng, n, k=None):
    k = k or rng.choice([1, 1, 1, 2, 2, 3, 4])
    return [(rng.randrange(n), offset(rng)) for _ in range(k)]


def sadd(a, b):
    return INF if a >= INF - b else a + b


def cert(n, tail, head, w, S, back=False):
    """Distances, predecessor arcs and settle order; validated by the specification, not trusted."""
    if back: tail, head = head, tail
    out = [[] for _ in range(n)]
    for a, (x, y) in enumerate(zip(tail, head)): out[x].append((a, y))
    pot, pred, order = [INF] * n, [-1] * n, [0] * n
    h = []
    for s, o in S:
        if o < pot[s]: pot[s] = o; heapq.heappush(h, (o, s))
    done = [False] * n; k = 0
    while h:
        d, x = heapq.heappop(h)
        if done[x] or d > pot[x]: continue
        done[x] = True; order[x] = k; k += 1
        for a, y in out[x]:
            nd = sadd(d, w[a])
            if nd < pot[y]:
                pot[y] = nd; pred[y] = a; heapq.heappush(h, (nd, y))
    return pot, pred, order


def certline(g, wid, w, S, dir="f"):
    n, t, h = g
    # duplicate seeds: keep the smallest offset (as the specification does)
    pot, pred, order = cert(n, t, h, w, S, dir == "b")
    return "cert 0 %d %s %s %s %s %s" % (wid, dir, seedstr(S), lst(pot), lst(pred), lst(order))


def graphline(i, g):
    n, t, h = g
    return "graph %d %d %s %s" % (i, n, lst(t), lst(h))


def sorted_graph(g):
    n, t, h = g
    A = sorted(zip(t, h), key=lambda x: x[0])
    return n, [a for a, _ in A], [b for _, b in A]
