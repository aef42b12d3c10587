"""Checks for the stateless algorithms (specification: Algo.tla, AlgoTrace.tla)."""
import itertools, random
from vf import Scenario
from rgen import lst, graph, perm

ASSUME = ["keys are below key_count, permutations are permutations, ids are in range",
          "the correspondence between script operations and library calls in harness/algo.cpp"]


def pack(tag, lines, size=40, cost=None):
    """several independent calls per scenario"""
    return [Scenario("%s-%d" % (tag, i), lines[i:i + size], cost=cost) for i in range(0, len(lines), size)]


def P19(c):
    c.assumptions += ASSUME
    rng = random.Random("P19-%d" % c.seed)
    L = []
    for n in range(0, c.pick(5, 6)):
        for k in itertools.product(range(3), repeat=n):
            for kc in ((3, 16 * n + 16, 16 * n + 17) if n < 4 else (3, 100)):
                L.append("sort %s %d" % (lst(k), kc))
    L.append("sort 0 0")
    c.conform("algo", "AlgoTrace", pack("sort-all", L), source="all small vectors", need=["sort"])
    L = []
    for i in range(c.pick(300, 3000)):
        n = rng.choice([1, 2, 5, 15, 16, 17, 18, 33, 64, 100, 150])
        kc = rng.choice([1, 2, n, 2 * n, 16 * n - 1, 16 * n, 16 * n + 15, 16 * n + 16, 16 * n + 17, 16 * n + 31, 16 * n + 32, 40 * n, 100000])
        kc = max(1, kc)
        used = rng.choice([1, 2, 3, kc])
        keys = [rng.randrange(kc) for _ in range(used)] if used < kc else None
        k = [rng.choice(keys) if keys else rng.randrange(kc) for _ in range(n)]
        m = rng.random()
        if m < 0.1:
            k.sort()
        elif m < 0.2:
            k.sort(reverse=True)
        elif m < 0.3:
            k.sort()
            a = rng.randrange(n); k[a] = rng.randrange(kc)
        elif m < 0.35:
            k = [kc - 1] * n
        L.append("sort %s %d" % (lst(k), kc))
    c.conform("algo", "AlgoTrace", pack("sort", L, 10, 400), source="seeded", variant="asan", need=["sort"])
    L = []
    for n in range(0, c.pick(5, 6)):
        P = list(itertools.permutations(range(n)))
        for p in P:
            for q in (P if len(P) < 30 else rng.sample(P, 12)):
                x = [rng.randrange(n) for _ in range(rng.randrange(4))] if n else []
                y = [rng.choice([-1, rng.randrange(n)]) for _ in range(rng.randrange(5))] if n else [-1] * rng.randrange(2)
                L.append("perm %s %s %s %s %s" % (lst(p), lst(q), lst([0] * n), lst(x), lst(y)))
    for i in range(c.pick(100, 800)):
        n = rng.randrange(1, 80)
        p, q = perm(rng, n), perm(rng, n)
        L.append("perm %s %s %s %s %s" % (lst(p), lst(q), lst([0] * n), lst([rng.randrange(n) for _ in range(rng.randrange(2 * n))]), lst([rng.choice([-1, rng.randrange(n)]) for _ in range(rng.randrange(2 * n))])))
    for n in range(0, c.pick(5, 6)):
        for p in itertools.product(range(n + 1), repeat=n):
            L.append("isperm " + lst(p))
    for i in range(c.pick(60, 300)):
        n = rng.randrange(1, 60)
        p = perm(rng, n)
        m = rng.random()
        if m < 0.3: p[rng.randrange(n)] = rng.choice([n, n + 1, -1, 2147483647])
        elif m < 0.6 and n > 1: p[rng.randrange(n)] = p[rng.randrange(n)]
        L.append("isperm " + lst(p))
    c.conform("algo", "AlgoTrace", pack("perm", L), source="all small permutations, seeded large ones", variant="asan", need=["perm", "isperm"])
    # more elements and keys than 16 bits can count
    L = []
    for kc, used in c.pick([(40, 40), (3000000, 70000)], [(40, 3), (40, 40), (1, 1), (70000, 70000), (3000000, 70000), (2000000, 1000)]):
        n = rng.choice([70000, 70001])
        keys = [rng.randrange(kc) for _ in range(used)]
        L.append("sort %s %d" % (lst([rng.choice(keys) for _ in range(n)]), kc))
    for kc in (5, 20000, 33000, 1000000):
        n = rng.choice([900, 1024, 2000])
        L.append("sort %s %d" % (lst([rng.randrange(kc) for _ in range(n)]), kc))
    n = 70000
    L.append("perm %s %s %s %s %s" % (lst(perm(rng, n)), lst(perm(rng, n)), lst([0] * n), lst([rng.randrange(n) for _ in range(n)]), lst([rng.choice([-1, rng.randrange(n)]) for _ in range(n)])))
    p = perm(rng, n)
    L.append("isperm " + lst(p))
    p[-1] = p[-2]
    L.append("isperm " + lst(p))
    c.conform("algo", "AlgoTrace", [Scenario("large-%d" % i, [x], cost=len(x)) for i, x in enumerate(L)], source="large vectors", need=["perm", "isperm", "sort"])


def adj(g):
    """first_out, head in adjacency order"""
    n, tail, head = g
    idx = sorted(range(len(tail)), key=lambda i: tail[i])
    first = [0] * (n + 1)
    for t in tail:
        first[t + 1] += 1
    for i in range(n):
        first[i + 1] += first[i]
    return first, [head[i] for i in idx]


def walk(rng, first, head, length):
    n = len(first) - 1
    x = rng.randrange(n)
    nodes, arcs = [x], []
    for _ in range(length):
        if first[x] == first[x + 1]:
            break
        a = rng.randrange(first[x], first[x + 1])
        arcs.append(a)
        x = head[a]
        nodes.append(x)
    return nodes, arcs


def P20(c):
    c.assumptions += ASSUME + ["invert_vector is given a sorted vector of ids below element_count; paths given to the conversions exist"]
    rng = random.Random("P20-%d" % c.seed)
    L = []
    for n in range(0, 6):
        for m in range(0, 5):
            for v in itertools.combinations_with_replacement(range(n), m):
                L.append("invvec %s %d" % (lst(v), n))
    for i in range(c.pick(60, 500)):
        n = rng.randrange(1, 100)
        v = sorted(rng.randrange(n) for _ in range(rng.randrange(150)))
        L.append("invvec %s %d" % (lst(v), n))
    for n in range(0, 7):
        for bits in range(1 << n):
            L.append("filter %d %s" % (n, lst([x for x in range(n) if bits >> x & 1])))
    for i in range(c.pick(60, 500)):
        n = rng.choice([63, 64, 65, 130, 511, 512, 513])
        L.append("filter %d %s" % (n, lst([x for x in range(n) if rng.random() < 0.5])))
    for i in range(c.pick(200, 1000)):
        v = [rng.randrange(rng.choice([3, 1000])) for _ in range(rng.randrange(8))]
        L.append("minmax %s %d %d %d" % (lst(v), rng.randrange(9), rng.randrange(5), rng.randrange(5)))
    c.conform("algo", "AlgoTrace", pack("vec", L), source="all small vectors and filters, seeded large ones", variant="asan", need=["invvec", "filter", "minmax"])
    L = []
    for i in range(c.pick(300, 3000)):
        g = graph(rng, rng.randrange(1, 12))
        first, head = adj(g)
        L.append("findarc %s %s" % (lst(first), lst(head)))
        for _ in range(3):
            nodes, arcs = walk(rng, first, head, rng.randrange(12))
            if rng.random() < 0.1: nodes = []
            L.append("paths %s %s %s %s %d" % (lst(first), lst(head), lst(nodes), lst(arcs), nodes[0] if nodes else 0))
    for i in range(c.pick(200, 2000)):
        m = rng.choice([0, 1, 2, 3, 8, 30, 60])
        ac, bc = rng.choice([1, 2, 5, 30, 3000]), rng.choice([1, 2, 5, 30, 3000])
        L.append("lexsort %d %s %d %s" % (ac, lst([rng.randrange(ac) for _ in range(m)]), bc, lst([rng.randrange(bc) for _ in range(m)])))
    for m in range(0, 4):
        for a in itertools.product(range(2), repeat=m):
            for b in itertools.product(range(3), repeat=m):
                L.append("lexsort 2 %s 3 %s" % (lst(a), lst(b)))
    c.conform("algo", "AlgoTrace", pack("graph", L), source="seeded graphs, all small pairs of vectors", variant="asan", need=["findarc", "paths", "lexsort"])
    L = []
    for n in c.pick([70000], [65536, 65537, 70000, 200000]):
        L.append("invvec %s %d" % (lst(sorted(rng.randrange(n) for _ in range(n))), n))
        L.append("invvec %s %d" % (lst(sorted(rng.choice([0, 1, n - 1, n // 2]) for _ in range(n))), n))
        L.append("filter %d %s" % (n, lst([x for x in range(n) if rng.random() < 0.5])))
        L.append("filter %d %s" % (n, lst([x for x in range(n) if rng.random() < 0.001 or x > n - 40])))
        L.append("minmax %s 1 2 3" % lst([5 + (i * 7919) % 1000003 for i in range(n)] + [1, 2000000, 1, 2000000]))
        L.append("lexsort %d %s %d %s" % (300, lst([rng.randrange(300) for _ in range(n)]), n, lst([rng.randrange(n) for _ in range(n)])))
        L.append("lexsort %d %s %d %s" % (n, lst([rng.choice([0, 1, n - 1]) for _ in range(n)]), 2000000, lst([rng.randrange(2000000) for _ in range(n)])))
    for deg in (31, 32, 33, 64, 100, 257):
        # nodes of high degree: every head is looked up, existing or not
        n = deg + 40
        head = sorted(rng.sample(range(n), deg)) + [rng.randrange(n) for _ in range(deg)] + [n - 1] * 3
        first = [0, deg, 2 * deg, 2 * deg + 3] + [2 * deg + 3] * (n - 3)
        L.append("findarcx 4 0 1 2 3 %s %s" % (lst(first), lst(head)))
        nodes, arcs = walk(rng, first, head, 3)
        L.append("paths %s %s %s %s %d" % (lst(first), lst(head), lst(nodes), lst(arcs), nodes[0]))
    n = 70000
    first = list(range(0, 2 * n + 1, 2))
    head = [y for x in range(n) for y in ((x + 1) % n, (x + 2) % n)]
    nodes, arcs = walk(rng, first, head, n + 5)
    L.append("paths %s %s %s %s %d" % (lst(first), lst(head), lst(nodes), lst(arcs), nodes[0]))
    c.conform("algo", "AlgoTrace", [Scenario("large-%d" % i, [x], cost=len(x)) for i, x in enumerate(L)], source="large vectors, high degrees, long paths", need=["invvec", "filter", "findarc", "paths", "lexsort"])


def scc_large(rng, n, kind):
    """A graph with known strongly connected components, and the certificate for them."""
    sizes = []
    left = n
    while left:
        k = {"one": left, "path": 1, "mixed": rng.choice([1, 1, 2, 3, 50, 1000, n // 3]), "two": (n + 1) // 2, "cycles": 7}[kind]
        k = min(k, left)
        sizes.append(k)
        left -= k
    if kind == "mixed":
        rng.shuffle(sizes)
    name = perm(rng, n) if rng.random() < 0.7 else list(range(n))
    out = [[] for _ in range(n)]
    cls, lev, pos = [0] * n, [0] * n, [0] * n
    members = []
    at = 0
    for ci, k in enumerate(sizes):
        mem = [name[at + i] for i in range(k)]
        at += k
        members.append(mem)
        for i, x in enumerate(mem):
            cls[x], lev[x], pos[x] = ci, ci, i
            if k > 1:
                out[x].append(mem[(i + 1) % k])
                if rng.random() < 0.3:
                    out[x].append(rng.choice(mem))
            elif rng.random() < 0.1:
                out[x].append(x)
        if ci:
            for _ in range(1 if kind == "path" else rng.randrange(3)):
                out[rng.choice(members[ci - 1])].append(rng.choice(mem))
            if rng.random() < 0.3:
                out[rng.choice(members[rng.randrange(ci)])].append(rng.choice(mem))
    first, head = [0], []
    for x in range(n):
        rng.shuffle(out[x])
        head += out[x]
        first.append(len(head))
    root, fa, ft, fd, ba, bd = [0] * n, [0] * n, [0] * n, [0] * n, [0] * n, [0] * n
    arcto = {}
    for mem in members:
        k = len(mem)
        for i, x in enumerate(mem):
            root[x] = mem[0]
            fd[x], bd[x] = i, (k - i) % k
            if i:
                t = mem[i - 1]
                ft[x] = t
                fa[x] = head.index(x, first[t])
                ba[x] = head.index(mem[(i + 1) % k], first[x])
    return "sccc %s %s %s" % (lst(first), lst(head), " ".join(lst(v) for v in (root, fa, ft, fd, ba, bd, lev, pos)))


def P21(c):
    c.assumptions += ASSUME
    rng = random.Random("P21-%d" % c.seed)
    c.model("SccModel")
    if c.thorough:
        c.model("SccModel", "SccModel4.cfg")
    L = []
    H = c.generate("GenTiny", env={"N": "3", "WMAX": "1"})
    seen = set()
    for tail, head, w, order in H:
        seen.add((tuple(tail), tuple(head)))
    for tail, head in sorted(seen):
        for _ in range(3):
            idx = list(range(len(tail))); rng.shuffle(idx)
            first, hd = adj((3, [tail[i] for i in idx], [head[i] for i in idx]))
            L.append("scc %s %s" % (lst(first), lst(hd)))
    # all graphs on four nodes without loops, arcs in random order
    pairs = [(x, y) for x in range(4) for y in range(4) if x != y]
    for bits in range(0, 1 << 12, c.pick(3, 1)):
        A = [p for i, p in enumerate(pairs) if bits >> i & 1]
        rng.shuffle(A)
        first, hd = adj((4, [a for a, _ in A], [b for _, b in A]))
        L.append("scc %s %s" % (lst(first), lst(hd)))
    for i in range(c.pick(700, 7000)):
        n = rng.randrange(0, 15)
        g = graph(rng, n)
        if rng.random() < 0.4 and n > 2:
            # components linked by a few arcs
            tail, head = [], []
            k = rng.randrange(1, 5)
            comp = [rng.randrange(k) for _ in range(n)]
            for x in range(n):
                mem = [y for y in range(n) if comp[y] == comp[x]]
                tail.append(x); head.append(rng.choice(mem))
                if rng.random() < 0.5:
                    a, b = rng.randrange(n), rng.randrange(n)
                    if comp[a] <= comp[b]: tail.append(a); head.append(b)
            g = (n, tail, head)
        first, hd = adj(g)
        L.append("scc %s %s" % (lst(first), lst(hd)))
    c.conform("algo", "AlgoTrace", pack("scc", L), source="all graphs with 3 and (sampled) 4 nodes, seeded graphs", variant="asan", need=["scc"])
    L = [scc_large(rng, n, k) for n, k in c.pick([(70000, "one"), (70000, "mixed"), (70000, "path")], [(n, k) for n in (66000, 200000) for k in ("one", "path", "mixed", "two", "cycles")])]
    L += [scc_large(rng, rng.choice([50, 300, 1000, 5000]), k) for k in ("one", "path", "mixed", "two", "cycles") for _ in range(c.pick(4, 40))]
    c.conform("algo", "AlgoTrace", [Scenario("large-%d" % i, [x], cost=len(x)) for i, x in enumerate(L)], source="large graphs with a certificate", need=["scc"])


def coords(rng, n):
    m = rng.choice(["random", "random", "line", "same", "grid"])
    if m == "random":
        return [round(rng.uniform(-80, 80), 3) for _ in range(n)], [round(rng.uniform(-170, 170), 3) for _ in range(n)]
    if m == "line":
        return [1.5] * n, [i * 0.25 for i in range(n)]
    if m == "same":
        return [1.0] * n, [2.0] * n
    w = max(2, int(n ** 0.5))
    return [float(i // w) for i in range(n)], [float(i % w) for i in range(n)]


def walks(n, tail, head, S, T):
    """A maximum set of walks from S to T over different arcs (each arc may be walked in either direction, once)."""
    inc = [[] for _ in range(n)]
    for a, (x, y) in enumerate(zip(tail, head)):
        if x != y:
            inc[x].append(a)
            inc[y].append(a)
    flow = [0] * len(tail)          # +1: walked from tail to head, -1: the other way
    Ts = set(T)
    k = 0
    while True:
        prev = {x: None for x in S}
        todo = list(S)
        hit = None
        for x in todo:
            if x in Ts:
                hit = x
                break
            for a in inc[x]:
                d = 1 if tail[a] == x else -1
                if flow[a] == d:
                    continue
                y = head[a] if d == 1 else tail[a]
                if y not in prev:
                    prev[y] = (x, a, d)
                    todo.append(y)
        if hit is None:
            break
        k += 1
        while prev[hit]:
            x, a, d = prev[hit]
            flow[a] += d
            hit = x
    out = [[] for _ in range(n)]
    bal = [0] * n
    for a, f in enumerate(flow):
        if f:
            x, y = (tail[a], head[a]) if f == 1 else (head[a], tail[a])
            out[x].append((a, y))
            bal[x] += 1
            bal[y] -= 1
    fr, W = [], []
    for s in S:
        while bal[s] > 0:
            w, x = [], s
            while not (x in Ts):
                a, y = out[x].pop()
                w.append(a)
                x = y
            bal[s] -= 1
            fr.append(s)
            W.append(w)
    assert len(W) == k
    return fr, W


def big_flat_graph(rng, n, m=None):
    """grids, rings, caterpillars and clusters with a few hundred nodes; coordinates along with it"""
    m = m or rng.choice(["grid", "grid", "ring", "clusters", "caterpillar", "thick", "islands"])
    w = max(2, int(n ** 0.5))
    lat, lon = [float(i // w) for i in range(n)], [float(i % w) for i in range(n)]
    A = []
    if m in ("grid", "islands"):
        for i in range(n):
            if (i + 1) % w and i + 1 < n and rng.random() < (.95 if m == "grid" else .45): A.append((i, i + 1))
            if i + w < n and rng.random() < (.95 if m == "grid" else .45): A.append((i, i + w))
    elif m == "ring":
        A = [(i, (i + 1) % n) for i in range(n)] + [(i, (i + 7) % n) for i in range(0, n, 5)]
    elif m == "clusters":
        for i in range(n): A += [(i, (i // 12) * 12 + rng.randrange(12)) for _ in range(2)] + ([(i, rng.randrange(n))] if i % 12 == 0 else [])
        A = [(x, min(y, n - 1)) for x, y in A]
    elif m == "caterpillar":
        A = [(i, i + 2) for i in range(0, n - 2, 2)] + [(i, i + 1) for i in range(0, n - 1, 2)]
    else:
        for i in range(n - 9): A += [(i, i + rng.randrange(1, 10)) for _ in range(3)]
    A += [rng.choice(A) for _ in range(rng.choice([0, 0, 5, 20]))]
    if rng.random() < .3: A.append((n // 2, n // 2))
    p = perm(rng, n) if rng.random() < .7 else list(range(n))
    A = [(p[x], p[y]) if rng.random() < .5 else (p[y], p[x]) for x, y in A]
    la, lo = [0.] * n, [0.] * n
    for i in range(n):
        la[p[i]], lo[p[i]] = lat[i] + round(rng.uniform(0, .4), 2), lon[i] + round(rng.uniform(0, .4), 2)
    rng.shuffle(A)
    return n, [a for a, _ in A], [b for _, b in A], la, lo, p


def nd_large(c, rng, count, hi):
    L = []
    for i in range(count):
        n, tail, head, lat, lon, p = big_flat_graph(rng, rng.randrange(100, hi))
        base = "%d %s %s" % (n, lst(tail), lst(head))
        k = rng.choice([1, 5, int(n ** .5), n // 4, n // 3])
        S, T = sorted(p[:k]), sorted(p[-k:])
        fr, W = walks(n, tail, head, S, T)
        L.append("flowc %s %s %s %s %s" % (base, lst(S), lst(T), lst(fr), " ".join(lst(w) for w in W)))
        L.append("inertial %s %d %s %s" % (base, rng.choice([-1, 25, 33, 40, 50, 5]), lst(lat), lst(lon)))
        L.append("separator %s %s" % (base, lst(sorted(rng.sample(range(n), rng.randrange(0, n))))))
        L.append("decomp %s iflow 1 %s %s" % (base, lst(lat), lst(lon)))
        L.append("decomp %s %s %d" % (base, rng.choice(["one", "some", "some"]), rng.randrange(10000)))
        if i % 2 == 0:
            L.append("fragment " + base)
    # components of more than a thousand nodes, and one too large for 16 bits
    for how in ["iflow", "some", "one"]:
        n, tail, head, lat, lon, p = big_flat_graph(rng, rng.randrange(1010, 1300))
        L.append("decomp %d %s %s %s %d %s" % (n, lst(tail), lst(head), how, rng.randrange(10000), lst(lat) + " " + lst(lon) if how == "iflow" else ""))
    n, tail, head, lat, lon, p = big_flat_graph(rng, rng.choice([66000, 70000]), rng.choice(["grid", "islands"]))
    L.append("ndorder %d %s %s %s %s" % (n, lst(tail), lst(head), lst(lat), lst(lon)))
    for i in range(4 * count):
        n, tail, head, lat, lon, p = big_flat_graph(rng, rng.randrange(60, 180))
        if rng.random() < .5:
            tail, head = tail + [x for x in tail], head + [rng.randrange(n) for _ in head]
        k = rng.choice([1, 8, n // 5, n // 3, n // 3])
        S, T = sorted(p[:k]), sorted(p[-k:])
        fr, W = walks(n, tail, head, S, T)
        L.append("flowc %d %s %s %s %s %s %s" % (n, lst(tail), lst(head), lst(S), lst(T), lst(fr), " ".join(lst(w) for w in W)))
    return [Scenario("ndl-%d" % i, [x], cost=len(x)) for i, x in enumerate(L)]


def P22(c):
    c.assumptions += ASSUME + ["separator callbacks return a non-empty separator for every connected fragment with at least two nodes",
                               "source and target sets of a cut are non-empty and disjoint; inertial flow is given at least two nodes and a balance of at most 50 %"]
    rng = random.Random("P22-%d" % c.seed)
    L = []
    for i in range(c.pick(400, 4000)):
        n, tail, head = graph(rng, rng.randrange(0, 14))
        L.append("fragment %d %s %s" % (n, lst(tail), lst(head)))
    for i in range(c.pick(400, 4000)):
        n, tail, head = graph(rng, rng.randrange(2, 10))
        k = rng.randrange(1, n)
        p = perm(rng, n)
        S = p[:rng.randrange(1, k + 1)]
        T = p[k:k + rng.randrange(1, n - k + 1)]
        if rng.random() < 0.5:
            S, T = S[:1], T[:1]
        L.append("flow %d %s %s %s %s" % (n, lst(tail), lst(head), lst(sorted(S)), lst(sorted(T))))
    for i in range(c.pick(250, 2500)):
        n, tail, head = graph(rng, rng.randrange(2, 25))
        lat, lon = coords(rng, n)
        L.append("inertial %d %s %s %d %s %s" % (n, lst(tail), lst(head), rng.choice([-1, -1, 25, 33, 40, 50, 10, 0, 1]), lst(lat), lst(lon)))
    for i in range(c.pick(150, 1500)):
        n, tail, head = graph(rng, rng.randrange(2, 9))
        x, y = [rng.randrange(2000) for _ in range(n)], [rng.randrange(2000) for _ in range(n)]
        L.append("inertial %d %s %s %d %s %s %s %s" % (n, lst(tail), lst(head), rng.choice([0, 25, 33, 40, 50]), lst(x), lst(y), lst(x), lst(y)))
    for i in range(c.pick(200, 2000)):
        n, tail, head = graph(rng, rng.randrange(1, 12))
        L.append("separator %d %s %s %s" % (n, lst(tail), lst(head), lst(sorted(rng.sample(range(n), rng.randrange(0, n + 1))))))
    for i in range(c.pick(250, 2500)):
        n, tail, head = graph(rng, rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 20]))
        how = rng.choice(["iflow", "iflow", "one", "some", "all"])
        extra = ""
        if how == "iflow":
            lat, lon = coords(rng, n)
            extra = " %s %s" % (lst(lat), lst(lon))
        L.append("decomp %d %s %s %s %d%s" % (n, lst(tail), lst(head), how, rng.randrange(10000), extra))
    rng.shuffle(L)
    c.conform("algo", "AlgoTrace", pack("nd", L, 20), source="seeded", variant="asan", need=["fragment", "flow", "inertial", "separator", "decomp"])
    c.conform("algo", "AlgoTrace", nd_large(c, rng, c.pick(14, 100), c.pick(420, 900)), source="hundreds of nodes, flows with certificates", need=["fragment", "flow", "inertial", "separator", "decomp"])
