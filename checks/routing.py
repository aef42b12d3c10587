"""Checks for the routing core: CH, CCH, Dijkstra (specification: Routing.tla, RoutingTrace.tla, RoutingGen.tla)."""
import random
from vf import Scenario
import rgen
from rgen import INF, lst, seedstr, graph, weights, perm, seeds, certline, graphline, sorted_graph

ASSUME = ["weights lie in 0..inf_weight and offsets in 0..inf_weight-1, node and arc ids are in range, the documented call order is kept",
          "sums of inf_weight or more mean 'unreachable'",
          "the correspondence between script operations and library calls in harness/routing.cpp"]


def hists(c, focus, num, depth, maxn, tag, variant="asan", what=None):
    """Histories produced by TLC from the specification of the interface."""
    H = c.generate("RoutingGen", args=["-simulate", "num=%d" % num, "-depth", str(depth + 10), "-seed", str(c.seed * 7919 + len(tag))],
                   env={"DEPTH": str(depth), "MAXN": str(maxn), "FOCUS": focus})
    sc = []
    for i, h in enumerate(H):
        if what:
            h = [_limit(x, what) for x in h]
        sc.append(Scenario("%s-%d" % (tag, i), h))
    return sc


def _limit(line, what):
    """restrict which results are fetched"""
    t = line.split()
    if t[0] == "res":
        t[2] = "".join(x for x in t[2] if x in what or (x == "v" and "u" in what)) or "d"
    return " ".join(t)


def chline(rng, h, g, w, n, deep=False):
    how = rng.choice(["auto", "auto", "rank", "order"])
    mp = rng.choice([500, 500, 500, 0, 1, 2, 7])
    if deep:
        return "ch %d %d %d order %s %d" % (h, g, w, lst(straight(rng, n)), mp)
    if how == "auto":
        return "ch %d %d %d auto %d" % (h, g, w, mp)
    return "ch %d %d %d %s %s %d" % (h, g, w, how, lst(rgen.order(rng, n)), mp)


def chlines(rng, n, deep=False):
    """hierarchy 0 of graph 0 and weights 0: built, or extracted from a customizable one"""
    if deep or rng.random() < .85: return [chline(rng, 0, 0, 0, n, deep)]
    return [cchline(rng, 0, 0, n), "metric 0 0 0 vec", "perfect 0 0"]


def straight(rng, n):
    return rng.choice([list(range(n)), list(range(n - 1, -1, -1))])


def cchline(rng, c, g, n, filt=None, deep=False):
    if deep:
        return "cch %d %d %d %s" % (c, g, rng.randrange(2) if filt is None else filt, lst(straight(rng, n)))
    return "cch %d %d %d %s" % (c, g, rng.randrange(2) if filt is None else filt, lst(rgen.order(rng, n)))


def small_graph(rng, lo=1, hi=9, deep=False):
    """deep: a chain; contracted along its node numbers, searches climb it node by node"""
    if deep: return graph(rng, rng.randrange(max(lo, 12), max(hi, 12) + 1), family="chain")
    return graph(rng, rng.choice(list(range(lo, hi + 1)) + [hi, hi - 1]))


def pre(rng, g, wf=None):
    return [graphline(0, g), "weights 0 " + lst(weights(rng, len(g[1]), wf))]


def ch_tables(c, count, what, tag, hi=9, reps=1):
    rng = random.Random("%s-%d" % (tag, c.seed))
    out = []
    for i in range(count):
        g = small_graph(rng, 0 if rng.random() < 0.03 else 1, hi)
        L = pre(rng, g) + [chline(rng, 0, 0, 0, g[0]), "table ch 0 " + what]
        for k in range(1, 1 + reps):
            L += ["weights %d %s" % (k, lst(weights(rng, len(g[1])))), chline(rng, k, 0, k, g[0]), "table ch %d %s" % (k, what)]
        out.append(Scenario("%s-%d" % (tag, i), L, cost=g[0] * g[0] * len(L)))
    return out


def tiny(c, what, kind, N=3, W=(0, 1, 2, 3), limit=None):
    """All graphs on N nodes (at most one arc per ordered pair, enumerated by TLC) with all contraction orders."""
    H = c.generate("GenTiny", env={"N": str(N), "WMAX": str(len(W))})
    out = []
    for i, (tail, head, w, order) in enumerate(H):
        g = (N, tail, head)
        w = [W[x] for x in w]
        L = [graphline(0, g), "weights 0 " + lst(w)]
        if kind == "ch":
            L += ["ch 0 0 0 order %s 500" % lst(order), "table ch 0 " + what]
        else:
            L += ["cch 0 0 0 " + lst(order), "metric 0 0 0 vec", "customize 0", "table cch 0 " + what]
        out.append(Scenario("tiny-%d" % i, L))
    if limit and len(out) > limit:
        out = random.Random(c.seed).sample(out, limit)
    return out


def sparse(rng, n):
    m = rng.randrange(n, 3 * n)
    return (n, [rng.randrange(n) for _ in range(m)], [rng.randrange(n) for _ in range(m)])


def any_order(rng, g):
    return rng.sample(range(g[0]), g[0]) if g[0] <= 200 and rng.random() < .4 else nd_like(rng, g)


def big_graph(rng, n):
    fam = rng.choice(["grid", "sym", "random", "tree", "sparse"])
    if fam == "sparse": return sparse(rng, n)
    g = graph(rng, n, m=None if fam != "random" else 3 * n, family=fam)
    return g


def big(c, kind, count, n, what, tag, per=6):
    """Graphs beyond Floyd-Warshall: distances come with certificates that the specification verifies."""
    rng = random.Random("%s-%d" % (tag, c.seed))
    out = []
    for i in range(count):
        k = rng.randrange(n // 2, n)
        g = big_graph(rng, k)
        w = weights(rng, len(g[1]), rng.choice(["small", "medium", "unit", "zero", "big"]))
        L = [graphline(0, g), "weights 0 " + lst(w)]
        if kind == "ch":
            L.append("ch 0 0 0 auto 500" if rng.random() < 0.7 else "ch 0 0 0 order %s %d" % (lst(any_order(rng, g)), rng.choice([500, 20])))
        else:
            L += ["cch 0 0 %d %s" % (rng.randrange(2), lst(any_order(rng, g))), "metric 0 0 0 vec", "customize 0"]
        L.append("query 0 %s 0" % kind)
        for _ in range(per):
            S = [(s, o % 1000) for s, o in seeds(rng, k)]
            L.append(certline(g, 0, w, S))
            for _ in range(4):
                T = seeds(rng, k)
                L += ["q_reset 0"] + ["src 0 %d %d" % x for x in S] + ["tgt 0 %d %d" % x for x in T] + ["run 0", "res 0 " + what]
        out.append(Scenario("%s-%d" % (tag, i), L, cost=len(L) * k // 20))
    return out


def grid_order(w, h):
    """nested dissection of a w x h grid"""
    out = []
    stack = [(0, w, 0, h, False)]
    # separators are appended after both halves: build in reverse
    while stack:
        x0, x1, y0, y1, _ = stack.pop()
        if x1 - x0 <= 0 or y1 - y0 <= 0: continue
        if x1 - x0 >= y1 - y0:
            m = (x0 + x1) // 2
            out += [y * w + m for y in range(y0, y1)]
            stack += [(x0, m, y0, y1, 0), (m + 1, x1, y0, y1, 0)]
        else:
            m = (y0 + y1) // 2
            out += [m * w + x for x in range(x0, x1)]
            stack += [(x0, x1, y0, m, 0), (x0, x1, m + 1, y1, 0)]
    return out[::-1]


def huge_graph(rng, kind, side):
    """More nodes than 16 bits can count, like a road network: a grid with one way streets whose streets have inner nodes; and an order."""
    w, h, sub = side
    base = w * h
    E = []
    for y in range(h):
        for x in range(w):
            if x + 1 < w: E.append((y * w + x, y * w + x + 1))
            if y + 1 < h: E.append((y * w + x, y * w + w + x))
    n = base + len(E) * sub
    name = perm(rng, n) if rng.random() < 0.5 else list(range(n))
    T, H = [], []
    k = base
    for a, b in E:
        chain = [a] + list(range(k, k + sub)) + [b]
        k += sub
        r = rng.random()
        for x, y in zip(chain, chain[1:]):
            if r < 0.93: T.append(name[x]); H.append(name[y])
            if 0.03 < r < 0.97: T.append(name[y]); H.append(name[x])
            if r < 0.01: T.append(name[x]); H.append(name[y])
    return (n, T, H), [name[x] for x in list(range(base, n)) + grid_order(w, h)]


def huge(c, kind, what, tag, count=1, side=(80, 80, 5), pins=False, mid=None, sort=False):
    """mid: lines between the construction of the hierarchy and the queries (may change which object answers)"""
    rng = random.Random("%s-%d" % (tag, c.seed))
    out = []
    for i in range(count):
        g, order = huge_graph(rng, kind, side)
        if sort:
            g = sorted_graph(g)
        n = g[0]
        fam = rng.choice(["medium", "small", "big"])
        w = [x % 30000 + 1 for x in weights(rng, len(g[1]), fam)]
        L = [graphline(0, g), "weights 0 " + lst(w)]
        if kind == "ch":
            L.append("ch 0 0 0 auto 500" if i % 2 == 0 else "ch 0 0 0 order %s 500" % lst(order))
        elif kind == "cch":
            L += ["cch 0 0 %d %s" % (rng.randrange(2), lst(order)), "metric 0 0 0 vec", "customize 0"]
        kk, b = kind, 0
        if mid:
            kk, b, w = mid(rng, g, w, L)
        if kind == "dij":
            S = [(rng.randrange(n), 0), (rng.randrange(n), 77)]
            L += ["dij 0 0 new", certline(g, 0, w, S)] + ["d_src 0 %d %d" % x for x in S] + ["d_all 0 0 " + lst([rng.randrange(n) for _ in range(5)] + [n - 1])]
            out.append(Scenario("%s-%d" % (tag, i), L, cost=n))
            continue
        S = [(rng.randrange(n), 0)] if i % 2 == 0 else [(rng.randrange(n), rng.randrange(50000)) for _ in range(3)]
        L.append(certline(g, 0, w, S))
        for _ in range(8):
            L.append("route %s %d %s %s %s" % (kk, b, seedstr(S), seedstr([(rng.randrange(n), 0)]), what))
        L.append("route %s %d %s %s %s" % (kk, b, seedstr(S), seedstr([(rng.randrange(n), rng.randrange(30000)) for _ in range(20)]), what))
        if pins:
            L += ["query 0 %s %d" % (kk, b), "pin_t 0 " + lst(perm(rng, n)[:rng.choice([n, 3000])])] + ["src 0 %d %d" % x for x in S] + ["run_t 0", "res_t 0 d"]
            L += [certline(g, 0, w, S, "b"), "q_reset 0", "pin_s 0 " + lst(perm(rng, n)[:rng.choice([n, 3000])])] + ["tgt 0 %d %d" % x for x in S] + ["run_s 0", "res_s 0 d"]
        out.append(Scenario("%s-%d" % (tag, i), L, cost=n))
    return out


def nd_like(rng, g):
    """An elimination order with little fill: by recursive bisection of a breadth first numbering."""
    n, t, h = g
    adj = [[] for _ in range(n)]
    for a, b in zip(t, h):
        if a != b:
            adj[a].append(b); adj[b].append(a)
    import sys
    sys.setrecursionlimit(100000)

    def comps(S):
        S = set(S); res = []
        while S:
            s = min(S); S.discard(s); comp = [s]; k = 0
            while k < len(comp):
                for y in adj[comp[k]]:
                    if y in S: S.discard(y); comp.append(y)
                k += 1
            res.append(comp)
        return res

    def rec(S):
        if len(S) <= 2: return list(S)
        out = []
        for comp in comps(S):
            if len(comp) <= 2: out += comp; continue
            SS = set(comp)
            # BFS from a peripheral node, cut in the middle
            def bfs(s):
                d = {s: 0}; q = [s]
                for x in q:
                    for y in adj[x]:
                        if y in SS and y not in d: d[y] = d[x] + 1; q.append(y)
                return d, q
            d, q = bfs(comp[0]); d, q = bfs(q[-1])
            mid = d[q[len(q) // 2]]
            sep = [x for x in q if d[x] == mid]
            rest = [x for x in q if d[x] != mid]
            out += rec(rest) + sep
        return out
    return rec(list(range(n)))


# ------------------------------------------------------------------ P01 .. P07: contraction hierarchies
def P01(c):
    c.assumptions += ASSUME
    c.model("CHModel", cfg="CHModel3.cfg")
    if c.thorough: c.model("CHModel", cfg="CHModel4.cfg")
    c.conform("routing", "RoutingTrace", ch_tables(c, c.pick(500, 6000), "d", "p01"), variant="asan", need=["table"], source="seeded small graphs")
    c.conform("routing", "RoutingTrace", tiny(c, "d", "ch", limit=c.pick(1500, None)), need=["table"], source="all 3-node graphs and orders, from TLC")
    c.conform("routing", "RoutingTrace", big(c, "ch", c.pick(6, 40), c.pick(300, 900), "d", "p01b"), need=["res"], source="large graphs with certificates")
    c.conform("routing", "RoutingTrace", big(c, "ch", c.pick(40, 400), 90, "d", "p01m", per=3), need=["res"], source="medium graphs with certificates")
    c.conform("routing", "RoutingTrace", ch_tables(c, c.pick(60, 400), "d", "p01c", hi=20), need=["table"], source="seeded medium graphs")
    c.conform("routing", "RoutingTrace", huge(c, "ch", "d", "p01h", c.pick(2, 6)), need=["route"], source="road-like graphs of 70 000 nodes")


def P02(c):
    c.assumptions += ASSUME
    c.conform("routing", "RoutingTrace", ch_tables(c, c.pick(500, 6000), "da", "p02"), variant="asan", need=["table"], source="seeded small graphs")
    c.conform("routing", "RoutingTrace", multi(c, "ch", c.pick(50, 500), "p02d", what="duna", lo=12, hi=20), need=["route"], source="medium graphs, chains, many sources")
    c.conform("routing", "RoutingTrace", tiny(c, "da", "ch", limit=c.pick(1500, None)), need=["table"], source="all 3-node graphs and orders, from TLC")
    c.conform("routing", "RoutingTrace", big(c, "ch", c.pick(6, 40), c.pick(300, 900), "duna", "p02b"), need=["res"], source="large graphs with certificates")
    c.conform("routing", "RoutingTrace", big(c, "ch", c.pick(40, 400), 90, "duna", "p02m", per=3), need=["res"], source="medium graphs with certificates")
    c.conform("routing", "RoutingTrace", huge(c, "ch", "duna", "p02h", c.pick(2, 6)), need=["route"], source="road-like graphs of 70 000 nodes")


def multi(c, kind, count, tag, what="du", lo=1, hi=9):
    rng = random.Random("%s-%d" % (tag, c.seed))
    out = []
    for i in range(count):
        deep = hi > 12 and rng.random() < 0.4
        g = small_graph(rng, lo, hi, deep)
        L = pre(rng, g, rng.choice(["unit", "small", "zero", "tight"]) if deep else None)
        L += chlines(rng, g[0], deep) if kind == "ch" else [cchline(rng, 0, 0, g[0], deep=deep), "metric 0 0 0 vec", "customize 0"]
        ks = [1, 2, 3, 5, 8] + ([1, 40, 150] if hi > 12 else [])
        for _ in range(12):
            L.append("route %s 0 %s %s %s" % (kind, seedstr(seeds(rng, g[0], rng.choice(ks))), seedstr(seeds(rng, g[0], rng.choice(ks))), rng.choice([what, what[::-1]])))
        out.append(Scenario("%s-%d" % (tag, i), L))
    return out


def P03(c):
    c.assumptions += ASSUME
    c.conform("routing", "RoutingTrace", multi(c, "ch", c.pick(400, 5000), "p03a"), variant="asan", need=["route"], source="CH, seeded")
    c.conform("routing", "RoutingTrace", multi(c, "cch", c.pick(400, 5000), "p03b"), variant="asan", need=["route"], source="CCH, seeded")
    c.conform("routing", "RoutingTrace", multi(c, "ch", c.pick(50, 500), "p03c", lo=12, hi=20) + multi(c, "cch", c.pick(50, 500), "p03d", lo=12, hi=20), need=["route"], source="medium graphs, chains, many sources")
    c.conform("routing", "RoutingTrace", hists(c, "query", c.pick(150, 1500), 300, 6, "p03g", what="du"), variant="asan", need=["res"], source="TLC histories")


def wrap_scenarios(c, kind, count, tag):
    """Enough resets to wrap every 16 bit time stamp, placed around the boundary."""
    rng = random.Random("%s-%d" % (tag, c.seed))
    out = []
    for i in range(count):
        g = graph(rng, rng.randrange(3, 9), family=rng.choice(["random", "twoparts", "tree", "path"]))
        n = g[0]
        L = pre(rng, g, rng.choice(["small", "inf", "medium"]))
        L += chlines(rng, n) if kind == "ch" else [cchline(rng, 0, 0, n), "metric 0 0 0 vec", "customize 0"]
        L.append("query 0 %s 0" % kind)
        def one():
            return ["src 0 %d %d" % x for x in seeds(rng, n, 2)] + ["tgt 0 %d %d" % x for x in seeds(rng, n, 2)] + ["run 0", "res 0 duna"]
        L += one()
        for _ in range(3):
            L += ["q_reset 0 %d" % rng.choice([65533, 65534, 65535, 65535, 65536, 65537, 131071])] + one()
            L += ["q_reset 0"] + one()
        L.append("q_reset 0")
        L.append("pin_t 0 " + lst([rng.randrange(n) for _ in range(3)]))
        for k in [1, rng.choice([65534, 65535, 65536]), 1]:
            L += ["reset_s 0 %d" % k] + ["src 0 %d %d" % x for x in seeds(rng, n, 2)] + ["run_t 0", "res_t 0 d"]
        out.append(Scenario("%s-%d" % (tag, i), L))
    return out


def P04(c):
    c.assumptions += ASSUME
    c.model("TimestampModel", cfg="TimestampModel.cfg")
    c.model("TimestampModel", cfg="TimestampModelBroken.cfg", expect_violation="Faithful")
    c.conform("routing", "RoutingTrace", hists(c, "query", c.pick(500, 5000), 400, 6, "p04"), variant="asan", need=["res", "res_t", "res_s", "q_alias"], source="TLC histories")
    c.conform("routing", "RoutingTrace", wrap_scenarios(c, "ch", c.pick(24, 150), "p04w"), need=["res", "res_t"], source="CH time stamp wrap-around")
    c.conform("routing", "RoutingTrace", wrap_scenarios(c, "cch", c.pick(12, 60), "p04x"), need=["res", "res_t"], source="CCH many resets")


def pinned(c, kind, count, tag, lo=1, hi=9):
    rng = random.Random("%s-%d" % (tag, c.seed))
    out = []
    for i in range(count):
        deep = hi > 12 and rng.random() < 0.4
        g = small_graph(rng, lo, hi, deep)
        n = g[0]
        L = pre(rng, g, rng.choice(["unit", "small", "zero", "tight"]) if deep else None)
        L += chlines(rng, n, deep) if kind == "ch" else [cchline(rng, 0, 0, n, deep=deep), "metric 0 0 0 vec", "customize 0"]
        L.append("query 0 %s 0" % kind)
        for _ in range(3):
            d = rng.choice("ts")
            pins = [rng.randrange(n) for _ in range(rng.choice([0, 1, 2, 4, n, n + 2, 2 * n]))]
            if rng.random() < 0.2: L += ["q_reset 0", "src 0 %d 0" % rng.randrange(n), "tgt 0 %d 3" % rng.randrange(n)]
            L += ["q_reset 0", "pin_%s 0 %s" % (d, lst(pins))]
            for r in range(rng.choice([1, 2, 4])):
                if r: L.append("reset_%s 0" % ("s" if d == "t" else "t"))
                if rng.random() < 0.25:
                    # sources that are thrown away again without running
                    L += ["%s 0 %d %d" % (("src" if d == "t" else "tgt",) + x) for x in seeds(rng, n)] + ["reset_%s 0" % ("s" if d == "t" else "t")]
                L += ["%s 0 %d %d" % (("src" if d == "t" else "tgt",) + x) for x in seeds(rng, n)]
                L += ["run_%s 0" % d, "res_%s 0 %s" % (d, rng.choice(["du", "pw", "ud"]) if kind == "ch" else rng.choice(["d", "p"]))]
            if rng.random() < 0.5:
                L += ["q_reset 0", "src 0 %d 0" % rng.randrange(n), "tgt 0 %d 0" % rng.randrange(n), "run 0", "res 0 du"]
        out.append(Scenario("%s-%d" % (tag, i), L))
    return out


def big_pinned(c, kind, count, n, tag):
    rng = random.Random("%s-%d" % (tag, c.seed))
    out = []
    for i in range(count):
        k = rng.randrange(n // 2, n)
        g = big_graph(rng, k)
        w = weights(rng, len(g[1]), rng.choice(["small", "medium", "unit", "zero"]))
        L = [graphline(0, g), "weights 0 " + lst(w)]
        L += ["ch 0 0 0 auto 500"] if kind == "ch" else ["cch 0 0 %d %s" % (rng.randrange(2), lst(any_order(rng, g))), "metric 0 0 0 vec", "customize 0"]
        L.append("query 0 %s 0" % kind)
        for d in "tsts":
            pins = perm(rng, k)[:rng.choice([k, k // 2, 10])]
            L += ["q_reset 0", "pin_%s 0 %s" % (d, lst(pins))]
            for r in range(3):
                S = [(s, o % 1000) for s, o in seeds(rng, k)]
                L.append(certline(g, 0, w, S, "f" if d == "t" else "b"))
                if r: L.append("reset_%s 0" % ("s" if d == "t" else "t"))
                L += ["%s 0 %d %d" % (("src" if d == "t" else "tgt",) + x) for x in S] + ["run_%s 0" % d, "res_%s 0 d" % d]
        out.append(Scenario("%s-%d" % (tag, i), L, cost=len(L) * k // 20))
    return out


def P05(c):
    c.assumptions += ASSUME
    c.conform("routing", "RoutingTrace", pinned(c, "ch", c.pick(400, 5000), "p05a"), variant="asan", need=["res_t", "res_s"], source="CH, seeded")
    c.conform("routing", "RoutingTrace", pinned(c, "cch", c.pick(400, 5000), "p05b"), variant="asan", need=["res_t", "res_s"], source="CCH, seeded")
    c.conform("routing", "RoutingTrace", pinned(c, "ch", c.pick(40, 400), "p05e", 14, 20) + pinned(c, "cch", c.pick(20, 200), "p05f", 14, 20), need=["res_t", "res_s"], source="medium graphs")
    c.conform("routing", "RoutingTrace", big_pinned(c, "ch", c.pick(4, 20), c.pick(250, 700), "p05c"), need=["res_t", "res_s"], source="CH, large graphs with certificates")
    c.conform("routing", "RoutingTrace", big_pinned(c, "cch", c.pick(4, 20), c.pick(250, 700), "p05d"), need=["res_t", "res_s"], source="CCH, large graphs with certificates")
    c.conform("routing", "RoutingTrace", huge(c, "ch", "d", "p05h", c.pick(1, 4), pins=True) + huge(c, "cch", "d", "p05i", c.pick(1, 4), pins=True), need=["res_t", "res_s"], source="road-like graphs of 70 000 nodes")


def extra(c, count, tag, lo=1, hi=9):
    rng = random.Random("%s-%d" % (tag, c.seed))
    out = []
    for i in range(count):
        g = small_graph(rng, lo, hi)
        n = g[0]
        L = pre(rng, g, rng.choice(["unit", "small", "zero", "medium", "inf"]))
        L.append("weights 1 " + lst(weights(rng, len(g[1]), rng.choice(["small", "medium", "big", "huge", "inf"]))))
        if rng.random() < 0.25:
            L += [cchline(rng, 0, 0, n), "metric 0 0 0 vec", "perfect 0 0"]
        else:
            L.append(chline(rng, 0, 0, 0, n))
        # the same graph with another weight vector and order: same input arcs, other shortcuts
        L.append("weights 2 " + lst(weights(rng, len(g[1]), rng.choice(["unit", "small", "zero", "medium"]))))
        L.append(chline(rng, 1, 0, 2, n))
        two = rng.random() < 0.5
        rst = lambda: "q_rebind 0 %d" % rng.randrange(2) if two else "q_reset 0"
        ew = lambda: rng.choice([1, 1, 2])
        L.append("query 0 ch 0")
        for _ in range(4):
            L += [rst()] + ["src 0 %d %d" % x for x in seeds(rng, n)] + ["tgt 0 %d %d" % x for x in seeds(rng, n)] + ["run 0", "ew 0 %d" % ew()]
            if rng.random() < 0.3: L.append("ew 0 %d" % ew())
        for _ in range(2):
            d = rng.choice("ts")
            L += [rst(), "pin_%s 0 %s" % (d, lst([rng.randrange(n) for _ in range(rng.choice([1, 3, n, n + 1]))]))]
            for r in range(2):
                if r: L.append("reset_%s 0" % ("s" if d == "t" else "t"))
                L += ["%s 0 %d %d" % (("src" if d == "t" else "tgt",) + x) for x in seeds(rng, n)]
                L += ["run_%s 0" % d, "ew_p 0 %d %s %s" % (ew(), d, rng.choice(["alloc", "given", "tmp"]))]
                if rng.random() < 0.3: L.append("ew_p 0 %d %s given" % (ew(), d))
        out.append(Scenario("%s-%d" % (tag, i), L))
    return out


def P06(c):
    c.assumptions += ASSUME
    c.conform("routing", "RoutingTrace", extra(c, c.pick(500, 5000), "p06"), variant="asan", need=["ew", "ew_p"], source="seeded")
    c.conform("routing", "RoutingTrace", extra(c, c.pick(40, 400), "p06m", 14, 20), need=["ew", "ew_p"], source="seeded, medium graphs")


def P07(c):
    c.assumptions += ASSUME + ["damage that keeps magic number and file size is not detected by design (there is no checksum)"]
    rng = random.Random("p07-%d" % c.seed)
    modes = ["stream", "streamsize", "func", "funcsize", "file"]
    out = []
    for i in range(c.pick(400, 4000)):
        g = small_graph(rng, 0 if rng.random() < 0.05 else 1, 9)
        L = pre(rng, g)
        L += [chline(rng, 0, 0, 0, g[0])] if rng.random() < 0.8 else [cchline(rng, 0, 0, g[0]), "metric 0 0 0 vec", "perfect 0 0"]
        a, b = rng.choice(modes), rng.choice(modes + ["copy", "assign"])
        L += ["ch_alias 1 0 " + a, "table ch 1 da", "ch_alias 2 1 " + b, "table ch 2 da", "table ch 0 da"]
        L.append("weights 1 " + lst(weights(rng, len(g[1]), "medium")))
        if g[0]:
            L += ["query 0 ch 2", "src 0 %d 0" % rng.randrange(g[0]), "tgt 0 %d 0" % rng.randrange(g[0]), "run 0", "ew 0 1"]
        for _ in range(4):
            k = rng.choice(["trunc", "trunc", "extend", "magic", "count"])
            r = rng.choice(modes)
            if k in ("extend", "count") and r not in ("streamsize", "funcsize", "file"): r = rng.choice(["streamsize", "funcsize", "file"])
            L.append("ch_bad %d %s %s %d" % (rng.randrange(3), r, k, rng.choice([rng.randrange(4), rng.randrange(1 << 30)])))
        L += ["ch_nosave %d %s %d" % (rng.randrange(3), x, rng.choice([0, 8, 23, 24, rng.randrange(1 << 30), (1 << 40) - 1])) for x in rng.sample(["file", "dir", "stream", "stream", "func"], 2)]
        out.append(Scenario("p07-%d" % i, L))
    c.conform("routing", "RoutingTrace", out, variant="asan", need=["ch_alias", "ch_bad", "ch_nosave", "table"], source="seeded small graphs")
    out = []
    for i in range(c.pick(8, 60)):
        # arc counts around multiples of the bit vector block
        k = rng.choice([255, 256, 257, 511, 512, 513, 600, 1024])
        g = (k // 2 + 1, [], [])
        A = []
        for x in range(k // 2):
            A += [(x, x + 1), (x + 1, x)]
        g = (k // 2 + 1, [a for a, _ in A], [b for _, b in A])
        w = weights(rng, len(A), "medium")
        n = g[0]
        S = [(rng.randrange(n), 0)]
        L = [graphline(0, g), "weights 0 " + lst(w), "ch 0 0 0 auto 500", "ch_alias 1 0 " + rng.choice(modes), certline(g, 0, w, S), "query 0 ch 1"]
        for _ in range(5):
            L += ["q_reset 0", "src 0 %d 0" % S[0][0], "tgt 0 %d 0" % rng.randrange(n), "run 0", "res 0 duna"]
        out.append(Scenario("p07b-%d" % i, L, cost=60))
    c.conform("routing", "RoutingTrace", out + big_saved(c, c.pick(4, 30), c.pick(300, 800), "p07c"), need=["ch_alias", "res"], source="block boundaries and large graphs")

    def saved(rng, g, w, L):
        L.append("ch_alias 1 0 " + rng.choice(modes))
        return "ch", 1, w
    c.conform("routing", "RoutingTrace", huge(c, "ch", "duna", "p07h", c.pick(1, 6), mid=saved), need=["ch_alias", "route"], source="road-like graphs of 70 000 nodes")


def big_saved(c, count, n, tag):
    sc = big(c, "ch", count, n, "duna", tag)
    rng = random.Random(tag)
    for s in sc:
        i = next(k for k, l in enumerate(s.lines) if l.startswith("query"))
        s.lines[i] = "query 0 ch 1"
        s.lines.insert(i, "ch_alias 1 0 " + rng.choice(["stream", "streamsize", "func", "funcsize", "file"]))
    return sc


# ------------------------------------------------------------------ P08 .. P13: customizable contraction hierarchies
def cch_tables(c, count, what, tag, hi=9, reps=2):
    rng = random.Random("%s-%d" % (tag, c.seed))
    out = []
    for i in range(count):
        g = small_graph(rng, 0 if rng.random() < 0.03 else 1, hi)
        L = pre(rng, g) + [cchline(rng, 0, 0, g[0]), "metric 0 0 0 " + rng.choice(["vec", "ptr", "default"]), "customize 0", "table cch 0 " + what]
        for k in range(1, 1 + reps):
            L += ["weights %d %s" % (k, lst(weights(rng, len(g[1])))), "metric %d 0 %d vec" % (k, k), "customize %d" % k, "table cch %d %s" % (k, what)]
        out.append(Scenario("%s-%d" % (tag, i), L, cost=g[0] * g[0] * len(L)))
    return out


def P08(c):
    c.assumptions += ASSUME
    c.model("CCHModel", cfg="CCHModel3.cfg")
    if c.thorough: c.model("CCHModel", cfg="CCHModel4.cfg")
    c.conform("routing", "RoutingTrace", cch_tables(c, c.pick(500, 6000), "d", "p08"), variant="asan", need=["table"], source="seeded small graphs")
    c.conform("routing", "RoutingTrace", tiny(c, "d", "cch", limit=c.pick(1500, None)), need=["table"], source="all 3-node graphs and orders, from TLC")
    c.conform("routing", "RoutingTrace", big(c, "cch", c.pick(6, 40), c.pick(300, 900), "d", "p08b"), need=["res"], source="large graphs with certificates")
    c.conform("routing", "RoutingTrace", big(c, "cch", c.pick(40, 400), 90, "d", "p08m", per=3), need=["res"], source="medium graphs with certificates")
    c.conform("routing", "RoutingTrace", cch_tables(c, c.pick(60, 400), "d", "p08c", hi=20), need=["table"], source="seeded medium graphs")
    c.conform("routing", "RoutingTrace", huge(c, "cch", "d", "p08h", c.pick(2, 6)), need=["route"], source="road-like graphs of 70 000 nodes")


def P09(c):
    c.assumptions += ASSUME
    c.conform("routing", "RoutingTrace", cch_tables(c, c.pick(500, 6000), "da", "p09"), variant="asan", need=["table"], source="seeded small graphs")
    c.conform("routing", "RoutingTrace", multi(c, "cch", c.pick(50, 500), "p09d", what="duna", lo=12, hi=20), need=["route"], source="medium graphs, chains, many sources")
    c.conform("routing", "RoutingTrace", tiny(c, "da", "cch", limit=c.pick(1500, None)), need=["table"], source="all 3-node graphs and orders, from TLC")
    c.conform("routing", "RoutingTrace", big(c, "cch", c.pick(6, 40), c.pick(300, 900), "duna", "p09b"), need=["res"], source="large graphs with certificates")
    c.conform("routing", "RoutingTrace", big(c, "cch", c.pick(40, 400), 90, "duna", "p09m", per=3), need=["res"], source="medium graphs with certificates")
    c.conform("routing", "RoutingTrace", huge(c, "cch", "duna", "p09h", c.pick(2, 6)), need=["route"], source="road-like graphs of 70 000 nodes")


def P10(c):
    c.assumptions += ASSUME + ["OpenMP schedules are sampled on the real code; all interleavings are explored on the design model only"]
    c.model("ParCustModel", cfg="ParCustModel.cfg")
    c.model("ParCustModel", cfg="ParCustModelBroken.cfg", expect_violation="Final")
    c.model("ParCustModel", cfg="ParCustModelNoBarrier.cfg", expect_violation="Final")
    if c.thorough: c.model("ParCustModel", cfg="ParCustModelBig.cfg")
    rng = random.Random("p10-%d" % c.seed)
    out = []
    for i in range(c.pick(150, 1500)):
        g = small_graph(rng, 1, 10)
        L = pre(rng, g) + [cchline(rng, 0, 0, g[0])]
        L += ["par 0 0 " + rng.choice(["new", "reset"]), "metric 0 0 0 vec"]
        for th in rng.sample([0, 1, 2, 3, 4, 8], 3):
            L += ["pcustomize 0 0 %d" % th, "table cch 0 d"]
            if len(g[1]): L.append("weights 0 " + lst(weights(rng, len(g[1]))))
        L += ["pcustomize 0 0 2", "table cch 0 da"]
        out.append(Scenario("p10-%d" % i, L))
    c.conform("routing", "RoutingTrace", out, need=["pcustomize", "table"], source="seeded small graphs")
    out = []
    for i in range(c.pick(6, 30)):
        k = rng.randrange(c.pick(250, 500), c.pick(500, 1200))
        g = graph(rng, k, family=rng.choice(["grid", "sym", "grid"]))
        L = [graphline(0, g)]
        L += ["cch 0 0 %d %s" % (rng.randrange(2), lst(perm(rng, k) if k < 350 and rng.random() < 0.5 else nd_like(rng, g)))]
        w = weights(rng, len(g[1]), "medium")
        L += ["weights 0 " + lst(w), "par 0 0 new", "metric 0 0 0 vec"]
        for r in range(4):
            w = weights(rng, len(g[1]), rng.choice(["medium", "small", "big", "zero"]))
            L.append("weights 0 " + lst(w))
            S = [(rng.randrange(k), 0), (rng.randrange(k), 5)]
            L.append(certline(g, 0, w, S))
            for th in [rng.choice([2, 3]), 8]:
                L += ["pcustomize 0 0 %d" % th, "query 0 cch 0", "pin_t 0 " + lst(list(range(k)))] + ["src 0 %d %d" % x for x in S] + ["run_t 0", "res_t 0 d"]
        out.append(Scenario("p10b-%d" % i, L, cost=k))
    c.conform("routing", "RoutingTrace", out, need=["pcustomize", "res_t"], source="large graphs, many threads", omp=8, jobs=3, racy=True)
    c.conform("routing", "RoutingTrace", contention(c, c.pick(4, 16), c.pick(400, 4000), "p10c"), need=["pcustomize", "route"], source="contention on few arcs", omp=8, jobs=2, stall=200, racy=True)

    def par(rng, g, w, L):
        w = [rng.randrange(1, 5000) for _ in w]
        L += ["weights 0 " + lst(w), "par 0 0 new", "pcustomize 0 0 8"]
        return "cch", 0, w
    c.conform("routing", "RoutingTrace", huge(c, "cch", "d", "p10h", c.pick(2, 6), mid=par), need=["pcustomize", "route"], source="road-like graphs of 70 000 nodes", omp=8, jobs=2, racy=True)


def contention(c, count, reps, tag):
    """Many low nodes relax the same few arcs between hubs at the same time; hubs are only connected through one another."""
    rng = random.Random("%s-%d" % (tag, c.seed))
    out = []
    for i in range(count):
        H, L = 4, rng.choice([1500, 2500])
        A, n = [], L + H
        for x in range(L):
            k = rng.randrange(1, H)
            A += [(L, x), (x, L), (L + k, x), (x, L + k)]
        g = (n, [a for a, _ in A], [b for _, b in A])
        S = [(L + 1, 0)]
        L_ = [graphline(0, g)]
        w = []
        for x in range(L):
            # the later a node comes, the shorter the way over it: every relaxation writes
            b = 10 * (L - x) + rng.randrange(1, 10)
            w += [b + rng.randrange(5) for _ in range(4)]
        if i % 2:
            w = [rng.randrange(1, 100000) for _ in A]
        L_ += ["weights 0 " + lst(w), "cch 0 0 0 " + lst(list(range(n))), "par 0 0 new", "metric 0 0 0 vec", certline(g, 0, w, S)]
        for th in (2, 4, 8):
            L_.append("pstress 0 0 %d %d %d %s" % (th, reps, L + 1, lst([L, L + 2, L + 3])))
        out.append(Scenario("%s-%d" % (tag, i), L_, cost=100))
    return out


def partial(c, count, tag, hi=9):
    rng = random.Random("%s-%d" % (tag, c.seed))
    out = []
    for i in range(count):
        while True:
            g = small_graph(rng, 2, hi)
            if len(g[1]): break
        n, m = g[0], len(g[1])
        wf = rng.choice(["unit", "small", "zero", "medium", "inf", "huge"])
        w = weights(rng, m, wf)
        L = [graphline(0, g), "weights 0 " + lst(w), "weights 1 " + lst(w), cchline(rng, 0, 0, n), "metric 0 0 0 vec", "customize 0", "part 0 0 " + rng.choice(["new", "reset"])]
        cur = {0: list(w), 1: list(w)}
        att = 0
        for r in range(6):
            k = rng.choice([1, 1, 2, 3, m])
            if rng.random() < 0.2:
                # switch to the other weight vector and announce the differences
                new = 1 - att
                d = [a for a in range(m) if cur[0][a] != cur[1][a]]
                L.append("m_weights 0 %d vec" % new)
                att = new
                arcs = d
            else:
                arcs = [rng.randrange(m) for _ in range(k)]
                for a in arcs:
                    x = weights(rng, 1, wf)[0] if rng.random() < 0.7 else min(INF, max(0, cur[att][a] + rng.choice([-1, 1])))
                    cur[att][a] = x
                    L.append("setw %d %d %d" % (att, a, x))
            upd = list(arcs) + ([rng.randrange(m)] if rng.random() < 0.3 else [])
            rng.shuffle(upd)
            L += ["p_update 0 %d" % a for a in upd]
            L += ["p_customize 0 0", "table cch 0 " + rng.choice(["d", "d", "da"])]
            if rng.random() < 0.1:
                L += ["p_update 0 %d" % rng.randrange(m), "p_reset 0"]
            if rng.random() < 0.1:
                L += ["customize 0"]
        out.append(Scenario("%s-%d" % (tag, i), L))
    return out


def repart(c, count, tag):
    """one object for partial customization is moved between hierarchies, of equal arc count and not, with announcements pending"""
    rng = random.Random("%s-%d" % (tag, c.seed))
    out = []
    for i in range(count):
        while True:
            n, t, h = small_graph(rng, 3, 12)
            if len(t) > 1: break
        m = len(t)
        p = list(range(m)); rng.shuffle(p)
        how = rng.choice(["arcs", "reverse", "nodes", "other", "other"])
        if how == "arcs": g2 = (n, [t[x] for x in p], [h[x] for x in p])
        elif how == "reverse": g2 = (n, list(h), list(t))
        elif how == "nodes":
            q = list(range(n)); rng.shuffle(q)
            g2 = (n, [q[x] for x in t], [q[x] for x in h])
        else:
            while True:
                g2 = small_graph(rng, 2, 12)
                if len(g2[1]): break
        gs = [(n, t, h), g2]
        order = rgen.order(rng, n)
        orders = [order, order if how in ("arcs", "reverse") else [q[x] for x in order] if how == "nodes" else rgen.order(rng, g2[0])]
        filt = rng.randrange(2)
        L = []
        W = []
        for k in range(2):
            W.append(weights(rng, len(gs[k][1]), rng.choice(["small", "medium", "inf"])))
            L += [graphline(k, gs[k]), "weights %d %s" % (k, lst(W[k])), "cch %d %d %d %s" % (k, k, filt, lst(orders[k])), "metric %d %d %d vec" % (k, k, k), "customize %d" % k]
        L.append("part 0 0 " + rng.choice(["new", "reset"]))
        for r in range(5):
            k = r % 2 if rng.random() < .9 else 1 - r % 2
            L.append("part 0 %d reset" % k)
            for a in rng.sample(range(len(W[k])), rng.choice([1, 1, 2, len(W[k])]) if len(W[k]) > 1 else 1):
                L += ["setw %d %d %d" % (k, a, rng.choice([0, 1, 7, 90, 1000, INF])), "p_update 0 %d" % a]
            L += ["p_customize 0 %d" % k, "table cch %d d" % k]
            if rng.random() < .5:
                # pending announcements, meaningless for the next hierarchy
                L += ["p_update 0 %d" % a for a in rng.sample(range(len(W[k])), rng.randrange(1, len(W[k]) + 1))]
        out.append(Scenario("%s-%d" % (tag, i), L))
    return out


def P11(c):
    c.assumptions += ASSUME
    c.model("CCHModel", cfg="CCHPartial3.cfg")
    if c.thorough: c.model("CCHModel", cfg="CCHPartial4.cfg", timeout=800)
    c.conform("routing", "RoutingTrace", partial(c, c.pick(500, 5000), "p11"), variant="asan", need=["p_customize", "table"], source="seeded")
    c.conform("routing", "RoutingTrace", partial(c, c.pick(60, 500), "p11b", hi=16), need=["p_customize", "table"], source="seeded, medium")
    c.conform("routing", "RoutingTrace", repart(c, c.pick(120, 1500), "p11r"), variant="asan", need=["p_customize", "table"], source="moved between hierarchies")
    c.conform("routing", "RoutingTrace", hists(c, "cch", c.pick(200, 2000), 500, 6, "p11g", what="d"), variant="asan", need=["p_customize", "res"], source="TLC histories")

    def part(rng, g, w, L):
        w = list(w)
        L.append("part 0 0 new")
        for r in range(2):
            for a in rng.sample(range(len(w)), rng.choice([1, 300])) + ([len(w) - 1] if r else []):
                w[a] = rng.choice([0, INF, rng.randrange(1, 20), rng.randrange(1, 100000)])
                L += ["setw 0 %d %d" % (a, w[a]), "p_update 0 %d" % a]
            L.append("p_customize 0 0")
        return "cch", 0, w
    c.conform("routing", "RoutingTrace", huge(c, "cch", "d", "p11h", c.pick(1, 4), mid=part), need=["p_customize", "route"], source="road-like graphs of 70 000 nodes")


def P12(c):
    c.assumptions += ASSUME
    c.model("CCHModel", cfg="CCHPerfect3.cfg")
    rng = random.Random("p12-%d" % c.seed)
    out = []
    for i in range(c.pick(400, 5000)):
        g = small_graph(rng, 0 if rng.random() < 0.03 else 1, 9)
        L = pre(rng, g) + [cchline(rng, 0, 0, g[0]), "metric 0 0 0 vec"]
        if rng.random() < 0.5: L.append("customize 0")
        L += ["perfect 0 0", "perfect_dump 0 0", "table ch 0 da", "table cch 0 da"]
        if rng.random() < 0.4 and len(g[1]):
            a = rng.randrange(len(g[1]))
            L += ["setw 0 %d %d" % (a, rng.randrange(20)), "part 0 0 new", "p_update 0 %d" % a, "p_customize 0 0", "table cch 0 da"]
        if rng.random() < 0.3:
            L += ["ch_alias 1 0 stream", "table ch 1 da"]
        L += ["weights 0 " + lst(weights(rng, len(g[1]))), "perfect 2 0", "perfect_dump 2 0", "table ch 2 d", "table ch 0 d"] if len(g[1]) else []
        out.append(Scenario("p12-%d" % i, L))
    c.conform("routing", "RoutingTrace", out, variant="asan", need=["perfect", "table"], source="seeded")

    # filtered hierarchies are not chordal; sparse directed graphs and arbitrary orders on which that shows
    out = []
    for i in range(c.pick(120, 2000)):
        n = rng.randrange(14, 90)
        g = sparse(rng, n)
        w = weights(rng, len(g[1]), rng.choice(["small", "zero", "medium"]))
        L = [graphline(0, g), "weights 0 " + lst(w), "cch 0 0 %d %s" % (rng.random() < .85, lst(rng.sample(range(n), n))), "metric 0 0 0 vec", "perfect 0 0", "query 0 ch 0"]
        for _ in range(4):
            s = rng.randrange(n)
            L.append(certline(g, 0, w, [(s, 0)]))
            for _ in range(6):
                L += ["q_reset 0", "src 0 %d 0" % s, "tgt 0 %d 0" % rng.randrange(n), "run 0", "res 0 " + rng.choice(["d", "da", "dna"])]
        out.append(Scenario("p12s-%d" % i, L, cost=n))
    c.conform("routing", "RoutingTrace", out, need=["perfect", "res"], source="sparse directed graphs, filtered")
    out = []
    for i in range(c.pick(100, 1500)):
        g = sparse(rng, rng.randrange(8, 25)) if i % 2 else graph(rng, rng.randrange(8, 25))
        L = [graphline(0, g), "weights 0 " + lst(weights(rng, len(g[1]), rng.choice(["small", "zero", "medium", "inf"]))), "cch 0 0 %d %s" % (rng.random() < .3, lst(rng.sample(range(g[0]), g[0])))]
        out.append(Scenario("p12d-%d" % i, L + ["metric 0 0 0 vec", "perfect 0 0", "perfect_dump 0 0"]))
    c.conform("routing", "RoutingTrace", out, need=["perfect_dump"], source="contents of extracted hierarchies")

    def perf(rng, g, w, L):
        L.append("perfect 1 0")
        return "ch", 1, w
    c.conform("routing", "RoutingTrace", huge(c, "cch", "duna", "p12h", c.pick(1, 4), mid=perf), need=["perfect", "route"], source="road-like graphs of 70 000 nodes")


def P13(c):
    c.assumptions += ASSUME
    rng = random.Random("p13-%d" % c.seed)
    out = []
    for i in range(c.pick(250, 2500)):
        n = rng.randrange(1, 8)
        gs = [graph(rng, n), graph(rng, n), graph(rng, rng.randrange(1, 8))]
        L = []
        W = {0: [], 1: [], 2: []}
        k = 0
        for j, g in enumerate(gs):
            L.append(graphline(j, g))
            for _ in range(2):
                L.append("weights %d %s" % (k, lst(weights(rng, len(g[1]))))); W[j].append(k); k += 1
            L.append("cch %d %d %d %s" % (j, j, rng.randrange(2), lst(perm(rng, g[0]))))
        owner = {0: 0, 1: 1, 2: 2}
        nc = 3
        for mode in rng.sample(["copy", "copydrop", "assign", "move"], 2):
            old = rng.choice([x for x in owner])
            L.append("cch_alias %d %d %s" % (nc, old, mode)); owner[nc] = owner[old]
            if mode in ("copydrop", "move"): del owner[old]
            nc += 1
        live = list(owner)
        c0 = rng.choice(live); w0 = rng.choice(W[owner[c0]])
        L += ["metric 0 %d %d %s" % (c0, w0, rng.choice(["vec", "ptr", "default"])), "customize 0", "query 0 cch 0", "query0 1 cch", "q_rebind 1 0"]
        cur = [c0, None]
        c1 = rng.choice(live)
        L += ["metric 1 %d %d vec" % (c1, rng.choice(W[owner[c1]])), "customize 1"]
        mc = {0: c0, 1: c1}
        qm = {0: 0, 1: 0}
        qc = {0: c0, 1: c0}
        for r in range(8):
            m = rng.randrange(2)
            op = rng.random()
            if op < 0.35:
                x = rng.choice(live); mc[m] = x
                L += ["m_rebind %d %d %d %s" % (m, x, rng.choice(W[owner[x]]), rng.choice(["vec", "ptr"])), "customize %d" % m]
            elif op < 0.65:
                L += ["m_weights %d %d %s" % (m, rng.choice(W[owner[mc[m]]]), rng.choice(["vec", "ptr"])), "customize %d" % m]
            elif op < 0.75:
                L += ["par 0 %d reset" % mc[m], "pcustomize 0 %d 2" % m]
            q = rng.randrange(2)
            if rng.random() < 0.6 or qc[q] != mc[qm[q]]:
                mm = rng.randrange(2); qm[q] = mm; qc[q] = mc[mm]
                L.append("q_rebind %d %d" % (q, mm))
            else:
                L.append("q_reset %d" % q)
            n = gs[owner[mc[qm[q]]]][0]
            if rng.random() < 0.3:
                # leave the query in a pinned state before the next rebind
                L += ["pin_t %d %s" % (q, lst([rng.randrange(n) for _ in range(3)])), "src %d %d 0" % (q, rng.randrange(n)), "run_t %d" % q, "res_t %d d" % q]
            else:
                L += ["src %d %d %d" % ((q,) + x) for x in seeds(rng, n)] + ["tgt %d %d %d" % ((q,) + x) for x in seeds(rng, n)] + ["run %d" % q, "res %d duna" % q]
            L.append("table cch %d d" % qm[q])
        out.append(Scenario("p13-%d" % i, L))
    c.conform("routing", "RoutingTrace", out, variant="asan", need=["m_rebind", "m_weights", "q_rebind", "res", "cch_alias"], source="seeded")
    c.conform("routing", "RoutingTrace", hists(c, "all", c.pick(300, 3000), 500, 6, "p13g"), variant="asan", need=["m_rebind", "res"], source="TLC histories")


# ------------------------------------------------------------------ P14: Dijkstra
def P14(c):
    c.assumptions += ["path lengths stay below inf_weight", "each source is added at most once", "time dependent weights satisfy the FIFO property"]
    c.model("DijkstraModel", cfg=c.pick("DijkstraModel.cfg", "DijkstraModelBig.cfg"))
    rng = random.Random("p14-%d" % c.seed)
    out = []
    for i in range(c.pick(500, 5000)):
        gs = [sorted_graph(small_graph(rng, 1, 10)) for _ in range(2)]
        L = []
        for j, g in enumerate(gs):
            L.append(graphline(j, g))
            L.append("weights %d %s" % (j, lst(weights(rng, len(g[1]), rng.choice(["unit", "small", "zero", "medium", "inf", "big"])))))
        first = True
        for r in range(rng.choice([1, 2, 3])):
            j = rng.randrange(2)
            n = gs[j][0]
            L.append("dij 0 %d %s" % (j, rng.choice(["new", "default"]) if first else rng.choice(["reset", "resetg", "new"])))
            first = False
            for s in rng.sample(range(n), min(n, rng.choice([1, 1, 2, 3]))):
                L.append("d_src 0 %d %d" % (s, rng.choice([0, 0, rng.randrange(20)])))
            per = rng.choice([0, 0, 0, 3, 10])
            if rng.random() < 0.5:
                k = rng.randrange(1, n + 1)
                L += ["settle 0 %d %d %d" % (j, per, k), "d_state 0 p"]
            if rng.random() < 0.85:
                L += ["settle 0 %d %d 1000" % (j, per), "d_state 0 p"]
        out.append(Scenario("p14-%d" % i, L))
    c.conform("routing", "RoutingTrace", out, variant="asan", need=["settle", "d_state"], source="seeded")
    out = []
    for i in range(c.pick(10, 80)):
        g = sorted_graph(graph(rng, rng.randrange(2, 8)))
        L = [graphline(0, g), "weights 0 " + lst(weights(rng, len(g[1]), "medium")), "dij 0 0 new", "d_src 0 %d 0" % rng.randrange(g[0]), "settle 0 0 0 100"]
        for r in range(4):
            L += ["dij 0 0 reset"] * 1
            L += ["d_src 0 %d 0" % rng.randrange(g[0]), "settle 0 0 0 %d" % rng.randrange(1, 20), "d_state 0 p"]
        # wrap the time stamps
        L = L[:4] + ["settle 0 0 0 100"] + ["d_wrap 0 %d" % rng.choice([65534, 65535, 65536])] + L[5:]
        out.append(Scenario("p14w-%d" % i, L))
    c.conform("routing", "RoutingTrace", out, need=["settle", "d_state"], source="time stamp wrap-around")
    out = huge(c, "dij", "", "p14h", c.pick(2, 8), sort=True)
    for i in range(c.pick(20, 200)):
        g = sorted_graph(big_graph(rng, rng.randrange(30, 600)))
        w = weights(rng, len(g[1]), rng.choice(["unit", "small", "zero", "medium", "inf"]))
        L = [graphline(0, g), "weights 0 " + lst(w), "dij 0 0 new"]
        for r in range(2):
            S = [(x, rng.choice([0, 0, rng.randrange(30)])) for x in rng.sample(range(g[0]), rng.choice([1, 2, 5]))]
            L += [certline(g, 0, w, S)] + ["d_src 0 %d %d" % x for x in S] + ["d_all 0 0 " + lst([rng.randrange(g[0]) for _ in range(6)])]
        out.append(Scenario("p14b-%d" % i, L, cost=len(w) // 10))
    c.conform("routing", "RoutingTrace", out, need=["d_all"], source="large graphs with certificates")


# ------------------------------------------------------------------ P33: concurrent queries
def P33(c):
    c.assumptions += ASSUME + ["thread schedules are those the operating system produces"]
    rng = random.Random("p33-%d" % c.seed)
    out = []
    for i in range(c.pick(40, 300)):
        g = graph(rng, rng.randrange(5, 20))
        L = pre(rng, g) + [chline(rng, 0, 0, 0, g[0]), cchline(rng, 0, 0, g[0]), "metric 0 0 0 vec", "customize 0"]
        k = 40
        L.append("concurrent 4 %d 20 " % k + " ".join("%s 0 %s %s %s" % (rng.choice(["ch", "cch"]), seedstr(seeds(rng, g[0])), seedstr(seeds(rng, g[0])), rng.choice(["duna", "duna", "t", "s"])) for _ in range(k)))
        out.append(Scenario("p33-%d" % i, L, cost=60))
    tog = []
    for i in range(c.pick(30, 250)):
        g = graph(rng, rng.randrange(4, 16))
        L = pre(rng, g) + ["weights %d %s" % (k, lst(weights(rng, len(g[1])))) for k in (1, 2)] + [cchline(rng, 0, 0, g[0])]
        L += ["metric %d 0 %d vec" % (k, k) for k in range(3)]
        P = ["customize 0", rng.choice(["customize 1", "perfect 1 1"]), rng.choice(["customize 2", "perfect 2 2"]), "build 3 0 1 500", "ordered 4 0 2 %s 500" % lst(rgen.order(rng, g[0])), "cch 1 0 %d %s" % (rng.randrange(2), lst(rgen.order(rng, g[0])))]
        rng.shuffle(P)
        L.append("together %d %s" % (len(P), " ".join(P)))
        L += ["table cch 0 d", "table ch 3 da", "table ch 4 da", "metric 3 1 2 vec", "customize 3", "table cch 3 d"]
        for k in (1, 2):
            L.append("table ch %d da" % k if "perfect %d %d" % (k, k) in P else "table cch %d da" % k)
        tog.append(Scenario("p33t-%d" % i, L, cost=60))
    c.conform("routing", "RoutingTrace", out, need=["route", "run_t", "run_s"], source="seeded", jobs=3, racy=True)
    c.conform("routing", "RoutingTrace", tog, need=["table"], source="independent constructions and customizations at the same time", jobs=3, racy=True)
    if c.tsan("routing"):
        c.conform("routing", "RoutingTrace", tog[:c.pick(8, 60)], variant="tsan", need=["table"], source="same, thread sanitizer", jobs=3, stall=200, racy=True)
        c.conform("routing", "RoutingTrace", out[:c.pick(8, 60)], variant="tsan", need=["route"], source="seeded, thread sanitizer", jobs=3, stall=200, racy=True)


def edits(rng, n):
    k = rng.choice([1, 1, 1, 2])
    r = []
    for _ in range(k):
        f = rng.choice(["rank", "order"] + [x + y for x in "fb" for y in ("first", "head", "w", "a", "b", "orig")] * 2)
        op = rng.choice(["set", "set", "set", "add", "swap", "push", "pop"])
        v = rng.choice([0, 1, n - 1 if n else 0, n, n + 1, rng.randrange(12), rng.randrange(1 << 20)] + ([4294967295] if f[1:] != "w" and op == "set" else []))
        if op == "add": v = rng.choice([1, 1, 2, 5])
        r += [f, op, str(rng.randrange(1000)), str(v)]
    return "%d %s" % (k, " ".join(r))


def P37(c):
    c.assumptions += ASSUME + ["sizes of first_out and of the bit vectors are consistent with the memory they own"]
    rng = random.Random("p37-%d" % c.seed)
    out = []
    for i in range(c.pick(500, 6000)):
        g = small_graph(rng, 0 if rng.random() < 0.05 else 1, rng.choice([4, 9, 16]))
        if i % 40 == 0: g = (0, [], []) if i % 80 else (3, [], [])
        L = ["log %d" % (rng.random() < .2 or i % 40 == 0)] + pre(rng, g)
        if rng.random() < .65: L.append(chline(rng, 0, 0, 0, g[0]))
        else: L += [cchline(rng, 0, 0, g[0]), "metric 0 0 0 vec", "customize 0"][:3 if rng.random() < .5 else 2] + ["perfect 0 0"]
        L.append("ch_dump 0 0")
        if rng.random() < .3: L += ["ch_alias 1 0 " + rng.choice(["stream", "file", "func", "copy", "assign"]), "ch_dump 1 0"]
        L += ["ch_dump 0 " + edits(rng, g[0]) for _ in range(8)]
        out.append(Scenario("p37-%d" % i, L))
    c.conform("routing", "RoutingTrace", out, variant="asan", need=["ch_dump"], source="seeded small graphs, hierarchies edited in every field")
    out = []
    for i in range(c.pick(8, 60)):
        g = graph(rng, rng.choice([60, 120, 200])) if i % 2 else sparse(rng, rng.randrange(20, 80))
        L = pre(rng, g) + [chline(rng, 0, 0, 0, g[0]) if rng.random() < .6 else "\n".join([cchline(rng, 0, 0, g[0]), "metric 0 0 0 vec", "perfect 0 0"])]
        L = "\n".join(L).split("\n") + ["ch_dump 0 0"]
        out.append(Scenario("p37b-%d" % i, L, cost=80))
    c.conform("routing", "RoutingTrace", out, need=["ch_dump"], source="larger graphs")


def P38(c):
    c.assumptions += ASSUME
    c.model("CCHModel", cfg="CCHModel3.cfg")
    rng = random.Random("p38-%d" % c.seed)

    def scenario(name, g, cost=None, rounds=3):
        n, m = g[0], len(g[1])
        wf = rng.choice([None, "unit", "zero", "inf", "huge", "medium"])
        w = weights(rng, m, wf)
        L = [graphline(0, g), "weights 0 " + lst(w), cchline(rng, 0, 0, n), "cch_dump 0"]
        top = 0
        if rng.random() < .35:
            # the source of an alias is empty or gone afterwards for these, so only the copy is looked at
            mode = rng.choice(["copy", "copydrop", "assign", "move"])
            L += ["cch_alias 1 0 " + mode, "cch_dump 1"]
            top = 1
        L += ["metric 0 %d 0 %s" % (top, rng.choice(["vec", "ptr", "default"]))]
        L += [rng.choice(["customize 0", "par 0 %d new\npcustomize 0 0 %d" % (top, rng.choice([0, 1, 2, 3, 8])), "perfect 0 0"]), "m_dump 0"]
        L.append("part 0 %d new" % top)
        for r in range(rounds):
            k = rng.choice([0, 1, 1, 2, m]) if m else 0
            for a in [rng.randrange(m) for _ in range(min(k, 40))]:
                w[a] = rng.choice([0, INF, w[a], max(0, w[a] - 1), min(INF, w[a] + 1), weights(rng, 1, wf)[0]])
                L += ["setw 0 %d %d" % (a, w[a]), "p_update 0 %d" % a]
            L.append(rng.choice(["p_customize 0 0", "p_customize 0 0", "customize 0\np_reset 0", "pcustomize 0 0 2\np_reset 0", "perfect %d 0\np_reset 0" % (r + 1)]))
            if "pcustomize" in L[-1]: L.insert(len(L) - 1, "par 0 %d reset" % top)
            L.append("m_dump 0")
        return Scenario(name, "\n".join(L).split("\n"), cost=cost)
    out = []
    for i in range(c.pick(600, 6000)):
        g = small_graph(rng, 0 if rng.random() < .05 else 1, rng.choice([4, 9, 16]), deep=rng.random() < .1)
        if i % 100 == 0: g = [(0, [], []), (3, [], []), (1, [0], [0]), (3, [1, 1], [1, 1])][i // 100 % 4]
        out.append(scenario("p38-%d" % i, g))
    c.conform("routing", "RoutingTrace", out, variant="asan", need=["cch_dump", "m_dump"], source="seeded small graphs and orders")
    out = [scenario("p38b-%d" % i, graph(rng, rng.choice([40, 66, 70])), cost=120, rounds=1) for i in range(c.pick(16, 200))]
    c.conform("routing", "RoutingTrace", out, need=["cch_dump", "m_dump"], source="larger graphs")
