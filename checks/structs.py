"""Checks for the container classes (specification: Structs.tla, StructsTrace.tla, StructsGen.tla; design models HeapModel, SetQueueModel)."""
import itertools, random
from vf import Scenario
from rgen import lst

ASSUME = ["ids and positions are in range, elements pushed into MinIDQueue are not contained, elements whose key is changed are",
          "the correspondence between script operations and library calls in harness/structs.cpp"]
KEYS = ["keys 6 0 1 5 2147483647 2147483648 4294967295", "keys 8 0 1 2 3 4 5 6 7", "keys 3 0 1 2",
        "keys 10 0 1 100 1000 65535 65536 2147483646 2147483648 4294967294 4294967295"]


def gen(c, focus, num, depth, maxn):
    H = c.generate("StructsGen", args=["-simulate", "num=%d" % num, "-depth", str(depth + 10), "-seed", str(c.seed * 7919 + ord(focus))],
                   env={"DEPTH": str(depth), "MAXN": str(maxn), "FOCUS": focus})
    return [Scenario("tlc-%s-%d" % (focus, i), [x.replace('"', "") for x in h]) for i, h in enumerate(H)]


def heap_history(rng, i, n, length):
    kl = rng.choice(KEYS)
    kc = int(kl.split()[1])
    L = [kl, "q_new 0 %d" % n]
    mode = rng.choice(["mixed", "fill-drain", "ties", "inc", "dec"])
    for _ in range(length):
        id = rng.randrange(n)
        k = rng.randrange(kc) if mode != "ties" else rng.randrange(2)
        r = rng.random()
        if mode == "fill-drain":
            if r < 0.02:
                L += ["q_push 0 %d %d" % (x, rng.randrange(kc)) for x in rng.sample(range(n), n)]
                L += ["q_%s 0 %d %d" % (rng.choice(["inc", "dec"]), rng.randrange(n), rng.randrange(kc)) for _ in range(n)]
                L += ["q_pop 0"] * rng.choice([n, n - 1, n // 2])
            continue
        wt = {"mixed": (0.35, 0.6, 0.8), "ties": (0.4, 0.6, 0.8), "inc": (0.3, 0.4, 0.95), "dec": (0.3, 0.9, 0.95)}[mode]
        if r < wt[0]:
            L.append("q_push 0 %d %d" % (id, k))
        elif r < wt[1]:
            L.append("q_dec 0 %d %d" % (id, k))
        elif r < wt[2]:
            L.append("q_inc 0 %d %d" % (id, k))
        elif r < 0.99:
            L.append("q_pop 0")
        else:
            L.append("q_clear 0")
    L += ["q_pop 0"] * n
    return Scenario("heap-%d" % i, L)


def P15(c):
    c.assumptions += ASSUME
    c.model("HeapModel")
    c.model("HeapModel", "HeapModelBig.cfg")
    rng = random.Random("P15-%d" % c.seed)
    need = ["q_push", "q_pop", "q_dec", "q_inc", "q_clear", "q_swap", "q_copy"]
    sc = gen(c, "q", c.pick(150, 1500), 80, c.pick(7, 12))
    c.conform("structs", "StructsTrace", sc, source="tlc-simulate", need=need)
    sizes = [1, 2, 3, 4, 5, 6, 7, 9, 16, 21, 22, 23, 40, 85, 86, 100]
    sc = [heap_history(rng, i, sizes[i % len(sizes)], c.pick(120, 400)) for i in range(c.pick(96, 800))]
    c.conform("structs", "StructsTrace", sc, source="seeded", variant="asan", need=need[:5])
    # every sequence of pushes of a small queue in every order followed by a full drain
    sc = []
    perms = list(itertools.permutations(range(5)))
    for i, p in enumerate(perms):
        for ks in rng.sample(list(itertools.product(range(3), repeat=5)), c.pick(6, 60)):
            sc.append(Scenario("perm-%d" % len(sc), [KEYS[2], "q_new 0 5"] + ["q_push 0 %d %d" % (x, k) for x, k in zip(p, ks)] + ["q_pop 0"] * 5))
    c.conform("structs", "StructsTrace", sc, source="all push orders of five elements")
    # queues of tens of thousands of elements, filled so that elements rise and sink through all levels
    sc = []
    for i in range(c.pick(6, 30)):
        n = rng.choice([5000, 22000, 40000, 66000, 70000, 100000]) if i % 3 else 90000 + rng.randrange(20000)
        L = ["keysr %d %d %d" % (n, rng.choice([0, 5, 1 << 31]), rng.choice([1, 3])), "q_new 0 %d" % n]
        ids = rng.sample(range(n), n)
        mode = i % 3
        ks = sorted((rng.randrange(n) for _ in range(n)), reverse=True) if mode == 0 else [rng.randrange(n) for _ in range(n)] if mode == 1 else [n - 1 - k % 97 for k in range(n)]
        cut = n * 4 // 5
        L.append("q_pushq 0 %s %s" % (lst(ids[:cut]), lst(ks[:cut])))
        L.append("q_popq 0 %d" % rng.choice([10, n // 20]))
        L.append("q_pushq 0 %s %s" % (lst(ids[cut:]), lst(ks[cut:])))
        sub = rng.sample(range(n), n // 10)
        L.append("q_keyq 0 1 %s %s" % (lst(sub), lst([rng.randrange(n) for _ in sub])))
        sub = rng.sample(range(n), n // 10)
        L.append("q_keyq 0 0 %s %s" % (lst(sub), lst([rng.randrange(n) for _ in sub])))
        L.append("q_popq 0 %d" % n)
        sc.append(Scenario("big-%d" % i, L, cost=n))
    c.conform("structs", "StructsTrace", sc, source="large queues", need=["q_pushq", "q_popq", "q_keyq"])


def setq_history(rng, i, n, length):
    L = ["s_new 0 %d" % n]
    lo = 0
    for _ in range(length):
        r = rng.random()
        if r < 0.5 and n:
            L.append("s_push 0 %d" % rng.choice([rng.randrange(n), n - 1, 0, rng.randrange(max(1, n // 2))]))
        elif r < 0.95:
            L.append("s_pop 0")
        elif r < 0.98:
            L.append("s_clear 0")
        else:
            L += ["s_copy 1 0", "s_pop 1", "s_obs 0", "s_assign 0 1"]
    return Scenario("setq-%d" % i, L)


def P16(c):
    c.assumptions += ASSUME
    c.model("SetQueueModel")
    if c.thorough:
        c.model("SetQueueModel", "SetQueueModelBig.cfg")
    rng = random.Random("P16-%d" % c.seed)
    need = ["s_push", "s_pop", "s_clear"]
    sc = gen(c, "s", c.pick(150, 1500), 80, c.pick(9, 17))
    c.conform("structs", "StructsTrace", sc, source="tlc-simulate", need=need + ["s_copy"])
    sizes = list(range(0, 20)) + [31, 32, 33, 48, 63, 64, 65, 127, 128, 129, 200]
    sc = [setq_history(rng, i, sizes[i % len(sizes)], c.pick(80, 300)) for i in range(c.pick(124, 900))]
    c.conform("structs", "StructsTrace", sc, source="seeded", variant="asan", need=need)
    # every subset of up to 7 ids, pushed in a random order and drained, twice on the same object
    sc = []
    for n in range(1, c.pick(8, 11)):
        L = ["s_new 0 %d" % n]
        for bits in range(1 << n):
            ids = [x for x in range(n) if bits >> x & 1]
            rng.shuffle(ids)
            L.append("s_pushq 0 %s" % lst(ids))
            L.append("s_obs 0")
            L.append("s_popq 0 %d" % (len(ids) + rng.randrange(2)) if rng.random() < 0.9 else "s_clear 0")
        sc.append(Scenario("subsets-%d" % n, L))
    for n in (500, 1000, 1023, 1024, 1025, 4097):
        L = ["s_new 0 %d" % n]
        for _ in range(c.pick(12, 60)):
            L.append("s_pushq 0 " + lst([rng.randrange(n) for _ in range(rng.randrange(1, 200))]))
            L.append("s_popq 0 %d" % rng.randrange(150))
        sc.append(Scenario("large-%d" % n, L))
    c.conform("structs", "StructsTrace", sc, source="all subsets, large universes", variant="asan", need=["s_pushq", "s_popq"])
    sc = []
    for n in c.pick([rng.choice([66000, 70000]), 131072, 131073, 300000], [65536, 65537, 66000, 131072, 131073, 140000, 262144, 300000, 1000000, 2100000]):
        L = ["s_new 0 %d" % n]
        a = rng.randrange(n // 2)
        L += ["s_pushq 0 " + lst([rng.randrange(n) for _ in range(3000)] + [n - 1, n - 2]), "s_popq 0 2500", "s_pushq 0 " + lst([rng.randrange(n) for _ in range(3000)]),
              "s_popq 0 4000", "s_obs 0", "s_pushr 0 %d %d %d" % (a, n, rng.choice([2, 3, 7])), "s_copy 1 0", "s_popq 1 1000", "s_clear 0", "s_pushq 0 " + lst([0, n - 1, n // 2]), "s_popq 0 5", "s_popq 1 %d" % n, "s_obs 1"]
        sc.append(Scenario("huge-%d" % n, L, cost=n))
    c.conform("structs", "StructsTrace", sc, source="universes of up to 300 000 ids", need=["s_pushq", "s_popq"])


SIZES = [0, 1, 2, 7, 8, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 191, 192, 255, 256, 257, 320, 383, 384, 447, 448, 449, 510, 511, 512, 513, 514, 575, 576,
         577, 640, 767, 768, 1000, 1023, 1024, 1025, 1100, 1535, 1536, 1537, 2047, 2048, 2049]


def rbits(rng, n):
    if n == 0:
        return []
    m = rng.choice(["none", "few", "half", "most", "all", "edge", "one", "allbutone"])
    if m == "none":
        return []
    if m == "few":
        return sorted(rng.sample(range(n), min(n, rng.randrange(1, 5))))
    if m == "half":
        return [x for x in range(n) if rng.random() < 0.5]
    if m == "most":
        return [x for x in range(n) if rng.random() < 0.95]
    if m == "all":
        return list(range(n))
    if m == "one":
        return [rng.choice([0, n - 1, rng.randrange(n)])]
    if m == "allbutone":
        x = rng.choice([0, n - 1, rng.randrange(n)])
        return [y for y in range(n) if y != x]
    return sorted({x for b in (0, 64, 512, n) for x in (b - 1, b, b + 1) if 0 <= x < n})


def bit_pairs(c):
    """resize, growing and logic operations between all the interesting sizes, from every kind of content and provenance"""
    rng = random.Random("P17-%d" % c.seed)
    out = []
    pairs = [(a, b) for a in SIZES for b in SIZES]
    rng.shuffle(pairs)
    pairs = pairs[:c.pick(700, len(pairs))]
    for i, (a, b) in enumerate(pairs):
        L = []
        how = rng.choice(["make", "new", "newu", "copy", "resized", "empty"])
        bits = rbits(rng, a)
        if how == "make":
            L.append("b_make 0 %d %s" % (a, lst(bits)))
        elif how == "new":
            L.append("b_new 0 %d %s" % (a, rng.choice("01d")))
        elif how == "newu":
            L.append("b_new 0 %d u" % a)
        elif how == "copy":
            L += ["b_make 1 %d %s" % (a, lst(bits)), "b_copy 0 1 " + rng.choice(["ctor", "assign", "move", "moveassign"])]
        elif how == "resized":
            x = rng.choice(SIZES)
            L += ["b_make 0 %d %s" % (x, lst(rbits(rng, x))), "b_resize 0 %d %s" % (a, rng.choice("01d"))]
        else:
            L += ["b_new 0 0 e", "b_resize 0 %d %s" % (a, rng.choice("01du"))]
        if rng.random() < 0.4 and a:
            L.append("b_all 0 " + rng.choice(["set", "reset", "set0", "set1", "not"]))
        for _ in range(rng.randrange(4)):
            if a:
                L.append("b_bit 0 %s %d" % (rng.choice(["set", "reset", "toggle", "set0", "set1", "if0", "if1"]), rng.choice([0, a - 1, rng.randrange(a), (a - 1) // 64 * 64])))
        L.append("b_resize 0 %d %s" % (b, rng.choice("0011du")) if rng.random() < 0.75 or b == 0 else "b_grow 0 %d %s" % (b, rng.choice("01du")))
        n = b
        if rng.random() < 0.5 and L[-1].startswith("b_resize"):
            L += ["b_make 1 %d %s" % (n, lst(rbits(rng, n))), "b_in 0 %s 1" % rng.choice(["or", "and", "xor"]), "b_inv 2 0", "b_bin 3 1 %s 2 %s" % (rng.choice(["or", "and", "xor"]), rng.choice(["ll", "lr", "rl", "rr"])),
                  "b_cmp 4 0 1 2 3"]
        L.append("b_all 0 not")
        L.append("b_obs 0")
        out.append(Scenario("bits-%d" % i, L, cost=a + b + 20))
    return out


def bit_order(c):
    rng = random.Random("P17o-%d" % c.seed)
    out = []
    for i in range(c.pick(60, 400)):
        n = rng.choice(SIZES)
        L = []
        base = rbits(rng, n)
        for k in range(5):
            m = set(base)
            for _ in range(rng.randrange(3)):
                if n:
                    m ^= {rng.choice([0, n - 1, rng.randrange(n)])}
            L.append("b_make %d %d %s" % (k, n if rng.random() < 0.85 else rng.choice(SIZES[:12]), "0"))
            nn = int(L[-1].split()[2])
            L[-1] = "b_make %d %d %s" % (k, nn, lst(sorted(x for x in m if x < nn)))
        L.append("b_cmp 5 0 1 2 3 4")
        out.append(Scenario("order-%d" % i, L, cost=n + 20))
    return out


def bit_large(c):
    """tens of thousands of bits: differences in late blocks only, populations beyond 65 535"""
    rng = random.Random("P17l-%d" % c.seed)
    out = []
    for i in range(c.pick(8, 60)):
        n = rng.choice([20480, 20481, 33000, 40959, 66047, 70001, 131072, 131073, 200000])
        lo = n - rng.randrange(1, 1500) if rng.random() < 0.5 else rng.randrange(n)
        late = sorted({rng.choice([n - 1, rng.randrange(lo, n), lo]) for _ in range(6)})
        L = []
        if i % 4 == 0:
            L += ["b_new 0 %d 1" % n, "b_bit 0 reset %d" % late[0], "b_copy 1 0 ctor", "b_bit 1 toggle %d" % late[-1], "b_cmp 2 0 1", "b_in 1 xor 0", "b_all 0 not", "b_obs 0"]
        elif i % 4 == 1:
            L += ["b_make 0 %d %s" % (n, lst(late)), "b_make 1 %d %s" % (n, lst(late[:-1])), "b_cmp 2 0 1", "b_bin 2 0 and 1 ll", "b_in 1 or 0", "b_cmp 3 0 1 2", "b_in 0 xor 2", "b_cmp 3 0 1 2"]
        elif i % 4 == 2:
            m = max(1, n - rng.choice([1, 511, 512, 513, 5000, n // 2]))
            L += ["b_make 0 %d %s" % (n, lst(late)), "b_copy 1 0 assign", "b_resize 1 %d %s" % (m, rng.choice("01d")), "b_resize 1 %d %s" % (n, rng.choice("01")), "b_in 1 and 0", "b_resize 0 %d %s" % (n + rng.choice([1, 512, 3000]), rng.choice("01"))]
        else:
            step = rng.choice([2, 3, 64, 513])
            bits = list(range(rng.randrange(step), n, step))
            dense = list(range(rng.randrange(2), n, rng.choice([1, 2])))
            L += ["b_make 3 %d %s" % (n, lst(dense)), "b_make 4 %d 0" % n, "b_in 4 %s 3" % ("or", "xor")[i // 4 % 2], "b_cmp 2 3 4"]
            L += ["b_make 0 %d %s" % (n, lst(bits)), "b_make 1 %d %s" % (n, lst(sorted(set(late)))), "b_bin 2 0 %s 1 %s" % (rng.choice(["or", "and", "xor"]), rng.choice(["ll", "lr", "rl", "rr"])), "b_grow 2 %d 1" % (n + rng.randrange(2000)), "b_cmp 2 0 1"]
        out.append(Scenario("late-%d" % i, L, cost=n * len(L)))
    return out


def P17(c):
    c.assumptions += ASSUME + ["operands of |=, ^= and &= have the same size; a moved-from vector is only assigned to or destroyed"]
    need = ["b_new", "b_bit", "b_all", "b_resize", "b_in", "b_bin", "b_inv", "b_copy", "b_cmp"]
    sc = gen(c, "b", c.pick(60, 600), 60, 0)
    for s in sc:
        s.cost = 1000
    c.conform("structs", "StructsTrace", sc, source="tlc-simulate", need=need)
    c.conform("structs", "StructsTrace", bit_pairs(c) + bit_order(c), source="seeded", variant="asan", need=need + ["b_grow", "b_make"])
    c.conform("structs", "StructsTrace", bit_large(c), source="large vectors", need=["b_make", "b_cmp"])


def P18(c):
    c.assumptions += ASSUME + ["the bits beyond the universe, up to a multiple of 512, exist and are zero"]
    rng = random.Random("P18-%d" % c.seed)
    out = []
    for i in range(c.pick(260, 2500)):
        n = rng.choice(SIZES + [3000, 5000, 9000])
        kind = rng.choice(["rbits", "rbits", "cluster", "sparse", "blocks"])
        if kind == "rbits" or n < 100:
            bits = rbits(rng, n)
        elif kind == "cluster":
            a = rng.randrange(n)
            b = min(n, a + rng.choice([1, 64, 256, 257, 512, 700, 2000]))
            bits = sorted(set(range(a, b)) | set(rng.sample(range(n), 3)))
        elif kind == "sparse":
            p = rng.choice([0.01, 0.05, 0.2])
            bits = [x for x in range(n) if rng.random() < p]
        else:
            full = {b for b in range(n // 64 + 1) if rng.random() < 0.4}
            bits = [x for x in range(n) if x // 64 in full]
        how = rng.choice(["raw", "vec", "vec", "raw", "rawlocal", "veclocal"])
        out.append(Scenario("map-%d" % i, ["m_new 0 %s %d %s" % (how, n, lst(bits)), "m_all 0 %d" % rng.choice([999999, 0x7fffffff])], cost=n + 50))
    # exactly the borders of the select table: 255..257, 511..513 local ids packed and spread
    for k in (255, 256, 257, 511, 512, 513, 767, 768, 769, 1024):
        for step in (1, 2, 3, 7):
            bits = [x * step for x in range(k)]
            out.append(Scenario("select-%d-%d" % (k, step), ["m_new 0 vec %d %s" % (bits[-1] + 1 + rng.randrange(600), lst(bits)), "m_all 0 999999"], cost=k * step))
    # a long run of empty blocks between full ones
    for gap in (0, 1, 2, 5):
        bits = list(range(300)) + [512 * (gap + 1) + x for x in range(300)] + [512 * (2 * gap + 3) + x for x in range(300)]
        out.append(Scenario("gap-%d" % gap, ["m_new 0 vec %d %s" % (bits[-1] + 1, lst(bits)), "m_all 0 999999"], cost=2000))
    out.append(Scenario("default", ["m_new0 0", "m_all 0 999999"]))
    c.conform("structs", "StructsTrace", out, source="seeded", variant="asan", need=["m_new", "m_all"])
    # more than 65 536 mapped ids, thousands of blocks
    out = []
    for i, (n, step, a) in enumerate(c.pick([(70000, 1, 0), (200000, 2, 77), (300000, 3, 0)], [(70000, 1, 0), (66000, 1, 100), (200000, 2, 77), (300000, 3, 0), (500000, 7, 5), (1100000, 16, 1)])):
        drop = {rng.randrange(n) for _ in range(50)} | set(range(n // 2, n // 2 + 1200))
        bits = [x for x in range(a, n, step) if x not in drop] + [n + 600]
        out.append(Scenario("many-%d" % i, ["m_new 0 %s %d %s" % (rng.choice(["raw", "vec"]), n + 1000, lst(bits)), "m_all 0 999999"], cost=n))
    c.conform("structs", "StructsTrace", out, source="large universes", need=["m_all"])
    # all subsets of small universes laid over a word or block boundary
    out = []
    for base in (60, 508):
        L = []
        for bits in range(1 << c.pick(7, 9)):
            l = [base + x for x in range(9) if bits >> x & 1]
            L += ["m_new 0 raw %d %s" % (base + 9, lst(l)), "m_all 0 999999"]
        out += [Scenario("subsets-%d-%d" % (base, i), L[i:i + 32], cost=600 * 32) for i in range(0, len(L), 32)]
    c.conform("structs", "StructsTrace", out, source="all subsets across a boundary")
