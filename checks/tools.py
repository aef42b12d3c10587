"""Checks for the command line tools (specification: Tools.tla, ToolsTrace.tla)."""
import random, struct
from vf import Scenario
from geo import gdist, f32

ASSUME = ["files are little endian and not changed while a tool runs"]
INTS = {"int8": (1, True), "uint8": (1, False), "int16": (2, True), "uint16": (2, False), "int32": (4, True), "uint32": (4, False), "int64": (8, True), "uint64": (8, False)}


def hx(b):
    return b.hex() or "-"


def text(lines, end=True):
    s = b"".join(x + b"\n" for x in lines)
    return s if end or not s else s[:-1]


def u32(v):
    return struct.pack("<%dI" % len(v), *v)


def rng_of(ty):
    n, s = INTS[ty]
    return (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if s else (0, (1 << (8 * n)) - 1)


def rint(rng, ty):
    lo, hi = rng_of(ty)
    return rng.choice([lo, hi, 0, 1, lo + 1, hi - 1, rng.randint(lo, hi), max(lo, min(hi, rng.randint(-300, 300))), max(lo, -(1 << rng.randrange(1, 63))), min(hi, 1 << rng.randrange(1, 63)), min(hi, 10 ** rng.randrange(1, 20)), min(hi, 127), min(hi, 128), min(hi, 255)])


def nice(rng):
    k = rng.randrange(7)
    return b"%s%s" % (rng.choice([b"", b"", b"-"]), dec(rng.randrange(rng.choice([2, 100, 60000])), k))


def dec(M, k):
    """M / 2^k as exact decimal text"""
    n = M * 5 ** k
    s = str(n).rjust(k + 1, "0")
    t = s[:len(s) - k] + ("." + s[len(s) - k:] if k else "")
    return (t.rstrip("0").rstrip(".") if "." in t else t).encode()


def rfloat(rng, ty):
    if ty == "float32":
        return struct.pack("<I", rng.getrandbits(1) << 31 | rng.randrange(1, 255) << 23 | rng.choice([0, 1, 0x7fffff, rng.getrandbits(23)]))
    return struct.pack("<Q", rng.getrandbits(1) << 63 | rng.randrange(1, 2047) << 52 | rng.choice([0, 1, (1 << 52) - 1, rng.getrandbits(52)]))


def rstring(rng, raw=False):
    n = rng.choice([0, 1, 2, 3, 8, 20])
    al = [92, 110, 92, 97, 98, 32, 255, 195, 9, 13, 34, 1] + ([10, 10] if raw else [])
    return bytes(rng.choice(al) for _ in range(n))


def vec_case(rng, ty):
    n = rng.choice([0, 1, 2, 5, 12])
    L = []
    if ty in INTS:
        v = [rint(rng, ty) for _ in range(n)]
        pre = rng.choice([b"", b"", b" ", b"+"])
        ls = [(pre if x >= 0 else b"") + str(x).encode() for x in v]
        raw = b"".join(x.to_bytes(INTS[ty][0], "little", signed=INTS[ty][1]) for x in [rint(rng, ty) for _ in range(n)])
    elif ty == "string":
        ls = [rstring(rng) for _ in range(n)]
        raw = b"".join(rstring(rng, True) + b"\0" for _ in range(n))
    else:
        ls = [nice(rng) for _ in range(n)]
        raw = b"".join(rfloat(rng, ty) for _ in range(n)) if rng.random() < .7 else None
    L.append("run encode_vector %s %s a" % (hx(text(ls, rng.random() < .9)), ty))
    L.append("run decode_vector - %s a" % ty)
    L.append("run encode_vector @ %s b" % ty)
    L.append("run compare_vector - %s a b" % ty)
    if raw is not None:
        L += ["put c " + hx(raw), "run decode_vector - %s c" % ty, "run encode_vector @ %s b" % ty, "run decode_vector - %s b" % ty, "run compare_vector - %s c b" % ty]
    return L


def compare_case(rng, ty):
    n = rng.choice([0, 1, 3, 8, 20])
    def val():
        if ty in INTS: return rint(rng, ty).to_bytes(INTS[ty][0], "little", signed=INTS[ty][1])
        if ty == "string": return rstring(rng, True) + b"\0"
        return struct.pack("<f" if ty == "float32" else "<d", rng.choice([0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -2.25, 1e10, -1e-10, 3.0])) if rng.random() < .6 else rfloat(rng, ty)
    a = [val() for _ in range(n)]
    b = [x if rng.random() < .7 else val() for x in a]
    r = rng.random()
    if r < .15: b = list(a)
    elif r < .3: b.append(val())
    elif r < .4 and b: b.pop()
    return ["put a " + hx(b"".join(a)), "put b " + hx(b"".join(b)), "run compare_vector - %s a b" % ty, "run compare_vector - %s b a" % ty, "run compare_vector - %s a a" % ty]


def vec_errors(rng):
    L = []
    ty = rng.choice(list(INTS))
    lo, hi = rng_of(ty)
    bad = [str(hi + 1), str(lo - 1) if lo else "-1", "x", "", "--1", "9" * 19, "-" + "9" * 19, "9" * 21]
    if ty == "uint64": bad = [str(hi + 1), "x", "", "9" * 21]
    if ty == "int64": bad = [str(hi + 1), str(lo - 1), "x", "", "9" * 21]
    ls = [str(rint(rng, ty)).encode() for _ in range(rng.randrange(4))]
    b = rng.choice(bad).encode()
    ls.insert(rng.randrange(len(ls) + 1), b)
    if ls and ls[-1] == b"": ls.append(b"0")        # an empty last line is no line
    L.append("put a 01020304")
    L.append("run encode_vector %s %s a" % (hx(text(ls)), ty))
    ft = rng.choice(["float32", "float64"])
    L.append("run encode_vector %s %s a" % (hx(text([nice(rng), rng.choice([b"x", b"abc", b""]), b"1"])), ft))
    t2 = rng.choice(list(INTS) + ["float32", "float64"])
    n = INTS[t2][0] if t2 in INTS else 4 if t2 == "float32" else 8
    if n > 1:
        L += ["put b " + hx(bytes(rng.randrange(64) for _ in range(n * rng.randrange(3) + rng.randrange(1, n)))), "run decode_vector - %s b" % t2, "run compare_vector - %s b b" % t2]
    t3 = rng.choice(list(INTS) + ["float32", "float64", "string"])
    L += ["run decode_vector - %s nofile" % t3, "run compare_vector - %s a nofile" % t3, "run compare_vector - %s nofile a" % t3]
    bt = rng.choice(["int", "INT8", "int128", "x", "float", "double", "strings"])
    L += ["run decode_vector - %s a" % bt, "run encode_vector 310a %s a" % bt, "run compare_vector - %s a a" % bt]
    L += ["run decode_vector - int8", "run encode_vector - int8", "run encode_vector - int8 a b", "run compare_vector - int8 a", "run decode_vector -"]
    L += ["run encode_vector %s %s %s" % (hx(text([b"1", b"2"])), rng.choice(list(INTS) + ["float32", "string"]), rng.choice(["FULL", "NODIR"])), "run encode_vector - int32 FULL"]
    return L


def rgraph(rng, n=None, m=None, wmax=None):
    n = rng.choice([1, 2, 3, 5, 10, 30]) if n is None else n
    m = rng.choice([0, 1, 3, n, 3 * n]) if m is None else m
    wmax = wmax or rng.choice([1, 3, 100, 10 ** 6, 2147483647])
    few = rng.random() < .3
    a = []
    for _ in range(m):
        x, y = rng.randrange(min(n, 3) if few else n), rng.randrange(min(n, 3) if few else n)
        a.append((x, y, rng.randrange(wmax) if wmax < 2147483647 else rng.choice([0, 1, 2147483647, 2147483646, rng.randrange(2147483647)])))
    return n, a


def csr(n, a):
    a = sorted(a, key=lambda x: x[0])
    fo = [0] * (n + 1)
    for x in a: fo[x[0] + 1] += 1
    for i in range(n): fo[i + 1] += fo[i]
    return fo, [x[1] for x in a], [x[2] for x in a]


def gr_text(rng, n, a, bad=None):
    sp = lambda: rng.choice([b" ", b" ", b"  ", b"\t"])
    ls = [b"p" + sp() + b"sp" + sp() + b"%d" % n + sp() + b"%d" % (len(a))]
    for x, y, w in a: ls.append(b"a" + sp() + b"%d" % (x + 1) + sp() + b"%d" % (y + 1) + sp() + b"%d" % w)
    k = rng.randrange(1, len(ls) + 1)
    if bad == "empty": ls = []
    elif bad == "noheader": ls = ls[1:]
    elif bad == "header": ls[0] = rng.choice([b"p sp %d" % n, b"p max %d %d" % (n, len(a)), b"q sp %d %d" % (n, len(a)), b"p sp x y", b"p sp", b"p"])
    elif bad == "count": ls[0] = b"p sp %d %d" % (n, rng.choice([len(a) + 1, len(a) + 5] + ([len(a) - 1, 0] if a else [])))
    elif bad == "range": ls.insert(k, rng.choice([b"a 0 1 5", b"a 1 0 5", b"a %d 1 5" % (n + 1), b"a 1 %d 5" % (n + 1), b"a 1 %d 7" % (n + 1000)])); ls[0] = b"p sp %d %d" % (n, len(ls) - 1)
    elif bad == "arc": ls.insert(k, rng.choice([b"a 1 1", b"a 1", b"a", b"b 1 1 1", b"1 1 1 1", b"a x 1 1", b"a 1 y 1", b"a 1 1 z", b"a 1 1 99999999999"])); ls[0] = b"p sp %d %d" % (n, len(ls) - 1)
    elif bad == "twice": ls.insert(k, ls[0])
    if rng.random() < .4:
        for _ in range(3): ls.insert(rng.randrange(len(ls) + 1), rng.choice([b"c", b"c comment a 1 2 3", b"", b"c p sp 1 1"]))
    return text(ls, rng.random() < .9)


def co_text(rng, n, bad=None):
    def coord(lim):
        return rng.choice([15625 * rng.randrange(-lim * 64, lim * 64 + 1), rng.randrange(-lim * 10 ** 6, lim * 10 ** 6 + 1), rng.randrange(-10 ** 6, 10 ** 6), 0, lim * 10 ** 6, -lim * 10 ** 6])
    ls = [b"v %d %d %d" % (v + 1, coord(180), coord(90)) for v in range(n)]
    rng.shuffle(ls)
    h = b"p aux sp co %d" % n
    k = rng.randrange(len(ls) + 1)
    if bad == "empty": return text([b"c nothing"] * rng.randrange(2))
    if bad == "header": h = rng.choice([b"p aux sp co", b"p aux sp co %d 1" % n, b"p sp co %d" % n, b"p aux sp xx %d" % n, b"x aux sp co %d" % n, b"p aux sp co x"])
    if bad == "missing" and ls: ls.pop()
    elif bad == "missing": h = b"p aux sp co 1"
    if bad == "twice": ls.insert(k, ls[0] if ls else b"v 1 1 1")
    if bad == "range": ls.insert(k, rng.choice([b"v 0 1 1", b"v %d 1 1" % (n + 1), b"v %d 1 1" % (n + 100)]))
    if bad == "line": ls.insert(k, rng.choice([b"w 1 1 1", b"v 1 1", b"v", b"v x 1 1", b"v 1 x 1", b"v 1 1 x", b"v 1 1 1 1"]))
    if bad == "noheader": return text(ls) if ls else b"v 1 1 1\n"
    ls.insert(0, h)
    if rng.random() < .4:
        for _ in range(2): ls.insert(rng.randrange(len(ls) + 1), rng.choice([b"c", b"c x", b""]))
    return text(ls, rng.random() < .9)


GRBAD = ["empty", "noheader", "header", "count", "range", "arc", "twice"]
COBAD = ["empty", "noheader", "header", "missing", "twice", "range", "line"]


def graph_case(rng):
    n, a = rgraph(rng)
    L = ["put g " + hx(gr_text(rng, n, a)), "run convert_road_dimacs_graph - g fo he we"]
    L += ["run export_road_dimacs_graph - fo he we x", "run convert_road_dimacs_graph - x fp hf wf", "run graph_to_dot - fo he we dot"]
    return L


def export_case(rng):
    n, a = rgraph(rng)
    fo, he, we = csr(n, a)
    L = ["put fo " + hx(u32(fo)), "put he " + hx(u32(he)), "put we " + hx(u32(we)), "put old 41"]
    L += ["run export_road_dimacs_graph - fo he we x", "run graph_to_dot - fo he we y"]
    if he:
        L += ["run convert_road_dimacs_graph - x ga gb gc", "run export_road_dimacs_graph - ga gb gc z"]
        L += ["put short " + hx(u32(we[:-1])), "run export_road_dimacs_graph - fo he short old", "run export_road_dimacs_graph - fo short we old"]
        b = list(he)
        b[rng.randrange(len(b))] = rng.choice([n, n + 1])
        L += ["put far " + hx(u32(b)), "run export_road_dimacs_graph - fo far we old"]
        c = list(fo)
        if rng.random() < .5: c[-1] += 1
        else: c[0] = 1
        L += ["put bro " + hx(u32(c)), "run export_road_dimacs_graph - bro he we old"]
        L += ["put odd " + hx(u32(he)[:-1]), "run export_road_dimacs_graph - fo odd we old"]
    L += ["run export_road_dimacs_graph - fo he missing old", "run export_road_dimacs_graph - fo he old", "run export_road_dimacs_graph - fo he we " + rng.choice(["FULL", "NODIR"])]
    return L


def permute_case(rng):
    n, a = rgraph(rng, rng.choice([1, 2, 5, 20, 40]), rng.choice([1, 2, 10, 60]))
    fo, he, we = csr(n, a)
    L = []
    seed = rng.randrange(10 ** 6)
    for _ in range(2):
        L += ["put fo " + hx(u32(fo)), "put he " + hx(u32(he)), "put id " + hx(u32(range(len(he)))), "put we " + hx(u32(we)), "run randomly_permute_nodes - %d fo he id we" % seed]
    L += ["put id " + hx(u32(range(len(he)))), "run randomly_permute_nodes - %d fo he id" % rng.randrange(10 ** 6)]
    L += ["put short " + hx(u32(we[:-1])), "run randomly_permute_nodes - 1 fo he id short", "run randomly_permute_nodes - 1 fo short id", "run randomly_permute_nodes - x fo he id", "run randomly_permute_nodes - 1 fo"]
    return L


def f32s(v):
    return struct.pack("<%df" % len(v), *v)


def svg_case(rng):
    n, a = rgraph(rng, rng.choice([1, 2, 5, 12]), None if rng.random() < .8 else 0) if rng.random() < .9 else (0, [])
    if n == 0: a = []
    fo, he, we = csr(n, a)
    def axis():
        k = rng.choice([0, 1, 2, 4])
        v = [rng.randrange(k + 1) for _ in range(n)]
        # the extremes are needed for a box whose side is a power of two
        if n >= 2: v[rng.randrange(n)] = 0; i = v.index(0); v[(i + 1) % n] = k
        else: v = [0] * n
        b = rng.choice([0, -2, 3072, -700, 576])
        return [(b + x) / 64.0 for x in v]
    L = ["put fo " + hx(u32(fo)), "put he " + hx(u32(he)), "put la " + hx(f32s(axis())), "put lo " + hx(f32s(axis())), "run graph_to_svg - fo he la lo svg"]
    L += ["run graph_to_svg - fo he la lo", "run graph_to_svg - fo he la lo NODIR", "run graph_to_svg - fo he la none svg"]
    return L


def broken(rng, n, fo, he, we):
    """one of the vectors of a graph damaged so that they do not fit together; None if this needs arcs"""
    fo, he, we = list(fo), list(he), list(we)
    b = rng.choice(["empty", "last", "first", "order", "range", "short", "odd", "weight"])
    if b == "empty": fo = []
    elif b == "last": fo[-1] += rng.choice([1, 1, 1000, -1]) if fo[-1] else 1
    elif b == "first": fo[0] = rng.choice([1, 4294967295])
    elif b == "order":
        if n < 2: return None
        fo[rng.randrange(1, n)] = len(he) + rng.choice([1, 3, 100000])
    elif b == "range":
        if not he: return None
        he[rng.randrange(len(he))] = rng.choice([n, n + 1, 4294967295, 1 << 31])
    elif b == "short":
        if not he: return None
        he.pop()
        if rng.random() < .5: we.pop()
    elif b == "odd":
        if not he: return None
        return u32(fo), u32(he)[:-1], u32(we)
    elif b == "weight":
        if not we: return None
        we = rng.choice([we[:-1], we + [1], []])
    return u32(fo), u32(he), u32(we)


def broken_case(rng, runs):
    """inconsistent inputs: nothing may be written, nothing may be read out of bounds"""
    while True:
        n, a = rgraph(rng, rng.choice([1, 2, 3, 5]), rng.choice([0, 2, 5, 8]), 100)
        fo, he, we = csr(n, a)
        w = broken(rng, n, fo, he, we)
        if w: break
    L = ["put %s %s" % (x, hx(y)) for x, y in zip(("fo", "he", "we"), w)] + ["put la " + hx(f32s(range(n))), "put old 41", "put s " + hx(u32([0, n - 1])), "put id " + hx(u32(range(len(he))))]
    return L + runs((u32(fo), u32(he)) == w[:2])      # only the weights are wrong?


def P34(c):
    c.assumptions += ASSUME + ["floating point numbers that are not denormalised; text in the C locale", "no negative numbers for unsigned 64 bit vectors"]
    rng = random.Random("P34-%d" % c.seed)
    env = {"VERIF_TMP": c.work}
    types = list(INTS) + ["float32", "float64", "string"]
    sc = []
    for i in range(c.pick(20, 150)):
        for ty in types + ["string", "string"]:
            sc.append(Scenario("vector-%s-%d" % (ty, i), vec_case(rng, ty)))
    for i in range(c.pick(12, 100)):
        for ty in types: sc.append(Scenario("compare-%s-%d" % (ty, i), compare_case(rng, ty)))
    for i in range(c.pick(50, 400)): sc.append(Scenario("errors-%d" % i, vec_errors(rng)))
    for i in range(c.pick(8, 60)):
        sc.append(Scenario("constant-%d" % i, ["run generate_constant_vector - %d %d a" % (rng.choice([0, 1, 2, 100, 1000]), rng.choice([0, 1, 255, 256, 65536, 999999999])), "run decode_vector - uint32 a",
                                               "run generate_constant_vector - x 1 a", "run generate_constant_vector - 1 a", "run generate_constant_vector - 3 1 NODIR"]))
    c.conform("tools", "ToolsTrace", sc, source="vectors", variant="asan", env=env, need=["run", "put"], stall=60)
    sc = []
    for i in range(c.pick(150, 1500)): sc.append(Scenario("dimacs-%d" % i, graph_case(rng)))
    for i in range(c.pick(60, 600)): sc.append(Scenario("export-%d" % i, export_case(rng)))
    for i in range(c.pick(80, 600)): sc.append(Scenario("permute-%d" % i, permute_case(rng)))
    for i in range(c.pick(80, 600)): sc.append(Scenario("svg-%d" % i, svg_case(rng)))
    for i in range(c.pick(120, 1000)):
        sc.append(Scenario("broken-%d" % i, broken_case(rng, lambda fine: ["run export_road_dimacs_graph - fo he we old", "run graph_to_dot - fo he we old", "run randomly_permute_nodes - 1 fo he we", "run randomly_permute_nodes - 1 fo he we id"] + ([] if fine else ["run graph_to_svg - fo he la la old"]))))
    for i in range(c.pick(150, 1500)):
        n = rng.choice([0, 1, 2, 5, 20])
        sc.append(Scenario("coordinates-%d" % i, ["put c " + hx(co_text(rng, n)), "run convert_road_dimacs_coordinates - c la lo"]))
    for i in range(c.pick(20, 150)):
        for b in GRBAD:
            n, a = rgraph(rng)
            sc.append(Scenario("dimacs-%s-%d" % (b, i), ["put fo 01", "put g " + hx(gr_text(rng, n, a, b)), "run convert_road_dimacs_graph - g fo he we"]))
        for b in COBAD:
            sc.append(Scenario("coordinates-%s-%d" % (b, i), ["put la 01", "put c " + hx(co_text(rng, rng.choice([0, 1, 2, 5]), b)), "run convert_road_dimacs_coordinates - c la lo"]))
    for i in range(c.pick(4, 30)):
        n, a = rgraph(rng, 3, 4)
        sc.append(Scenario("unwritable-%d" % i, ["put g " + hx(gr_text(rng, n, a)), "run convert_road_dimacs_graph - g fo he NODIR", "run convert_road_dimacs_graph - g FULL he we", "run convert_road_dimacs_graph - nofile fo he we", "run convert_road_dimacs_graph - g fo he",
                                                 "put c " + hx(co_text(rng, 3)), "run convert_road_dimacs_coordinates - c la NODIR", "run convert_road_dimacs_coordinates - c FULL lo", "run convert_road_dimacs_coordinates - nofile la lo", "run convert_road_dimacs_coordinates - c la"]))
    c.conform("tools", "ToolsTrace", sc, source="graphs", variant="asan", env=env, need=["run", "put"], stall=60)


# ------------------------------------------------------------------ P35: queries
def coords(rng, n):
    seen = set()
    while len(seen) < n: seen.add((rng.randrange(-89 * 64, 89 * 64), rng.randrange(-179 * 64, 179 * 64)))
    return list(seen)


def put_graph(fo, he, we):
    return ["put fo " + hx(u32(fo)), "put he " + hx(u32(he)), "put we " + hx(u32(we))]


def query_case(rng):
    n, a = rgraph(rng, rng.choice([1, 2, 5, 12, 20]), None, rng.choice([1, 2, 10, 1000, 10 ** 6]))
    if rng.random() < .15: a = [(x, y, rng.choice([0, 1, 10 ** 8, 10 ** 8 - 1, 9 * 10 ** 7])) for x, y, w in a]
    if not a and rng.random() < .7: a = [(0, n - 1, 5)]
    fo, he, we = csr(n, a)
    L = put_graph(fo, he, we)
    k = rng.choice([0, 1, 5, 30])
    s = [rng.randrange(n) for _ in range(k)]
    t = [rng.randrange(n) for _ in range(k)]
    L += ["put s " + hx(u32(s)), "put t " + hx(u32(t)), "run run_dijkstra - fo he we s t d"]
    L += ["run compute_contraction_hierarchy - fo he we ch"]
    if he:
        L += ["run run_contraction_hierarchy_query - ch s t dd", "run compare_vector - uint32 d dd", "run examine_ch - ch"]
        co = coords(rng, n)
        L += ["put la " + hx(struct.pack("<%df" % n, *[x / 64.0 for x, _ in co])), "put lo " + hx(struct.pack("<%df" % n, *[y / 64.0 for _, y in co]))]
        q = [(rng.randrange(n), rng.randrange(n)) for _ in range(rng.choice([0, 1, 3]))]
        if rng.random() < .4: q.insert(rng.randrange(len(q) + 1), rng.choice([(n, 0), (0, n), (n + 1, 0), (0, n + 7)]))
        L += ["run show_path %s ch la lo" % hx(text([b"%d %d" % x for x in q]))]
    if k:
        L += ["put u " + hx(u32(t[:-1])), "run run_dijkstra - fo he we s u d", "run run_dijkstra - fo he we u s d"]
        if he: L += ["run run_contraction_hierarchy_query - ch s u d", "run run_contraction_hierarchy_query - ch u s d"]
    return L


def bad_graph_case(rng):
    n, a = rgraph(rng, rng.choice([2, 5]), rng.choice([3, 8]))
    fo, he, we = csr(n, a)
    b = rng.choice(["range", "last", "first", "order", "weight", "odd", "missing"])
    if b == "range": he[rng.randrange(len(he))] = rng.choice([n, n + 1, 2 ** 32 - 1])
    elif b == "last": fo[-1] += rng.choice([1, 5])
    elif b == "first": fo[0] = 1
    elif b == "order": fo[rng.randrange(1, n)] = len(he) + 3
    elif b == "weight": we = rng.choice([we[:-1], we + [1], []])
    L = put_graph(fo, he, we) + ["put s " + hx(u32([0, 1])), "put t " + hx(u32([1, 0]))]
    if b == "odd": L += ["put he " + hx(u32(he)[:-2])]
    if b == "missing": L += ["del we"]
    L += ["run run_dijkstra - fo he we s t d", "run compute_contraction_hierarchy - fo he we ch", "run run_contraction_hierarchy_query - ch s t d", "run examine_ch - ch", "run examine_ch -", "run run_dijkstra - fo he we s t", "run compute_contraction_hierarchy - fo he we"]
    if b not in ("weight", "missing"): L += ["put la " + hx(struct.pack("<%df" % n, *range(n))), "run compute_geographic_distance_weights - fo he la la gw"]
    return L


def far_case(rng):
    """queries for nodes that do not exist, coordinates for too few or too many nodes"""
    n, a = rgraph(rng, rng.choice([1, 2, 5]), rng.choice([1, 5, 8]), 100)
    fo, he, we = csr(n, a)
    s, t = [[rng.randrange(n) for _ in range(rng.choice([1, 3]))] for _ in range(2)]
    t = (t * 3)[:len(s)]
    v = rng.choice([s, t, None])
    if v is not None: v[rng.randrange(len(v))] = rng.choice([n, n, n + 1, n + 40, 100000, 4294967295, 1 << 31])
    L = put_graph(fo, he, we) + ["put old 41", "put s " + hx(u32(s)), "put t " + hx(u32(t)), "run run_dijkstra - fo he we s t old", "run compute_contraction_hierarchy - fo he we ch", "run run_contraction_hierarchy_query - ch s t old"]
    k = rng.choice([0, n - 1, n - 1, n + 1, n])
    L += ["put la " + hx(f32s([x / 64.0 for x in range(n)])), "put sh " + hx(f32s([x / 64.0 for x in range(k)]))]
    for x, y in rng.sample([("la", "sh"), ("sh", "la"), ("sh", "sh")], 2):
        L += ["run show_path %s ch %s %s" % (hx(text([b"0 %d" % (n - 1)])), x, y)] if not (n == k) else []
        if n != k: L += ["run compute_geographic_distance_weights - fo he %s %s old" % (x, y), "run compute_nested_dissection_order - fo he %s %s old" % (x, y)]
    L += ["put zero 00000000", "put none -", "run generate_test_queries - 0 %d 1 old s" % rng.choice([1, 7]), "run generate_random_node_list - 0 3 1 old", "run generate_random_node_list - none 3 1 old", "run generate_random_source_times - 4 1 zero old"]
    L += ["run generate_dijkstra_rank_test_queries - zero none none 2 1 old s2 t2 r2"]
    return L


def random_case(rng):
    n, k, s = rng.choice([1, 2, 3, 50, 1000, 10 ** 6]), rng.choice([0, 1, 50, 200, 300]), rng.randrange(10 ** 6)
    L = ["put v " + hx(u32(range(min(n, 300)))), "put p " + hx(u32([n]))]
    for _ in range(2):
        L += ["run generate_test_queries - %d %d %d s t" % (n, k, s), "run generate_random_node_list - %d %d %d x" % (n, k, s), "run generate_random_node_list - v %d %d y" % (k, s),
              "run generate_random_source_times - %d %d p z" % (k, s), "run generate_random_source_times - v %d p zz" % s]
    L += ["run generate_random_node_list - w 3 3 y", "run generate_random_source_times - 3 3 w z", "run generate_random_source_times - 3 3 v z" if n > 1 else "run generate_test_queries - 1 1", "run generate_random_node_list - 3 x 3 y",
          "run generate_test_queries - 5 5 5 NODIR t"]
    return L


def rank_case(rng):
    n = rng.choice([10, 63, 64, 65, 100, 130])
    wm = rng.choice([1, 2, 5, 100])
    ring = rng.random() < .6
    a = [(v, (v + 1) % n, rng.randrange(wm + 1)) for v in range(n)] if ring else []
    for _ in range(rng.choice([0, n, 3 * n])): a.append((rng.randrange(n), rng.randrange(n), rng.randrange(wm * 3 + 1)))
    fo, he, we = csr(n, a)
    k = rng.choice([1, 3, 6])
    L = put_graph(fo, he, we)
    if rng.random() < .5: L += ["put k " + hx(u32(range(k)))]; ks = "k"
    else: ks = str(k)
    L += ["run generate_dijkstra_rank_test_queries - fo he we %s %d s t r d" % (ks, rng.randrange(1000))] * 2
    L += ["run generate_dijkstra_rank_test_queries - fo he we none 1 s t r d", "run generate_dijkstra_rank_test_queries - fo he we 1 1 s t r"]
    return L


def geo_case(rng):
    n, a = rgraph(rng, rng.choice([2, 5, 20]), rng.choice([0, 5, 40]))
    fo, he, _ = csr(n, a)
    tl = [x for x, y, w in sorted(a, key=lambda x: x[0])]
    spread = rng.choice([.001, .1, 5, 80])
    la = [f32(max(-90, min(90, rng.uniform(-60, 60) * 0 + 48 + rng.uniform(-spread, spread)))) for _ in range(n)]
    lo = [f32(max(-180, min(180, 9 + rng.uniform(-2 * spread, 2 * spread)))) for _ in range(n)]
    ref = [int(gdist((la[x], lo[x]), (la[y], lo[y])) * 10) for x, y in zip(tl, he)]
    return ["put fo " + hx(u32(fo)), "put he " + hx(u32(he)), "put la " + hx(struct.pack("<%df" % n, *la)), "put lo " + hx(struct.pack("<%df" % n, *lo)), "ref " + " ".join(map(str, ref)),
            "run compute_geographic_distance_weights - fo he la lo w", "run compute_nested_dissection_order - fo he la lo o", "run compute_geographic_distance_weights - fo he la none w", "run compute_nested_dissection_order - fo he none lo o"]


def P35(c):
    c.assumptions += ASSUME + ["lengths of shortest paths are below inf_weight"]
    rng = random.Random("P35-%d" % c.seed)
    env = {"VERIF_TMP": c.work}
    sc = []
    for i in range(c.pick(300, 3000)): sc.append(Scenario("query-%d" % i, query_case(rng)))
    for i in range(c.pick(100, 800)): sc.append(Scenario("bad-graph-%d" % i, bad_graph_case(rng)))
    for i in range(c.pick(120, 1000)):
        sc.append(Scenario("broken-%d" % i, broken_case(rng, lambda fine: ["run run_dijkstra - fo he we s s old", "run compute_contraction_hierarchy - fo he we old", "run generate_dijkstra_rank_test_queries - fo he we 3 1 old old2 old3 old4"]
                                                         + ([] if fine else ["run compute_geographic_distance_weights - fo he la la old", "run compute_nested_dissection_order - fo he la la old"]))))
    for i in range(c.pick(100, 800)): sc.append(Scenario("far-%d" % i, far_case(rng)))
    c.conform("tools", "ToolsTrace", sc, source="queries", variant="asan", env=env, need=["run", "put"], stall=60)
    sc = []
    for i in range(c.pick(80, 600)): sc.append(Scenario("random-%d" % i, random_case(rng)))
    for i in range(c.pick(60, 500)): sc.append(Scenario("rank-%d" % i, rank_case(rng)))
    for i in range(c.pick(100, 800)): sc.append(Scenario("geo-%d" % i, geo_case(rng)))
    c.conform("tools", "ToolsTrace", sc, source="query generators", variant="asan", env=env, need=["run", "put"], stall=60)
