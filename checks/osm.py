"""Checks for OSM data (specification: Osm.tla, OsmProfile.tla, OsmTrace.tla; design models OsmModel.tla, PassModel.tla)."""
import json, random
from vf import Scenario
import pbf
from geo import gdist, f32

ASSUME = ["the encoding of abstract files as bytes in checks/pbf.py (OSM PBF format)", "the correspondence between script operations and library calls in harness/osm.cpp",
          "every id, and every key of an element, occurs at most once in a file"]


def js(x):
    return json.dumps(x, separators=(",", ":")).replace(" ", "\\u0020")


def jtags(tags):
    return [dict(k=k, v=v) if k != "maxspeed" else dict(k=k, v=v, ms=parse_ms(v)) for k, v in tags]


def parse_ms(v):
    """the parts of a maxspeed value as OsmProfile.tla takes them"""
    if v == "unposted": return []
    r = []
    for p in v.lower().split(";"):
        p = p.lstrip(" ")
        i = 0
        while i < len(p) and p[i].isdigit(): i += 1
        if i: r.append(dict(w="", n=int(p[:i]), u=p[i:].lstrip(" ")))
        elif len(p) > 3 and p[2] == ":" and p[3:] in ("walk", "urban", "living_street"): r.append(dict(w="??" + p[2:], n=0, u=""))
        else: r.append(dict(w=p, n=-1, u=""))
    return r


def jitem(x):
    d = dict(t=x["t"], id=str(x["id"]), tags=jtags(x["tags"]))
    for k in ("x", "y", "seg"):
        if k in x: d[k] = x[k]
    if x["id"] < 2 ** 31: d["i"] = x["id"]
    if x["t"] == "n":
        d["lat"], d["lon"] = str(x["lat"]), str(x["lon"])
        d["lat7"], d["lon7"] = round(x["lat"] / 100), round(x["lon"] / 100)
    elif x["t"] == "w":
        d["nodes"] = [str(n) for n in x["nodes"]]
        if all(n < 2 ** 31 for n in x["nodes"]): d["ns"] = x["nodes"]
    else:
        d["mem"] = [dict(t=t, id=str(i), role=r) for t, i, r in x["members"]]
        if all(i < 2 ** 31 for _, i, _ in x["members"]): d["ms"] = [dict(t=t, i=i, role=r) for t, i, r in x["members"]]
    return d


class File:
    def __init__(self, rng, style=None, ordered=False):
        self.rng, self.blocks, self.bytes = rng, [], b""
        style = style or rng.choice(["real", "real", "bare", "none"])
        h = pbf.header(rng, style, ordered)
        if h:
            self.bytes += h
            self.blocks.append(dict(kind="header", items=[]))

    def data(self, items, **kw):
        comp = kw.pop("comp", None)
        self.bytes += pbf.frame(self.rng, b"OSMData", pbf.blob(self.rng, pbf.primitive_block(self.rng, items, **kw), comp))
        self.blocks.append(dict(kind="data", items=[jitem(x) for x in items]))

    def other(self):
        self.bytes += pbf.frame(self.rng, self.rng.choice([b"Index", b"OSMDat", b"OSMDataX", b"osmdata", b"A very long block type name", b""]), bytes(self.rng.randrange(256) for _ in range(self.rng.randrange(50))))
        self.blocks.append(dict(kind="other", items=[]))

    def bad_container(self, kind, items):
        self.bytes += pbf.bad_container(self.rng, kind, items)
        self.blocks.append(dict(kind="bad", items=[]))

    def bad_item(self, kind, items):
        of, f = pbf.bad_item(self.rng, kind)
        self.bytes += pbf.frame(self.rng, b"OSMData", pbf.blob(self.rng, pbf.primitive_block(self.rng, items, bad=dict(item=f))))
        front = [dict(t="n", id=str(pbf.DENSE["id"]), tags=[], any=True)] if kind.startswith("n_dense_long") else []
        self.blocks.append(dict(kind="data", items=[jitem(x) for x in items] + front + [dict(t="bad", of=of)]))

    def bad_block(self, items):
        self.bytes += pbf.frame(self.rng, b"OSMData", pbf.blob(self.rng, pbf.primitive_block(self.rng, items, bad=dict(gran0=True))))
        self.blocks.append(dict(kind="data", items=[dict(t="bad", of="b")]))

    def raw(self, data, kind):
        self.bytes += data
        self.blocks.append(dict(kind=kind, items=[]))

    def line(self, name="a"):
        return "file %s %s %s" % (name, self.bytes.hex() or "-", js(self.blocks))


# ------------------------------------------------------------------ P29: decoding
WORDS = ["", "a", "highway", "name", "residential", "x" * 127, "y" * 128, "z" * 200, "stra\xdfe", "k1", "k2", "k3", "yes", "no", "with space", "q\"uote\\", "\x01\x7f\xff", "1"]


def rtags(rng, n=None):
    n = rng.choice([0, 0, 1, 2, 3, 8]) if n is None else n
    ks = rng.sample([w for w in WORDS if w] + ["key%d" % i for i in range(40)], n)
    return [(k, rng.choice(WORDS)) for k in ks]


def rid(rng, small=False):
    return rng.randrange(1, 5000) if small else rng.choice([rng.randrange(1, 100), rng.randrange(1, 2 ** 31), rng.randrange(1, 2 ** 40), rng.randrange(1, 2 ** 62)])


def ritem(rng, t, used, sparse_tags=False, small=False):
    while True:
        i = rid(rng, small)
        if (t, i) not in used: break
    used.add((t, i))
    tags = [] if sparse_tags and rng.random() < .8 else rtags(rng)
    if t == "n":
        g = rng.choice([1, 100, 1000])
        return dict(t="n", id=i, lat=rng.choice([0, 90 * 10 ** 9, -90 * 10 ** 9, g * rng.randrange(-90 * 10 ** 9 // g, 90 * 10 ** 9 // g)]),
                    lon=rng.choice([0, 180 * 10 ** 9, -180 * 10 ** 9, g * rng.randrange(-180 * 10 ** 9 // g, 180 * 10 ** 9 // g)]), tags=tags)
    if t == "w":
        return dict(t="w", id=i, nodes=[rid(rng, small) for _ in range(rng.choice([0, 1, 2, 3, 10]))], tags=tags)
    return dict(t="r", id=i, members=[(rng.randrange(3), rid(rng, small), rng.choice(WORDS)) for _ in range(rng.choice([0, 1, 2, 5]))], tags=tags)


def split(rng, items, mess=True):
    out, i = [], 0
    while i < len(items):
        k = rng.choice([1, 2, 5, 20])
        out.append(items[i:i + k])
        i += k
    if mess and rng.random() < .1: out.insert(rng.randrange(len(out) + 1), [])
    return out


def pbf_file(rng, corrupt=None, small=False):
    used = set()
    n = rng.choice([0, 1, 3, 8, 20, 40])
    st = rng.random() < .4
    items = [ritem(rng, rng.choice("nnnwwr"), used, st, small) for _ in range(n)]
    ordered = rng.random() < .4
    if ordered:
        items.sort(key=lambda x: ("nwr".index(x["t"]), x["id"]))
    elif rng.random() < .5:
        items.sort(key=lambda x: rng.choice(["nwr", "rwn", "wnr"]).index(x["t"]))
    f = File(rng, ordered=ordered and rng.random() < .7)
    bl = split(rng, items)
    at = rng.randrange(len(bl) + 1)
    kind = None
    for k, b in enumerate(bl + [None]):
        if corrupt and k == at:
            kind = rng.choice(["container", "item", "item", "block", "second_header", "late_header"])
            used2 = set(used)
            extra = [ritem(rng, rng.choice("nwr"), used2, False, small) for _ in range(rng.choice([0, 1, 3]))] if not ordered else []
            if kind == "container":
                c = rng.choice(pbf.CONTAINERS)
                f.bad_container(c, extra)
                kind = c
                if c in pbf.CUTS: break
            elif kind == "item":
                kind = rng.choice(pbf.ITEMS)
                f.bad_item(kind, extra)
            elif kind == "block": f.bad_block(extra)
            elif kind == "second_header":
                f = File(rng, "bare"); f.raw(pbf.header(rng, "bare", False), "bad")
            elif k and any(x["kind"] == "data" for x in f.blocks): f.raw(pbf.header(rng, "bare", False), "bad")
            else: f.raw(pbf.bad_container(rng, "feature", []), "bad")
        if b is not None:
            if rng.random() < .1: f.other()
            f.data(b)
    return f, ordered, kind


def P29(c):
    c.assumptions += ASSUME + ["headers announce a sorted file only if it is sorted", "what is reported before an error in a later block may be cut short, because blocks are unpacked in advance"]
    c.model("PassModel")
    c.model("PassModel", "PassModelWait.cfg", expect_violation="Finishes")
    rng = random.Random("P29-%d" % c.seed)
    env = {"VERIF_TMP": c.work}

    def reads(f, ordered, corrupt, n):
        L = [f.line()]
        for _ in range(n):
            m = rng.choice(["unordered", "ordered", "ordered"] + (["forced"] if ordered and not corrupt else []))
            fl = rng.choice([(1, 1, 1), (1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1)])
            stop = rng.choice([0] * 6 + [1, 2, 7])
            if stop: stop += 100 * rng.randrange(4)       # what the callback throws
            L.append("read a %s %d %d %d %d" % ((m,) + fl + (stop,)))
        if rng.random() < .3: L.insert(1, "log 1")
        if rng.random() < .05: L.append("read nofile %s 1 1 1 0" % rng.choice(["unordered", "ordered"]))
        return L
    sc = []
    for i in range(c.pick(160, 2500)):
        f, o, _ = pbf_file(rng)
        sc.append(Scenario("file-%d" % i, reads(f, o, False, 4), cost=len(f.bytes) // 50 + 10))
    c.conform("osm", "OsmTrace", sc, source="seeded files", env=env, need=["read"], racy=True, stall=60)
    sc = []
    for i in range(c.pick(220, 4000)):
        load = rng.random() < .3
        f, o, k = pbf_file(rng, True, load)
        L = reads(f, o, True, 3)
        if load: L.append("load_err a %s" % rng.choice(["map", "car", "bike", "foot"]))
        sc.append(Scenario("corrupt-%s-%d" % (k, i), L, cost=len(f.bytes) // 50 + 10))
    for k in pbf.CONTAINERS + pbf.ITEMS + ["zlib_short", "zlib_long", "zlib_cut"] * 5:
        f = File(rng, "real")
        used = set()
        its = [ritem(rng, t, used) for t in "nnwwr"]
        f.data(its)
        (f.bad_container if k in pbf.CONTAINERS else f.bad_item)(k, [ritem(rng, "nwr"[i % 3], used) for i in range(3)])
        if k not in pbf.CUTS: f.data([ritem(rng, t, used) for t in "nwr"])
        sc.append(Scenario("each-" + k, [f.line(), "read a unordered 1 1 1 0", "read a ordered 1 1 1 0", "read a ordered 0 1 0 0", "read a unordered 1 0 0 0", "read a unordered 0 0 1 0"]))
    # empty and header-only files
    for st in ("none", "real", "bare"):
        f = File(rng, st)
        sc.append(Scenario("empty-" + st, [f.line(), "read a unordered 1 1 1 0", "read a ordered 1 1 1 0", "read a forced 1 1 1 0", "load_err a car", "load_err a map"]))
    c.conform("osm", "OsmTrace", sc, source="corrupt files", variant="asan", env=env, need=["read", "load_err"], racy=True, stall=60)
    # large blocks: the ring of 64 MiB blocks in the readers wraps around
    sc = []
    for i in range(c.pick(1, 4)):
        used = set()
        f = File(rng, "real")
        for _ in range(7):
            f.data([ritem(rng, rng.choice("nwr"), used) for _ in range(3)], pad=rng.choice([(64 << 20) - 20000, 50 << 20, 63 << 20]), comp="zlib")
        sc.append(Scenario("large-%d" % i, [f.line(), "read a unordered 1 1 1 0", "read a ordered 1 1 0 0"]))
    f = File(rng, "real")
    used = set()
    f.data([ritem(rng, "n", used)], pad=17 << 20, comp="raw")
    f.data([ritem(rng, rng.choice("nwr"), used) for _ in range(3)])
    sc.append(Scenario("raw", [f.line(), "read a unordered 1 1 1 0"]))
    # many elements, strings, groups and blocks
    for i in range(c.pick(12, 60)):
        used = set()
        f = File(rng, "real")
        k = i % 6
        if k == 0:      # string tables with ids of two and three bytes
            for n in (rng.choice([130, 300]), 1500):      # the last tags of the second block have three byte ids
                its = [ritem(rng, "n" if j < n - 20 else rng.choice("wr"), used) for j in range(n)]
                for j, x in enumerate(its): x["tags"] = [("k%d-%d" % (j, y), "v%d-%d" % (j, y)) for y in range(rng.choice([0, 6, 7, 8]))]
                f.data(its)
            f.data([ritem(rng, rng.choice("nwr"), used) for j in range(20)], strings=rng.choice([17000, 33000, 66000]))
        elif k == 1:    # long lists
            its = [ritem(rng, t, used) for t in "wwrrw"]
            for x in its:
                n = rng.choice([127, 128, 300, 2100])
                if x["t"] == "w": x["nodes"] = [rid(rng) for _ in range(n)]
                else: x["members"] = [(rng.randrange(3), rid(rng), rng.choice(WORDS)) for _ in range(n)]
            f.data(its)
        elif k == 2:    # many groups in a block
            f.data([ritem(rng, "nwr"[j % 3], used) for j in range(rng.choice([40, 200]))])
        elif k == 3:    # many blocks
            for _ in range(rng.choice([50, 150])): f.data([ritem(rng, rng.choice("nwr"), used, True) for _ in range(rng.randrange(4))])
        elif k == 4:    # long dense runs, with and without tags
            f.data([ritem(rng, "n", used, rng.random() < .7) for _ in range(rng.choice([500, 2000]))])
        else:           # elements with many tags and long strings
            its = [ritem(rng, rng.choice("nwr"), used) for _ in range(5)]
            for x in its: x["tags"] = [("k%d" % y, "v" * rng.choice([0, 1, 126, 127, 128, 129, 1000, 16383, 16384, 20000])) for y in range(rng.choice([3, 60, 300]))][:300]
            f.data(its)
        sc.append(Scenario("many-%d" % i, [f.line(), "read a unordered 1 1 1 0", "read a ordered 1 1 1 0"], cost=2000))
    c.conform("osm", "OsmTrace", sc, source="blocks close to the size limit", env=env, racy=True, stall=90)


# ------------------------------------------------------------------ road networks
GRID = 10 ** 7          # one grid step in nanodegrees


def network(rng, nn, nw, style, base=None, dirs="2222ffbc", step=1, missing=.0, wtags=None, size=20):
    """nodes on grid points, ways over them"""
    by, bx = base or (rng.randrange(-60, 60) * 10 ** 9, rng.randrange(-170, 170) * 10 ** 9)
    ids = rng.sample(range(1, rng.choice([nn + 5, nn + 100, 2000, 70000])), nn)
    pts = rng.sample([(x, y) for x in range(size) for y in range(size)], nn)
    if style == "grid":
        ids.sort()
    nodes, pos = [], {}
    for i, (x, y) in zip(ids, pts):
        tags = [("rn", "1")] if rng.random() < .1 else [("rn", "0")] if rng.random() < .1 else []
        if rng.random() < .1: tags.append(("k", "v"))
        la, lo = by + y * step * GRID, bx + x * step * GRID
        pos[i] = (f32(la / 1e9), f32(lo / 1e9))
        if rng.random() < missing: pos[i] = None; continue
        nodes.append(dict(t="n", id=i, lat=la, lon=lo, tags=tags, x=x, y=y))
    ways = []
    wid = rng.sample(range(1, rng.choice([nw + 5, nw + 100, 3000])), nw)
    deg = {}
    for w in wid:
        k = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 7]) if style != "cross" else rng.choice([2, 3, 3, 4, 5])
        s = []
        for _ in range(k):
            pool = [v for v in ids if deg.get(v)] if rng.random() < .5 else ids
            v = rng.choice(pool or ids)
            if v in s and rng.random() < .7: v = rng.choice(ids)
            s.append(v)
        if k > 2 and rng.random() < .12: s[-1] = s[0]                   # roundabout
        if k > 1 and rng.random() < .03: s[1] = s[0]                    # repeated node
        for v in s: deg[v] = 1
        seg = [int(round(100 * gdist(pos[a], pos[b]))) if pos[a] and pos[b] else -1 for a, b in zip(s, s[1:])]
        if wtags: tags = wtags(rng)
        else:
            tags = [("use", "1")] if rng.random() < .85 else [("use", "0")] if rng.random() < .5 else []
            d = rng.choice(dirs)
            if d != "2" or rng.random() < .3: tags.append(("dir", d))
        rng.shuffle(tags)
        ways.append(dict(t="w", id=w, nodes=s, tags=tags, seg=seg))
    return nodes, ways, ids


def restrictions(rng, ways, ids, n):
    rels, wl = [], [w for w in ways if len(w["nodes"]) >= 2]
    through = {}
    for w in wl:
        for v in w["nodes"]: through.setdefault(v, []).append(w)
    cross = [v for v in through if len({w["id"] for w in through[v]}) >= 2]
    for k in range(n):
        if not wl: break
        if cross and rng.random() < .85:
            v = rng.choice(cross)
            a, b = rng.choice(through[v]), rng.choice(through[v])
        else:
            v, a, b = rng.choice(ids), rng.choice(wl), rng.choice(wl)
        m = [(1, a["id"], "from"), (1, b["id"], "to")]
        r = rng.random()
        if r < .6: m.append((0, v, "via"))
        elif r < .65: m.append((0, rng.choice(ids), "via"))
        elif r < .68: m.append((1, rng.choice(wl)["id"], "via"))
        if rng.random() < .1: m.append((1, rng.choice(wl)["id"], rng.choice(["from", "to"])))
        if rng.random() < .08: m.append((rng.choice([0, 2]), rng.choice(ids), rng.choice(["from", "to", "via", "location_hint", "junk"])))
        rng.shuffle(m)
        tags = [("type", "restriction")] if rng.random() < .7 else []
        tags.append(("restriction", rng.choice(["no_", "no_", "only_"]) + rng.choice(["left_turn", "right_turn", "straight_on", "u_turn"]) if rng.random() < .95 else rng.choice(["no_entry", "only_", "no_", "left_turn", "maybe_left_turn", "no_left_turns"])))
        if rng.random() < .05: tags.pop()
        rels.append(dict(t="r", id=500 + k, members=m, tags=tags))
    return rels


def osm_file(rng, nodes, ways, rels, ordered):
    items = nodes + ways + rels
    if ordered:
        items = sorted(nodes, key=lambda x: x["id"]) + sorted(ways, key=lambda x: x["id"]) + rels
    else:
        rng.shuffle(items)
        r = rng.random()
        if r < .3: items.sort(key=lambda x: "nwr".index(x["t"]))
        elif r < .6: items.sort(key=lambda x: "rwn".index(x["t"]))
    f = File(rng, ordered=ordered and rng.random() < .5)
    for b in split(rng, items):
        f.data(b)
    return f


def P30(c):
    c.assumptions += ASSUME + ["lengths of the segments of a way as computed by checks/geo.py on coordinates rounded to single precision"]
    c.model("OsmModel")
    if c.thorough: c.model("OsmModel", "OsmModelBig.cfg")
    c.model("OsmModel", "OsmModelEnds.cfg", expect_violation="Classified")
    rng = random.Random("P30-%d" % c.seed)
    env = {"VERIF_TMP": c.work}
    sc = []
    # tiny networks produced by TLC
    nets = c.generate("OsmGen", args=["-simulate", "num=%d" % c.pick(150, 1500), "-depth", "12", "-seed", str(c.seed * 7919 + 30)])
    for i, h in enumerate(nets):
        ids = [11, 5, 23, 900, 64, 2][:5]
        nodes, pos = [], {}
        for k, v in enumerate(ids):
            x, y = [(0, 0), (3, 1), (1, 4), (5, 5), (7, 2)][k]
            pos[v] = (f32(y * GRID / 1e9), f32(x * GRID / 1e9))
            nodes.append(dict(t="n", id=v, lat=y * GRID, lon=x * GRID, tags=[("rn", "1")] if k + 1 in h["rn"] else [], x=x, y=y))
        ways = []
        for k, w in enumerate(h["ways"]):
            s = [ids[v - 1] for v in w["ns"]]
            ways.append(dict(t="w", id=[70, 3, 64][k], nodes=s, tags=[("use", "1" if w["use"] else "0"), ("dir", w["dir"])], seg=[int(round(100 * gdist(pos[a], pos[b]))) for a, b in zip(s, s[1:])]))
        f = osm_file(rng, nodes, ways, [], rng.random() < .5)
        sc.append(Scenario("tlc-%d" % i, [f.line(), "map a %d %d" % (h["cb"], h["all"]), "graph a %s 0 0 %d" % (h["geom"], rng.random() < .9)]))
    c.conform("osm", "OsmTrace", sc, source="networks generated by TLC", env=env, need=["map", "graph"], stall=60)
    sc = []
    for i in range(c.pick(220, 4000)):
        nodes, ways, ids = network(rng, rng.choice([2, 4, 6, 9, 14]), rng.choice([0, 1, 2, 3, 5, 8]), rng.choice(["grid", "any"]), step=rng.choice([1, 1, 7]), missing=rng.choice([0, 0, 0, .15]))
        ordered = rng.random() < .5
        f = osm_file(rng, nodes, ways, [], ordered)
        L = [f.line()]
        if rng.random() < .2: L.append("log 1")
        for _ in range(2):
            L.append("map a %d %d" % (rng.random() < .5, rng.random() < .3))
            for g in rng.sample(["none", "all", "fl"], 2):
                L.append("graph a %s 0 %d %d" % (g, ordered and rng.random() < .5, rng.random() < .9))
        # another file with the same content in another order
        f2 = osm_file(rng, nodes, ways, [], False)
        L += [f2.line("b"), "map b 1 0", "graph b all 0 0 1", "graph a fl 0 0 1"] if rng.random() < .3 else []
        sc.append(Scenario("net-%d" % i, L, cost=len(ways) * 3 + 10))
    c.conform("osm", "OsmTrace", sc, source="seeded networks", variant="asan", env=env, need=["map", "graph"], stall=60)
    # larger networks and long ways
    sc = []
    for i in range(c.pick(10, 60)):
        n = rng.choice([60, 150, 300])
        nodes, ways, ids = network(rng, n, rng.choice([10, 40, 300 // (n // 60)]), "any", size=rng.choice([20, 60]), step=rng.choice([1, 200]) if n < 100 else 1, base=(rng.randrange(-30, 0) * 10 ** 9, rng.randrange(-100, 0) * 10 ** 9))
        for w in rng.sample(ways, 2):
            while len(w["nodes"]) < rng.choice([130, 260, 300]): w["nodes"] += rng.sample(ids, min(len(ids), 80))
            if not any(t[0] == "use" for t in w["tags"]): w["tags"].append(("use", "1"))
        pos = {x["id"]: (f32(x["lat"] / 1e9), f32(x["lon"] / 1e9)) for x in nodes}
        for w in ways: w["seg"] = [int(round(100 * gdist(pos[a], pos[b]))) for a, b in zip(w["nodes"], w["nodes"][1:])]
        if any(sum(w["seg"]) > 2 ** 31 - 10 ** 6 for w in ways): continue
        f = osm_file(rng, nodes, ways, [], rng.random() < .5)
        L = [f.line()]
        for al in (0, 1): L += ["map a %d %d" % (rng.random() < .5, al), "graph a %s 0 0 1" % rng.choice(["all", "fl"])]
        sc.append(Scenario("large-%d" % i, L, cost=1000))
    # arcs of up to thousands of kilometres
    for i in range(c.pick(12, 80)):
        nodes, ways, ids = network(rng, rng.choice([3, 6, 9]), rng.choice([2, 4]), "any", size=5, step=rng.choice([100, 300, 900]), base=(rng.randrange(-30, 10) * 10 ** 9, rng.randrange(-100, 100) * 10 ** 9))
        if any(sum(w["seg"]) > 2 ** 31 - 10 ** 6 for w in ways): continue
        sc.append(Scenario("long-arcs-%d" % i, [osm_file(rng, nodes, ways, [], False).line(), "map a 0 0", "graph a all 0 0 1", "map a 1 1", "graph a none 0 0 1"]))
    c.conform("osm", "OsmTrace", sc, source="larger networks", variant="asan", env=env, need=["map", "graph"], stall=60)
    # ids that make the bit vectors grow block by block
    sc = []
    for i in range(c.pick(20, 200)):
        b = rng.choice([62, 510, 511, 1022, 4094, 65534, 262142])
        nodes, ways, ids = network(rng, 4, 3, "any", dirs="2f")
        ren = {v: b + k for k, v in enumerate(rng.sample(ids, 4))}
        for x in nodes: x["id"] = ren[x["id"]]
        for k, w in enumerate(ways): w["nodes"] = [ren[v] for v in w["nodes"]]; w["id"] = b + k
        f = osm_file(rng, nodes, ways, [], False)
        sc.append(Scenario("ids-%d" % i, [f.line(), "map a %d %d" % (rng.randrange(2), rng.randrange(2)), "graph a all 0 0 1"]))
    c.conform("osm", "OsmTrace", sc, source="ids at word and block boundaries", variant="asan", env=env, need=["graph"], stall=60)


def P31(c):
    c.assumptions += ASSUME + ["angles too close to the limit of a direction, ways with repeated nodes at the turn and mandatory restrictions along a two-way road without via node are left open"]
    rng = random.Random("P31-%d" % c.seed)
    env = {"VERIF_TMP": c.work}
    hx = lambda s: s.encode("latin-1").hex() or "-"
    sc = []
    names = ["no_left_turn", "no_right_turn", "no_straight_on", "no_u_turn", "only_left_turn", "only_right_turn", "only_straight_on", "only_u_turn", "no_entry", "only_", "no_", "", "left_turn", "no_left_turn2", "only_left", "No_left_turn"]
    L = []
    for i in range(c.pick(1500, 20000)):
        tags = [("restriction", names[i % len(names)])] if rng.random() < .97 else [("type", "restriction")]
        if rng.random() < .3: tags.append(("type", "restriction"))
        m = [(1, rng.randrange(1, 50), "from"), (1, rng.randrange(1, 50), "to")] if rng.random() < .9 else []
        if rng.random() < .6: m.append((rng.choice([0, 0, 0, 0, 1, 2]), rng.randrange(1, 50), "via"))
        for _ in range(rng.choice([0, 0, 0, 1, 2, 4])):
            m.append((rng.choice([0, 1, 1, 1, 2]), rng.randrange(1, 50), rng.choice(["from", "to", "via", "location_hint", "junk", "From", ""])))
        rng.shuffle(m)
        L.append("restr %d %s %d %s" % (len(tags), " ".join(hx(k) + " " + hx(v) for k, v in tags), len(m), " ".join("%d %d %s" % (t, x, hx(r)) for t, x, r in m)))
    for i in range(0, len(L), 40):
        sc.append(Scenario("decode-%d" % i, ["log %d" % rng.randrange(2)] + L[i:i + 40]))
    c.conform("osm", "OsmTrace", sc, source="decoding of relations", variant="asan", env=env, need=["restr"])
    sc = []
    for i in range(c.pick(500, 6000)):
        base = (rng.choice([-2, 1, 0]) * 10 ** 9, rng.randrange(-100, 100) * 10 ** 9)
        nodes, ways, ids = network(rng, rng.choice([4, 5, 7, 10]), rng.choice([2, 3, 4, 5, 6]), "cross", base=base, dirs=rng.choice(["2", "f", "22ffb", "22ffbc"]), missing=rng.choice([0, 0, 0, .1]))
        rels = restrictions(rng, ways, ids, rng.choice([1, 2, 3, 6, 10]))
        ordered = rng.random() < .5
        f = osm_file(rng, nodes, ways, rels, ordered)
        L = [f.line()]
        if rng.random() < .3: L.append("log 1")
        L.append("map a %d %d" % (rng.randrange(2), rng.random() < .2))
        L.append("graph a %s 1 %d 1" % (rng.choice(["none", "none", "all", "fl"]), ordered and rng.random() < .5))
        sc.append(Scenario("turns-%d" % i, L, cost=len(ways) * 4 + 10))
    c.conform("osm", "OsmTrace", sc, source="seeded networks with restrictions", variant="asan", env=env, need=["graph"], stall=60)
    sc = []
    for i in range(c.pick(10, 80)):
        nodes, ways, ids = network(rng, rng.choice([50, 120]), rng.choice([30, 80]), "cross", base=(10 ** 9, rng.randrange(-100, 100) * 10 ** 9), dirs=rng.choice(["2", "22ffb"]))
        rels = restrictions(rng, ways, ids, rng.choice([20, 100, 300]))
        f = osm_file(rng, nodes, ways, rels, rng.random() < .5)
        sc.append(Scenario("many-turns-%d" % i, [f.line(), "map a 0 0", "graph a %s 1 0 1" % rng.choice(["none", "all"])], cost=600))
    c.conform("osm", "OsmTrace", sc, source="larger networks with restrictions", env=env, need=["graph"], stall=60)
    # one crossing, every combination of category, direction, from, via and to
    sc = []
    for i in range(c.pick(300, 3000)):
        sc.append(crossing(rng, i))
    c.conform("osm", "OsmTrace", sc, source="crossings with all directions", env=env, need=["graph"], stall=60)


def crossing(rng, i):
    base = (10 ** 9, 20 * 10 ** 9)
    cx = cy = 10
    arms = rng.choice([3, 4, 4, 5])
    pts = [(cx, cy)]
    ang = rng.sample([(6, 0), (5, 4), (0, 6), (-4, 5), (-6, 1), (-5, -5), (1, -6), (5, -4), (3, 7), (-2, 8), (7, -2)], arms)
    pts += [(cx + a, cy + b) for a, b in ang]
    # the roads go on behind the first node, straight on or anywhere, over nodes that shape them only
    far = []
    used = set(pts)
    for a, b in ang:
        t = [(cx + 2 * a if abs(2 * a) < 10 else cx + a + 1, cy + 2 * b if abs(2 * b) < 10 else cy + b + 1)] if rng.random() < .4 else [(rng.randrange(0, 21), rng.randrange(0, 21)) for _ in range(rng.choice([1, 2, 2, 3]))]
        t = [x for x in t if x not in used]
        used |= set(t)
        far.append(list(dict.fromkeys(t)))
    ids = rng.sample(range(1, 90), 1 + arms + sum(map(len, far)))
    nodes, pos = [], {}
    for v, (x, y) in zip(ids, pts + [x for t in far for x in t]):
        la, lo = base[0] + y * GRID, base[1] + x * GRID
        pos[v] = (f32(la / 1e9), f32(lo / 1e9))
        nodes.append(dict(t="n", id=v, lat=la, lon=lo, tags=[], x=x, y=y))
    ctr, near = ids[0], ids[1:1 + arms]
    rest = iter(ids[1 + arms:])
    fr = [[next(rest) for _ in t] for t in far]
    ways, k, left = [], 0, list(range(arms))
    rng.shuffle(left)
    while left:
        if len(left) >= 2 and rng.random() < .5:
            a, b = left.pop(), left.pop()
            s = [near[a], ctr, near[b]]
            if rng.random() < .5: s = fr[a][::-1] + s
            if rng.random() < .5: s = s + fr[b]
        else:
            a = left.pop()
            s = [ctr, near[a]] + (fr[a] if rng.random() < .5 else [])
            if rng.random() < .5: s.reverse()
        d = rng.choice("222fb")
        ways.append(dict(t="w", id=10 + k, nodes=s, tags=[("use", "1"), ("dir", d)], seg=[int(round(100 * gdist(pos[p], pos[q]))) for p, q in zip(s, s[1:])]))
        k += 1
    rels = []
    for j in range(rng.choice([1, 1, 2, 4])):
        m = [(1, rng.choice(ways)["id"], "from"), (1, rng.choice(ways)["id"], "to")]
        if rng.random() < .7: m.append((0, ctr, "via"))
        rels.append(dict(t="r", id=900 + j, members=m, tags=[("restriction", rng.choice(["no_", "only_"]) + rng.choice(["left_turn", "right_turn", "straight_on", "u_turn"]))]))
    f = osm_file(rng, nodes, ways, rels, rng.random() < .5)
    return Scenario("crossing-%d" % i, [f.line(), "map a 0 %d" % (rng.random() < .3), "graph a %s 1 0 1" % rng.choice(["none", "none", "all", "fl"])])


# ------------------------------------------------------------------ P32: profiles
HIGHWAYS = ["motorway", "trunk", "primary", "secondary", "tertiary", "unclassified", "residential", "service", "motorway_link", "trunk_link", "primary_link", "secondary_link", "tertiary_link",
            "motorway_junction", "living_street", "track", "ferry", "bicycle_road", "construction", "path", "footway", "cycleway", "bridleway", "pedestrian", "bus_guideway", "raceway", "escape",
            "steps", "proposed", "conveying", "crossing", "escalator", "elevator", "platform", "unknown", "", "Motorway", "motorway_", "trac"]
VALUES = {
    "junction": ["roundabout", "yes", "circular"], "route": ["ferry", "bus", "ferry2"], "ferry": ["yes", "ferry", "no"], "motorcar": ["no", "yes", "private"], "motor_vehicle": ["no", "yes"],
    "access": ["yes", "permissive", "delivery", "designated", "destination", "agricultural", "forestry", "public", "private", "no", ""],
    "oneway": ["-1", "reverse", "backward", "yes", "true", "1", "no", "false", "0", "reversible", "alternating", "weird", ""],
    "oneway:bicycle": ["-1", "opposite", "1", "yes", "true", "no_planned", "0", "no", "false", "tolerated", "permissive", "weird"],
    "cycleway": ["opposite", "opposite_track", "opposite_lane", "opposite_share_busway", "track", "lane", "no"], "cycleway:left": ["lane"], "cycleway:right": ["lane"], "cycleway:both": ["lane"],
    "bicycle": ["no", "use_sidepath", "dismount", "yes"], "crossing": ["no", "zebra"], "public_transport": ["stop_position", "platform", "stop_area", "station", "other"],
    "railway": ["halt", "platform", "subway_entrance", "station", "tram_stop", "rail"], "name": ["Main Street", ""], "ref": ["A 5", "B3"],
}
SPEEDWORDS = ["signals", "variable", "none", "unlimited", "walk", "foot", "de:walk", "walking_pace", "schritt", "fr:urban", "urban", "xx:living_street", "living_street", "de:rural", "at:rural", "ro:rural", "rural",
              "ru:rural", "ua:rural", "ru:motorway", "ch:motorway", "at:motorway", "ro:motorway", "de:motorway", "national", "ro:trunk", "dk:rural", "ch:rural", "fr:rural", "it:rural", "hu:rural",
              "de:zone:30", "de:zone30", "at:zone30", "walkx", "eu:rural", "", "fast", "d:urban", "-5", "km/h", "ab:urbanx"]


def maxspeed(rng):
    def part():
        if rng.random() < .4:
            w = rng.choice(SPEEDWORDS)
            return "".join(ch.upper() if rng.random() < .3 else ch for ch in w)
        n = rng.choice([0, 0, 1, 5, 30, 50, 99, 100, 130, 300, 1000, 99999])
        return ("0" if rng.random() < .05 else "") + str(n) + rng.choice(["", "", " "]) + rng.choice(["", "", "", "mph", "MPH", "knots", "km/h", "kmh", "kph", "furlongs", "mphx"])
    if rng.random() < .05: return "unposted"
    if rng.random() < .05:          # values of up to 255 letters
        s = ";".join(part() for _ in range(40))[:rng.choice([31, 33, 60, 64, 65, 127, 129, 200, 254, 255])]
        return s
    s = (" " if rng.random() < .1 else "") + part()
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        s += ";" + rng.choice(["", " ", "  "]) + part()
    return s


def way_tags(rng, exact=True):
    t = {}
    if rng.random() < .85: t["highway"] = rng.choice(HIGHWAYS)
    for k, v in VALUES.items():
        if rng.random() < .1: t[k] = rng.choice(v)
    if rng.random() < .35: t["maxspeed"] = maxspeed(rng)
    if exact and t.get("oneway") in ("weird", ""): del t["oneway"]
    l = list(t.items())
    rng.shuffle(l)
    return l


def prof_line(tags):
    hx = lambda s: s.encode("latin-1").hex() or "-"
    return "prof %s %d %s" % (js(jtags(tags)), len(tags), " ".join(hx(k) + " " + hx(v) for k, v in tags))


def P32(c):
    c.assumptions += ASSUME + ["maxspeed values are split into parts by checks/osm.py as OsmProfile.tla takes them", "numbers in maxspeed are below one million",
                               "cars on a way with an unknown value of oneway: open in both directions or closed"]
    rng = random.Random("P32-%d" % c.seed)
    env = {"VERIF_TMP": c.work}
    L = []
    for h in HIGHWAYS:
        L.append([("highway", h)])
        for k, vs in VALUES.items():
            for v in vs: L.append([("highway", h), (k, v)])
    for k, vs in VALUES.items():
        for v in vs:
            L.append([(k, v)])
            L.append([(k, v), ("highway", "residential"), ("oneway", "yes"), ("cycleway", "lane"), ("bicycle", "no")][:rng.randrange(2, 6)] if k not in ("highway", "oneway", "cycleway", "bicycle") else [(k, v), ("highway", "residential")])
    for o in VALUES["oneway"]:
        for cw in VALUES["cycleway"]: L.append([("highway", "residential"), ("oneway", o), ("cycleway", cw)])
        for s in ({"cycleway:left"}, {"cycleway:right"}, {"cycleway:left", "cycleway:right"}, {"cycleway:both"}): L.append([("oneway", o), ("highway", "service")] + [(k, "lane") for k in sorted(s)])
    for w in SPEEDWORDS:
        L += [[("maxspeed", w)], [("maxspeed", w), ("highway", "primary")], [("maxspeed", w.upper() + ";70"), ("highway", "track")], [("maxspeed", "70; " + w), ("junction", "yes")]]
    for n in (0, 1, 5, 50, 130, 621, 1000):
        for u in ("", "mph", " mph", "knots", " knots", "km/h", " km/h", "kmh", "kph", "x", "  kmh"): L.append([("maxspeed", str(n) + u), ("highway", "primary")])
    L += [way_tags(rng, False) for _ in range(c.pick(2500, 40000))]
    sc = [Scenario("tags-%d" % i, ["log %d" % rng.randrange(2)] + [prof_line(t) for t in L[i:i + 60]]) for i in range(0, len(L), 60)]
    c.conform("osm", "OsmTrace", sc, source="tag combinations", variant="asan", env=env, need=["prof"])
    sc = []
    for i in range(c.pick(180, 3000)):
        wt = lambda r: way_tags(r) if r.random() < .7 else [("highway", r.choice(["residential", "primary", "motorway", "cycleway", "track", "footway"]))] + ([("oneway", r.choice(["yes", "-1", "no"]))] if r.random() < .3 else []) + ([("maxspeed", maxspeed(r))] if r.random() < .4 else [])
        nodes, ways, ids = network(rng, rng.choice([3, 5, 8, 12]), rng.choice([1, 2, 4, 6]), "cross", base=(rng.choice([-1, 0, 1]) * 10 ** 9, 7 * 10 ** 9), wtags=wt, step=rng.choice([1, 1, 1, 30]) , size=10, missing=rng.choice([0, 0, 0, .1]))
        rels = restrictions(rng, ways, ids, rng.choice([0, 1, 3]))
        ordered = rng.random() < .5
        f = osm_file(rng, nodes, ways, rels, ordered)
        L = [f.line()] + (["log 1"] if rng.random() < .3 else [])
        for p in ("car", "bike", "foot"):
            L.append("simple a %s %d %d" % (p, rng.random() < .3, ordered and rng.random() < .5))
        sc.append(Scenario("simple-%d" % i, L, cost=len(ways) * 4 + 10))
    for i in range(c.pick(5, 30)):
        wt = lambda r: [("highway", r.choice(["residential", "primary", "motorway", "cycleway", "track", "footway"]))] + ([("cycleway", r.choice(["lane", "track"]))] if r.random() < .4 else []) + ([("maxspeed", str(r.randrange(5, 130)))] if r.random() < .5 else [])
        nodes, ways, ids = network(rng, 90, rng.choice([150, 330]), "cross", base=(10 ** 9, 7 * 10 ** 9), wtags=wt, size=20)
        f = osm_file(rng, nodes, ways, [], True)
        sc.append(Scenario("simple-large-%d" % i, [f.line()] + ["simple a %s 0 0" % p for p in ("car", "bike", "foot")], cost=2000))
    c.conform("osm", "OsmTrace", sc, source="simple loaders on seeded networks", variant="asan", env=env, need=["simple"], stall=60)


def P36(c):
    c.assumptions += ASSUME + ["harness/tools.py decodes the vectors osm_extract writes (little endian, as save_vector and save_bit_vector document)",
                               "coordinates and segment lengths as in P30, maxspeed values as in P32"]
    rng = random.Random("P36-%d" % c.seed)
    env = {"VERIF_TMP": c.work}
    sc = []
    wt = lambda r: way_tags(r) if r.random() < .6 else [("highway", r.choice(["residential", "primary", "motorway", "cycleway", "track", "footway"]))] + ([("oneway", r.choice(["yes", "-1", "no", "reversible"]))] if r.random() < .3 else []) + ([("maxspeed", maxspeed(r))] if r.random() < .5 else []) + ([("name", r.choice(["", "a", "Stra\xdfe", "x" * 250]))] if r.random() < .3 else []) + ([("ref", "B 3")] if r.random() < .2 else [])
    slow = lambda r: [("route", "ferry")] if r.random() < .5 else [("highway", "primary"), ("maxspeed", str(r.choice([1, 2, 5, 30, 120])))]
    for i in range(c.pick(260, 4000)):
        far = rng.random() < .15
        nodes, ways, ids = network(rng, rng.choice([3, 5, 8, 12]), rng.choice([0, 1, 2, 4, 6]), "cross", base=(rng.choice([-1, 0, 1]) * 10 ** 9, 7 * 10 ** 9), wtags=slow if far else wt, step=rng.choice([30, 100, 400]) if far else rng.choice([1, 1, 30]), size=10, missing=rng.choice([0, 0, 0, .1]))
        rels = restrictions(rng, ways, ids, rng.choice([0, 0, 3]))
        L = [osm_file(rng, nodes, ways, rels, rng.random() < .5).line()] + ["extract a %d" % k for k in (0, 1)]
        if rng.random() < .03: L.append("extract nofile %d" % rng.randrange(2))
        sc.append(Scenario("extract-%d" % i, L, cost=len(ways) * 4 + 10))
    for i in range(c.pick(60, 600)):
        f, o, k = pbf_file(rng, True, True)
        sc.append(Scenario("corrupt-%s-%d" % (k, i), [f.line(), "extract a %d" % rng.randrange(2)]))
    for i in range(c.pick(4, 30)):
        w2 = lambda r: [("highway", r.choice(["residential", "primary", "motorway", "track", "footway"]))] + ([("name", "N%d" % r.randrange(100))] if r.random() < .6 else []) + ([("maxspeed", str(r.randrange(5, 130)))] if r.random() < .5 else [])
        nodes, ways, ids = network(rng, 90, rng.choice([150, 330]), "cross", base=(10 ** 9, 7 * 10 ** 9), wtags=w2, size=20)
        sc.append(Scenario("extract-large-%d" % i, [osm_file(rng, nodes, ways, [], True).line(), "extract a 1"], cost=2000))
    c.conform("tools", "OsmToolTrace", sc, source="osm_extract on seeded files", variant="asan", env=env, need=["file", "extract"], stall=90)
