"""Checks for distances on the sphere (specification: Geo.tla, GeoTrace.tla; design model VPModel.tla)."""
import math, random, struct
from vf import Scenario
from rgen import lst

R = 6371000.785


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def vec(lat, lon):
    a, b = math.radians(lat), math.radians(lon)
    return (math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a))


def gdist(p, q):
    """great circle distance in metres, accurate for all pairs: half angle form of the angle between unit vectors"""
    u, v = vec(*p), vec(*q)
    s = math.sqrt(sum((a - b) ** 2 for a, b in zip(u, v)))
    t = math.sqrt(sum((a + b) ** 2 for a, b in zip(u, v)))
    return 2 * R * math.atan2(s, t)


def cm(d):
    return int(round(d * 100))


def txt(x):
    return "%.9g" % x


def flist(v):
    return "%d %s" % (len(v), " ".join(txt(x) for x in v)) if v else "0"


def wrap(lat, lon):
    lat = max(-90.0, min(90.0, lat))
    while lon > 180: lon -= 360
    while lon < -180: lon += 360
    return lat, lon


def P24(c):
    c.assumptions += ["the reference distances of the script (checks/geo.py, half angle formula)", "latitudes in [-90,90], longitudes in [-180,180]"]
    rng = random.Random("P24-%d" % c.seed)
    sc = []

    def add(tag, pts):
        # points in thousandths of a degree
        P = [(a / 1000.0, b / 1000.0) for a, b in pts]
        ref = [cm(gdist(p, q)) for p in P for q in P]
        line = "dist %d %s %d %s %s %s %s" % (len(P), " ".join(repr(a) for a, _ in P), len(P), " ".join(repr(b) for _, b in P),
                                              lst([a for a, _ in pts]), lst([b for _, b in pts]), lst(ref))
        sc.append(Scenario("%s-%d" % (tag, len(sc)), [line]))
    special = [0, 1, -1, 45000, -45000, 90000, -90000, 89999, -89999, 30000, 60000]
    slon = [0, 1, -1, 90000, -90000, 180000, -180000, 179999, -179999, 45000, 135000, -135000]
    for i in range(c.pick(60, 400)):
        add("special", [(rng.choice(special), rng.choice(slon)) for _ in range(7)])
    for i in range(c.pick(60, 400)):
        add("random", [(rng.randrange(-90000, 90001), rng.randrange(-180000, 180001)) for _ in range(7)])
    for i in range(c.pick(60, 400)):
        # two points, shifted, mirrored and swapped
        a, b, dl, l = rng.randrange(-90000, 90001), rng.randrange(-90000, 90001), rng.randrange(0, 180001), rng.randrange(-180000, 180001)
        w = lambda x: x - 360000 if x > 180000 else x + 360000 if x < -180000 else x
        k = rng.randrange(-180000, 180001)
        anti = w(l + 180000)
        add("symmetry", [(a, l), (b, w(l + dl)), (a, k), (b, w(k - dl)), (-a, w(k + dl)), (-b, k), (-a, anti)])
    for i in range(c.pick(60, 400)):
        a, l, r = rng.randrange(-89000, 89001), rng.randrange(-179000, 179001), rng.choice([1, 3, 10, 100, 900])
        add("close", [(a + rng.randrange(-r, r + 1), l + rng.randrange(-r, r + 1)) for _ in range(6)])
    for i in range(c.pick(40, 200)):
        l = rng.choice([180000, -180000, 179990])
        add("dateline", [(rng.randrange(-1000, 1001), (x if x <= 180000 else x - 360000) if l > 0 else x if x >= -180000 else x + 360000)
                         for x in [l + rng.randrange(-100, 101) for _ in range(5)]] + [(0, 180000), (0, -180000)])
    c.conform("geo", "GeoTrace", sc, source="special positions, random, symmetric, close and date line configurations", variant="asan", need=["dist"])
    # the optimised build evaluates the cosine with vector instructions
    c.conform("geo", "GeoTrace", sc, source="same, optimised build", need=["dist"])


def cloud(rng, n):
    m = rng.choice(["world", "city", "tiny", "region", "pole", "dateline", "antipodal", "antipodal", "antipodal", "grid", "same", "line", "dup", "ring", "mixed"])
    cla, clo = rng.uniform(-80, 80), rng.uniform(-179, 179)
    P = []
    for i in range(n):
        if m == "world" or (m == "mixed" and rng.random() < 0.3): p = (rng.uniform(-90, 90), rng.uniform(-180, 180))
        elif m in ("city", "mixed"): p = (cla + rng.uniform(-.1, .1), clo + rng.uniform(-.1, .1))
        elif m == "tiny": p = (cla + rng.uniform(-.0005, .0005), clo + rng.uniform(-.0005, .0005))
        elif m == "region": p = (cla + rng.uniform(-8, 8), clo + rng.uniform(-8, 8))
        elif m == "pole": p = (rng.choice([-1, 1]) * rng.uniform(89.5, 90), rng.uniform(-180, 180))
        elif m == "dateline": p = (cla / 2 + rng.uniform(-.5, .5), 180 + rng.uniform(-.5, .5))
        elif m == "antipodal": s = rng.random() < .5; p = ((-cla if s else cla) + rng.uniform(-.05, .05), (clo + 180 if s else clo) + rng.uniform(-.05, .05))
        elif m == "grid": p = (float(rng.randrange(-3, 4)), float(rng.randrange(-3, 4)))
        elif m == "same": p = (cla, clo)
        elif m == "line": p = (round(cla), clo + 0.01 * i)
        elif m == "dup": p = P[rng.randrange(i)] if i and rng.random() < .6 else (cla + rng.uniform(-.1, .1), clo + rng.uniform(-.1, .1))
        else: p = (cla + .3 * math.sin(6.283 * i / n), clo + .3 * math.cos(6.283 * i / n))
        p = wrap(*p)
        P.append((f32(p[0]), f32(p[1])))
    return m, P


def tol(extent):
    """rounding of single precision distances (twice on either side of a comparison) and of the cosine"""
    ulp = 2.0 ** (math.frexp(max(extent, 1.0))[1] - 24)
    return cm(0.7 + 4 * ulp)


def P23(c):
    c.assumptions += ["the reference distances of the script (checks/geo.py, half angle formula)", "positions and radii are rounded to single precision like the interface does",
                      "answers may differ within the rounding of single precision distances (70 cm plus four units in the last place)"]
    c.model("VPModel")
    c.model("VPModel", "VPModelEager.cfg", expect_violation="Nearest")
    if c.thorough:
        c.model("VPModel", "VPModelBig.cfg")
    rng = random.Random("P23-%d" % c.seed)
    sc = []
    big = [257, 400, 513, 1025, 2000, 3000]
    sizes = [0, 1, 2, 3, 7, 8, 9, 10, 15, 16, 17, 18, 20, 31, 32, 33, 40, 63, 64, 65, 70, 100, 129]
    for i in range(c.pick(420, 4000)):
        n = sizes[i % len(sizes)] if i % 21 else big[(i // 21) % len(big)]
        m, P = cloud(rng, n)
        L = ["g_new 0 %s %s" % (flist([p[0] for p in P]), flist([p[1] for p in P]))]
        if rng.random() < .1:
            L += ["g_copy 1 0", "g_drop 0", "g_copy 0 1"]
        if n == 0 and rng.random() < .5:
            L = ["g_default 0"]
        ext = max([gdist(P[0], p) for p in P] + [0])
        for k in range(c.pick(10, 16)):
            r = rng.random()
            if P and r < .7 and m in ("same", "dup", "grid") and rng.random() < .4:
                q = rng.choice(P)
            elif P and r < .7:
                b = rng.choice(P)
                s = rng.choice([0, 0, 1e-5, 1e-5, 1e-4, 1e-3, 1e-2, .1, 1, 10])
                q = wrap(b[0] + rng.uniform(-s, s), b[1] + rng.uniform(-s, s))
            else:
                q = (rng.uniform(-90, 90), rng.uniform(-180, 180))
            q = (f32(q[0]), f32(q[1]))
            ds = [gdist(q, p) for p in P]
            rad = rng.choice([0, 1, 10, 100, 1000, 1e4, 1e5, 1e6, 1.9e7, 2.05e7] + ([min(ds) * rng.choice([.5, 1, 1.001, 1.2, 2]) + rng.choice([0, 5, 20]), rng.choice(ds) * 1.0001 + 5] if ds else []))
            if q in P and rng.random() < .3: rad = 0
            rad = f32(min(rad, 2.05e7))
            t = tol(min(2.0e7, max(ds + [min(rad, 2.0e7)]) + ext))
            L.append("%s 0 %s %s %s %d %s" % (rng.choice(["g_near", "g_near", "g_all"]), txt(q[0]), txt(q[1]), txt(rad), t, lst([-1 if p == q else cm(d) for d, p in zip(ds, P)])))
        sc.append(Scenario("%s-%d" % (m, i), L, cost=n + 10))
    c.conform("geo", "GeoTrace", sc, source="seeded point clouds", variant="asan", need=["g_near", "g_all"])
    c.conform("geo", "GeoTrace", sc[:c.pick(200, 4000)], source="same, optimised build", need=["g_near", "g_all"])
