"""Checks for input and output (specification: Io.tla, IoTrace.tla; design model ReaderModel.tla)."""
import itertools, random, struct
from vf import Scenario
from rgen import lst

ASSUME = ["the correspondence between script operations and library calls in harness/io.cpp"]


def hx(b):
    return bytes(b).hex() or "-"


def reader_history(rng, i, tiny=False):
    L, live = [], {}
    for _ in range(1 if tiny else rng.randrange(1, 4)):
        k = rng.randrange(3)
        if k in live:
            L.append("r_del %d" % k)
        bs = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 33, 64]) if not tiny else rng.choice([1, 2, 3])
        total = rng.choice([0, 1, bs, 2 * bs, 4 * bs, 5 * bs, 5 * bs + 1, 6 * bs, 10 * bs, 11 * bs + 1, rng.randrange(0, 25 * bs)])
        m = rng.choice(["full", "one", "random", "random", "almost"])
        ch = []
        left = total
        while left:
            x = min(left, bs if m == "full" else 1 if m == "one" and total < 200 else max(1, bs - 1) if m == "almost" else rng.randrange(1, bs + 1))
            ch.append(x); left -= x
        if rng.random() < .15 and m == "full":
            L.append("r_file %d %d %d" % (k, bs, total)); end = "eof"
        else:
            end = rng.choice(["eof", "eof", "throw"])
            L.append("r_new %d %d %s %s %d" % (k, bs, lst(ch), end, rng.choice([0, 0, 0, 20, 200])))
        live[k] = bs
        style = rng.choice(["full", "random", "small", "mixed"])
        n = rng.choice([3, total // max(1, bs) + 4, 40])
        if style == "small":
            n = min(total + 3, 60)
        for _ in range(n):
            j = k if rng.random() < .8 else rng.choice(list(live))
            b = live[j]
            s = b if style == "full" else rng.randrange(0, b + 1) if style in ("random", "mixed") else 1
            if rng.random() < .02: s = b + rng.choice([1, 5])
            L.append("r_read %d %d %d" % (j, s, rng.random() < .2))
            if rng.random() < .5:
                L.append("r_hold %d %d" % (j, rng.choice([0, 0, 50, 300])))
            if rng.random() < .03:
                t = rng.randrange(3)
                if t != j:
                    L.append("r_move %d %d %d" % (t, j, rng.randrange(2)))
                    live[t] = live.pop(j)
                    if k not in live: k = t
        if rng.random() < .5:
            L.append("r_del %d" % k); del live[k]
    for k in live:
        L.append("r_del %d" % k)
    return Scenario("reader-%d" % i, L)


def P25(c):
    c.assumptions += ASSUME + ["the source delivers between 1 and the requested number of bytes until it ends, and touches nothing else",
                               "the interleavings of the code under test are those the operating system chooses; all interleavings are explored on ReaderModel"]
    c.model("ReaderModel")
    c.model("ReaderModel", "ReaderModelTight.cfg", expect_violation="Content")
    c.model("ReaderModel", "ReaderModelSilent.cfg", expect_violation="Answered")
    c.model("ReaderModel", "ReaderModelBig.cfg")
    rng = random.Random("P25-%d" % c.seed)
    env = {"VERIF_TMP": c.work}
    sc = [reader_history(rng, i) for i in range(c.pick(300, 3000))]
    need = ["r_new", "r_read", "r_hold", "r_move", "r_del"]
    c.conform("io", "IoTrace", sc, source="seeded", variant="asan", env=env, need=need, racy=True, stall=30)
    # tiny blocks: the ring wraps around again and again, every residue of the ring occurs
    sc = [reader_history(rng, i, True) for i in range(c.pick(300, 2000))]
    for bs in (1, 2, 3, 4):
        for r in range(0, bs + 1):
            L = ["r_new 0 %d %s eof 0" % (bs, lst([bs] * 14))]
            pos = 0
            for k in itertools.count():
                s = r if k % 2 else bs
                L.append("r_read 0 %d 0" % s)
                L.append("r_hold 0 %d" % rng.choice([0, 100]))
                pos += s
                if pos > 14 * bs + bs: break
            L += ["r_read 0 1 0", "r_read 0 0 0", "r_read 0 1 1", "r_del 0"]
            sc.append(Scenario("wrap-%d-%d" % (bs, r), L))
    c.conform("io", "IoTrace", sc, source="small rings", env=env, need=need[:3], racy=True, stall=30)
    # large blocks, data checked against the stream by the specification on small reads at the block ends
    sc = []
    for i in range(c.pick(10, 60)):
        bs = rng.choice([1000, 4096])
        L = ["r_new 0 %d %s %s 0" % (bs, lst([rng.choice([bs, bs - 1, bs // 2 + 1]) for _ in range(12)]), rng.choice(["eof", "throw"]))]
        for _ in range(rng.randrange(5, 20)):
            L += ["r_read 0 %d 0" % rng.choice([bs, bs - 1, 100, 1]), "r_hold 0 %d" % rng.choice([0, 200])]
        L.append("r_del 0")
        sc.append(Scenario("large-%d" % i, L, cost=2000))
    c.conform("io", "IoTrace", sc, source="large blocks", env=env, racy=True, stall=30)
    # data races count as crashes of the history
    if c.tsan("io"):
        sc = [reader_history(rng, i) for i in range(c.pick(60, 600))]
        c.conform("io", "IoTrace", sc, source="thread sanitizer", variant="tsan", env=env, racy=True, stall=60)


TYPES = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "f32": 4, "f64": 8, "p3": 3}


def rb(rng, n):
    m = rng.random()
    return [rng.randrange(256) for _ in range(n)] if m < .7 else [rng.choice([0, 255])] * n


def file_history(rng, i):
    L, F = [], "abc"
    for _ in range(rng.randrange(4, 25)):
        f = rng.choice(F)
        r = rng.random()
        g = rng.choice(["FULL", "NODIR"]) if rng.random() < .1 else f
        ty = rng.choice(list(TYPES))
        if r < .18:
            L.append("v_save %s %s %s" % (ty, g, hx(rb(rng, TYPES[ty] * rng.choice([0, 1, 2, 3, 10, 40])))))
        elif r < .22:
            L.append("v_savev %s %s %s" % (ty, g, hx(rb(rng, TYPES[ty]))))
        elif r < .32:
            L.append("v_load %s %s" % (ty, f if rng.random() < .95 else "NODIR"))
        elif r < .36:
            L.append("v_loadv %s %s" % (ty, f))
        elif r < .44:
            v = [[rng.randrange(1, 256) for _ in range(rng.choice([0, 0, 1, 3, 20]))] for _ in range(rng.choice([0, 1, 2, 5]))]
            L.append("s_save %s %d %s" % (g, len(v), " ".join(hx(x) for x in v)))
        elif r < .5:
            L.append("s_load " + f)
        elif r < .62:
            n = rng.choice([0, 1, 7, 8, 63, 64, 65, 511, 512, 513, 1023, 1024, rng.randrange(1200)])
            L.append("b_save %s %s" % (g, lst([rng.randrange(2) for _ in range(n)])))
            if rng.random() < .7: L.append("b_load " + f)
        elif r < .68:
            L.append("b_load " + f)
        elif r < .74:
            L.append("x_save %s %s" % (g, hx(rb(rng, rng.choice([0, 1, 8, 30])))))
        elif r < .8:
            L.append("x_load " + f)
        elif r < .86:
            L.append("f_cut %s %d" % (f, rng.choice([0, 1, 4, 7, 8, 9, 71, 72, 73, rng.randrange(100)])))
        elif r < .92:
            L.append("f_add %s %s" % (f, hx([0] * rng.choice([1, 3, 4, 8, 64]))))
        elif r < .95:
            L.append("f_put %s %s" % (f, hx(list(struct.pack("<Q", rng.choice([0, 1, 511, 512, 513, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - 511, 2 ** 64 - 512, 2 ** 32]))) + [0] * rng.choice([0, 0, 64, 128]))))
            L.append("b_load " + f)
        else:
            L.append("f_del " + f)
    return Scenario("files-%d" % i, L)


def source_history(rng, i):
    L = ["f_put %s %s" % (f, hx(rb(rng, rng.choice([0, 1, 5, 30, 100])))) for f in "ab"]
    st = {}          # data source -> open?
    fns = {}         # function -> data source it reads from (while that one stays open)
    for _ in range(rng.randrange(8, 50)):
        k = rng.randrange(3)
        if k not in st:
            L.append("d_new %d" % k); st[k] = False
            continue
        r = rng.random()
        drop = lambda x: [fns.pop(j) for j in [j for j in fns if fns[j] == x]]
        if r < .2:
            f = rng.choice(["a", "b", "b", "a", "c", "NODIR", "DIR"])
            ctor = int(rng.random() < .4)
            L.append("d_open %d %s %d" % (k, f, ctor))
            if f in ("a", "b", "DIR"):
                drop(k); st[k] = True
        elif r < .45:
            L.append("d_read %d %d" % (k, rng.choice([0, 1, 3, 10, 200])))
        elif r < .55 and st[k]:
            j = rng.randrange(2)
            L.append("d_fn %d %d" % (k, j)); fns[j] = k
        elif r < .65 and fns:
            L.append("d_call %d %d" % (rng.choice(list(fns)), rng.choice([1, 4, 50])))
        elif r < .72:
            L.append("d_size %d" % k)
        elif r < .8:
            L.append("d_rewind %d" % k)
        elif r < .84:
            L.append("d_close %d" % k); drop(k); st[k] = False
        elif r < .9:
            j = rng.choice(list(st))
            c = int(rng.random() < .5 and j != k)
            L.append("d_move %d %d %d" % (k, j, c))
            if j != k:
                drop(k)
                for x in fns:
                    if fns[x] == j: fns[x] = k
                st[k] = st[j]; st[j] = False
        elif r < .93:
            L.append("d_del %d" % k); drop(k); del st[k]
        else:
            L.append("d_count")
    L.append("d_count")
    return Scenario("source-%d" % i, L)


def P26(c):
    c.assumptions += ASSUME + ["strings contain no zero byte", "damage that keeps a file's size consistent is not detectable: there is no checksum"]
    rng = random.Random("P26-%d" % c.seed)
    env = {"VERIF_TMP": c.work}
    sc = [file_history(rng, i) for i in range(c.pick(400, 4000))]
    L = []
    for ty, sz in TYPES.items():
        for n in (0, 1, 2, 5):
            raw = rb(rng, n * sz)
            for fw, fr in itertools.product((0, 1), repeat=2):
                for cut in sorted(set([-1, 0, 1, n * sz, n * sz - 1, 2 * n * sz, 2 * n * sz - 1, n * sz + 1])):
                    L.append("w_stream %s %s %d %d %d" % (ty, hx(raw), max(cut, -1), fw, fr))
    for n in list(range(0, 20)) + [63, 64, 65, 127, 128, 511, 512, 513, 1023, 1024, 1025]:
        L.append("b_stream " + lst([rng.randrange(2) for _ in range(n)]))
        L.append("b_stream " + lst([1] * n))
    sc += [Scenario("stream-%d" % i, L[i:i + 40]) for i in range(0, len(L), 40)]
    # every truncation point and one byte extension of a bit vector file and of a vector file
    for n in (0, 1, 512, 513):
        bits = [rng.randrange(2) for _ in range(n)]
        size = 8 + 64 * ((n + 511) // 512)
        M = []
        for k in range(0, size, 1 if c.thorough or size < 80 else 5):
            M += ["b_save a " + lst(bits), "f_cut a %d" % k, "b_load a"]
        M += ["b_save a " + lst(bits), "b_load a", "f_add a 00", "b_load a"]
        sc.append(Scenario("cut-bits-%d" % n, M))
    # larger than the buffers of the standard library
    for i in range(c.pick(24, 120)):
        ty = rng.choice(list(TYPES))
        M = ["v_save %s a %s" % (ty, hx(rb(rng, TYPES[ty] * rng.choice([1000, 1366, 2731, 4096])))), "v_load %s a" % ty]
        v = [[rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 15, 16, 100, 3000]))] for _ in range(rng.choice([3, 20]))]
        v += [[rng.randrange(1, 256)] for _ in range(rng.choice([0, 500]))]
        if sum(map(len, v)) < 9000: M += ["s_save b %d %s" % (len(v), " ".join(hx(x) for x in v)), "s_load b"]
        n = rng.choice([4096, 5000, 8191, 16384, 33000])
        M += ["b_save c " + lst([rng.randrange(2) for _ in range(n)]), "b_load c", "b_stream " + lst([rng.randrange(2) for _ in range(n)])]
        M += ["x_save d " + hx(rb(rng, rng.choice([5000, 9000]))), "x_load d"]
        M += ["v_save u8 a %s" % hx(rb(rng, 10)), "v_load u8 a"]
        sc.append(Scenario("big-%d" % i, M, cost=300))
    need = ["v_save", "v_load", "v_loadv", "s_save", "s_load", "b_save", "b_load", "b_stream", "w_stream", "x_save", "x_load"]
    c.conform("io", "IoTrace", sc, source="file histories", variant="asan", env=env, need=need)
    sc = [source_history(rng, i) for i in range(c.pick(300, 3000))]
    c.conform("io", "IoTrace", sc, source="data source histories", variant="asan", env=env, need=["d_open", "d_read", "d_fn", "d_call", "d_size", "d_rewind", "d_close", "d_move", "d_count"])


def varint(x):
    r = []
    while x >= 128:
        r.append(x % 128 + 128); x //= 128
    return r + [x]


def message(rng):
    m = []
    for _ in range(rng.choice([0, 1, 2, 3, 6])):
        fid = rng.choice([1, 2, 15, 16, 17, 2047, 2048, 2 ** 29 - 1, 2 ** 61 - 1, 0])
        w = rng.choice([0, 1, 2, 5, 0, 2])
        m += varint(fid * 8 + w)
        if w == 0: m += varint(rng.choice([0, 1, 127, 128, 300, 2 ** 14 - 1, 2 ** 14, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, rng.randrange(2 ** 64), rng.randrange(2 ** 20)]))
        elif w == 1: m += [rng.randrange(256) for _ in range(8)]
        elif w == 5: m += list(struct.pack("<f", rng.choice([0.0, -0.0, 1.0, -1.5, 3.25e10, 1e-20, rng.uniform(-1e6, 1e6)])))
        else:
            n = rng.choice([0, 1, 2, 5, 127, 128, 130]); m += varint(n) + [rng.randrange(256) for _ in range(n)]
    return m


def P27(c):
    c.assumptions += ASSUME + ["single precision fields hold zero or normal numbers"]
    rng = random.Random("P27-%d" % c.seed)
    V = []
    special = [0, 1, 127, 128, 129, 255, 300, 16383, 16384, 2 ** 21 - 1, 2 ** 21, 2 ** 28 - 1, 2 ** 28, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 35 - 1, 2 ** 35, 2 ** 42, 2 ** 49, 2 ** 56 - 1, 2 ** 56, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]
    for x in special + [rng.randrange(2 ** rng.randrange(1, 65)) for _ in range(c.pick(100, 1000))]:
        b = varint(x)
        V += [b, b + [rng.randrange(256) for _ in range(rng.randrange(3))], b[:-1]]
        if len(b) < 10: V.append(b[:-1] + [b[-1] + 128] + [128] * rng.randrange(0, 9 - len(b) + 1) + [0])    # longer than necessary
    for k in range(0, 14):
        for last in (0, 1, 2, 3, 127, 128, 255):
            V.append([255] * k + [last]); V.append([128] * k + [last])
    V.append([])
    if c.thorough:
        V += [list(x) for x in itertools.product((0, 1, 127, 128, 129, 255), repeat=4)]
    L = ["p_varint " + hx(v) for v in V]
    for x in special + [rng.randrange(2 ** 64) for _ in range(c.pick(50, 500))] + list(range(0, 20)) + list(range(2 ** 64 - 6, 2 ** 64)):
        L.append("p_zigzag " + struct.pack("<Q", x).hex())
    M = []
    for i in range(c.pick(500, 6000)):
        m = message(rng)
        M.append(m)
        r = rng.random()
        if r < .4 and m: M.append(m[:rng.randrange(len(m))])
        elif r < .6 and m: m = list(m); m[rng.randrange(len(m))] = rng.randrange(256); M.append(m)
        elif r < .7: M.append(m + varint(rng.choice([1, 5]) * 8 + rng.choice([3, 4, 6, 7])) + [0] * rng.randrange(4))
        elif r < .8: M.append(m + varint(18) + varint(rng.choice([2 ** 31, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - 4])) + [1, 2, 3, 4, 5])
    # a corrupted single precision field may become a value the specification does not widen; keep it out
    M = [m for m in M if widenable(m)]
    L += ["p_msg " + hx(m) for m in M]
    # all messages of up to three bytes over an alphabet of interesting bytes
    for n in range(0, 4):
        for m in itertools.product((0x00, 0x01, 0x08, 0x0a, 0x0d, 0x0b, 0x80, 0xff, 0x12), repeat=n):
            L.append("p_msg " + hx(m))
    sc = [Scenario("pb-%d" % i, L[i:i + 40]) for i in range(0, len(L), 40)]
    c.conform("io", "IoTrace", sc, source="varints, zigzag numbers and messages", variant="asan", env={"VERIF_TMP": c.work}, need=["p_varint", "p_zigzag", "p_msg"])


def widenable(m):
    def vi(i):
        s, x = 0, 0
        while i < len(m):
            x |= (m[i] & 127) << s
            s += 7; i += 1
            if m[i - 1] < 128: return x, i
        return None, i
    i = 0
    while i < len(m):
        h, i = vi(i)
        if h is None: return True
        w = h % 8
        if w == 0: x, i = vi(i)
        elif w == 1: i += 8
        elif w == 5:
            if i + 4 <= len(m):
                e = (m[i + 3] & 127) * 2 + m[i + 2] // 128
                if e == 255 or (e == 0 and (m[i] or m[i + 1] or m[i + 2] & 127)): return False
            i += 4
        elif w == 2:
            n, i = vi(i)
            if n is None: return True
            i += n
        else: return True
    return True


WORDS = ["highway", "name", "maxspeed", "oneway", "", "a", "aa", "ab", "ba", "aba", "abba", "axa", "aya", "eee", "e", "E", "Highway", "junction", "motor_vehicle", "access", "foot", "bicycle",
         "x", "q", "qxq", "qyq", "1", "8", "181", "t1t", "tst", "trt", "\xff", "\xe9t\xe9", "\x80\x81", "route", "Route", "rOute"]


def P28(c):
    c.assumptions += ASSUME + ["at most 65536 entries; strings outlive the map"]
    rng = random.Random("P28-%d" % c.seed)
    sc = []
    h = lambda s: s.encode("latin1").hex() or "-"

    def colliding(k):
        """same first, middle and last letter class"""
        n = rng.randrange(1, 8)
        base = [rng.choice("abcdefghijklmnopqrstuvwxyz_:") for _ in range(n)]
        r = []
        for _ in range(k):
            w = list(base)
            for p in range(n):
                if p not in (0, n - 1, (n - 1) // 2) or rng.random() < .3:
                    w[p] = rng.choice("abcdefghijklmnopqrstuvwxyz_:")
            r.append("".join(w))
        return r
    for i in range(c.pick(300, 3000)):
        L = ["t_new 0", "t_all 0"]
        for _ in range(rng.randrange(1, 6)):
            k = rng.choice([0, 1, 2, 3, 8, 20, 60])
            pool = list(WORDS) if rng.random() < .5 else colliding(k + 3) + WORDS[:4]
            keys = rng.sample(pool, min(k, len(pool)))
            if rng.random() < .15 and keys: keys += [rng.choice(keys)]
            L.append("t_build 0 %d %s" % (len(keys), " ".join("%s %s" % (h(x), h("v%d" % rng.randrange(1000) if rng.random() < .9 else "")) for x in keys)))
            for x in rng.sample(keys, min(len(keys), 12)) + rng.sample(pool, min(6, len(pool))) + rng.sample(WORDS, 3):
                L.append("t_get 0 " + h(x))
            L.append("t_all 0")
            if rng.random() < .3:
                L += ["t_clear 0", "t_all 0"] + ["t_get 0 " + h(x) for x in keys[:5]]
        sc.append(Scenario("tags-%d" % i, L))
    # long keys that agree in every letter the hash looks at, and in a long prefix or suffix
    for i in range(c.pick(40, 300)):
        n = rng.choice([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400])
        base = [rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(n)]
        keys = ["".join(base)]
        for p in rng.sample(range(n), min(n, 12)) + [1, n - 2, 16, 32, 64, 128, n // 2 + 1, n // 2 - 1]:
            if p >= n: continue
            w = list(base); w[p] = chr((ord(w[p]) - 97 + 7) % 26 + 97); keys.append("".join(w))
        keys = sorted(set(keys)); rng.shuffle(keys)
        inn = keys[:rng.randrange(1, len(keys))]
        L = ["t_build 0 %d %s" % (len(inn), " ".join("%s %s" % (h(x), h("v%d" % j + "w" * rng.choice([0, 0, 300]))) for j, x in enumerate(inn)))]
        L += ["t_get 0 " + h(x) for x in keys] + ["t_get 0 " + h(keys[0][:-1]), "t_all 0"]
        sc.append(Scenario("long-keys-%d" % i, L))
    for n in c.pick([1023, 1025, 2500, 5000], [1023, 1025, 2500, 5000, 20000, 65536]):
        keys = ["k%d" % x for x in range(n)] if n % 2 else [rng.choice("etaoinshrxyz") + "%x" % x + rng.choice("etaoinshrxyz") for x in range(n)]
        L = ["t_build 0 %d %s" % (n, " ".join("%s %s" % (h(x), h("v%d" % j)) for j, x in enumerate(keys))), "t_all 0"]
        L += ["t_get 0 " + h(keys[x]) for x in rng.sample(range(n), 60) + [0, 1, n - 1, n - 2, n // 2] + [2 ** k for k in range(17) if 2 ** k < n]]
        L += ["t_build 0 1 61 62", "t_get 0 " + h(keys[3]), "t_get 0 61", "t_all 0"]
        sc.append(Scenario("many-%d" % n, L, cost=n))
    big = ["k%d" % x for x in range(c.pick(700, 3000))]
    sc.append(Scenario("many", ["t_build 0 %d %s" % (len(big), " ".join("%s %s" % (h(x), h("v" + x)) for x in big))] + ["t_get 0 " + h(x) for x in rng.sample(big, 80)] + ["t_get 0 " + h("k%dx" % x) for x in range(20)], cost=3000))
    c.conform("io", "IoTrace", sc, source="seeded", variant="asan", env={"VERIF_TMP": c.work}, need=["t_build", "t_get", "t_all", "t_clear"])
