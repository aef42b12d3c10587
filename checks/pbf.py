"""Encoder of OSM PBF files. It defines how the abstract files of Osm.tla are laid out in bytes.

An abstract file is a list of blocks [kind, items]; items are nodes, ways and relations:
  node      dict(t="n", id, lat, lon (nanodegrees), tags)
  way       dict(t="w", id, nodes, tags)
  relation  dict(t="r", id, members=[(type, id, role)], tags)
tags is a list of (key, value) pairs of latin-1 strings."""
import random, struct, zlib


def varint(x):
    assert x >= 0
    r = bytearray()
    while True:
        b = x & 127
        x >>= 7
        if x: r.append(b | 128)
        else:
            r.append(b)
            return bytes(r)


def uv(x):      # two's complement
    return varint(x & (2 ** 64 - 1))


def zz(x):
    return varint(((x << 1) ^ (x >> 63)) & (2 ** 64 - 1))


def f_int(k, x): return varint(k << 3) + uv(x)
def f_sint(k, x): return varint(k << 3) + zz(x)
def f_str(k, s): return varint(k << 3 | 2) + varint(len(s)) + bytes(s)
def f_fix64(k, x): return varint(k << 3 | 1) + struct.pack("<d", x)
def f_fix32(k, x): return varint(k << 3 | 5) + struct.pack("<f", x)
def packed(f, v): return b"".join(f(x) for x in v)


def delta(v):
    p = 0
    for x in v:
        yield x - p
        p = x


def noise(rng):
    """a field no reader knows"""
    return rng.choice([lambda: b"", lambda: f_int(rng.choice([40, 99, 1000]), rng.randrange(2 ** 40)), lambda: f_str(rng.choice([41, 98]), bytes(rng.randrange(256) for _ in range(rng.randrange(6)))),
                       lambda: f_fix64(42, 1.5), lambda: f_fix32(43, 2.5)])()


class Strings:
    def __init__(self, rng):
        self.l = [b""]
        self.ix = {}
        self.rng = rng

    def __call__(self, s):
        b = s.encode("latin-1")
        if b not in self.ix or self.rng.random() < .05:      # a string may be stored twice
            self.ix[b] = len(self.l)
            self.l.append(b)
        return self.ix[b]


def shuffled(rng, fields, mess):
    fields = [f for f in fields if f is not None]
    if mess:
        rng.shuffle(fields)
        if rng.random() < .4:
            fields.insert(rng.randrange(len(fields) + 1), noise(rng))
    return b"".join(fields)


def primitive_block(rng, items, mess=True, gran=None, bad=None, pad=0, strings=0):
    """bad: callable(kind of corruption) hooks, see corrupt_* below"""
    st = Strings(rng)
    st.l += [b"u%d" % k for k in range(strings)]       # strings nobody uses
    lats = [i["lat"] for i in items if i["t"] == "n"]
    lons = [i["lon"] for i in items if i["t"] == "n"]
    if gran is None:
        gran = rng.choice([100, 100, 1, 1000]) if mess else 100
    olat = olon = 0
    while any((x - olat) % gran for x in lats) or any((x - olon) % gran for x in lons):
        if mess and rng.random() < .5 and lats and all((x - lats[0]) % gran == 0 for x in lats) and all((x - lons[0]) % gran == 0 for x in lons):
            olat, olon = lats[0], lons[0]
            continue
        gran = gran // 10 if gran > 1 else 1
    if mess and rng.random() < .3:
        olat += gran * rng.randrange(-10 ** 6, 10 ** 6)
        olon += gran * rng.randrange(-10 ** 6, 10 ** 6)
    groups = []
    i = 0
    corrupt = bad.get("item") if bad else None
    while i < len(items):
        t = items[i]["t"]
        j = i
        while j < len(items) and items[j]["t"] == t:
            j += 1
        run = items[i:j]
        if mess and len(run) > 1 and rng.random() < .3:
            run = run[:rng.randrange(1, len(run))]
        i += len(run)
        body = b""
        if t == "n":
            dense = rng.random() < .6
            if dense:
                tags = [x["tags"] for x in run]
                kv = b""
                for tg in tags:
                    for k, v in tg:
                        kv += varint(st(k)) + varint(st(v))
                    kv += varint(0)
                if not any(tags):
                    kv = rng.choice([None, b"", kv]) if mess else None
                ids = packed(zz, delta([x["id"] for x in run]))
                la = packed(zz, delta([(x["lat"] - olat) // gran for x in run]))
                lo = packed(zz, delta([(x["lon"] - olon) // gran for x in run]))
                fl = [f_str(1, ids), f_str(8, la), f_str(9, lo), f_str(10, kv) if kv is not None else None]
                if mess and rng.random() < .3:
                    fl.append(f_str(5, f_str(1, packed(varint, [1] * len(run)))))
                body += f_str(2, shuffled(rng, fl, mess))
            else:
                for x in run:
                    ks, vs = packed(varint, [st(k) for k, _ in x["tags"]]), packed(varint, [st(v) for _, v in x["tags"]])
                    fl = [f_sint(1, x["id"]), f_str(2, ks) if ks else None, f_str(3, vs) if vs else None,
                          f_sint(8, (x["lat"] - olat) // gran), f_sint(9, (x["lon"] - olon) // gran)]
                    if mess and rng.random() < .2: fl.append(f_str(4, f_int(1, 3)))
                    body += f_str(1, shuffled(rng, fl, mess))
        elif t == "w":
            for x in run:
                ks, vs = packed(varint, [st(k) for k, _ in x["tags"]]), packed(varint, [st(v) for _, v in x["tags"]])
                nl = packed(zz, delta(x["nodes"]))
                fl = [f_int(1, x["id"]), f_str(2, ks) if ks or (mess and rng.random() < .3) else None, f_str(3, vs) if vs else None, f_str(8, nl) if nl or rng.random() < .5 else None]
                if mess and rng.random() < .2: fl.append(f_str(4, f_int(1, 3)))
                body += f_str(3, shuffled(rng, fl, mess))
        else:
            for x in run:
                ks, vs = packed(varint, [st(k) for k, _ in x["tags"]]), packed(varint, [st(v) for _, v in x["tags"]])
                m = x["members"]
                fl = [f_int(1, x["id"]), f_str(2, ks) if ks else None, f_str(3, vs) if vs else None,
                      f_str(8, packed(varint, [st(r) for _, _, r in m])) if m else None, f_str(9, packed(zz, delta([i for _, i, _ in m]))) if m else None,
                      f_str(10, packed(varint, [t for t, _, _ in m])) if m else None]
                body += f_str(4, shuffled(rng, fl, mess))
        groups.append(body)
    # a corrupt element at the end of the block
    if corrupt:
        groups.append(corrupt(st))
    if mess and rng.random() < .2: groups.append(b"")
    stf = f_str(1, b"".join(f_str(1, s) for s in st.l))
    rest = [f_str(2, g) for g in groups]
    head = []
    if gran != 100 or (mess and rng.random() < .5): head.append(f_int(17, gran))
    if olat or (mess and rng.random() < .2): head.append(f_int(19, olat))
    if olon or (mess and rng.random() < .2): head.append(f_int(20, olon))
    if bad and bad.get("gran0"): head = [f_int(17, 0)]
    if mess: head.append(noise(rng))
    if pad: head.append(f_str(97, bytes(pad)))
    order = rng.choice(["shg", "hsg", "gsh", "sgh"]) if mess else "shg"
    return b"".join({"s": stf, "h": b"".join(head), "g": b"".join(rest)}[c] for c in order)


def blob(rng, data, comp=None):
    comp = rng.choice(["raw", "zlib", "zlib"]) if comp is None else comp
    if comp == "raw":
        fl = [f_str(1, data), f_int(2, len(data))]
    else:
        fl = [f_int(2, len(data)), f_str(3, zlib.compress(data, rng.choice([1, 6, 9])))]
    rng.shuffle(fl)
    return b"".join(fl)


def frame(rng, kind, data, index=None):
    fl = [f_str(1, kind), f_int(3, len(data))]
    if index is None: index = rng.random() < .3
    if index: fl.append(f_str(2, b"index"))
    rng.shuffle(fl)
    h = b"".join(fl)
    return struct.pack(">I", len(h)) + h + data


def header_block(feats=(b"OsmSchema-V0.6", b"DenseNodes"), optional=()):
    return b"".join(f_str(4, f) for f in feats) + b"".join(f_str(5, f) for f in optional) + f_str(16, b"verif")


def header(rng, style, ordered):
    """style: 'real' - a blob as the format defines it; 'bare' - the header block itself, which is what the reader evaluates; 'none'"""
    if style == "none":
        return b""
    if style == "bare":
        return frame(rng, b"OSMHeader", header_block((b"DenseNodes",) if rng.random() < .5 else (), (b"Sort.Type_then_ID",) if ordered else (b"Has_Metadata",) if rng.random() < .5 else ()))
    return frame(rng, b"OSMHeader", blob(rng, header_block(optional=(b"Sort.Type_then_ID",) if ordered else ())))


# ---- corrupt containers: bytes that replace a data block
def bad_container(rng, kind, items):
    data = primitive_block(rng, items)
    z = zlib.compress(data)
    if kind == "no_datasize":
        h = f_str(1, b"OSMData")
        return struct.pack(">I", len(h)) + h + blob(rng, data)
    if kind == "both": return frame(rng, b"OSMData", f_str(1, data) + f_int(2, len(data)) + f_str(3, z))
    if kind == "neither": return frame(rng, b"OSMData", f_int(2, len(data)))
    if kind == "no_rawsize": return frame(rng, b"OSMData", f_str(3, z))
    if kind == "no_rawsize_raw": return frame(rng, b"OSMData", f_str(1, data))
    if kind == "raw_mismatch": return frame(rng, b"OSMData", f_str(1, data) + f_int(2, len(data) + rng.choice([-1, 1, 5, 1000]) if len(data) else 1))
    if kind == "zlib_short": return frame(rng, b"OSMData", f_int(2, len(data) + rng.choice([1, 2, 4, 100, 1000])) + f_str(3, z))
    if kind == "zlib_long": return frame(rng, b"OSMData", f_int(2, max(0, len(data) - rng.choice([1, 2, 3]))) + f_str(3, zlib.compress(data + b"x")))
    if kind == "zlib_cut": return frame(rng, b"OSMData", f_int(2, len(data)) + f_str(3, z[:-rng.randrange(1, len(z))]))
    if kind == "zlib_garbage":
        g = bytearray(z)
        g[0] ^= 0x55
        return frame(rng, b"OSMData", f_int(2, len(data)) + f_str(3, bytes(g)))
    if kind == "zlib_checksum":
        g = bytearray(z)
        g[-1] ^= 0x21
        return frame(rng, b"OSMData", f_int(2, len(data)) + f_str(3, bytes(g)))
    if kind == "too_large": return frame(rng, b"OSMData", f_int(2, 2 ** 40) + f_str(3, z))
    if kind == "huge_header": return struct.pack(">I", 0x7fffffff) + b"abc"
    if kind == "huge_data":
        h = f_str(1, b"OSMData") + f_int(3, 2 ** 31)
        return struct.pack(">I", len(h)) + h + blob(rng, data)
    if kind == "cut_data":
        f = frame(rng, b"OSMData", blob(rng, data))
        return f[:-rng.randrange(1, min(len(data) // 2 + 2, len(f) - 20))]
    if kind == "cut_header":
        f = frame(rng, b"OSMData", blob(rng, data))
        return f[:4 + rng.randrange(1, 4)]
    if kind == "bad_blobheader":
        h = b"\x0a\x7f\x01"
        return struct.pack(">I", len(h)) + h + data
    if kind == "bad_blob":
        return frame(rng, b"OSMData", b"\x0a\x7f\x01\x02")
    if kind == "feature":
        return frame(rng, b"OSMHeader", f_str(4, rng.choice([b"HistoricalInformation", b"Unknown", b"DenseNodesX", b"denseNodes"])))
    raise KeyError(kind)


CUTS = ("cut_data", "cut_header", "huge_header", "huge_data")       # only possible at the end of the file
CONTAINERS = ["no_datasize", "both", "neither", "no_rawsize", "no_rawsize_raw", "raw_mismatch", "zlib_short", "zlib_long", "zlib_cut", "zlib_garbage", "zlib_checksum", "too_large", "bad_blobheader", "bad_blob"] + list(CUTS)


DENSE = dict(t="n", id=2 ** 33 + 5, lat=0, lon=0, tags=[])      # the node in front of the error in dense nodes with arrays of different lengths; its position is not defined by the file


# ---- corrupt elements: the last element of a block; "of" is the kind of element it belongs to
def bad_item(rng, kind):
    n = lambda st: len(st.l)
    far = lambda st: rng.choice([len(st.l), len(st.l) + 1, len(st.l) + 100, 2 ** 31])
    some = lambda st: rng.randrange(1, len(st.l)) if len(st.l) > 1 else 0
    of = kind[0]
    if kind in ("n_key", "n_val"):
        return of, lambda st: f_str(1, f_sint(1, 5) + f_str(2, varint(far(st) if kind == "n_key" else 0)) + f_str(3, varint(0 if kind == "n_key" else far(st))) + f_sint(8, 1) + f_sint(9, 1))
    if kind == "n_len": return of, lambda st: f_str(1, f_sint(1, 5) + f_str(2, b"\0\0") + f_str(3, b"\0") + f_sint(8, 1) + f_sint(9, 1))
    if kind == "n_noid": return of, lambda st: f_str(1, f_sint(8, 1) + f_sint(9, 1))
    if kind == "n_trunc": return of, lambda st: f_str(1, f_sint(1, 5) + b"\x42\x7f")
    if kind == "n_dense_noid": return of, lambda st: f_str(2, f_str(8, zz(1)) + f_str(9, zz(1)))
    if kind == "n_dense_nolat": return of, lambda st: f_str(2, f_str(1, zz(1)) + f_str(9, zz(1)))
    if kind == "n_dense_nolon": return of, lambda st: f_str(2, f_str(1, zz(1)) + f_str(8, zz(1)))
    if kind == "n_dense_key": return of, lambda st: f_str(2, f_str(1, zz(7)) + f_str(8, zz(1)) + f_str(9, zz(1)) + f_str(10, varint(far(st)) + varint(0) + varint(0)))
    if kind == "n_dense_val": return of, lambda st: f_str(2, f_str(1, zz(7)) + f_str(8, zz(1)) + f_str(9, zz(1)) + f_str(10, varint(max(1, some(st))) + varint(far(st)) + varint(0)))
    if kind == "n_dense_kvshort": return of, lambda st: f_str(2, f_str(1, zz(7)) + f_str(8, zz(1)) + f_str(9, zz(1)) + f_str(10, varint(max(1, some(st)))))
    if kind == "n_dense_longlat": return of, lambda st: f_str(2, f_str(1, zz(DENSE["id"])) + f_str(8, zz(1) + zz(1)) + f_str(9, zz(1)))
    if kind == "n_dense_longlon": return of, lambda st: f_str(2, f_str(1, zz(DENSE["id"])) + f_str(8, zz(1)) + f_str(9, zz(1) + zz(1)))
    if kind == "n_dense_longkv": return of, lambda st: f_str(2, f_str(1, zz(DENSE["id"])) + f_str(8, zz(1)) + f_str(9, zz(1)) + f_str(10, varint(0) + varint(0)))
    if kind == "n_dense_cut": return of, lambda st: f_str(2, f_str(1, b"\x80") + f_str(8, zz(1)) + f_str(9, zz(1)))
    if kind in ("w_key", "w_val"): return of, lambda st: f_str(3, f_int(1, 5) + f_str(2, varint(far(st) if kind == "w_key" else 0)) + f_str(3, varint(0 if kind == "w_key" else far(st))) + f_str(8, zz(1) + zz(1)))
    if kind == "w_len": return of, lambda st: f_str(3, f_int(1, 5) + f_str(2, b"\0") + f_str(3, b"\0\0") + f_str(8, zz(1) + zz(1)))
    if kind == "w_noid": return of, lambda st: f_str(3, f_str(8, zz(1) + zz(1)))
    if kind == "w_nodes": return of, lambda st: f_str(3, f_int(1, 5) + f_str(8, zz(1) + b"\xff"))
    if kind in ("r_key", "r_val"): return of, lambda st: f_str(4, f_int(1, 5) + f_str(2, varint(far(st) if kind == "r_key" else 0)) + f_str(3, varint(0 if kind == "r_key" else far(st))))
    if kind == "r_len": return of, lambda st: f_str(4, f_int(1, 5) + f_str(2, b"\0\0\0") + f_str(3, b"\0"))
    if kind == "r_noid": return of, lambda st: f_str(4, f_str(8, b"\0") + f_str(9, zz(1)) + f_str(10, b"\0"))
    if kind == "r_role": return of, lambda st: f_str(4, f_int(1, 5) + f_str(8, varint(far(st))) + f_str(9, zz(1)) + f_str(10, b"\1"))
    if kind == "r_type": return of, lambda st: f_str(4, f_int(1, 5) + f_str(8, b"\0") + f_str(9, zz(1)) + f_str(10, bytes([rng.choice([3, 4, 100])])))
    if kind == "r_short": return of, lambda st: f_str(4, f_int(1, 5) + f_str(8, b"\0") + f_str(9, zz(1) + zz(2)) + f_str(10, b"\1\1"))
    if kind == "r_short2": return of, lambda st: f_str(4, f_int(1, 5) + f_str(8, b"\0\0") + f_str(9, zz(1) + zz(2)) + f_str(10, b"\1"))
    raise KeyError(kind)


ITEMS = ["n_key", "n_val", "n_len", "n_noid", "n_trunc", "n_dense_noid", "n_dense_nolat", "n_dense_nolon", "n_dense_key", "n_dense_val", "n_dense_kvshort", "n_dense_longlat", "n_dense_longlon", "n_dense_longkv", "n_dense_cut",
         "w_key", "w_val", "w_len", "w_noid", "w_nodes", "r_key", "r_val", "r_len", "r_noid", "r_role", "r_type", "r_short", "r_short2"]
