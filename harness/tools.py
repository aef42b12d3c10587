"""Runs the command line tools in a scratch directory. Usage: tools.py DIRECTORY_OF_BINARIES, script on stdin.
  put NAME HEX        the user writes a file (- for an empty one)
  del NAME            the user removes a file
  run TOOL STDIN ARG... runs a tool; STDIN is hex, - for nothing, @ for the output of the last run.
The scratch directory is the working directory of the tools, so names are paths. FULL is a device that is
always full, NODIR/x lies in a directory that does not exist.
  file NAME HEX JSON  like put, the event carries JSON as description of the contents
  extract NAME FULL   runs osm_extract on NAME and decodes its output files."""
import json, struct, os, shutil, subprocess, sys, tempfile

bins = sys.argv[1]
base = os.environ.get("VERIF_TMP", "/tmp")
root = tempfile.mkdtemp(prefix="tools-", dir=base if os.path.isdir(base) else "/tmp")
QUIET = ("compute_contraction_hierarchy", "osm_extract", "compute_nested_dissection_order", "run_dijkstra", "run_contraction_hierarchy_query")
env = dict(os.environ)
env["ASAN_OPTIONS"] = env.get("ASAN_OPTIONS", "") + ":exitcode=99"


def snapshot():
    r = {}
    for f in os.listdir(root):
        with open(os.path.join(root, f), "rb") as h: r[f] = h.read()
    return r


def lines(b):
    l = b.split(b"\n")
    return [list(x) for x in (l[:-1] if l and l[-1] == b"" else l)]


def emit(**e):
    sys.stdout.write(json.dumps(e, separators=(",", ":")) + "\n")
    sys.stdout.flush()


def content(name, raw):
    # hierarchies are opaque: only the tools that read them know their layout
    return dict(f=name, raw=[] if name.startswith("ch") else list(raw))


def uints(b):
    return list(struct.unpack("<%dI" % (len(b) // 4), b)) if len(b) % 4 == 0 else None


def floats(b):
    return [round(x * 1e7) if abs(x) <= 200 else -2 for x in struct.unpack("<%df" % (len(b) // 4), b)] if len(b) % 4 == 0 else None


def bits(b):
    # number of bits, then the bits in words
    if len(b) < 8: return None
    n = struct.unpack("<Q", b[:8])[0]
    return [i for i in range(n) if b[8 + i // 8] >> i % 8 & 1] if (n + 7) // 8 <= len(b) - 8 <= (n + 511) // 512 * 64 else None


def strings(b):
    return [x.decode("latin-1") for x in b.split(b"\0")[:-1]] if not b or b[-1] == 0 else None


FIELDS = dict(first_out=uints, head=uints, dist=uints, attr=uints, way=uints, speed=uints, name=strings, lat=floats, lon=floats, nodes=bits, ways=bits)
SHORT = ["first_out", "head", "dist", "attr", "lat", "lon"]


def run_tool(tool, args, inp=b""):
    p = subprocess.run([os.path.join(bins, tool)] + args, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=root, env=env)
    if p.returncode < 0 or p.returncode in (98, 99) or b"Sanitizer" in p.stderr:
        sys.stderr.write("%s %s ended with %d\n%s\n" % (tool, args, p.returncode, p.stderr.decode("utf8", "replace")[:3000]))
        sys.stderr.flush()
        shutil.rmtree(root, ignore_errors=True)
        os._exit(97)
    return p


def failed(p):
    return p.returncode != 0 or b"exception" in p.stderr.lower() or any(x.lower().startswith(b"exception") for x in p.stdout.split(b"\n"))


last = b""
try:
    for line in sys.stdin:
        w = line.split()
        if not w: continue
        if w[0] == "S":
            for f in os.listdir(root): os.unlink(os.path.join(root, f))
            last = b""
            print(line.strip(), flush=True)
        elif w[0] == "E":
            print("E", flush=True)
        elif w[0] == "put":
            raw = b"" if w[2] == "-" else bytes.fromhex(w[2])
            with open(os.path.join(root, w[1]), "wb") as f: f.write(raw)
            emit(op="put", **content(w[1], raw))
        elif w[0] == "del":
            try: os.unlink(os.path.join(root, w[1]))
            except FileNotFoundError: pass
            emit(op="del", f=w[1])
        elif w[0] == "ref":
            emit(op="ref", v=[int(x) for x in w[1:]])
        elif w[0] == "file":
            with open(os.path.join(root, w[1]), "wb") as f: f.write(b"" if w[2] == "-" else bytes.fromhex(w[2]))
            sys.stdout.write('{"op":"file","f":"%s","blocks":%s}\n' % (w[1], w[3]))
            sys.stdout.flush()
        elif w[0] == "extract":
            names = list(FIELDS) if w[2] == "1" else SHORT
            before = snapshot()
            p = run_tool("osm_extract", [w[1]] + names)
            after = snapshot()
            e = dict(op="extract", f=w[1], full=w[2] == "1", err=failed(p), wrote=[f for f in sorted(after) if before.get(f) != after[f]], bad=[])
            for n in FIELDS:
                v = FIELDS[n](after[n]) if n in names and n in after and not e["err"] else []
                if v is None: e["bad"].append(n)
                e[n] = [-2 if isinstance(x, int) and x >= 1 << 31 else x for x in v or []]
            emit(**e, nc=len(e["lat"]), ac=len(e["head"]), ff=[], ft=[])
            for n in names:
                if n in after: os.unlink(os.path.join(root, n))
        elif w[0] == "run":
            tool, args = w[1], w[3:]
            inp = b"" if w[2] == "-" else last if w[2] == "@" else bytes.fromhex(w[2])
            before = snapshot()
            real = ["/dev/full" if a == "FULL" else "missing/x" if a == "NODIR" else a for a in args]
            p = run_tool(tool, real, inp)
            after = snapshot()
            err = failed(p)
            out = p.stdout
            emit(op="run", tool=tool, args=args, nums=[int(a) if a.isdigit() and len(a) < 10 else -1 for a in args], inp=lines(inp), err=err,
                 out=[] if tool in QUIET else lines(out), wrote=[content(f, after[f]) for f in sorted(after) if before.get(f) != after[f]],
                 gone=[f for f in sorted(before) if f not in after])
            last = out
finally:
    shutil.rmtree(root, ignore_errors=True)
