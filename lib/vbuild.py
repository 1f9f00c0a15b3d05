"""Builds engine binaries from /repo's working tree into /verif/build."""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KANON_REPO", "/repo")
B = os.path.join(V, "build")
W = "-w"
COMMON = ["-I" + REPO, W, "-pthread", "-g", "-march=x86-64", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-DKANON_VERIF"]

def rd(p):
    with open(p, "rb") as f: return f.read()

def tree_hash():
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(os.path.join(REPO, "kanon"))):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".h", ".cc", ".inl", ".hpp", ".c", ".cpp", ".proto")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode()); h.update(rd(p))
    for p in sorted(glob.glob(os.path.join(REPO, "third-party", "xxHash", "xxhash.*"))) + sorted(glob.glob(os.path.join(REPO, "example/**/*.[hc]*"), recursive=True)):
        if os.path.isfile(p): h.update(p.encode()); h.update(rd(p))
    return h.hexdigest()
_th = None
def th():
    global _th
    if _th is None: _th = tree_hash()
    return _th

def base_sources():
    s = []
    for d in ("string", "log", "mem", "process", "thread", "util", "algo", "buffer"):
        s += glob.glob(os.path.join(REPO, "kanon", d, "**", "*.cc"), recursive=True)
    s += glob.glob(os.path.join(REPO, "kanon", "linux", "core", "**", "*.cc"), recursive=True)
    return sorted(s)
def net_sources():
    s = glob.glob(os.path.join(REPO, "kanon", "net", "**", "*.cc"), recursive=True)
    s += glob.glob(os.path.join(REPO, "kanon", "linux", "net", "**", "*.cc"), recursive=True)
    return [os.path.join(REPO, "third-party", "xxHash", "xxhash.c")] + sorted(s)

class BuildError(Exception): pass

# ---- protobuf and rpc
def pb_generate():
    """Generated protobuf code of kanon's rpc.proto and of the test messages: include directory and sources."""
    own = os.path.join(V, "proto")
    h = hashlib.sha256(th().encode() + b"".join(rd(os.path.join(own, f)) for f in sorted(os.listdir(own)))).hexdigest()[:16]
    d = os.path.join(B, "gen", h)
    if not os.path.exists(d):
        t = d + ".tmp%d" % os.getpid()
        os.makedirs(os.path.join(t, "kanon", "rpc"), exist_ok=True)
        for inc, out, f in ((os.path.join(REPO, "kanon", "rpc"), os.path.join(t, "kanon", "rpc"), "rpc.proto"), (own, t, "pbt.proto")):
            r = subprocess.run(["protoc", "-I" + inc, "--cpp_out=" + out, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: raise BuildError("protoc failed:\n" + r.stdout)
        try: os.rename(t, d)
        except OSError:
            if not os.path.exists(d): raise
    return d, [os.path.join(d, "kanon", "rpc", "rpc.pb.cc"), os.path.join(d, "pbt.pb.cc")]
def pb_sources():
    s = glob.glob(os.path.join(REPO, "kanon", "protobuf", "*.cc")) + glob.glob(os.path.join(REPO, "kanon", "rpc", "*.cc"))
    return sorted(x for x in s if not x.endswith(".pb.cc"))
def pb_includes(gen): return ["-I" + gen, "-I" + os.path.join(V, "stub")]

def compile_one(src, flags, tag, dep=b""):
    key = hashlib.sha256((src + "\0" + " ".join(flags) + "\0" + th() + "\0").encode() + rd(src) + dep).hexdigest()[:24]
    od = os.path.join(B, "obj"); os.makedirs(od, exist_ok=True)
    o = os.path.join(od, os.path.basename(src) + "." + tag + "." + key + ".o")
    if not os.path.exists(o):
        cc = "gcc" if src.endswith(".c") else "g++"
        fl = [f for f in flags if not (cc == "gcc" and f.startswith("-std=gnu++"))]
        r = subprocess.run([cc] + fl + ["-c", src, "-o", o + ".tmp%d" % os.getpid()], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
        os.rename(o + ".tmp%d" % os.getpid(), o)
    return o

def compile_all(jobs):
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        return list(ex.map(lambda j: compile_one(*j), jobs))

def link(objs, out, flags=()):
    r = subprocess.run(["g++"] + objs + ["-o", out + ".tmp", "-pthread"] + list(flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError("linking failed:\n" + r.stdout[-6000:])
    os.rename(out + ".tmp", out)

TS = ["-std=gnu++11", "-O1", "-fno-pie", "-fsanitize=thread", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-fno-ipa-icf"]
def build_a(name, scen, net=True, extra=(), pb=False):
    """Engine A binary: instrumented kanon + scenarios + our runtime."""
    ed = os.path.join(V, "engine_a")
    dep = b"".join(rd(os.path.join(ed, h)) for h in sorted(os.listdir(ed)) if h.endswith(".h"))
    gen, gsrc = pb_generate() if pb else (None, [])
    inc = pb_includes(gen) if pb else []
    jobs = [(os.path.join(ed, x), COMMON + TS + ["-I" + ed] + inc + list(extra), "ts", dep) for x in scen]
    if pb:
        jobs += [(s, COMMON + TS + inc + list(extra), "ts") for s in pb_sources()]
        jobs += [(s, ["-std=gnu++11", "-O1", "-fno-pie", W] + inc, "pb") for s in gsrc] # not instrumented, like the library it calls
    jobs += [(s, COMMON + TS + list(extra), "ts") for s in base_sources() + (net_sources() if net else [])]
    jobs += [(os.path.join(ed, x), ["-std=gnu++17", "-O2", "-g", "-fno-pie", W, "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"], "rt", dep) for x in ("kmc.cc", "kernel.cc")]
    objs = compile_all(jobs)
    out = os.path.join(B, name)
    link(objs, out, ["-no-pie", "-rdynamic", "-ldl"] + (["-lprotobuf"] if pb else []))
    return out

AS = ["-std=gnu++14", "-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
def build_b(name, srcs, extra=(), kanon=True, net=False, flags=None, ld=(), pb=False):
    """Engine B binary: sanitized kanon + enumerator."""
    ed = os.path.join(V, "engine_b")
    dep = b"".join(rd(os.path.join(ed, h)) for h in sorted(os.listdir(ed)) if h.endswith(".h"))
    fl = COMMON + (flags or AS)
    gen, gsrc = pb_generate() if pb else (None, [])
    inc = pb_includes(gen) if pb else []
    jobs = [(os.path.join(ed, x), fl + ["-I" + ed] + inc + list(extra), "as", dep) for x in srcs]
    if pb: jobs += [(s, fl + inc, "as") for s in pb_sources() + gsrc]
    if kanon: jobs += [(s, fl, "as") for s in base_sources()]
    if net: jobs += [(s, fl, "as") for s in net_sources()]
    objs = compile_all(jobs)
    out = os.path.join(B, name)
    link(objs, out, (["-fsanitize=address,undefined"] if not flags else []) + list(ld) + (["-lprotobuf"] if pb else []))
    return out
