"""Small offline builder: compiles objects straight from /repo's working tree (and /verif/harness).

An object is reused only if the command line and the *contents* of every file it was made from are the
same as when it was made, so a build directory left over from another tree state can never hide a change.
"""
import hashlib, json, os, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "src")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))

STATIC_DEFS = ["-DMFAST_STATIC_DEFINE", "-DMFAST_CODER_STATIC_DEFINE", "-DMFAST_XML_PARSER_STATIC_DEFINE",
               "-DMFAST_JSON_STATIC_DEFINE", "-DMFAST_SQLITE3_STATIC_DEFINE", "-DSIZEOF_VOID_P=8"]
BASE = ["-std=c++14", "-g1", "-w", "-fno-omit-frame-pointer", "-I" + SRC, "-I" + os.path.join(VERIF, "harness")]
VARIANTS = {
    "asan": ["-O1", "-fsanitize=address", "-fsanitize-recover=address"],
    "plain": ["-O1"],
    "glue": ["-O0", "-g0", "-fsanitize=address", "-fsanitize-recover=address"],
    "tsan": ["-O1", "-fsanitize=thread"],
}
CXX = os.environ.get("VERIF_CXX", "clang++")

class BuildError(Exception):
    pass

_h = {}
_hl = threading.Lock()
def fhash(p):
    with _hl:
        if p in _h:
            return _h[p]
    try:
        with open(p, "rb") as f:
            v = hashlib.sha1(f.read()).hexdigest()
    except OSError:
        v = "missing"
    with _hl:
        _h[p] = v
    return v

def forget_hashes():
    _h.clear()

def _deps(dfile):
    with open(dfile) as f:
        t = f.read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return [x for x in t.split() if not x.startswith("/usr/")]

def compile_obj(src, variant, defs=(), extra=()):
    cmd = [CXX] + BASE + VARIANTS[variant] + STATIC_DEFS + list(defs) + list(extra)
    key = hashlib.sha1(("\0".join(cmd) + "\0" + src).encode()).hexdigest()[:20]
    od = os.path.join(BUILD, "obj", variant)
    os.makedirs(od, exist_ok=True)
    stem = os.path.join(od, os.path.basename(src) + "." + key)
    o, d, m = stem + ".o", stem + ".d", stem + ".json"
    if os.path.exists(o) and os.path.exists(m):
        try:
            with open(m) as f:
                meta = json.load(f)
            if all(fhash(p) == h for p, h in meta.items()):
                return o
        except Exception:
            pass
    uniq = ".%d.%d" % (os.getpid(), threading.get_ident())
    tmp = stem + uniq + ".tmp.o"
    p = subprocess.run(cmd + ["-MMD", "-MF", d + uniq, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("compile of %s failed:\n%s" % (src, p.stdout[-6000:]))
    os.replace(d + uniq, d)
    meta = {x: fhash(x) for x in _deps(d)}
    os.replace(tmp, o)
    with open(m + uniq, "w") as f:
        json.dump(meta, f)
    os.replace(m + uniq, m)
    return o

def compile_all(items):
    """items: list of (src, variant, defs, extra)"""
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(compile_obj, *it) for it in items]
        err = None
        res = []
        for f in futs:
            try:
                res.append(f.result())
            except BuildError as e:
                err = err or e
        if err:
            raise err
        return res

def link(out, objs, variant, libs=()):
    h = hashlib.sha1()
    for o in objs:
        h.update(o.encode())
        with open(o, "rb") as f:
            h.update(hashlib.sha1(f.read()).digest())
    h.update(" ".join(libs).encode())
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    p = subprocess.run([CXX] + VARIANTS[variant] + ["-o", out + ".tmp"] + objs + list(libs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("link of %s failed:\n%s" % (out, p.stdout[-6000:]))
    os.replace(out + ".tmp", out)
    with open(stamp, "w") as f:
        f.write(h.hexdigest())
    return out

def _glob(*dirs):
    r = []
    for d in dirs:
        dd = os.path.join(SRC, d)
        r += sorted(os.path.join(dd, f) for f in os.listdir(dd) if f.endswith(".cpp"))
    return r

def lib_sources(*names):
    r = []
    for n in names:
        if n == "mfast":
            r += _glob("mfast", "mfast/instructions")
        elif n == "coder":
            for sub in ("", "common", "decoder", "encoder", "decoder_v2", "encoder_v2"):
                d = os.path.join("mfast/coder", sub)
                if os.path.isdir(os.path.join(SRC, d)):
                    r += _glob(d)
        elif n == "xml":
            r += _glob("mfast/xml_parser")
        elif n == "json":
            r += _glob("mfast/json")
        elif n == "sqlite3":
            r += _glob("mfast/sqlite3")
        elif n == "gen":
            r += _glob("fast_type_gen")
        else:
            raise BuildError("unknown library " + n)
    return r

SYSLIBS = {"xml": ["-ltinyxml2"], "sqlite3": ["-lsqlite3"]}

XETRA = ("-DXETRA_FAST_SPECIFICATION",)
def lib_items(libs, variant, xetra=False):
    """xetra: the libraries as a build with XETRA_FAST_SPECIFICATION has them (sets and timestamps in templates)"""
    return [(s, variant, XETRA if xetra and n in ("xml", "gen", "sqlite3") else (), ()) for n in libs for s in lib_sources(n)]

def build_exe(name, sources, libs, variant="asan", defs=(), extra=(), ldlibs=(), more=(), xetra=False):
    """more: further objects"""
    items = [(s, variant, tuple(defs), tuple(extra)) for s in sources] + lib_items(libs, variant, xetra)
    objs = compile_all(items) + list(more)
    sysl = []
    for l in libs:
        sysl += SYSLIBS.get(l, [])
    return link(os.path.join(BUILD, "bin", name), objs, variant, sysl + list(ldlibs) + ["-lpthread"])

def gen_types(xmlfiles, outdir, xetra=False):
    """run fast_type_gen (built from the tree) on template files; returns the .cpp files"""
    gen = build_exe("fast_type_gen" + ("_xetra" if xetra else ""), [], ["mfast", "coder", "xml", "gen"], xetra=xetra)
    os.makedirs(outdir, exist_ok=True)
    res = []
    def one(x):
        base = os.path.splitext(os.path.basename(x))[0]
        tmp = os.path.join(outdir, ".tmp." + base + ".%d" % os.getpid())
        os.makedirs(tmp, exist_ok=True)
        p = subprocess.run([gen, os.path.abspath(x)], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99"))
        if p.returncode:
            raise BuildError("fast_type_gen failed on %s:\n%s" % (x, p.stdout[-3000:]))
        for f in os.listdir(tmp):
            a, b = os.path.join(tmp, f), os.path.join(outdir, f)
            if os.path.exists(b) and open(a, "rb").read() == open(b, "rb").read():
                os.remove(a)
            else:
                os.replace(a, b)
        os.rmdir(tmp)
        return os.path.join(outdir, base + ".cpp")
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, xmlfiles))
    forget_hashes()
    return res
