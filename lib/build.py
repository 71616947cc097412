"""Content-hashed object cache and harness linker. Rebuilds whatever /repo's working tree needs; never writes in /repo."""
import hashlib, json, os, re, subprocess, sys, threading, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
COMMON = ["-std=c++20", "-w", "-DBUILD_TESTS", "-DNDEBUG", '-DCURA_ENGINE_VERSION="5"', '-DCURA_ENGINE_HASH="u"',
          '-DSENTRY_ENVIRONMENT=""', "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_FMT_EXTERNAL",
          "-ffunction-sections", "-fdata-sections", "-fno-omit-frame-pointer",
          "-I" + VERIF + "/shims", "-I" + VERIF + "/lib", "-I" + REPO + "/include", "-I/usr/include/stb"]
LIBS = ["-lpolyclipping", "-lspdlog", "-lfmt", "-lpng", "-ltbb", "-lboost_regex", "-lpthread"]
CONFIGS = {
    "opt": ["-O1"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,float-cast-overflow,float-divide-by-zero"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}

_hash = {}
_hl = threading.Lock()


def fhash(path):
    h = _hash.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash[path] = h
    return h


def engine_sources():
    t = open(REPO + "/CMakeLists.txt").read()
    m = re.search(r"set\(engine_SRCS[^)]*\)", t)
    return [s for s in re.findall(r"src/[A-Za-z0-9_/.]+\.cpp", m.group(0))]


def compile_one(src, config, extra=()):
    """Object file for src (absolute path), from cache when source and all non-system dependencies are unchanged."""
    flags = COMMON + CONFIGS[config] + list(extra)
    mk = hashlib.sha1((src + "\0" + "\0".join(flags)).encode()).hexdigest()
    os.makedirs(CACHE + "/man", exist_ok=True)
    os.makedirs(CACHE + "/obj", exist_ok=True)
    man = f"{CACHE}/man/{mk}.json"
    entries = []
    try:
        entries = json.load(open(man))
    except Exception:
        pass
    for e in entries:
        if all(fhash(p) == h for p, h in e["deps"]) and os.path.exists(e["obj"]):
            return e["obj"]
    tmp = f"{CACHE}/obj/{mk}.{os.getpid()}.{threading.get_ident()}"
    for attempt in range(4):
        r = subprocess.run(["g++"] + flags + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"], capture_output=True, text=True)
        if r.returncode == 0 or "Killed" not in r.stderr:
            break
        time.sleep(10 * (attempt + 1))  # ended for want of memory
    if r.returncode:
        raise RuntimeError(f"compile failed: {src}\n" + r.stderr[-4000:])
    deps = re.sub(r"\\\n", " ", open(tmp + ".d").read()).split(":", 1)[1].split()
    deps = sorted({os.path.normpath(d) for d in deps if not d.startswith("/usr/")})
    dl = [(d, fhash(d)) for d in deps]
    k = hashlib.sha1((mk + json.dumps(dl)).encode()).hexdigest()
    obj = f"{CACHE}/obj/{k}.o"
    os.rename(tmp + ".o", obj)
    os.unlink(tmp + ".d")
    entries = [{"deps": dl, "obj": obj}] + [e for e in entries if e["obj"] != obj][:3]
    with open(tmp + ".m", "w") as f:
        json.dump(entries, f)
    os.rename(tmp + ".m", man)
    return obj


def compile_many(srcs, config, extra=()):
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        # biggest first, so the tail is short
        order = sorted(srcs, key=lambda s: -os.path.getsize(s))
        m = dict(zip(order, ex.map(lambda s: compile_one(s, config, extra), order)))
    return [m[s] for s in srcs]


def source_list(harness):
    """Engine sources this harness was found to need (data/sources, written by `bin/check ID --learn`)."""
    p = f"{VERIF}/data/sources/{os.path.splitext(os.path.basename(harness))[0]}.json"
    try:
        return json.load(open(p))
    except OSError:
        return None


def build_harness(cid, src, srcs=None, config="opt", extra_link=(), extra_objs=(), cflags=()):
    """Link harness src against the engine. The list of engine sources is only an optimisation: when a symbol is missing
    (code moved to another file), the link is repeated with all of them."""
    allsrc = engine_sources()
    t0 = time.time()
    srcs = source_list(src) if srcs is None else srcs
    have = [s for s in srcs if s in allsrc] if srcs is not None else allsrc
    k = len(extra_objs) + 1
    os.makedirs(CACHE + "/bin", exist_ok=True)
    out = f"{CACHE}/bin/{cid}.{config}.{os.getpid()}.{int(time.time() * 1e6) % 1000000}"
    with ThreadPoolExecutor(2) as ex:
        fh = ex.submit(compile_many, [src] + [VERIF + "/" + x for x in extra_objs], config, cflags)
        lib = compile_many([REPO + "/" + s for s in have], config)
        hobjs = fh.result()
    r = link_gnu(out, hobjs, lib, config, extra_link)
    if r.returncode and len(have) < len(allsrc):
        lib = compile_many([REPO + "/" + s for s in allsrc], config)
        r = link_gnu(out, hobjs, lib, config, extra_link)
    if r.returncode:
        raise RuntimeError("link failed\n" + r.stderr[-3000:])
    return out, time.time() - t0


def learn_sources(src, config="opt", extra_link=(), extra_objs=(), cflags=()):
    """Smallest set of engine sources whose kept sections leave no symbol undefined."""
    allsrc = engine_sources()
    hobjs = compile_many([src] + [VERIF + "/" + x for x in extra_objs], config, cflags)
    objs = dict(zip(allsrc, compile_many([REPO + "/" + s for s in allsrc], config)))
    index = {}
    for s, o in objs.items():
        for l in subprocess.run(["nm", "-g", "--defined-only", "-C", o], capture_output=True, text=True).stdout.splitlines():
            m = re.match(r"[0-9a-f]+ ([TDBRVWu]) (.*)", l)
            if m:
                strong = m.group(1) in "TDBR"
                if strong or m.group(2) not in index:
                    index[m.group(2)] = s
    need = set()
    while True:
        r = link_gnu(CACHE + "/learn.out", hobjs, [objs[s] for s in need], config, extra_link)
        if r.returncode == 0:
            break
        miss = set(re.findall(r"undefined reference to `(.*?)'", r.stderr))
        add = {index[m] for m in miss if m in index} | {index[m] for m in (re.sub(r"^vtable for ", "vtable for ", m) for m in miss) if m in index}
        if not add - need:
            raise RuntimeError("cannot resolve " + str(list(miss)[:5]) + r.stderr[-500:])
        need |= add
    os.makedirs(VERIF + "/data/sources", exist_ok=True)
    p = f"{VERIF}/data/sources/{os.path.splitext(os.path.basename(src))[0]}.json"
    old = set(source_list(src) or []) if os.environ.get("LEARN_ADD") else set()
    json.dump(sorted(need | old), open(p, "w"), indent=0)
    return sorted(need)


def link_gnu(out, hobjs, lib, config, extra):
    san = [f for f in CONFIGS[config] if f.startswith("-fsanitize")]
    a = f"{out}.a"
    if os.path.exists(a):
        os.unlink(a)
    cmd = ["g++"] + san + ["-Wl,--gc-sections", "-o", out] + hobjs
    if lib:
        subprocess.run(["ar", "rcsT", a] + lib, check=True)
        cmd += [a]
    r = subprocess.run(cmd + LIBS + list(extra), capture_output=True, text=True)
    if os.path.exists(a):
        os.unlink(a)
    return r
