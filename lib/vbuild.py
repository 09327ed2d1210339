"""Content-addressed build driver: compiles harnesses together with the real
sources of the repository's current working tree, once per sanitizer flavour.
Nothing is decided by mtimes: an object is reused only when the command line
and the contents of every file it read are the same."""
import concurrent.futures as cf, glob, hashlib, json, os, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")
CXX = "clang++"

FLAVOURS = {
    "asan": ["-O0", "-g1", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-fno-sanitize=vptr,nonnull-attribute",
             "-fno-omit-frame-pointer"],
    "asano": ["-O1", "-g1", "-fsanitize=address,undefined",
              "-fno-sanitize-recover=all", "-fno-sanitize=vptr,nonnull-attribute",
              "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    "plain": ["-O1", "-g1", "-fno-omit-frame-pointer"],
}
BASE = ["-std=c++20", "-fno-rtti", "-fno-exceptions", "-D_NO_EXCEPTION",
        "-ffunction-sections", "-fdata-sections", "-w", "-pthread",
        "-DVERIF_HOOKS"]
INC = [VERIF + "/shim/secp", VERIF + "/shim", VERIF + "/harness",
       REPO + "/src", REPO + "/3rdparty", REPO + "/3rdparty/crypto", REPO + "/3rdparty/bech32", REPO + "/src/parsec",
       "/usr/include/lua5.4", "/usr/include/jsoncpp"]

GROUPS = {
    "crypto": ["3rdparty/crypto/*.cpp", "3rdparty/bech32/*.cpp"],
    "common": ["src/util/common/*.cpp"],
    "serialization": ["src/util/serialization/*.cpp"],
    "network": ["src/util/network/*.cpp"],
    "rpc": ["src/util/rpc/*.cpp"],
}
_lock = threading.Lock()
_filehash = {}


def fhash(path):
    with _lock:
        h = _filehash.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        with _lock:
            _filehash[path] = h
    return h


def _parse_deps(dfile):
    try:
        txt = open(dfile).read()
    except OSError:
        return []
    txt = txt.replace("\\\n", " ")
    parts = txt.split(":", 1)
    return parts[1].split() if len(parts) == 2 else []


class BuildError(Exception):
    pass


def _compile(cmd, src, stem, deps_are_system_ok=True):
    """cmd without -o/-MF; returns output path."""
    ck = hashlib.sha256("\0".join(cmd + [src]).encode()).hexdigest()[:24]
    d = os.path.join(OUT, "obj")
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, stem + "-" + ck)
    out, dep, sig = base + ".o", base + ".d", base + ".sig"
    def signature():
        h = hashlib.sha256()
        deps = _parse_deps(dep)
        if not deps:
            return None
        for p in deps:
            if p.startswith("/usr/"):
                continue
            h.update(p.encode()); h.update(fhash(p).encode())
        return h.hexdigest()
    if os.path.exists(out) and os.path.exists(sig):
        s = signature()
        if s is not None and open(sig).read() == s:
            return out
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-c", src, "-o", tmp, "-MD", "-MF", dep],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("compile failed: %s\n%s" % (src, r.stdout[:8000]))
    os.replace(tmp, out)
    with open(sig, "w") as f:
        f.write(signature() or "")
    return out


def expand(patterns, exclude=()):
    res = []
    for p in patterns:
        if p in GROUPS:
            res += expand(GROUPS[p])
            continue
        base = VERIF if p.startswith("harness/") or p.startswith("shim/") else REPO
        m = sorted(glob.glob(os.path.join(base, p)))
        if not m:
            raise BuildError("no source matches " + p)
        res += m
    ex = set()
    for e in exclude:
        ex |= set(glob.glob(os.path.join(REPO, e)))
    seen, out = set(), []
    for r in res:
        if r not in seen and r not in ex:
            seen.add(r); out.append(r)
    return out


def _flags_for(src, flavour):
    fl = list(FLAVOURS[flavour])
    extra = []
    if "/3rdparty/" in src:
        fl = [("-O2" if f in ("-O0", "-O1") else f) for f in fl]
        b = os.path.basename(src)
        if "sse41" in b:
            extra = ["-msse4.1", "-DENABLE_SSE41"]
        elif "avx2" in b:
            extra = ["-mavx", "-mavx2", "-DENABLE_AVX2"]
        elif "shani" in b:
            extra = ["-msse4", "-msha", "-DENABLE_SHANI"]
        elif b == "sha256.cpp":
            extra = ["-DENABLE_SSE41", "-DENABLE_AVX2", "-DENABLE_SHANI", "-DUSE_ASM"]
    return fl, extra


def build(name, harness, sources, flavour, libs=(), defines=(), exclude=(), jobs=8):
    """Build harness (path under /verif) + repo sources -> binary path."""
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    srcs = expand(list(sources), exclude)
    hs = [os.path.join(VERIF, h) for h in ([harness] if isinstance(harness, str) else harness)]
    base = [CXX] + BASE + ["-D" + d for d in defines] + ["-I" + i for i in INC]
    pch_src = os.path.join(VERIF, "lib", "pch.hpp")
    fl = FLAVOURS[flavour]
    pch = _compile(base + fl + ["-x", "c++-header"], pch_src, "pch")
    objs = {}
    errs = []
    def one(s):
        f, extra = _flags_for(s, flavour)
        cmd = base + f + extra
        if f == fl and not extra:
            # identical flags: the header can be shared. Its content is part
            # of the key through the dependency list of pch.hpp.
            cmd = cmd + ["-include-pch", pch]
        stem = s.replace("/", "_")[-60:]
        return _compile(cmd, s, stem)
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {s: ex.submit(one, s) for s in hs + srcs}
        for s, f in futs.items():
            try:
                objs[s] = f.result()
            except BuildError as e:
                errs.append(str(e))
    if errs:
        raise BuildError("\n".join(errs[:3]))
    out = os.path.join(OUT, "bin", "%s.%s" % (name, flavour))
    link = [CXX, "-pthread", "-fuse-ld=lld", "-Wl,--gc-sections"]
    link += [f for f in fl if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
    link += ["-o", out] + [objs[h] for h in hs]
    link += ["-Wl,--start-lib"] + [objs[s] for s in srcs] + ["-Wl,--end-lib"]
    link += [l if l.startswith("-") else "-l" + l for l in libs]
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("link failed: %s\n%s" % (name, r.stdout[-6000:]))
    return out
