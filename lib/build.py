"""Builds everything a check needs from /repo's current working tree.

Three kinds of objects, cached under /verif/build by content hash:
  - the engine (pass plugin, symbolic and native runtimes),
  - /repo's library translation units compiled by clang through the pass (symbolic),
  - the same units compiled by the project's compiler and flags (native replay).
"""
import hashlib, os, re, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
ENGINE = os.path.join(VERIF, "engine")
LLVM_INC = "/usr/lib/llvm-18/include"
CLANG = "clang++-18"
GXX = "g++-14" if subprocess.call(["sh", "-c", "command -v g++-14 >/dev/null"]) == 0 else "g++"

COMMON = ["-std=gnu++23", "-D_GLIBCXX_USE_TBB_PAR_BACKEND=0", "-I" + SRC, "-I" + ENGINE, "-I" + os.path.join(VERIF, "harness")]
SYMFLAGS = ["-O1", "-g0", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-jump-tables", "-D_GLIBCXX_ASSERTIONS",
            "-fno-threadsafe-statics", "-D__cpp_concepts=202002L", "-Wno-builtin-macro-redefined", "-w"]
NATFLAGS = ["-O2", "-DNDEBUG", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS", "-w"]
LINK = ["-lz3", "-lpugixml", "-Wl,--version-script=" + os.path.join(ENGINE, "exports.map")]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])


def cached(key, ext, make):
    """Path of the artefact with this key, made by make(tmp_path) if absent."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, key + ext)
    if os.path.exists(out):
        os.utime(out)
        return out
    tmp = "%s.%d.%d.tmp%s" % (out, os.getpid(), time.monotonic_ns(), ext)
    make(tmp)
    os.replace(tmp, out)
    return out


def lib_sources():
    """The translation units of the 'openemsh' library target, from CMakeLists."""
    txt = rd(os.path.join(SRC, "CMakeLists.txt")).decode()
    m = re.search(r"target_sources\(\s*openemsh\b(.*?)\)", txt, re.S)
    if not m:
        raise BuildError("cannot find the library's sources in CMakeLists.txt")
    fs = re.findall(r"CMAKE_CURRENT_SOURCE_DIR\}/([\w/.]+\.cpp)", m.group(1))
    return [f for f in fs if os.path.exists(os.path.join(SRC, f))]


def headers_digest():
    h = []
    for d, _, fs in os.walk(SRC):
        if "/ui/qt" in d:
            continue
        for f in fs:
            if not f.endswith((".cpp", ".qrc", ".svg", ".ui")):
                p = os.path.join(d, f)
                h.append((os.path.relpath(p, SRC), hashlib.sha256(rd(p)).hexdigest()))
    return sha(repr(sorted(h)))


def plugin():
    src = os.path.join(ENGINE, "sympass.cpp")
    return cached("plugin-" + sha(rd(src)), ".so", lambda t: run(
        [CLANG, "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti", "-I" + LLVM_INC, "-D_GNU_SOURCE",
         "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", t]))


def engine_obj(name):
    src = os.path.join(ENGINE, name)
    return cached(name + "-p-" + sha(rd(src), rd(os.path.join(ENGINE, "sym.h"))), ".o",
                  lambda t: compile_private(src, t))


def compile_private(src, out):
    """Compile a runtime source so that it shares no inline function or template
    instance with the instrumented code (they would be merged by the linker)."""
    run(["g++", "-std=gnu++20", "-O2", "-g1", "-I" + ENGINE, "-c", src, "-o", out + ".1"])
    run(["ld", "-r", "--force-group-allocation", out + ".1", "-o", out + ".2"])
    syms = subprocess.run(["nm", out + ".2"], check=True, stdout=subprocess.PIPE, text=True).stdout
    weak = [l.split()[-1] for l in syms.splitlines() if len(l.split()) == 3 and l.split()[1] in "WVu"]
    with open(out + ".3", "w") as f:
        f.write("\n".join(weak) + "\n")
    run(["objcopy", "--localize-symbols=" + out + ".3", out + ".2", out])
    for k in "123":
        os.unlink(out + "." + k)


def tu(path, mode, hdr, plug, extra=()):
    body = rd(path)
    if mode == "sym":
        cmd = [CLANG] + COMMON + SYMFLAGS + list(extra) + ["-fpass-plugin=" + plug]
        key = sha(body, hdr, path, " ".join(cmd[:-1]), os.path.basename(plug))
    else:
        cmd = [GXX] + COMMON + NATFLAGS + list(extra)
        key = sha(body, hdr, path, " ".join(cmd))
    return cached("%s-%s-%s" % (mode, os.path.basename(path), key), ".o", lambda t: run(cmd + ["-c", path, "-o", t]))


def harness_headers():
    d = os.path.join(VERIF, "harness")
    return sha(repr(sorted((f, hashlib.sha256(rd(os.path.join(d, f))).hexdigest()) for f in os.listdir(d) if f.endswith(".hpp"))))


def build(harness, mode):
    """Executable of harness (a .cpp under /verif/harness) for mode 'sym' or 'nat'."""
    os.makedirs(BUILD, exist_ok=True)
    hdr = headers_digest()
    hh = harness_headers()
    srcs = [os.path.join(SRC, f) for f in lib_sources()]
    hp = os.path.join(VERIF, "harness", harness)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            plug = ex.submit(plugin) if mode == "sym" else None
            rts = ["symrt.cpp", "symrt_infra.cpp"] if mode == "sym" else ["symnat.cpp"]
            ros = [ex.submit(engine_obj, r) for r in rts]
            plug = plug.result() if plug else ""
            big = sorted(srcs, key=lambda p: -os.path.getsize(p))
            inc = [rd(os.path.join(SRC, f)) for f in re.findall(r'#include "([\w/.]+\.cpp)"', rd(hp).decode()) if os.path.exists(os.path.join(SRC, f))]
            h = ex.submit(tu, hp, mode, sha(hdr, hh, *inc, rd(os.path.join(ENGINE, "sym.h"))), plug, ["-fno-access-control"])
            objs = [ex.submit(tu, s, mode, hdr, plug) for s in big]
            objs = [h.result()] + [r.result() for r in ros] + sorted(o.result() for o in objs)
        key = sha(mode, "x1", *objs)
        link = LINK if mode == "sym" else ["-lpugixml"]
        exe = cached("%s-%s-%s" % (mode, os.path.splitext(harness)[0], key), ".exe",
                     lambda t: run(["g++" if mode == "sym" else GXX] + objs + ["-o", t] + link))
    return exe


def prune(max_files=3000, max_bytes=2 << 30):
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.endswith((".o", ".exe", ".so"))]
        fs = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in fs), reverse=True)
        tot = 0
        for i, (_, s, f) in enumerate(fs):
            tot += s
            if i >= max_files or tot > max_bytes:
                os.unlink(f)
    except OSError:
        pass


if __name__ == "__main__":  # setup: build everything once
    t0 = time.time()
    hs = sorted(f for f in os.listdir(os.path.join(VERIF, "harness")) if f.endswith(".cpp"))
    only = sys.argv[1:]
    for h in hs:
        if only and h not in only:
            continue
        for m in ("sym", "nat"):
            build(h, m)
            print("built %s (%s) %.1fs" % (h, m, time.time() - t0), flush=True)
