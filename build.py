#!/usr/bin/env python3
"""Builds the simulator for one property from /repo's current working tree.

Every library source of libdynd is compiled with -fsanitize=thread (gcc), but linked against our own runtime
(sim/rt.cpp), statically, together with the scenario of the property and the engine.  Objects are cached under
/verif/build by the content of everything they include, never by time stamps.
"""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
GEN = os.path.join(BUILD, "gen")
OBJ = os.path.join(BUILD, "obj")
JOBS = os.cpu_count() or 4

CXXSTD = ["-std=c++14"]
COMMON = ["-O1", "-fPIC", "-fomit-frame-pointer", "-fstrict-aliasing", "-w", "-fsanitize=thread",
          "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset", "-fno-builtin-memcmp", "-fno-builtin-memchr", "-fno-builtin-strlen",
          "-DDYND_EXPORT", "-DDYNDT_EXPORT"]
WRAPS = """malloc free calloc realloc posix_memalign aligned_alloc memalign memcpy memmove memset memcmp memchr strlen
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __cxa_thread_atexit pthread_once
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock
pthread_cond_wait pthread_cond_signal pthread_cond_broadcast
sched_yield nanosleep clock_nanosleep usleep clock_gettime time __assert_fail
open fstat mmap munmap close sysconf
_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE
_ZNSt13random_device9_M_getvalEv _ZNSt13random_device7_M_finiEv""".split()
SLOW = ["assignment.cpp", "comparison", "arithmetic.cpp", "math.cpp", "array.cpp", "view.cpp", "json"]


class BuildError(Exception):
    pass


_hash = {}


def fhash(path):
    h = _hash.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()[:32]
        except OSError:
            h = "missing"
        _hash[path] = h
    return h


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def generate():
    """What cmake's configure_file would produce (shared-library Linux configuration)."""
    cml = open(os.path.join(REPO, "CMakeLists.txt")).read()

    def var(name, default):
        m = re.search(r"set\(\s*%s\s+\"?([^\s\")]+)" % name, cml, re.I)
        return m.group(1) if m else default
    sub = {"DYND_SHARED_LIB_VAL": "1", "CMAKE_SHARED_LIBRARY_SUFFIX": ".so", "DYND_GIT_SHA1": "simulated",
           "DYND_VERSION_STRING": "simulated", "DyND_ABI_VERSION_MAJOR": var("DyND_ABI_VERSION_MAJOR", "1"),
           "DyND_ABI_VERSION_MINOR": var("DyND_ABI_VERSION_MINOR", "0"),
           "DyND_ABI_VERSION_DEBUG": var("DyND_ABI_VERSION_DEBUG", "0")}

    def conf(src, dst):
        t = open(os.path.join(REPO, src)).read()
        t = re.sub(r"#cmakedefine (\w+).*", r"/* #undef \1 */", t)
        t = re.sub(r"@(\w+)@", lambda m: sub.get(m.group(1), ""), t)
        t = re.sub(r"\$\{(\w+)\}", lambda m: sub.get(m.group(1), m.group(0)), t)
        write_if_changed(os.path.join(GEN, dst), t)
    conf("include/dynd/visibility.hpp.in", "include/dynd/visibility.hpp")
    conf("include/dynd/cmake_config.hpp.in", "include/dynd/cmake_config.hpp")
    conf("include/dynd/abi/version.h.in", "include/dynd/abi/version.h")
    conf("src/dynd/git_version.cpp.in", "src/dynd/git_version.cpp")


def sources():
    cml = open(os.path.join(REPO, "CMakeLists.txt")).read()
    out = []

    def add(block):
        for line in block.splitlines():
            for w in line.split("#")[0].split():
                w = w.strip('"')
                if not re.search(r"\.(cpp|c|cc|cxx)$", w):
                    continue
                w = w.replace("${CMAKE_CURRENT_BINARY_DIR}", GEN).replace("${PROJECT_BINARY_DIR}", GEN)
                w = w.replace("${CMAKE_CURRENT_SOURCE_DIR}/", "").replace("${PROJECT_SOURCE_DIR}/", "")
                p = w if os.path.isabs(w) else os.path.join(REPO, w)
                if p not in out:
                    out.append(p)
    abi = [os.path.join(dp, f) for dp, _, fs in os.walk(os.path.join(REPO, "src/dynd/abi")) for f in fs
           if re.search(r"\.(c|cpp)$", f)]
    for name in ("libdyndt_SRC", "libdynd_SRC"):
        m = re.search(r"set\(\s*%s\b(.*?)\n\s*\)" % name, cml, re.S)
        if not m:
            raise BuildError("cannot find %s in CMakeLists.txt" % name)
        add(m.group(1))
    return sorted(abi) + out


def includes():
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(GEN, "include")]
    for d in ("thirdparty/utf8/source", "thirdparty/datetime/include"):
        p = os.path.join(REPO, d)
        if os.path.isdir(p):
            inc.append("-I" + p)
    return inc


class Unit:
    def __init__(self, src, cmd, tag):
        self.src, self.cmd, self.tag = src, cmd, tag
        key = hashlib.sha256((tag + "\0" + src + "\0" + " ".join(cmd)).encode()).hexdigest()[:20]
        base = os.path.splitext(os.path.basename(src))[0]
        self.obj = os.path.join(OBJ, "%s-%s.o" % (base, key))
        self.meta = self.obj + ".json"

    def fresh(self):
        try:
            with open(self.meta) as f:
                m = json.load(f)
        except (OSError, ValueError):
            return False
        if not os.path.exists(self.obj):
            return False
        return all(fhash(p) == h for p, h in m["deps"].items())

    def build(self):
        d = self.obj + ".d"
        tmp = self.obj + ".tmp%d" % os.getpid()
        r = subprocess.run(self.cmd + ["-MD", "-MF", d, "-c", self.src, "-o", tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode:
            return "%s\n%s" % (self.src, r.stdout.decode(errors="replace")[-4000:])
        os.rename(tmp, self.obj)
        text = open(d).read().replace("\\\n", " ")
        deps = text.split(":", 1)[1].split()
        deps = [os.path.realpath(p) if p.startswith(VERIF) else os.path.abspath(p) for p in deps if not p.startswith("/usr/")]
        with open(self.meta + ".tmp", "w") as f:
            json.dump({"deps": {p: fhash(p) for p in deps}}, f)
        os.rename(self.meta + ".tmp", self.meta)
        os.unlink(d)
        return None


def lib_units():
    inc = includes()
    us = []
    for s in sources():
        if s.endswith(".c"):
            us.append(Unit(s, ["gcc", "-std=c11"] + COMMON + inc, "c"))
        else:
            us.append(Unit(s, ["g++"] + CXXSTD + COMMON + inc, "cxx"))
    return us


def scenario_units(prop):
    d = os.path.join(VERIF, "scenarios")
    us = []
    for f in sorted(os.listdir(d)):
        if (f.startswith(prop) or f[0].islower()) and f.endswith(".cpp"):
            us.append(Unit(os.path.join(d, f), ["g++"] + CXXSTD + COMMON + includes() + ["-I" + os.path.join(VERIF, "sim"), "-I" + d],
                           "scn"))
    if not us:
        raise BuildError("no scenario for " + prop)
    return us


def host_units():
    return [Unit(os.path.join(VERIF, "sim", f), ["g++", "-std=c++17", "-O2", "-g0", "-fPIC", "-w", "-I" + os.path.join(VERIF, "sim")],
                 "host") for f in ("rt.cpp", "engine.cpp")]


def compile_all(units, log=True):
    os.makedirs(OBJ, exist_ok=True)
    todo = [u for u in units if not u.fresh()]

    def rank(u):
        b = u.src
        for i, s in enumerate(SLOW):
            if s in b:
                return i
        if u.tag == "scn":
            return 1
        try:
            return 100 - min(90, os.path.getsize(b) // 2000)
        except OSError:
            return 100
    todo.sort(key=rank)
    errs = []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for e in ex.map(lambda u: u.build(), todo):
            if e:
                errs.append(e)
    if errs:
        raise BuildError("compile errors:\n" + "\n".join(errs[:3]))
    return len(todo)


def build(prop):
    t0 = time.time()
    generate()
    lib = lib_units()
    scn = scenario_units(prop)
    host = host_units()
    n = compile_all(lib + scn + host)
    exe = os.path.join(BUILD, "bin", "simdynd-" + prop)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    objs = [u.obj for u in lib] + [u.obj for u in scn] + [u.obj for u in host]
    key = hashlib.sha256("\n".join([" ".join(objs)] + [fhash(o) for o in objs] + WRAPS).encode()).hexdigest()
    try:
        same = os.path.exists(exe) and open(exe + ".key").read() == key
    except OSError:
        same = False
    if not same:
        rsp = exe + ".rsp"
        with open(rsp, "w") as f:
            f.write("\n".join(objs))
        cmd = ["g++", "-static", "-no-pie", "-o", exe + ".tmp", "@" + rsp] + ["-Wl,--wrap=" + w for w in WRAPS]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("link error:\n" + r.stdout.decode(errors="replace")[-4000:])
        os.rename(exe + ".tmp", exe)
        with open(exe + ".key", "w") as f:
            f.write(key)
    return exe, {"compiled": n, "library_units": len(lib), "seconds": round(time.time() - t0, 1)}


def warm():
    """Compiles everything that does not depend on a property."""
    generate()
    units = lib_units() + host_units()
    d = os.path.join(VERIF, "scenarios")
    for f in sorted(os.listdir(d)):
        if f.endswith(".cpp"):
            units.append(Unit(os.path.join(d, f), ["g++"] + CXXSTD + COMMON + includes() + ["-I" + os.path.join(VERIF, "sim"), "-I" + d], "scn"))
    return compile_all(units)


if __name__ == "__main__":
    try:
        if len(sys.argv) > 1:
            print(build(sys.argv[1]))
        else:
            t = time.time()
            print("compiled", warm(), "units in %.1f s" % (time.time() - t))
    except BuildError as e:
        print(e)
        sys.exit(2)
