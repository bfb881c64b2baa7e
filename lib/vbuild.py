"""Builds the engine and the code under test (from /repo's working tree) for the checks."""
import hashlib, os, subprocess, sys, shutil, glob, concurrent.futures, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG, CLANGXX = "clang", "clang++"

LIBC = """malloc calloc realloc free strdup strndup memcpy memmove memset memcmp strlen strnlen strcpy strncpy strcmp strncmp strcat
pthread_create pthread_join pthread_detach pthread_self pthread_equal pthread_exit pthread_mutexattr_init pthread_mutexattr_settype
pthread_mutexattr_destroy pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_condattr_init pthread_condattr_setpshared pthread_condattr_setclock pthread_condattr_destroy pthread_cond_init pthread_cond_destroy
pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast pthread_once pthread_setaffinity_np pthread_getschedparam
pthread_setschedparam pthread_setschedprio sched_yield clock_gettime clock_getres nanosleep clock_nanosleep usleep sleep time gettimeofday
sysconf rand srand random exit _exit atexit abort signal sigaction raise getpid vfprintf vprintf printf fprintf puts putchar fputs fputc
fflush perror fopen fclose fwrite fread fgetc feof socket bind listen accept connect getsockname getpeername setsockopt getsockopt read recv
recvfrom write send sendto shutdown close poll fcntl getaddrinfo freeaddrinfo vsnprintf snprintf sprintf""".split()
SPECIAL = {"__errno_location": "mc_errno_location", "__emutls_get_address": "mc_emutls_get_address", "__assert_fail": "mc_assert_fail"}


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd) if isinstance(cmd, list) else cmd, r.stdout[-6000:]))
    return r.stdout


class BuildError(Exception):
    pass


def fhash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


_tree = None


def tree_hash():
    """Hash of every C source and header of the code under test."""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for root, dirs, files in os.walk(REPO):
            dirs[:] = sorted(d for d in dirs if d not in ("_build", ".git", "build", "zephyr", "docs") and not d.startswith("."))
            for f in sorted(files):
                if f.endswith((".c", ".h", ".cpp", ".hpp", ".inc")):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
        _tree = h.hexdigest()[:20]
    return _tree


def hfile(*paths):
    return fhash(*[open(p, "rb").read() for p in paths])


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def cached(kind, key, build):
    """Returns a directory under BUILD filled by build(dir)."""
    d = os.path.join(BUILD, "%s-%s" % (kind, key))
    with Lock(kind + "-" + key):
        if not os.path.exists(d + "/.done"):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            build(d)
            open(d + "/.done", "w").close()
        else:
            os.utime(d)
    return d


def prune(max_dirs=400):
    try:
        ds = sorted((os.path.getmtime(p), p) for p in glob.glob(BUILD + "/*-*") if os.path.isdir(p))
    except OSError:
        return
    for _, p in ds[:-max_dirs]:
        shutil.rmtree(p, ignore_errors=True)
        try:
            os.unlink(p + ".lock")
        except OSError:
            pass


def pmap(f, xs):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(f, xs))


def engine():
    src = [VERIF + "/mc/mc.cpp", VERIF + "/mc/mc.h", VERIF + "/mc/mc_exe.c"]

    def b(d):
        sh([CLANGXX, "-O2", "-g", "-fPIC", "-shared", "-std=c++17", "-fno-strict-aliasing", "-w", "-o", d + "/libmc.so", src[0]])
        sh([CLANG, "-O1", "-fno-pie", "-c", "-o", d + "/mc_exe.o", src[2]])
        with open(d + "/syms", "w") as f:
            for s in LIBC:
                f.write("%s mc_%s\n" % (s, s))
            for a, c in SPECIAL.items():
                f.write("%s %s\n" % (a, c))
    return cached("engine", fhash(hfile(*src), "v2", " ".join(LIBC)), b)


RUNTIME_INC = ["include", "include/api", "include/core", "include/core/federated", "include/core/federated/network", "include/core/modal_models",
               "include/core/platform", "include/core/threaded", "include/core/utils", "low_level_platform/api", "tag/api", "trace/api",
               "trace/api/types", "trace/impl/include", "version/api", "logging/api", "platform/api", "core/federated/RTI"]


def glob_src(*pats, exclude=()):
    out = []
    for p in pats:
        out += sorted(glob.glob(os.path.join(REPO, p)))
    return [s for s in out if not any(x in s for x in exclude)]


def runtime_sources(federated=False, trace=False, threaded=True):
    """All C sources of the runtime. Files guarded by #ifdef compile to nothing where they do not apply."""
    pats = ["core/*.c", "core/utils/*.c", "core/utils/hashset/*.c", "lib/*.c", "core/threaded/*.c", "core/modal_models/*.c", "low_level_platform/impl/src/lf_unix_clock_support.c",
            "low_level_platform/impl/src/lf_linux_support.c", "low_level_platform/impl/src/lf_atomic_gcc_clang.c",
            "low_level_platform/impl/src/lf_platform_util.c", "platform/impl/*.c", "tag/*.c", "tag/**/*.c", "version/*.c", "version/**/*.c", "logging/*.c", "logging/**/*.c"]
    if federated:
        pats += ["core/federated/*.c", "core/federated/network/*.c"]
    if trace:
        pats += ["trace/impl/src/*.c"]
    out = []
    for p in pats:
        out += sorted(glob.glob(os.path.join(REPO, p), recursive=True))
    seen = []
    for s in out:
        if not threaded and ("/threaded/" in s or s.endswith("lf_semaphore.c")):
            continue
        if s not in seen and "zephyr" not in s and "arduino" not in s and "/test/" not in s and "nrf" not in s and "rp2040" not in s and "flexpret" not in s and "patmos" not in s:
            seen.append(s)
    return seen


def compile_objs(d, sources, defines, incs, flags=(), pre=()):
    defines = ["PLATFORM_Linux"] + list(defines)

    def one(i_s):
        i, s = i_s
        o = "%s/%d_%s.o" % (d, i, os.path.basename(s).replace(".", "_"))
        cxx = s.endswith((".cpp", ".cc"))
        sh([CLANGXX if cxx else CLANG] + (["-std=c++17"] if cxx else ["-std=gnu11"]) +
           ["-O1", "-g1", "-fno-pie", "-w", "-fno-omit-frame-pointer", "-fno-builtin", "-c", "-o", o, s] + list(flags) +
           ["-D%s" % x for x in defines] + ["-I%s" % x for x in incs])
        return o
    return pmap(one, list(enumerate(sources)))


TSAN = ["-fsanitize=thread", "-femulated-tls", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-fno-sanitize-recover=all"]


def sut(name, sources, defines, incs, keep=None, flags=(), drop_main=None, tsan=True, extra_dep=""):
    """Instrumented relocatable object of the code under test with libc redirected to the engine.
    keep: only these symbols stay global. drop_main: rename main to this."""
    eng = engine()
    extra = [s for s in sources if not s.startswith(REPO)]
    key = fhash(tree_hash(), os.path.basename(eng), "v5", " ".join(sources), " ".join(defines), " ".join(incs), keep, " ".join(flags), drop_main, tsan,
                hfile(*extra) if extra else "", extra_dep)

    def b(d):
        objs = compile_objs(d, sources, defines, incs, (TSAN if tsan else ["-femulated-tls"]) + list(flags))
        sh(["ld", "-r", "-o", d + "/all.o"] + objs)
        cmd = ["objcopy", "--redefine-syms=" + eng + "/syms"]
        if drop_main:
            cmd.append("--redefine-sym=main=" + drop_main)
        cmd += [d + "/all.o", d + "/sut.o"]
        sh(cmd)
        if keep is not None:
            sh(["objcopy"] + ["--keep-global-symbol=" + k for k in keep] + [d + "/sut.o", d + "/sut.o"])
        for o in objs + [d + "/all.o"]:
            os.unlink(o)
    return cached("sut-" + name, key, b) + "/sut.o"


def renamed(obj, old, new):
    """Copy of a relocatable with one symbol renamed."""
    return cached("copy-" + new, fhash(obj, old, new), lambda d: sh(["objcopy", "--redefine-sym=%s=%s" % (old, new), obj, d + "/sut.o"])) + "/sut.o"


def link(name, sut_objs, harness, defines=(), incs=(), flags=(), libs=(), dep=()):
    """Executable from SUT relocatables and uninstrumented harness sources."""
    eng = engine()
    key = fhash(tree_hash(), os.path.basename(eng), "v5", " ".join(sut_objs), hfile(*harness), " ".join(defines), " ".join(incs), " ".join(flags),
                " ".join(libs), hfile(*dep) if dep else "")

    def b(d):
        objs = compile_objs(d, harness, defines, [VERIF + "/mc"] + list(incs), flags)
        sh([CLANGXX, "-no-pie", "-Wl,-z,now", "-Wl,--no-relax", "-o", d + "/exe"] + objs + list(sut_objs) + [eng + "/mc_exe.o", eng + "/libmc.so",
           "-Wl,-rpath," + eng] + list(libs))
        for o in objs:
            os.unlink(o)
    return cached("exe-" + name, key, b) + "/exe"


def plain(name, sources, defines=(), incs=(), flags=(), libs=(), cc=None, dep=(), archive=(), hflags=None):
    """Ordinary executable (sanitizers etc. by flags). Sources in archive are linked as far as needed. hflags: flags for files of /verif."""
    archive = list(archive)
    hflags = list(flags if hflags is None else hflags)
    key = fhash(tree_hash(), "v3", " ".join(sources), "A", " ".join(archive), hfile(*[s for s in sources if not s.startswith(REPO)]), " ".join(defines), " ".join(incs),
                " ".join(flags), "H", " ".join(hflags), " ".join(libs), cc, hfile(*dep) if dep else "")

    def b(d):
        cxxc = {"clang": "clang++", "gcc": "g++"}.get(cc or "clang")

        def one(i_s):
            i, s = i_s
            o = "%s/%d.o" % (d, i)
            cxx = s.endswith(".cpp")
            sh([cxxc if cxx else (cc or "clang")] + (["-std=c++17"] if cxx else ["-std=gnu11"]) + ["-g1", "-w", "-c", "-o", o, s] +
               (flags if s.startswith(REPO) else hflags) +
               ["-DPLATFORM_Linux"] + ["-D%s" % x for x in defines] + ["-I%s" % x for x in incs])
            return o
        flags_ = list(flags)
        objs = pmap(one, list(enumerate(list(sources) + archive)))
        n = len(sources)
        lib = []
        if archive:
            sh(["ar", "rcs", d + "/lib.a"] + objs[n:])
            lib = [d + "/lib.a"]
        sh([cxxc, "-o", d + "/exe"] + flags_ + objs[:n] + lib + list(libs))
        for o in objs + lib:
            os.unlink(o)
    flags = list(flags)
    return cached("plain-" + name, key, b) + "/exe"


ISLAND = """malloc free calloc realloc strdup read recv write send exit _exit abort vfprintf printf fprintf clock_gettime pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_wait pthread_cond_timedwait __assert_fail __emutls_get_address
pthread_mutex_init pthread_mutex_destroy pthread_mutexattr_init pthread_mutexattr_settype pthread_mutexattr_destroy pthread_cond_init pthread_cond_destroy pthread_condattr_init
pthread_condattr_setclock pthread_cond_signal pthread_cond_broadcast pthread_create pthread_join pthread_detach nanosleep clock_nanosleep usleep sleep shutdown close puts putchar fputs fputc fflush perror sched_yield""".split()


def island(name, sources, glue, harness, defines, incs, dep=()):
    """Executable whose code under test (with glue) keeps all its data in sections and an arena of its own, and calls isl_* instead of libc."""
    key = fhash(tree_hash(), "v1", " ".join(sources), hfile(*glue, *harness, *dep), " ".join(defines), " ".join(incs), " ".join(ISLAND))

    def b(d):
        objs = compile_objs(d, list(glue) + list(sources), defines, incs, ["-O2", "-fno-common", "-fno-pic", "-femulated-tls"])
        sh(["ld", "-r", "-o", d + "/all.o"] + objs)
        cmd = ["objcopy"] + ["--redefine-sym=%s=isl_%s" % (f, f) for f in ISLAND]
        for s in (".data", ".bss", ".data.rel", ".data.rel.local"):
            cmd += ["--rename-section=%s=%s" % (s, "islbss,alloc" if s == ".bss" else "isldata,alloc,load,data,contents")] if s in (".data", ".bss") else []
        sh(cmd + [d + "/all.o", d + "/sut.o"])
        ho = []
        for i, h in enumerate(harness):
            ho.append("%s/h%d.o" % (d, i))
            sh([CLANGXX, "-std=c++17", "-O2", "-g1", "-fno-pie", "-w", "-c", "-o", ho[-1], h] + ["-I%s" % x for x in incs])
        sh([CLANGXX, "-no-pie", "-o", d + "/exe", d + "/sut.o"] + ho + ["-lm"])
        for o in objs + ho + [d + "/all.o"]:
            os.unlink(o)
    return cached("island-" + name, key, b) + "/exe"


def inc(*more):
    return [os.path.join(REPO, p) for p in RUNTIME_INC] + list(more)
