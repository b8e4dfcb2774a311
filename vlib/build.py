"""Builds of the real library (from /repo's working tree) and of the harness, keyed by content."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")

WRAPS = """malloc calloc realloc strdup strndup vasprintf asprintf open open64 openat close read recv recvfrom readv recvmsg
write send sendto writev sendmsg poll select tcgetattr tcsetattr tcdrain tcflush isatty ioctl fcntl socket connect
setsockopt getsockopt shutdown getaddrinfo freeaddrinfo gethostbyname time clock_gettime gettimeofday usleep sleep
nanosleep""".split()

TOOLWRAPS = """open open64 close read recv recvfrom write send sendto writev poll select isatty tcgetattr tcsetattr tcdrain
tcflush ioctl fcntl socket connect setsockopt getsockopt shutdown getaddrinfo freeaddrinfo time clock_gettime gettimeofday
usleep sleep nanosleep""".split()

COMMON = ["-g", "-O1", "-fno-omit-frame-pointer", "-w", "-D_GNU_SOURCE", "-DHAVE_CONFIG_H"]
FLAVOURS = {
    "asan": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fsanitize-address-use-after-return=always"],
    "alt": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_HAS_NON_IEEE754_FLOAT"],
    "msan": ["-fsanitize=memory", "-fsanitize-memory-track-origins=2", "-fno-sanitize-recover=all"],
    "real": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
    "fuzz": ["-fsanitize=fuzzer,address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-DLIBFUZZER"],
}


class BuildError(Exception):
    pass


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "mbus", "*.c")))


def _hash(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def repo_files():
    return (lib_sources() + glob.glob(os.path.join(REPO, "mbus", "*.h"))
            + glob.glob(os.path.join(REPO, "bin", "*.[ch]")))


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])


def _prune(keep):
    """Drop old builds so that /verif/build stays small."""
    try:
        ents = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))]
        ents = [e for e in ents if not e.endswith(".tmp") and e not in keep]
        ents.sort(key=os.path.getmtime)
        for e in ents[:-14]:
            shutil.rmtree(e, ignore_errors=True)
    except OSError:
        pass


def ensure(flavour):
    """Return the path of the worker (asan/msan), fuzzer or tool directory built from the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    harness = glob.glob(os.path.join(ROOT, "harness", "*.[ch]"))
    flags = FLAVOURS.get(flavour, ["bin"])
    key = flavour + "-" + _hash(repo_files() + harness, (flags, COMMON, WRAPS, TOOLWRAPS, REPO))
    d = os.path.join(BUILD, key)
    done = os.path.join(d, "done")
    with open(os.path.join(BUILD, f"lock-{flavour}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(done):
            os.utime(d)
            return d
        shutil.rmtree(d, ignore_errors=True)
        inc = os.path.join(d, "inc")
        os.makedirs(os.path.join(inc, "sub"))
        with open(os.path.join(inc, "config.h"), "w") as f:
            f.write('#define VERSION "0.9.0"\n#define PACKAGE "libmbus"\n')
        if flavour in ("bin", "binm"):
            _build_bin(d, inc, flavour)
        else:
            _build_worker(d, inc, flags, flavour)
        open(done, "w").close()
        _prune({d})
        return d


def _build_worker(d, inc, flags, flavour):
    srcs = lib_sources()
    if not srcs:
        raise BuildError("no library sources")
    src = {"fuzz": "fuzz.c", "real": "real.c"}.get(flavour, "worker.c")
    jobs = []
    objs = []
    cflags = COMMON + flags + ["-I", os.path.join(inc, "sub"), "-I", inc, "-I", REPO]
    for s in srcs + [os.path.join(ROOT, "harness", src)]:
        o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
        objs.append(o)
        jobs.append(["clang", "-c", s, "-o", o] + cflags)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(_run, jobs))
    wraps = [] if flavour in ("fuzz", "real") else ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
    _run(["clang"] + flags + objs + wraps + ["-o", os.path.join(d, "worker"), "-lm"])


def _build_bin(d, inc, flavour):
    """The command line tools with ASan+UBSan or MSan, each statically linked with the library's objects."""
    fl = ["-g", "-O1", "-fno-omit-frame-pointer", "-w", "-U_FORTIFY_SOURCE", "-D_GNU_SOURCE", "-DHAVE_CONFIG_H", "-I", os.path.join(inc, "sub"), "-I", inc, "-I", REPO, "-I", os.path.join(REPO, "mbus")]
    fl += FLAVOURS["asan" if flavour == "bin" else "msan"]
    objs, jobs = [], []
    for s in lib_sources() + [os.path.join(ROOT, "harness", "toolshim.c")]:
        o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
        objs.append(o)
        jobs.append(["clang", "-c", s, "-o", o] + fl)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(_run, jobs))
    tools = sorted(glob.glob(os.path.join(REPO, "bin", "*.c")))
    wraps = "-Wl," + ",".join("--wrap=" + w for w in TOOLWRAPS)
    jobs = [["clang", t] + fl + objs + [wraps, "-o", os.path.join(d, os.path.basename(t)[:-2]), "-lm"] for t in tools]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(_run, jobs))
