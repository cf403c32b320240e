"""Compiles /repo's current sources together with the harnesses, in many configurations.

Everything goes to BUILD (ignored by git), into a directory named by a hash of the sources, the harness and the flags, so
that a changed tree is always rebuilt and an unchanged one is built once.
"""
import concurrent.futures, fcntl, glob, hashlib, os, shutil, subprocess, sys, sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RX_REPO", "/repo")
BUILD = os.environ.get("RX_BUILD", os.path.join(VERIF, ".build"))

INC = ["include", "include/core", "include/core/federated", "include/core/federated/network",
       "include/core/modal_models", "include/core/platform", "include/core/threaded", "include/core/utils",
       "include/api", "low_level_platform/api", "tag/api", "trace/api", "trace/api/types", "version/api",
       "logging/api", "platform/api", "core/federated/RTI", "util", "trace/impl/include", "version/impl/include", "util/tracing"]
BASE_DEFS = ["INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10", "PLATFORM_Linux", "_GNU_SOURCE"]


class BuildError(Exception):
    pass


_src_hash = None


def src_hash():
    global _src_hash
    if _src_hash is None:
        h = hashlib.sha256()
        files = []
        for root, dirs, fs in os.walk(REPO):
            dirs[:] = [d for d in dirs if d not in (".git", "_build", "build", "docs", "test", "cbuild")]
            files += [os.path.join(root, f) for f in fs if f.endswith((".c", ".h", ".cpp", ".hpp", ".inc"))]
        for f in sorted(files):
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
        _src_hash = h.hexdigest()
    return _src_hash


def repo(*pats):
    out = []
    for p in pats:
        out += sorted(glob.glob(os.path.join(REPO, p)))
    return out


def platform_sources():
    s = "low_level_platform/impl/src/"
    return repo(s + "lf_unix_clock_support.c", s + "lf_linux_support.c", s + "lf_atomic_gcc_clang.c",
                s + "lf_platform_util.c", "platform/impl/*.c", "version/impl/src/*.c", "version/impl/*.c", "logging/impl/*.c")


def runtime_sources(threaded=True, trace=False, federated=False, modal=False, extra_exclude=()):
    core = [f for f in repo("core/*.c")
            if os.path.basename(f) not in (("reactor.c",) if threaded else ())
            + (() if trace else ("tracepoint.c",)) + tuple(extra_exclude)]
    src = core + repo("core/utils/*.c", "core/utils/hashset/*.c", "lib/*.c")
    if not threaded:
        src = [f for f in src if os.path.basename(f) != "lf_semaphore.c"]
    src += repo("core/modal_models/*.c") if modal else []
    if threaded:
        src += repo("core/threaded/*.c")
    if trace:
        src += repo("trace/impl/src/*.c")
    if federated:
        src += repo("core/federated/*.c", "core/federated/network/*.c")
    return src + platform_sources()


def _compile(cc, src, obj, flags):
    r = subprocess.run([cc, "-c", src, "-o", obj] + flags, capture_output=True, text=True)
    return (src, r.returncode, r.stderr)


def build(name, runtime, harness, defs, cflags=("-O1", "-g"), ldflags=(), libs=("-lpthread", "-lm"), runtime_cflags=(),
          cc="gcc", inc=(), shared_key=""):
    """Returns the path of the executable. runtime and harness are lists of C files; runtime_cflags apply to the former."""
    h = hashlib.sha256(src_hash().encode())
    hfiles = []
    for d in sorted({os.path.dirname(f) for f in harness}):
        hfiles += sorted(glob.glob(d + "/*.[ch]") + glob.glob(d + "/*.py"))
    for f in hfiles:
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(repr((name, runtime, harness, defs, cflags, ldflags, libs, runtime_cflags, cc, inc, REPO)).encode())
    d = os.path.join(BUILD, name + "-" + h.hexdigest()[:16])
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(BUILD, name + "-*")):
            if os.path.isdir(old) and len(os.path.basename(old)) == len(name) + 17:
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        flags = ["-w", "-std=gnu11"] + list(cflags) + ["-I" + os.path.join(REPO, i) for i in INC] + ["-I" + i for i in inc] + \
            ["-D" + x for x in BASE_DEFS + list(defs)]
        jobs = []
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for i, f in enumerate(list(runtime) + list(harness)):
                fl = flags + (list(runtime_cflags) if i < len(runtime) else [])
                obj = os.path.join(d, "%03d_%s.o" % (i, os.path.basename(f)))
                jobs.append((obj, ex.submit(_compile, cc, f, obj, fl)))
            for obj, j in jobs:
                src, rc, err = j.result()
                if rc:
                    shutil.rmtree(d, ignore_errors=True)
                    raise BuildError("compiling %s for %s failed:\n%s" % (src, name, err[-3000:]))
        tmp = exe + ".tmp"
        r = subprocess.run([cc, "-o", tmp] + [o for o, _ in jobs] + list(cflags) + list(ldflags) + list(libs),
                           capture_output=True, text=True)
        if r.returncode:
            shutil.rmtree(d, ignore_errors=True)
            raise BuildError("linking %s failed:\n%s" % (name, r.stderr[-3000:]))
        for o, _ in jobs:
            os.unlink(o)
        os.rename(tmp, exe)
    return exe


WRAP = ["pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_trylock",
        "pthread_mutex_unlock", "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_wait",
        "pthread_cond_timedwait", "pthread_cond_clockwait", "pthread_cond_signal", "pthread_cond_broadcast",
        "pthread_create", "pthread_join", "pthread_detach", "sched_yield", "clock_gettime", "nanosleep",
        "clock_nanosleep", "usleep"]
WRAP_FLAGS = ["-Wl," + ",".join("--wrap=" + w for w in WRAP)]
SCHED = {"NP": "SCHED_NP", "GEDF": "SCHED_GEDF_NP", "ADAPTIVE": "SCHED_ADAPTIVE"}


def rx(sched, modal=False, mem=False, asan=False, watchdogs=True, enclaves=False, trace=False, py=False):
    """The reactor program interpreter. sched: single, NP, GEDF or ADAPTIVE."""
    threaded = sched != "single"
    defs = ["LOG_LEVEL=0", "RX=1", "NUMBER_OF_WORKERS=0"] if threaded else ["LOG_LEVEL=0", "RX=1", "LF_SINGLE_THREADED=1"]
    if threaded:
        defs += ["SCHEDULER=" + SCHED[sched]]
        if watchdogs:
            defs += ["NUMBER_OF_WATCHDOGS=1"]
    if modal:
        defs += ["MODAL_REACTORS=1"]
    if enclaves:
        defs += ["LF_ENCLAVES=1"]
    if trace:
        defs += ["LF_TRACE=1"]
    hd = os.path.join(VERIF, "harness/rx")
    pyinc, pylibs = (), ()
    if py:
        defs += ["RX_PY=1", "_PYTHON_TARGET_ENABLED=1", "MODULE_NAME=LinguaFrancaRx", "RXPY_DIR=\"%s\"" % hd]
        d = sysconfig.get_paths()["include"]
        pyinc, pylibs = (d, os.path.join(REPO, "python/include")), ("-L" + sysconfig.get_config_var("LIBDIR"), "-lpython" + sysconfig.get_config_var("LDVERSION"))
    harness = [hd + "/rx.c", hd + "/vt.c"] + ([hd + "/tsanhooks.c"] if mem else [])
    runtime = runtime_sources(threaded, trace=trace, modal=modal)
    if enclaves:
        runtime += repo("core/federated/RTI/rti_common.c", "core/federated/RTI/rti_local.c")
    if py:
        runtime += repo("python/lib/*.c") + (repo("python/lib/modal_models/*.c") if modal else [])
    cflags = [os.environ.get("RX_OPT", "-O1"), "-g"] + (["-fsanitize=address,undefined", "-fno-sanitize=alignment,shift,float-cast-overflow",
                               "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"] if asan else [])
    name = "rx-" + "-".join([sched] + [n for n, v in (("modal", modal), ("mem", mem), ("asan", asan), ("encl", enclaves), ("trace", trace), ("py", py),
                                                     ("nowd", not watchdogs)) if v])
    return build(name, runtime, harness, defs, cflags=cflags, ldflags=WRAP_FLAGS + ["-Wl,--wrap=fopen"] * trace + ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"] * (not asan and not py),
                 inc=pyinc, libs=("-lpthread", "-lm") + pylibs, runtime_cflags=["-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0"] if mem else [])


SAN = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
ALLOC_WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"


def unit():
    """Data structures and value functions, with AddressSanitizer and UndefinedBehaviorSanitizer."""
    hd = os.path.join(VERIF, "harness/unit")
    return build("unit", runtime_sources(True) + repo("util/deque.c"), [hd + "/unit.c", hd + "/stubs.c"],
                 ["LOG_LEVEL=0", "NUMBER_OF_WORKERS=1", "SCHEDULER=SCHED_NP"], cflags=SAN, ldflags=[ALLOC_WRAP])


def wave():
    """The wave file reader."""
    return build("wave", repo("util/wave_file_reader.c"), [os.path.join(VERIF, "harness/wave/wave.c")], [], cflags=SAN + ["-Wno-multichar"],
                 ldflags=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=free"])


FED_DEFS = ["_LF_FEDERATE_NAMES_COMMA_SEPARATED=\"a,b\"", "NUMBER_OF_FEDERATES=2", "FEDERATE_ID=0", "LF_CLOCK_SYNC=3",
            "ADVANCE_MESSAGE_INTERVAL=10000000", "FEDERATED_CENTRALIZED=1", "FEDERATED"]


def args(federated):
    hd = os.path.join(VERIF, "harness/unit")
    return build("args-fed" if federated else "args", runtime_sources(True, federated=federated), [hd + "/args.c", hd + "/stubs.c"],
                 ["LOG_LEVEL=0", "NUMBER_OF_WORKERS=1", "SCHEDULER=SCHED_NP"] + (FED_DEFS if federated else []), cflags=SAN)


def codec(big_endian=False):
    """Network encodings and RTI addresses. With big_endian, the question whether the host is big endian is answered by the harness."""
    hd = os.path.join(VERIF, "harness/unit2")
    return build("codec-be" if big_endian else "codec", runtime_sources(True, federated=True), [hd + "/codec.c", hd + "/stubs.c"],
                 ["LOG_LEVEL=0", "NUMBER_OF_WORKERS=1", "SCHEDULER=SCHED_NP"] + FED_DEFS + (["CODEC_BE"] if big_endian else []),
                 cflags=SAN + ["-fno-sanitize=shift"], runtime_cflags=["-include", hd + "/weak.h"] if big_endian else [])


def sock():
    """The functions that move bytes over a socket, on a scripted socket."""
    hd = os.path.join(VERIF, "harness/unit2")
    wrap = ["read", "write", "send", "recv", "shutdown", "close", "lf_sleep", "lf_print_error_system_failure"]
    return build("sock", runtime_sources(True, federated=True), [hd + "/sock.c", hd + "/stubs.c"], ["LOG_LEVEL=0", "NUMBER_OF_WORKERS=1", "SCHEDULER=SCHED_NP"] + FED_DEFS, cflags=SAN,
                 ldflags=["-Wl," + ",".join("--wrap=" + x for x in wrap)])


def csync(mode, n, att):
    """Clock synchronisation of a federate: mode 1 off, 2 initial, 3 on; n exchanges per interval; attenuation."""
    hd = os.path.join(VERIF, "harness/unit2")
    wrap = ["_lf_clock_gettime", "lf_time_physical", "lf_sleep", "socket", "bind", "setsockopt", "getsockname", "connect", "read", "recv", "recvfrom", "write", "send", "sendto"]
    return build("csync-%d-%d-%d" % (mode, n, att), runtime_sources(True, federated=True), [hd + "/csync.c", hd + "/stubs.c"],
                 ["LOG_LEVEL=0", "NUMBER_OF_WORKERS=1", "SCHEDULER=SCHED_NP", "_LF_CLOCK_SYNC_EXCHANGES_PER_INTERVAL=%d" % n, "_LF_CLOCK_SYNC_ATTENUATION=%d" % att] +
                 [x for x in FED_DEFS if not x.startswith("LF_CLOCK_SYNC")] + ["LF_CLOCK_SYNC=%d" % mode],
                 ldflags=["-Wl," + ",".join("--wrap=" + w for w in wrap)], cflags=("-O1", "-g", "-U_FORTIFY_SOURCE"))


def tracer(asan=False):
    """The default trace module with threads on the controlled scheduler."""
    hd = os.path.join(VERIF, "harness/trace")
    harness = [hd + "/trace.c", os.path.join(VERIF, "harness/rx/vt.c")] + ([] if asan else [os.path.join(VERIF, "harness/rx/tsanhooks.c")])
    rt = repo("trace/impl/src/*.c", "core/utils/util.c", "core/tag.c", "core/clock.c") + platform_sources()
    return build("tracer-asan" if asan else "tracer", rt, harness + [os.path.join(VERIF, "harness/unit/stubs.c")],
                 ["LOG_LEVEL=0", "NUMBER_OF_WORKERS=1", "LF_TRACE=1"], inc=[os.path.join(VERIF, "harness/rx")],
                 cflags=["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"] if asan else ["-O1", "-g"],
                 ldflags=WRAP_FLAGS + ["-Wl,--wrap=fwrite"], runtime_cflags=[] if asan else ["-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0"])


def trace_tools():
    """util/tracing, as its makefile builds it."""
    return [build(t, repo("util/tracing/%s.c" % t, "util/tracing/trace_util.c"), [], ["LF_SINGLE_THREADED=1"], cflags=["-O1", "-g", "-fsanitize=address"], inc=[REPO + "/util/tracing"]) for t in ("trace_to_csv", "trace_to_chrome")]


def clk():
    hd = os.path.join(VERIF, "harness/clk")
    return build("clk", runtime_sources(True, federated=True), [hd + "/clk.c", hd + "/tsanhooks.c", os.path.join(VERIF, "harness/unit/stubs.c")],
                 ["LOG_LEVEL=0", "NUMBER_OF_WORKERS=1", "SCHEDULER=SCHED_NP"] + FED_DEFS,
                 ldflags=["-Wl,--wrap=_lf_clock_gettime,--wrap=_lf_cond_timedwait"],
                 runtime_cflags=["-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0"])


NET_WRAP = ["socket", "setsockopt", "bind", "listen", "getsockname", "getpeername", "connect", "accept", "read", "recv", "recvfrom",
            "sendto", "write", "send", "shutdown", "close", "fcntl", "gethostbyname", "getaddrinfo", "freeaddrinfo"]
NET_FLAGS = ["-Wl," + ",".join("--wrap=" + w for w in NET_WRAP)]


def delays():
    """The RTI's analysis of a topology."""
    runtime = repo("core/federated/RTI/main.c", "core/federated/RTI/rti_common.c", "core/federated/RTI/rti_remote.c", "core/tracepoint.c",
                   "core/utils/util.c", "core/tag.c", "core/clock.c", "core/federated/network/net_util.c", "core/utils/pqueue*.c",
                   "trace/impl/src/*.c") + platform_sources()
    return build("delays", runtime, [os.path.join(VERIF, "harness/rti/delays.c")], ["LOG_LEVEL=0", "STANDALONE_RTI=1", "FEDERATED=1", "RTI_TRACE"],
                 cflags=SAN, runtime_cflags=["-Dmain=rti_main"], libs=["-lpthread", "-lm"])


def rti(asan=False, auth=False):
    """The RTI with model federates on a virtual network."""
    hd = os.path.join(VERIF, "harness")
    runtime = repo("core/federated/RTI/main.c", "core/federated/RTI/rti_common.c", "core/federated/RTI/rti_remote.c", "core/tracepoint.c",
                   "core/utils/util.c", "core/tag.c", "core/clock.c", "core/federated/network/net_util.c", "core/utils/pqueue*.c",
                   "trace/impl/src/*.c") + platform_sources()
    defs = ["LOG_LEVEL=0", "STANDALONE_RTI=1", "FEDERATED=1", "RTI_TRACE", "main=rti_main"] + (["__RTI_AUTH__"] if auth else [])
    cflags = (SAN + ["-fno-sanitize=shift"] if asan else ["-O1", "-g"]) + ["-U_FORTIFY_SOURCE"]
    return build("rti" + ("-asan" if asan else "") + ("-auth" if auth else ""), runtime,
                 [hd + "/rti/rti.c", hd + "/rx/vt.c", hd + "/net/net.c"], defs, cflags=cflags, ldflags=WRAP_FLAGS + NET_FLAGS,
                 libs=["-lpthread", "-lm"] + (["-lssl", "-lcrypto"] if auth else []))


def fed(sched="NP", sync=False, asan=False, mem=False, dec=False, trace=False):
    """A federation: the RTI and six copies of the federate runtime with the reactor program interpreter, in one process.
    Every copy is a relocatable object whose symbols are local, so that each federate has its own variables."""
    hd = os.path.join(VERIF, "harness")
    name = "fed-" + "-".join([sched] + [n for n, v in (("sync", sync), ("asan", asan), ("dec", dec), ("trace", trace)) if v])
    san = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,shift,float-cast-overflow", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"] if asan else []
    flags = ["-w", "-std=gnu11", "-O1", "-g", "-U_FORTIFY_SOURCE"] + san + ["-I" + os.path.join(REPO, i) for i in INC] + ["-D" + x for x in BASE_DEFS + ["LOG_LEVEL=" + os.environ.get("FED_LOG", "0")]]
    fdefs = ["RX=1", "RX_FED=1", "NUMBER_OF_WORKERS=0", "SCHEDULER=" + SCHED[sched], "FEDERATED=1", "FEDERATED_DECENTRALIZED=1" if dec else "FEDERATED_CENTRALIZED=1", "NUMBER_OF_FEDERATES=6",
             "FEDERATE_ID=0", "_LF_FEDERATE_NAMES_COMMA_SEPARATED=\"a,b,c,d,e,f\"", "LF_CLOCK_SYNC=%d" % (3 if sync else 1),
             "ADVANCE_MESSAGE_INTERVAL=10000000"] + (["_LF_CLOCK_SYNC_PERIOD_NS=5000000", "_LF_CLOCK_SYNC_EXCHANGES_PER_INTERVAL=4", "_LF_CLOCK_SYNC_ATTENUATION=4"] if sync else []) + ["LF_TRACE=1"] * trace
    rdefs = ["STANDALONE_RTI=1", "FEDERATED=1", "RTI_TRACE", "main=rti_main"]
    rsrc = repo("core/federated/RTI/main.c", "core/federated/RTI/rti_common.c", "core/federated/RTI/rti_remote.c", "core/tracepoint.c",
                "core/utils/util.c", "core/tag.c", "core/clock.c", "core/federated/network/net_util.c", "core/utils/pqueue*.c",
                "trace/impl/src/*.c") + platform_sources()
    fsrc = runtime_sources(True, federated=True, trace=trace) + [hd + "/rx/rx.c"]
    hsrc = [hd + "/fed/fed.c", hd + "/rx/vt.c", hd + "/net/net.c"]
    h = hashlib.sha256(src_hash().encode())
    for f in sorted(glob.glob(hd + "/rx/*.[ch]") + glob.glob(hd + "/fed/*.[ch]") + glob.glob(hd + "/net/*.[ch]")):
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(repr((name, flags, fdefs, rdefs, rsrc, fsrc, REPO)).encode())
    d = os.path.join(BUILD, name + "-" + h.hexdigest()[:16])
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)

    def run(*cmd):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            shutil.rmtree(d, ignore_errors=True)
            raise BuildError("%s for %s failed:\n%s" % (cmd[0], name, r.stderr[-3000:]))

    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(BUILD, name + "-*")):
            if os.path.isdir(old) and len(os.path.basename(old)) == len(name) + 17:
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            jobs = []
            for kind, srcs, defs in (("f", fsrc, fdefs), ("r", rsrc, rdefs), ("h", hsrc, ["FED_TRACE"] * trace)):
                for i, f in enumerate(srcs):
                    obj = os.path.join(d, "%s%03d.o" % (kind, i))
                    jobs.append((kind, obj, ex.submit(_compile, "gcc", f, obj, flags + ["-D" + x for x in defs])))
            for kind, obj, j in jobs:
                src, rc, err = j.result()
                if rc:
                    shutil.rmtree(d, ignore_errors=True)
                    raise BuildError("compiling %s for %s failed:\n%s" % (src, name, err[-3000:]))
        objs = {k: [o for kk, o, _ in jobs if kk == k] for k in "frh"}
        for k, keep in (("f", "fed_entry"), ("r", "rti_main")):
            run("ld", "-r", "-o", d + "/" + k + ".o", *objs[k])
            run("objcopy", "--keep-global-symbol=" + keep, "--redefine-sym", "atexit=fed_atexit", *["--redefine-sym", "fopen=fed_fopen"] * trace, d + "/" + k + ".o")
        parts = []
        for k in range(7):
            parts.append(d + "/f%d.o" % k)
            syms = ["%s=fed_%s_%d" % (x, x, k) for x in ("exit", "socket", "accept")] + ["fed_entry=fed_entry_%d" % k]
            run("objcopy", *[y for x in syms for y in ("--redefine-sym", x)], d + ("/f.o" if k < 6 else "/r.o"), parts[-1])
        run("gcc", "-o", exe + ".tmp", *(objs["h"] + parts + san + WRAP_FLAGS + NET_FLAGS + ["-lpthread", "-lm"]))
        for f in glob.glob(d + "/*.o"):
            os.unlink(f)
        os.rename(exe + ".tmp", exe)
    return exe
