"""Builds the engine, the runtime and, from /repo's current sources, the bitcode the harnesses are linked with."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "clang++-18"
IR = ["-std=c++17", "-O1", "-emit-llvm", "-c", "-gline-tables-only", "-fno-pic", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w"]
UB = ["-fsanitize=signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,shift-exponent,bounds,return,unreachable", "-fsanitize-trap=all",
      "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"]
# programs with threads: the optimiser must not read memory that the source does not read (no instrumentation is added)
TS = ["-fsanitize=thread"] + sum([["-mllvm", "-tsan-instrument-%s=0" % x] for x in ("memory-accesses", "func-entry-exit", "atomics", "memintrinsics")], [])
DROP_RT = ["base", "cxa", "io", "loc", "libc"]
KEEP_RT = ["posix", "sync"]


def inc():
    return ["-I" + VERIF + "/rt", "-I" + VERIF + "/stubs", "-I" + REPO + "/cpp_utils/include", "-I" + REPO + "/cpp_utils/src/cpp",
            "-I" + REPO + "/thirdparty/optionparser"]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def tree(d):
    out = []
    for root, dirs, files in os.walk(d):
        out += [os.path.join(root, f) for f in files]
    return out


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def cached(kind, key, make):
    """Directory BUILD/kind/key, made by make(tmpdir) if it is not there."""
    d = os.path.join(BUILD, kind, key)
    if os.path.exists(d):
        try:
            os.utime(d)
        except OSError:
            pass
        return d
    with Lock(kind):
        if os.path.exists(d):
            return d
        os.makedirs(os.path.dirname(d), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.dirname(d))
        try:
            make(tmp)
            os.rename(tmp, d)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        old = sorted((x for x in glob.glob(os.path.join(BUILD, kind, "*")) if os.path.isdir(x)), key=os.path.getmtime)
        for x in old[:-60]:
            shutil.rmtree(x, ignore_errors=True)
    return d


def engine():
    files = tree(VERIF + "/engine")
    return os.path.join(cached("engine", digest(files), lambda t: run([VERIF + "/engine/build.sh", t])), "vx")


def runtime():
    """rt.bc, the list of names that a native replay drops, the list of synchronisation functions, the native runtime."""
    files = tree(VERIF + "/rt")

    def make(t):
        def one(n):
            run([CLANG] + IR + ["-fno-builtin", "-fno-access-control", "-I" + VERIF + "/rt", "%s/rt/rt_%s.cpp" % (VERIF, n), "-o", "%s/rt_%s.bc" % (t, n)])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, DROP_RT + KEEP_RT))
        run([CLANG, "-std=c++17", "-O1", "-w", "-c", VERIF + "/rt/native.cpp", "-I" + VERIF + "/rt", "-o", t + "/native.o"])
        run(["llvm-link-18"] + ["%s/rt_%s.bc" % (t, n) for n in DROP_RT + KEEP_RT] + ["-o", t + "/rt.bc"])

        def names(ns):
            out = []
            for n in ns:
                for l in run(["llvm-nm-18", "--defined-only", "%s/rt_%s.bc" % (t, n)]).splitlines():
                    p = l.split()
                    if len(p) >= 2 and p[-2] in "TWDBRV":
                        out.append(p[-1])
            return sorted(set(out))
        keep = set(names(KEEP_RT))
        with open(t + "/drop.txt", "w") as f:
            f.write("\n".join(x for x in names(DROP_RT) if True) + "\n")
        sync = []
        for l in run(["llvm-nm-18", "--defined-only", t + "/rt_sync.bc"]).splitlines():
            p = l.split()
            if p[-2] in "TtWw":
                sync.append(p[-1])
        with open(t + "/sync.txt", "w") as f:
            f.write("\n".join(sync) + "\n")
    return cached("rt", digest(files, " ".join(IR)), make)


def repo_bc(conc=False):
    """All of the library's compiled sources, as bitcode."""
    files = tree(REPO + "/cpp_utils/include") + tree(REPO + "/cpp_utils/src") + tree(VERIF + "/stubs") + tree(REPO + "/thirdparty")
    fl = IR + UB + (TS if conc else [])
    key = digest(files, " ".join(fl))

    def make(t):
        src = sorted(x for x in tree(REPO + "/cpp_utils/src/cpp") if x.endswith(".cpp"))

        def one(i):
            run([CLANG] + fl + inc() + [src[i], "-o", "%s/%d.bc" % (t, i)])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, range(len(src))))
        run(["llvm-link-18"] + ["%s/%d.bc" % (t, i) for i in range(len(src))] + ["-o", t + "/repo.bc"])
        for i in range(len(src)):
            os.remove("%s/%d.bc" % (t, i))
    return os.path.join(cached("repo", key, make), "repo.bc"), key


GENERATOR = "dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py"
GENERATED = [  # file, name, values, namespaces
    ("g_three.hpp", "Three", "a;ab;b", "one;two"), ("g_many.hpp", "Many", ";".join("m%d" % i for i in range(34)), None), ("g_one.hpp", "One", "o1", "w;x;y;z"),
    ("g_comma.hpp", "Comma", " x , Y_1,z z,_u ", "c"), ("g_words.hpp", "output_file", "values;enum_name;year", "n_values")]


def generated():
    """Headers written by the repository's enumeration generator."""
    g = os.path.join(REPO, GENERATOR)

    def make(t):
        for f, name, values, ns in GENERATED:
            run([sys.executable, "-B", g, "--enum", name, "--values", values, "--output", os.path.join(t, f)] + (["--namespaces", ns] if ns else []), cwd=t)
            if not os.path.exists(os.path.join(t, f)):
                raise RuntimeError("the generator wrote no " + f)
    d = cached("gen", digest([g], repr(GENERATED)), make)
    return d


def program(harness, defs=(), conc=False):
    """harness + library + runtime, linked."""
    rb, rkey = repo_bc(conc)
    rt = runtime()
    hf = os.path.join(VERIF, "harness", harness)
    more = ["-I" + generated()] if harness == "generated.cpp" else []
    key = digest([hf] + [x for x in tree(VERIF + "/harness") if x.endswith(".h")], " ".join(more) + rkey + os.path.basename(rt) + " ".join(defs))

    def make(t):
        run([CLANG] + IR + UB + (TS if conc else []) + list(defs) + inc() + more + ["-I" + VERIF + "/harness", hf, "-o", t + "/h.bc"])
        run(["llvm-link-18", t + "/h.bc", rb, rt + "/rt.bc", "-o", t + "/all.bc"])
        os.remove(t + "/h.bc")
    return os.path.join(cached("prog", key, make), "all.bc")


if __name__ == "__main__":
    engine()
    runtime()
    repo_bc()
    repo_bc(True)
