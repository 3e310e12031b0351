"""Builds the repository's sources (from its current working tree) plus a
driver under an instrumentation flavour.  Objects are cached by content hash, so
a changed source is always rebuilt and an unchanged one never is."""
import hashlib, os, re, subprocess, sys, glob, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OBJ = os.path.join(BUILD, "objs")

COMMON_DEFS = ["-DBUILD_POSIX", "-DBUILD_LINUX", "-DBUILD_PNG", "-DBUILD_JPG",
               '-DGIT_SHA1="verif"', '-DBUILD_DATE="01/01/2000"']
INC = ["include", "include/cn24", "include/cn24/util", "include/cn24/net",
       "include/cn24/math", "include/cn24/factory", "include/private"]
PNGJPG = ["-lpng", "-ljpeg"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
FLAVOURS = {
    # address + undefined behaviour sanitizers, reference math
    "asan": dict(cc="g++", flags=["-O1", "-g1", "-fno-omit-frame-pointer"] + SAN, libs=PNGJPG),
    # the same with injectable input errors
    "asan-io": dict(cc="g++", flags=["-O1", "-g1", "-fno-omit-frame-pointer"] + SAN, libs=PNGJPG, extra=["io_shim.cpp"], linkflags=["-ldl"]),
    # the same, ATLAS BLAS math back end
    "asan-atlas": dict(cc="g++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-DBUILD_BLAS", "-DBLAS_ATLAS"] + SAN,
                       libs=PNGJPG + ["-lcblas", "-latlas", "-lpthread"]),
    # OpenCL back end, executed by a stand-in for the OpenCL implementation
    "asan-cl": dict(cc="g++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-DBUILD_OPENCL"] + SAN, libs=PNGJPG, extra=["cl_shim.cpp"], cl=True),
    # uninstrumented reference (as shipped), for valgrind
    "plain": dict(cc="g++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fno-inline-functions"], libs=PNGJPG),
    # OpenMP build, ThreadSanitizer, with our instrumented OpenMP runtime
    "tsan-omp": dict(cc="g++", flags=["-O1", "-g1", "-fopenmp", "-fsanitize=thread"], libs=PNGJPG,
                     extra=["omp_shim.cpp"], linkflags=["-fsanitize=thread", "-lpthread"], nolink_openmp=True),
    # OpenMP build with the shim, no sanitizer: thread-count independence
    "omp": dict(cc="g++", flags=["-O2", "-g1", "-fopenmp"], libs=PNGJPG,
                extra=["omp_shim.cpp"], linkflags=["-lpthread"], nolink_openmp=True),
}


class BuildError(Exception):
    pass


def repo_sources():
    return sorted(glob.glob(os.path.join(REPO, "src/**/*.cpp"), recursive=True))


def _digest_headers():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(REPO, "include/**/*"), recursive=True) +
                    glob.glob(os.path.join(VERIF, "harness/*.h"))):
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    for f in sorted(glob.glob(os.path.join(REPO, "src/**/*.h"), recursive=True)):
        h.update(open(f, "rb").read())
    return h.hexdigest()


def _repo_headers_digest():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(REPO, "include/**/*"), recursive=True) +
                    glob.glob(os.path.join(REPO, "src/**/*.h"), recursive=True)):
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


def _compile(cc, flags, src, hdig, extra_inc=()):
    key = hashlib.sha256()
    key.update(repr((cc, flags, src, list(extra_inc))).encode())
    key.update(hdig.encode())
    key.update(open(src, "rb").read())
    out = os.path.join(OBJ, key.hexdigest()[:40] + ".o")
    if os.path.exists(out):
        try:
            os.utime(out)
        except OSError:
            pass
        return out, None
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = [cc] + flags + ["-w", "-c", src, "-o", tmp] + ["-I" + os.path.join(REPO, i) for i in INC] + \
          ["-I" + e for e in extra_inc]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, " ".join(cmd) + "\n" + p.stdout[-6000:]
    os.replace(tmp, out)
    return out, None


def _prune(limit=2500 << 20):
    try:
        fs = [(os.path.getatime(f), os.path.getmtime(f), os.path.getsize(f), f)
              for f in glob.glob(os.path.join(OBJ, "*.o")) + glob.glob(os.path.join(BUILD, "bin", "*"))]
    except OSError:
        return
    tot = sum(x[2] for x in fs)
    fs.sort(key=lambda x: x[1])
    for x in fs:
        if tot < limit:
            break
        try:
            os.unlink(x[3]); tot -= x[2]
        except OSError:
            pass


CLFLAGS = ["-x", "cl", "-Xclang", "-finclude-default-header", "-fgnu89-inline", "-w", "-g1", "-ffp-contract=off"]
CLSAN = ["-O1", "-fsanitize=address,signed-integer-overflow,integer-divide-by-zero,shift", "-fno-omit-frame-pointer",
         "-fsanitize-trap=signed-integer-overflow,integer-divide-by-zero,shift"]


def _cl_kernels(src):
    """names and argument types of the kernels of a source file, from the compiler"""
    p = subprocess.run(["clang"] + CLFLAGS + ["-O0", "-S", "-emit-llvm", "-o", "-", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        return None, (p.stderr or "compiler failed")[-1500:]
    ks = []
    for m in re.finditer(r"^define [^@\n]*spir_kernel void @(\w+)\(([^\n]*?)\)[^()\n]*(?:local_unnamed_addr|#|!|\{)", p.stdout, re.M):
        a = m.group(2).strip()
        ty = [x.strip().split()[0] for x in a.split(",")] if a else []
        code = {"ptr": "p", "i32": "i", "float": "f", "i64": "l", "double": "d"}
        if any(t not in code for t in ty):
            return None, "unsupported kernel argument type in " + m.group(0)
        ks.append((m.group(1), "".join(code[t] for t in ty)))
    return ks, None


def build_kernels():
    """compiles the repository's OpenCL kernels for the CPU; returns (objects, kernel directory)"""
    srcs = sorted(glob.glob(os.path.join(REPO, "kernels", "*.cl")))
    bi = os.path.join(VERIF, "harness", "cl_builtins.cl")
    h = hashlib.sha256(repr((CLFLAGS, CLSAN)).encode())
    for f in srcs + [bi, os.path.join(VERIF, "harness", "cl_table.h"), os.path.abspath(__file__)]:
        h.update(os.path.basename(f).encode()); h.update(open(f, "rb").read())
    top = os.path.join(BUILD, "cl-" + h.hexdigest()[:24])
    if not os.path.exists(os.path.join(top, "done")):
        tmp = top + ".%d.tmp" % os.getpid()
        os.makedirs(os.path.join(tmp, "kernels"), exist_ok=True)
        q = lambda t: '"' + "".join("\\%03o" % b for b in (t if isinstance(t, bytes) else t.encode(errors="replace"))) + '"'
        def one(f):
            n = os.path.basename(f)[:-3]
            shutil.copy(f, os.path.join(tmp, "kernels", n + ".cl"))
            ks, err = _cl_kernels(f)
            o = os.path.join(tmp, n + ".o")
            if not err:
                p = subprocess.run(["clang"] + CLFLAGS + CLSAN + ["-c", "-o", o, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    err = p.stdout[-1500:]
                else:
                    cmd = ["objcopy"]
                    for k, _ in ks:
                        cmd += ["--keep-global-symbol=" + k]
                    subprocess.run(cmd + ["--keep-global-symbol=none_", o], check=True)
                    for k, _ in ks:
                        subprocess.run(["objcopy", "--redefine-sym", "%s=clk_%s_%s" % (k, re.sub(r"\W", "_", n), k), o], check=True)
            return n, f, ks or [], err
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, srcs))
        t = ['#include "cl_table.h"']
        rows = []
        for n, f, ks, err in res:
            i = re.sub(r"\W", "_", n)
            tab = []
            for k, a in ks:
                ct = {"p": "void*", "i": "unsigned", "f": "float", "l": "unsigned long", "d": "double"}
                t.append('extern "C" void clk_%s_%s(%s);' % (i, k, ", ".join(ct[c] for c in a)))
                t.append("static void c_%s_%s(void** a) { clk_%s_%s(%s); }" % (i, k, i, k, ", ".join("*(%s*)a[%d]" % (ct[c], j) for j, c in enumerate(a))))
                tab.append('{"%s", "%s", c_%s_%s}' % (k, a, i, k))
            t.append("static const ClKernel k_%s[] = {%s};" % (i, ", ".join(tab + ["{0, 0, 0}"])))
            rows.append('{"%s", %s, %s, k_%s}' % (n + ".cl", q(open(f, "rb").read()), q(err) if err else "0", i))
        t.append("const ClProgram cl_programs[] = {%s};" % ",\n".join(rows + ["{0, 0, 0, 0}"]))
        open(os.path.join(tmp, "table.cpp"), "w").write("\n".join(t) + "\n")
        for cmd in (["g++", "-w", "-O1", "-c", "-I" + os.path.join(VERIF, "harness"), "-o", os.path.join(tmp, "table.o"), os.path.join(tmp, "table.cpp")],
                    ["clang"] + CLFLAGS + ["-O1", "-fsanitize=address", "-fno-builtin", "-c", "-o", os.path.join(tmp, "builtins.o"), bi]):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
        open(os.path.join(tmp, "done"), "w").close()
        try:
            os.rename(tmp, top)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    os.utime(top)
    old = sorted((d for d in glob.glob(os.path.join(BUILD, "cl-*")) if d != top), key=os.path.getmtime)
    for d in old[:-6]:
        shutil.rmtree(d, ignore_errors=True)
    return sorted(glob.glob(os.path.join(top, "*.o"))), top


def build(flavour, driver, jobs=8, repo_main=None):
    """driver: name of harness/<driver>.cpp, or None with repo_main = path of a
    repository tool source to link as the program."""
    os.makedirs(OBJ, exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    _prune()
    fl = FLAVOURS[flavour]
    rh = _repo_headers_digest()
    ah = _digest_headers()
    base = fl["flags"] + COMMON_DEFS
    work = [(fl["cc"], ["-std=c++11"] + base, s, rh, ()) for s in repo_sources()]
    if driver:
        work.append((fl["cc"], ["-std=c++17"] + base, os.path.join(VERIF, "harness", driver + ".cpp"), ah,
                     (os.path.join(VERIF, "harness"),)))
    else:
        work.append((fl["cc"], ["-std=c++11"] + base, repo_main, rh, ()))
    for e in fl.get("extra", []):
        work.append((fl["cc"], ["-std=c++17"] + [f for f in base if f != "-fopenmp"],
                     os.path.join(VERIF, "harness", e), ah, (os.path.join(VERIF, "harness"),)))
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda a: _compile(*a), work))
    errs = [e for _, e in res if e]
    if errs:
        raise BuildError(errs[0])
    objs = [o for o, _ in res]
    bindir = os.path.join(BUILD, "bin")
    if fl.get("cl"):
        kobjs, bindir = build_kernels()
        objs += kobjs
    linkkey = hashlib.sha256(repr((flavour, fl, objs)).encode()).hexdigest()[:24]
    name = driver or os.path.basename(repo_main)[:-4]
    exe = os.path.join(bindir, "%s-%s-%s" % (name, flavour, linkkey))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        lflags = [f for f in fl["flags"] if not (fl.get("nolink_openmp") and f == "-fopenmp")]
        cmd = [fl["cc"]] + lflags + fl.get("linkflags", []) + ["-o", tmp] + objs + fl["libs"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildError(" ".join(cmd)[:500] + "\n" + p.stdout[-6000:])
        os.replace(tmp, exe)
    return exe
