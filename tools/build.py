"""Builds instrumented variants of lanl/bml straight from /repo's working tree (sources named by its own CMake lists)."""
import os, re, hashlib, subprocess, fcntl, shutil, glob, sys
REPO = os.environ.get("BML_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
HAR = os.path.join(VERIF, "harness")
TYPES = ["SINGLE_REAL", "DOUBLE_REAL", "SINGLE_COMPLEX", "DOUBLE_COMPLEX"]
SRC = os.path.join(REPO, "src")
CI = os.path.join(SRC, "C-interface")
DIRS = ["C-interface", "C-interface/dense", "C-interface/ellpack", "C-interface/csr", "C-interface/ellblock", "internal-blas"]

def mangled():
    d = []
    for f in "axpy gemm getrf getri lacpy scal".split():
        for p in "sdcz": d.append(f"-DC_{p.upper()}{f.upper()}={p}{f}_")
    for p in "sd": d += [f"-DC_{p.upper()}SYEV={p}syev_", f"-DC_{p.upper()}SYEVD={p}syevd_"]
    for p in "cz": d.append(f"-DC_{p.upper()}HEEVR={p}heevr_")
    return d
BASE = ["-DBML_COMPLEX", "-DBML_SYEVD", "-DBML_USE_POSIX_MEMALIGN", "-D_POSIX_C_SOURCE=200112L", "-DHAVE_BLAS", "-DHAVE_LAPACK",
        "-DMALLOC_ALIGNMENT=64", "-DGLOBAL_DEBUG=BML_LOG_WARNING", '-DBML_VERSION=\\"2.4.0\\"'] + mangled()
MPIDEF = ["-DBML_USE_MPI", "-DBML_USE_SCALAPACK", "-DNUMROC=numroc_", "-DPCHEEVD=pcheevd_", "-DPDSYEVD=pdsyevd_", "-DPSSYEVD=pssyevd_", "-DPZHEEVD=pzheevd_"]
INC = ["-I" + SRC, "-I" + HAR] + ["-I" + os.path.join(SRC, d) for d in DIRS] + ["-I" + os.path.join(CI, "distributed2d")]

def sources(mpi=False):
    out = []
    for d in DIRS + (["C-interface/distributed2d"] if mpi else []):
        p = os.path.join(SRC, d)
        txt = open(os.path.join(p, "CMakeLists.txt")).read()
        txt = re.sub(r"#.*", "", txt)
        names = sorted(set(re.findall(r"[A-Za-z0-9_]+\.c\b", txt)))
        for n in names:
            f = os.path.join(p, n)
            if not os.path.exists(f): continue
            typed = n.endswith("_typed.c") or d == "internal-blas"
            out.append((f, typed))
    return out

def tree_hash(extra=()):
    h = hashlib.sha256()
    fs = []
    for root, _, files in os.walk(SRC):
        for f in files:
            if f.endswith((".c", ".h", ".F90", ".f90", ".txt", ".in")): fs.append(os.path.join(root, f))
    for root, _, files in os.walk(HAR):
        for f in files: fs.append(os.path.join(root, f))
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, "rb").read())
    for e in extra: h.update(repr(e).encode())
    return h.hexdigest()[:20]

def _run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

class BuildError(Exception): pass

def build(name, cc, cflags, harness, ldflags, mpi=False, hflags=(), extra_defs=(), objs_only=False, skip=(), hcc=None, hstd="-std=gnu99", lflags=None, mpidef=None, more=None):
    """compile the library and the harness sources; returns the path of the executable"""
    key = tree_hash([name, cc, cflags, harness, ldflags, mpi, hflags, extra_defs, skip, hcc, lflags, mpidef, BASE])
    d = os.path.join(BUILD, f"{name}-{key}")
    exe = os.path.join(d, "drv")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "ok")): return exe
        for old in glob.glob(os.path.join(BUILD, name + "-*")):
            if os.path.isdir(old): shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d)
        defs = BASE + ((MPIDEF if mpidef is None else mpidef) if mpi else []) + list(extra_defs)
        objs, rules = [], []
        for f, typed in sources(mpi):
            b = os.path.basename(f)[:-2]
            if b in skip: continue
            for t in (TYPES if typed else [""]):
                o = f"{b}{t}.o"; objs.append(o)
                rules.append(f"{o}: {f}\n\t@{cc} -std=c99 -w {' '.join(cflags)} {' '.join(defs)} {'-D'+t if t else ''} {' '.join(INC)} -c $< -o $@\n")
        for s in harness:
            src = s if os.path.isabs(s) else os.path.join(HAR, s)
            o = "h_" + os.path.basename(s).replace(".c", ".o"); objs.append(o)
            rules.append(f"{o}: {src}\n\t@{hcc or cc} {hstd} -w -fno-strict-aliasing {' '.join(cflags)} {' '.join(hflags)} {' '.join(defs)} {' '.join(INC)} -c $< -o $@\n")
        if more:
            mo, mr = more(d); objs += mo; rules += mr
        rules.append(f"drv: {' '.join(objs)}\n\t@{hcc or cc} {' '.join(lflags if lflags is not None else cflags)} -o $@ {' '.join(objs)} {' '.join(ldflags)}\n")
        with open(os.path.join(d, "Makefile"), "w") as m:
            m.write("all: " + (" ".join(objs) if objs_only else "drv") + "\n" + "\n".join(rules))
        r = _run(["make", "-j8"], d)
        if r.returncode != 0: raise BuildError(r.stdout[-3000:])
        open(os.path.join(d, "ok"), "w").write("ok")
    return exe

WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign,--wrap=free"
def asan():
    return build("asan", "gcc", ["-g", "-O1", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
                 ["mon.c", "ops.c", "main.c"], [WRAP, "-lopenblas", "-lm"])
def alt():
    """the other build options: no OpenMP, memory pools for ellblock matrices"""
    return build("alt", "gcc", ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
                 ["mon.c", "ops.c", "main.c"], [WRAP, "-lopenblas", "-lm"], extra_defs=["-DBML_ELLBLOCK_USE_MEMPOOL"])
FI = os.path.join(SRC, "Fortran-interface")
FPREC = {"single_real": ("real(C_FLOAT)", "REAL", "C_FLOAT"), "double_real": ("real(C_DOUBLE)", "REAL", "C_DOUBLE"), "single_complex": ("complex(C_FLOAT_COMPLEX)", "COMPLEX", "C_FLOAT_COMPLEX"), "double_complex": ("complex(C_DOUBLE_COMPLEX)", "COMPLEX", "C_DOUBLE_COMPLEX")}
def _fortran(d):
    """the Fortran interface of the working tree and the Fortran half of the workload"""
    txt = re.sub(r"#.*", "", open(os.path.join(FI, "CMakeLists.txt")).read())
    names = sorted(set(re.findall(r"[A-Za-z0-9_]+\.F90\b", txt)))
    files = {}
    for n in names:
        f = os.path.join(FI, n)
        if not os.path.exists(f): continue
        s = open(f).read()
        if "_typed" in n and "MATRIX_TYPE" in s:
            for p, (t, e, k) in FPREC.items():
                r = s
                for a, b in (("MATRIX_TYPE", p), ("REAL_TYPE", t), ("REAL_KIND", k), ("REAL_NAME", "BML_ELEMENT_" + e), ("PRECISION_NAME", p)): r = r.replace(a, b)
                files[n.replace("typed", p)] = r
        else: files[n] = s
    H = os.path.join(HAR, "fort")
    for n in ("fwrap_tools.F90", "fwrap.F90"): files[n] = open(os.path.join(H, n)).read()
    s = open(os.path.join(H, "fwrap_typed.F90")).read()
    for p, (t, e, k) in FPREC.items(): files[f"fwrap_{p}.F90"] = s.replace("PNAME", p).replace("PTYPE", t)
    mods = {}; uses = {}
    for n, s in files.items():
        open(os.path.join(d, n), "w").write(s)
        for m in re.findall(r"^\s*module\s+(?!procedure)(\w+)\s*$", s, re.M | re.I): mods[m.lower()] = n
        uses[n] = {u.lower() for u in re.findall(r"^\s*use\s*(?:,\s*\w+\s*::)?\s*(\w+)", s, re.M | re.I)}
    objs, rules = [], []
    for n in files:
        o = n.replace(".F90", "_F.o"); objs.append(o)
        dep = sorted({mods[u].replace(".F90", "_F.o") for u in uses[n] if u in mods and mods[u] != n})
        rules.append(f"{o}: {n} {' '.join(dep)}\n\t@gfortran -cpp -w -g -O1 -fopenmp -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -ffree-line-length-none -DBML_COMPLEX -c {n} -o {o}\n")
    return objs, rules
def fort():
    """the workload goes through the Fortran interface"""
    return build("fort", "gcc", ["-g", "-O1", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
                 ["mon.c", "ops.c", "main.c", "fort/fshim.c"], [WRAP, "-lopenblas", "-lgfortran", "-lm"], hflags=["-DFORT"], more=_fortran)
def fextra():
    """the operations of extra.c through the Fortran interface"""
    return build("fextra", "gcc", ["-g", "-O1", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
                 ["mon.c", "ops.c", "main.c", "extra.c", "fort/fshim.c"], [WRAP, "-lopenblas", "-lgfortran", "-lm"], hflags=["-DFORT", "-DEXTRA"], more=_fortran)
def extra():
    """the ordinary configuration with the operations of extra.c"""
    return build("extra", "gcc", ["-g", "-O1", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
                 ["mon.c", "ops.c", "main.c", "extra.c"], [WRAP, "-lopenblas", "-lm"], hflags=["-DEXTRA"])
def igemm():
    """the configuration with the built-in general matrix multiply"""
    return build("igemm", "gcc", ["-g", "-O1", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
                 ["mon.c", "ops.c", "main.c", "extra.c"], [WRAP, "-lopenblas", "-lm"], hflags=["-DEXTRA"], extra_defs=["-DBML_INTERNAL_GEMM"])
def mpisim():
    return build("mpisim", "gcc", ["-g", "-O1", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
                 ["mon.c", "ops.c", "main.c", "mpops.c", "mpi_sim/mpisim.c", "mpi_sim/scalapack.c"], [WRAP, "-lopenblas", "-lm", "-lpthread"], mpi=True, mpidef=MPIDEF + ["-I" + os.path.join(HAR, "mpi_sim")], hflags=["-DMPISIM"])
def tsan():
    return build("tsan", "gcc", ["-g", "-O1", "-fopenmp", "-fsanitize=thread", "-fno-omit-frame-pointer"], ["mon.c", "ops.c", "main.c", "shim.c"], ["-lopenblas", "-lm", "-lpthread"],
                 hflags=["-DNOWRAP", "-DSHIM"], lflags=["-g", "-fsanitize=thread"])
def shim():
    return build("shim", "gcc", ["-g", "-O1", "-fopenmp", "-fsanitize=thread", "-fno-omit-frame-pointer"], ["mon.c", "ops.c", "main.c", "shim.c", "preempt.c"], ["-lopenblas", "-lm", "-lpthread"],
                 hflags=["-DNOWRAP", "-DSHIM", "-fno-sanitize=thread"], lflags=["-g"])
if __name__ == "__main__":
    print(globals()[sys.argv[1]]())
