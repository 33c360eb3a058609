"""Builds /repo's sources and the harnesses of /verif, outside /repo.

Objects are cached in /verif/build under the hash of everything that goes into
them (compiler flags, the source file, and every header of the tree), so each
check compiles whatever the current working tree of /repo says.
"""
import hashlib, os, subprocess, sys, glob, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
OBJ = os.path.join(BUILD, "obj")
BIN = os.path.join(BUILD, "bin")
NCPU = os.cpu_count() or 8

ENV = dict(os.environ)
ENV.update({
    "LC_ALL": "C", "LANG": "C",
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "OMPI_CXX": "g++", "OMPI_FC": "gfortran",
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_pml": "ob1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_mpi_yield_when_idle": "1", "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
})
for k in ("MAKEFLAGS", "SPEX", "NERSC_HOST", "CXXFLAGS", "LDFLAGS", "F90FLAGS", "LIBRARIES"):
    ENV.pop(k, None)

DEFS = ["-DTEMPEST_MPIOMP", "-DTEMPEST_NETCDF", "-DTEMPEST_LAPACK_FORTRAN_INTERFACE"]
INCS = ["-I" + os.path.join(REPO, "src/base"), "-I" + os.path.join(REPO, "src/atm")]
# same language level as the project's makefiles; -O2 without fast-math
CXXFLAGS = ["-std=c++11", "-O2", "-g1", "-w", "-fPIC"]
F90FLAGS = ["-O2", "-fPIC", "-w"]
LIBS = ["-lnetcdf", "-llapack", "-lblas", "-lgfortran", "-lm"]

class BuildError(Exception):
    pass

def _sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()

def _read(p):
    with open(p, "rb") as f:
        return f.read()

_hdr_cache = {}
def header_hash(dirs):
    key = tuple(dirs)
    if key not in _hdr_cache:
        h = hashlib.sha1()
        for d in dirs:
            for f in sorted(glob.glob(os.path.join(d, "*.h")) + glob.glob(os.path.join(d, "*.hpp"))):
                h.update(f.encode()); h.update(_read(f))
        _hdr_cache[key] = h.hexdigest()
    return _hdr_cache[key]

def compile_one(src, flags=(), incs=()):
    flags = list(flags)
    dirs = [i[2:] for i in list(incs) + INCS] + [os.path.join(VERIF, "harness"), os.path.dirname(src)]
    if src.endswith(".f90"):
        cmd = ["mpif90"] + F90FLAGS + flags
        key = _sha(" ".join(cmd), _read(src), os.path.basename(src))
    else:
        cmd = ["mpiCC"] + CXXFLAGS + flags + DEFS + list(incs) + INCS + ["-I" + os.path.join(VERIF, "harness")]
        key = _sha(" ".join(cmd), _read(src), os.path.basename(src), header_hash(sorted(set(dirs))))
    out = os.path.join(OBJ, "%s-%s.o" % (os.path.basename(src).replace(".", "_"), key))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        moddir = out + ".mod"
        extra = []
        if src.endswith(".f90"):
            os.makedirs(moddir, exist_ok=True)
            extra = ["-J" + moddir]
        r = subprocess.run(cmd + extra + ["-c", src, "-o", tmp], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("compile of %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:]))
        os.rename(tmp, out)
    return out

def repo_sources(which):
    out = []
    if "base" in which:
        out += sorted(glob.glob(os.path.join(REPO, "src/base/*.cpp")))
    if "atm" in which:
        names = makefile_files(os.path.join(REPO, "src/atm/Makefile"))
        out += [os.path.join(REPO, "src/atm", n) for n in names]
    return out

def makefile_files(mk):
    """The FILES list of a project makefile."""
    txt = open(mk).read().replace("\\\n", " ")
    for line in txt.splitlines():
        if line.startswith("FILES="):
            return [w for w in line[6:].split() if os.path.exists(os.path.join(os.path.dirname(mk), w))]
    raise BuildError("no FILES in " + mk)

def build_exe(name, srcs, libs=("base", "atm"), flags=(), incs=(), ldflags=()):
    """Compile harness sources + repo libraries (or given repo files) into an executable."""
    os.makedirs(OBJ, exist_ok=True); os.makedirs(BIN, exist_ok=True)
    allsrc = list(srcs)
    base_files = None
    allsrc += [s for s in repo_sources(libs)]
    if "base" in libs:
        # the files the base makefile builds
        names = makefile_files(os.path.join(REPO, "src/base/Makefile"))
        allsrc = [s for s in allsrc if os.path.dirname(s) != os.path.join(REPO, "src/base") or os.path.basename(s) in names]
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda s: compile_one(s, flags, incs), allsrc))
    key = _sha(name, *objs, *ldflags)
    exe = os.path.join(BIN, "%s-%s" % (name, key[:16]))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["mpiCC", "-o", tmp] + list(flags) + objs + LIBS + list(ldflags), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("link of %s failed:\n%s" % (name, r.stdout.decode(errors="replace")[-4000:]))
        os.rename(tmp, exe)
    return exe

def prune(max_bytes=3 << 30):
    fs = []
    for d in (OBJ, BIN):
        for f in glob.glob(os.path.join(d, "*")):
            try:
                st = os.stat(f)
                if os.path.isfile(f): fs.append((st.st_mtime, st.st_size, f))
            except OSError:
                pass
    tot = sum(f[1] for f in fs)
    for m, s, f in sorted(fs):
        if tot <= max_bytes: break
        try: os.remove(f)
        except OSError: pass
        tot -= s
