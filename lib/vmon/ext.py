"""Make sure the compiled extensions that get imported were built from the
current sources of the repository.

/opt/vp/build.sh leaves a stamp (digests of the sources and products).  If it
matches, /repo's own extension modules are used.  If not, they are rebuilt in a
private mirror inside this run's scratch directory and imported from there,
while every python module still comes from /repo.
"""
from __future__ import print_function
import glob
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
STAMP = "/opt/viscid-build/stamp"
OPTMIRROR = "/opt/viscid-build/src"
EXTS = ["cython/cyamr", "cython/cycalc", "cython/cyfield", "cython/integrate",
        "cython/null_tools", "cython/streamline", "readers/_jrrle"]
_DIGEST = r"""
cd "$1" && find setup.py setup.cfg viscid \( -name '*.pyx' -o -name '*.pxd' -o -name '*.pxi' -o -name '*.[fF]90' \
        -o -name '*.h' -o -name '*.pyf' -o -name '*.so' -o -name setup.py -o -name setup.cfg \
        -o -path viscid/cython/__init__.py \) -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum
"""


class BuildError(Exception):
    pass


def fresh():
    if not os.path.exists(STAMP):
        return False
    for e in EXTS:
        if not glob.glob(os.path.join(REPO, "viscid", e + ".*.so")):
            return False
    out = subprocess.run(["bash", "-c", _DIGEST, "x", REPO],
                         stdout=subprocess.PIPE).stdout.decode()
    with open(STAMP) as f:
        return f.read() == out


def rsync_mirror(mirror):
    os.makedirs(mirror, exist_ok=True)
    if os.path.isdir(OPTMIRROR) and not os.path.exists("/opt/viscid-build/force"):
        subprocess.check_call(["cp", "-a", OPTMIRROR + "/.", mirror])
    same = True
    for f in ("setup.py", "setup.cfg"):
        try:
            with open(os.path.join(REPO, f), 'rb') as a, \
                    open(os.path.join(mirror, f), 'rb') as b:
                same = same and a.read() == b.read()
        except IOError:
            same = False
    if not same:
        shutil.rmtree(mirror)
        os.makedirs(mirror)
    subprocess.check_call([
        "rsync", "-rl", "--checksum", "--delete", "--exclude=/.git",
        "--exclude=/build", "--exclude=*.so", "--exclude=*.o",
        "--exclude=/viscid/cython/*.c", "--exclude=/viscid/sample",
        "--exclude=/tests", "--exclude=/doc", "--exclude=__pycache__",
        REPO + "/", mirror + "/"])
    for c in glob.glob(os.path.join(mirror, "viscid/cython/*.c")):
        if not os.path.exists(c[:-2] + ".pyx"):
            os.unlink(c)


def build_mirror(mirror, log):
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    env.update(HOME="/root", NPY_NUM_BUILD_JOBS="8", PIP_NO_INDEX="1")
    with open(log, "w") as lf:
        rc = subprocess.call([sys.executable, "setup.py", "build_ext", "-i",
                              "--with-cython"], cwd=mirror, env=env,
                             stdout=lf, stderr=subprocess.STDOUT)
    with open(log, errors='replace') as lf:
        txt = lf.read()
    if rc or "Extension compilation failed" in txt or \
            "No fortran compiler found" in txt:
        sys.stderr.write(txt[-3000:])
        raise BuildError("the extensions do not build")


class _ExtFinder(object):
    """import viscid's extension modules out of another tree"""
    def __init__(self, root):
        self.root = root

    def find_spec(self, fullname, path=None, target=None):
        if not fullname.startswith("viscid."):
            return None
        rel = fullname.replace(".", "/")
        if rel[len("viscid/"):] not in EXTS:
            return None
        for so in glob.glob(os.path.join(self.root, rel + ".*.so")):
            loader = importlib.machinery.ExtensionFileLoader(fullname, so)
            return importlib.util.spec_from_file_location(fullname, so,
                                                          loader=loader)
        return None


def install(root):
    sys.meta_path.insert(0, _ExtFinder(root))


def ensure():
    """returns a short description of where the extensions come from"""
    pre = os.environ.get("VMON_EXT_ROOT")
    if pre:
        install(pre)
        return "prebuilt:" + pre
    if fresh():
        return "repo"
    mirror = os.path.join(os.environ["VMON_SCRATCH"], "mirror")
    rsync_mirror(mirror)
    build_mirror(mirror, os.path.join(os.environ["VMON_SCRATCH"], "build.log"))
    install(mirror)
    os.environ["VMON_EXT_ROOT"] = mirror
    return "rebuilt"


# -- instrumented build ----------------------------------------------------
SAN = ["-fsanitize=address,undefined,float-cast-overflow",
       "-fno-sanitize=alignment", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer"]


def build_sanitized(root):
    """compile every extension with bounds checks, ASan and UBSan into root"""
    import re
    import sysconfig
    import numpy as np
    from concurrent.futures import ThreadPoolExecutor
    src = os.path.join(root, "src", "viscid")
    os.makedirs(os.path.dirname(src))
    subprocess.check_call([
        "rsync", "-rl", "--exclude=*.so", "--exclude=*.o", "--exclude=sample",
        "--exclude=__pycache__", "--exclude=/cython/*.c",
        os.path.join(REPO, "viscid") + "/", src + "/"])
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    npinc = np.get_include()
    f2pysrc = os.path.join(os.path.dirname(np.__file__), "f2py", "src")
    inc = ["-I" + sysconfig.get_paths()["include"], "-I" + npinc, "-I" + f2pysrc]
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    ncheck = [0]
    for p in glob.glob(os.path.join(src, "cython", "*.p[yx][xdi]")):
        with open(p) as f:
            txt = f.read()
        new = re.sub(r"boundscheck\s*=\s*False", "boundscheck=True", txt)
        new = re.sub(r"boundscheck\(\s*False\s*\)", "boundscheck(True)", new)
        ncheck[0] += new != txt
        with open(p, "w") as f:
            f.write(new)

    def run(cmd, cwd):
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode()[-3000:]))

    def one(e):
        out = os.path.join(src, e + suffix)
        if e.startswith("cython/"):
            if not os.path.exists(os.path.join(src, e + ".pyx")):
                return
            run([sys.executable, "-m", "cython", "-2", "viscid/" + e + ".pyx"],
                os.path.dirname(src))
            run(["gcc", "-O0", "-g1", "-w", "-shared", "-fPIC", "-fwrapv",
                 "-fno-strict-aliasing"] + SAN + inc +
                [os.path.join(src, e + ".c"), "-o", out], src)
            return
        d = os.path.join(src, "readers")
        f90 = ["_fortfile.F90", "_jrrle.f90"]
        run([sys.executable, "-m", "numpy.f2py", "-m", "_jrrle"] + f90 +
            ["--lower"], d)
        objs = []
        for f in f90:
            objs.append(f.split(".")[0] + ".fo")
            run(["gfortran", "-O0", "-g1", "-w", "-fPIC", "-c", f, "-o", objs[-1],
                 "-fcheck=all", "-DFSEEKABLE=1", "-DHAVE_STREAM=1"] +
                SAN, d)
        extra = [f for f in ("_jrrle-f2pywrappers.f", "_jrrle-f2pywrappers2.f90")
                 if os.path.exists(os.path.join(d, f))]
        run(["gcc", "-O0", "-g1", "-w", "-fPIC", "-c", "_jrrlemodule.c",
             "-o", "mod.fo"] + inc + SAN, d)
        run(["gcc", "-O0", "-g1", "-w", "-fPIC", "-c",
             os.path.join(f2pysrc, "fortranobject.c"), "-o", "fo.fo"] + inc, d)
        run(["gfortran", "-w", "-shared", "-fPIC"] + extra + objs +
            ["mod.fo", "fo.fo", "-o", out] + SAN, d)

    with ThreadPoolExecutor(8) as pool:
        for _ in pool.map(one, sorted(EXTS, key=lambda e: "streamline" not in e)):
            pass
    return os.path.join(root, "src")


def sanitized_env(root, logdir):
    env = dict(os.environ)
    libs = []
    for lib in ("libasan.so", "libubsan.so"):
        p = subprocess.check_output(["gcc", "-print-file-name=" + lib]).decode().strip()
        libs.append(os.path.realpath(p))
    env["LD_PRELOAD"] = " ".join(libs)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:halt_on_error=1:"
                           "allocator_may_return_null=1:log_path=%s/asan" % logdir)
    env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=1:log_path=%s/ubsan" % logdir
    env["PYTHONMALLOC"] = "malloc"
    env["VMON_EXT_ROOT"] = root
    return env
