"""Build the code under test from a working tree, outside that tree.

    build(variant, repo) -> path to put first on PYTHONPATH (a copy of python/src with
    freshly compiled extension modules).

Variants
    prod : c++/src with the project's own optimisation flags (g++ -O3 -ffast-math); the
           SWIG glue unoptimised (clang++ -O0), because it is slow to compile and only
           forwards calls.
    asan : everything with clang++ -O1 -fsanitize=address,undefined and container checks.
    mpi  : as prod, with mpicxx and the MPI code paths switched on.

The result is keyed by a hash over every input file and flag, in the git-ignored
directory /verif/.build (recreated from scratch where it does not exist).
"""
import concurrent.futures
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tarfile
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KMC_VERIF_REPO", "/repo")
PYINC = "/usr/include/python3.12"


class BuildError(Exception):
    pass


def _files(repo):
    out = []
    for pat in ("c++/src/*.cpp", "c++/src/*.h", "c++/wrap/backend.i",
                "c++/wrap/CMakeLists.txt", "c++/custom/*.cpp",
                "c++/custom/*.h", "c++/externals/zip/md5.tar.gz"):
        out += glob.glob(os.path.join(repo, pat))
    for root, dirs, names in os.walk(os.path.join(repo, "python/src")):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        for n in names:
            if n.endswith(".py"):
                out.append(os.path.join(root, n))
    skip = {"c++/src/mpiflag.h", "python/src/KMCLib/Backend/Backend.py",
            "python/src/KMCLib/Backend/Custom.py"}
    return sorted(f for f in out if os.path.relpath(f, repo) not in skip)


def _custom():
    """A rate function of the checks, added to the directory for those of the user."""
    return sorted(glob.glob(os.path.join(VERIF, "lib", "custom", "*")))


def _hash(repo, files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in files:
        h.update(os.path.relpath(f, repo).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


ASAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=undefined,float-cast-overflow",
        "-shared-libasan", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]

FLAGS = {
    "prod": dict(src=["g++", "-O3", "-ffast-math", "-std=c++0x"],
                 wrap=["clang++", "-O0", "-ffast-math", "-std=c++11", "-fno-strict-aliasing"],
                 link=["g++", "-shared", "-Wl,-Bsymbolic"], mpi=False),
    "asan": dict(src=["clang++", "-O1", "-g1", "-std=c++11"] + ASAN,
                 wrap=["clang++", "-O0", "-std=c++11", "-fno-strict-aliasing", "-fsanitize=address",
                       "-shared-libasan", "-D_GLIBCXX_ASSERTIONS"],
                 link=["clang++", "-shared"] + ASAN, mpi=False),
    "mpi": dict(src=["mpicxx", "-O3", "-ffast-math", "-std=c++0x"],
                wrap=["mpicxx", "-O0", "-ffast-math", "-std=c++0x", "-fno-strict-aliasing"],
                link=["mpicxx", "-shared", "-Wl,-Bsymbolic"], mpi=True),
}
MPIDEF = ["-DMPICH_IGNORE_CXX_SEEK", "-DMPICH_SKIP_MPICXX"]


def custom_interface(cmake, heads):
    """What the file(WRITE|APPEND .../custom.i ...) commands of the CMake file write."""
    out, each = "", None
    with open(cmake) as fh:
        for line in fh:
            line = line.strip()
            if re.match(r"foreach\s*\(\s*FILE\s", line):
                each = ""
            elif re.match(r"endforeach", line) and each is not None:
                out += "".join(each.replace("${FILE}", h) for h in heads)
                each = None
            m = re.match(r"file\s*\(\s*(?:WRITE|APPEND)\s+\S*/wrap/custom\.i\s*(.*)\)$", line, re.I)
            if m:
                # Strings, single escaped characters and bare words, put together.
                text = re.sub(r'\\(.)|"((?:[^"\\]|\\.)*)"|(\s+)', _token, m.group(1))
                if each is None:
                    out += text
                else:
                    each += text
    if "%module" not in out:
        # Written in another way: what it is at the time of writing.
        out = "".join('%%include "%s"\n' % i for i in
                      ("std_vector.i", "std_map.i", "std_string.i", "std_pair.i", "ratecalculator.h"))
        out += "%module Custom\n%template() std::vector<int>;\n%{\n"
        out += "".join('#include "%s"\n' % h for h in heads) + "%}\n"
        out += "".join('%%include "%s"\n' % h for h in heads)
    return out


def _token(m):
    esc, quoted, space = m.groups()
    if space:
        return ""
    if quoted is not None:
        return re.sub(r"\\(.)", lambda e: "\n" if e.group(1) == "n" else e.group(1), quoted)
    return "\n" if esc == "n" else esc


def build(variant="prod", repo=None, log=None):
    repo = repo or REPO
    fl = FLAGS[variant]
    files = _files(repo)
    with open(__file__, "rb") as fh:
        me = fh.read()
    for f in _custom():
        with open(f, "rb") as fh:
            me += fh.read()
    key = variant + "-" + _hash(repo, files, (fl, hashlib.sha256(me).hexdigest(), repo))
    cache = os.path.join(VERIF, ".build")
    os.makedirs(cache, exist_ok=True)
    final = os.path.join(cache, key)
    if os.path.exists(os.path.join(final, "OK")):
        os.utime(final)
        return os.path.join(final, "py")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="tmp-", dir=cache)
    try:
        try:
            _build(variant, fl, repo, files, work, _custom())
        except BuildError:
            # Without the rate function of the checks, should that be what does not fit.
            for d in os.listdir(work):
                shutil.rmtree(os.path.join(work, d), ignore_errors=True)
            _build(variant, fl, repo, files, work, [])
        with open(os.path.join(work, "OK"), "w") as fh:
            fh.write("%.1f s\n" % (time.time() - t0))
        try:
            os.rename(work, final)
        except OSError:
            if not os.path.exists(os.path.join(final, "OK")):
                raise
            shutil.rmtree(work, ignore_errors=True)
    except BaseException:
        shutil.rmtree(work, ignore_errors=True)
        raise
    _prune(cache, keep=6)
    return os.path.join(final, "py")


def _prune(cache, keep):
    ds = [os.path.join(cache, d) for d in os.listdir(cache)
          if not d.startswith("tmp-") and os.path.isdir(os.path.join(cache, d))]
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        if time.time() - os.path.getmtime(d) > 3600:
            shutil.rmtree(d, ignore_errors=True)


def _build(variant, fl, repo, files, work, custom):
    for f in files:
        dst = os.path.join(work, "t", os.path.relpath(f, repo))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copyfile(f, dst)
    t = os.path.join(work, "t")
    src = os.path.join(t, "c++/src")
    cus = os.path.join(t, "c++/custom")
    with open(os.path.join(src, "mpiflag.h"), "w") as fh:
        fh.write("#define RUNMPI %s\n" % ("true" if fl["mpi"] else "false"))
    for f in custom:
        shutil.copyfile(f, os.path.join(cus, os.path.basename(f)))
    # The vendored MD5.
    ext = os.path.join(work, "ext/externals")
    os.makedirs(ext)
    with tarfile.open(os.path.join(t, "c++/externals/zip/md5.tar.gz")) as tf:
        for m in ("md5/md5.h", "md5/md5.c"):
            with open(os.path.join(ext, os.path.basename(m)), "wb") as fh:
                fh.write(tf.extractfile(m).read())
    # custom.i as c++/wrap/CMakeLists.txt generates it.
    with open(os.path.join(t, "c++/wrap/custom.i"), "w") as fh:
        fh.write(custom_interface(os.path.join(t, "c++/wrap/CMakeLists.txt"),
                                  sorted(glob.glob(os.path.join(cus, "*.h")))))
    obj = os.path.join(work, "o")
    os.makedirs(obj)
    inc = ["-I" + src, "-I" + cus, "-I" + os.path.join(work, "ext"), "-isystem", PYINC]
    if fl["mpi"]:
        inc = MPIDEF + inc

    def cc(tool, source, name):
        out = os.path.join(obj, name + ".o")
        _run(tool + ["-fPIC", "-w"] + inc + ["-c", source, "-o", out], work)
        return out

    def wrapped(mod, iface):
        # Same language flags as the SWIG CMake module: no include path, headers from c++/src.
        cpp = os.path.join(work, mod + "_wrap.cpp")
        _run(["swig", "-c++", "-python", "-w503,509,314,389,302,362,401,520", "-I" + src, "-outdir", work,
              "-o", cpp, iface], os.path.join(t, "c++/wrap"))
        return cc(fl["wrap"], cpp, mod + "_wrap")

    with concurrent.futures.ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 2)) as ex:
        w1 = ex.submit(wrapped, "Backend", os.path.join(t, "c++/wrap/backend.i"))
        w2 = ex.submit(wrapped, "Custom", os.path.join(t, "c++/wrap/custom.i"))
        ss = [ex.submit(cc, fl["src"], s, "s_" + os.path.basename(s)[:-4])
              for s in sorted(glob.glob(os.path.join(src, "*.cpp")))]
        ss.append(ex.submit(cc, fl["src"] if variant != "asan" else ["clang++", "-O1"],
                            os.path.join(ext, "md5.c"), "s_md5"))
        cs = [ex.submit(cc, fl["src"], s, "c_" + os.path.basename(s)[:-4])
              for s in sorted(glob.glob(os.path.join(cus, "*.cpp")))]
        srcs = [f.result() for f in ss]
        cuss = [f.result() for f in cs]
        py = os.path.join(work, "py")
        shutil.copytree(os.path.join(t, "python/src"), py)
        bk = os.path.join(py, "KMCLib/Backend")
        l1 = ex.submit(_run, fl["link"] + srcs + [w1.result(), "-o", os.path.join(bk, "_Backend.so")], work)
        l2 = ex.submit(_run, fl["link"] + srcs + cuss + [w2.result(), "-o", os.path.join(bk, "_Custom.so")], work)
        l1.result()
        l2.result()
    for mod in ("Backend", "Custom"):
        shutil.copyfile(os.path.join(work, mod + ".py"), os.path.join(bk, mod + ".py"))
    shutil.rmtree(obj)
    for mod in ("Backend", "Custom"):
        os.remove(os.path.join(work, mod + "_wrap.cpp"))


if __name__ == "__main__":
    t0 = time.time()
    for v in sys.argv[1:] or ["prod"]:
        print(v, build(v), "%.1fs" % (time.time() - t0))
