"""Environment set-up shared by every check: dependencies, compiled extensions, import of /repo."""
import glob, hashlib, importlib.abc, importlib.machinery, importlib.util
import os, shutil, subprocess, sys, tempfile, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIBS = ("idwclib", "rbfclib", "rmtsclib")


class SetupError(Exception):
    pass


def add_hypothesis():
    """Hypothesis is pure Python from the offline wheelhouse, kept apart from /opt/venv."""
    dep = os.path.join(VERIF, ".deps")
    if not os.path.isdir(os.path.join(dep, "hypothesis")):
        try:
            install_deps(dep)
        except Exception:
            dep = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    sys.path.append(dep)
    os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", os.path.join(tempfile.gettempdir(), "verif-hyp-%d" % os.getpid()))
    import hypothesis  # noqa


def install_deps(dep):
    import zipfile
    tmp = dep + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    for pat in ("hypothesis-6*-cp312-cp312-*", "attrs-*", "sortedcontainers-*"):
        whl = sorted(glob.glob("/opt/veriftools/wheels/" + pat + ".whl"))
        if not whl:
            raise SetupError("wheel not found: " + pat)
        zipfile.ZipFile(whl[-1]).extractall(tmp)
    try:
        os.rename(tmp, dep)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)


def _source_digest(variant):
    h = hashlib.sha256(variant.encode())
    src = os.path.join(REPO, "smt", "src")
    files = [os.path.join(REPO, "setup.py")]
    for root, _, names in sorted(os.walk(src)):
        for n in sorted(names):
            if os.path.splitext(n)[0] in LIBS and n.endswith(".cpp"):
                continue  # generated by Cython
            files.append(os.path.join(root, n))
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def build_extensions(variant="plain"):
    """Compile the extensions from the current sources; returns the directory holding the .so files."""
    base = os.path.join(VERIF, ".build")
    try:
        os.makedirs(base, exist_ok=True)
        if not os.access(base, os.W_OK):
            raise OSError
    except OSError:
        base = os.path.join(tempfile.gettempdir(), "verif-build")
        os.makedirs(base, exist_ok=True)
    dest = os.path.join(base, variant + "-" + _source_digest(variant))
    done = os.path.join(dest, "done")
    if os.path.exists(done):
        return dest
    with open(os.path.join(base, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(done):
            return dest
        tmp = tempfile.mkdtemp(prefix="verif-ext-")
        try:
            os.makedirs(os.path.join(tmp, "smt", "surrogate_models"))
            shutil.copy(os.path.join(REPO, "setup.py"), tmp)
            shutil.copy(os.path.join(REPO, "smt", "__init__.py"), os.path.join(tmp, "smt"))
            shutil.copytree(os.path.join(REPO, "smt", "src"), os.path.join(tmp, "smt", "src"),
                            ignore=lambda d, ns: [n for n in ns if n in [l + ".cpp" for l in LIBS]])
            env = dict(os.environ, PYTHONPATH=tmp)
            if variant == "asan":
                fl = "-g -O1 -fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero -fno-sanitize=vptr -fno-sanitize-recover=undefined -fno-omit-frame-pointer"
                env.update(CFLAGS=fl, CXXFLAGS=fl, LDFLAGS="-fsanitize=address,undefined")
            p = subprocess.run([sys.executable, "setup.py", "build_ext", "--inplace", "-j", "3"],
                               cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            sos = glob.glob(os.path.join(tmp, "smt", "surrogate_models", "*.so"))
            if p.returncode or len(sos) != len(LIBS):
                raise SetupError("extension build failed:\n" + p.stdout.decode(errors="replace")[-3000:])
            shutil.rmtree(dest, ignore_errors=True)
            os.makedirs(dest)
            for s in sos:
                shutil.copy(s, dest)
            open(done, "w").close()
            # keep the cache small
            old = sorted((d for d in glob.glob(os.path.join(base, variant + "-*")) if d != dest), key=os.path.getmtime)
            for d in old[:-4]:
                shutil.rmtree(d, ignore_errors=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return dest


class _ExtFinder(importlib.abc.MetaPathFinder):
    def __init__(self, d):
        self.d = d

    def find_spec(self, name, path, target=None):
        pre = "smt.surrogate_models."
        if name.startswith(pre) and name[len(pre):] in LIBS:
            so = glob.glob(os.path.join(self.d, name[len(pre):] + ".*.so"))
            if so:
                loader = importlib.machinery.ExtensionFileLoader(name, so[0])
                return importlib.util.spec_from_file_location(name, so[0], loader=loader)
        return None


def activate(variant="plain"):
    add_hypothesis()
    d = build_extensions(variant)
    sys.meta_path.insert(0, _ExtFinder(d))
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import smt
    if os.path.realpath(smt.__file__) != os.path.realpath(os.path.join(REPO, "smt", "__init__.py")):
        raise SetupError("smt imported from " + smt.__file__)
    import smt.surrogate_models as sm
    for lib in LIBS:
        m = importlib.import_module("smt.surrogate_models." + lib)
        assert os.path.dirname(m.__file__) == d, m.__file__
    if not (hasattr(sm, "IDW") and hasattr(sm, "RBF") and hasattr(sm, "RMTB") and hasattr(sm, "RMTC")):
        raise SetupError("compiled models missing")
    warnings.simplefilter("ignore")
    return d
