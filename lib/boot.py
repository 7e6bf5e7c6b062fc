"""Environment: deterministic settings, hypothesis, and gemlog imported from /repo with its
extension rebuilt, out of tree, from the current parsers.pyx.  Import me before anything else."""
import glob, hashlib, importlib.abc, importlib.machinery, importlib.util, os, shutil, subprocess, sys, tempfile, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GEMLOG_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"


class HarnessError(Exception):
    pass


def setup_hypothesis():
    d = os.path.join(CACHE, "hyp")
    names = ["hypothesis", "sortedcontainers", "_hypothesis_globals.py", "_hypothesis_ftz_detector.py"]
    if not all(os.path.exists(os.path.join(d, n)) for n in names):
        os.makedirs(d, exist_ok=True)
        if all(os.path.exists(os.path.join(PYVENV, n)) for n in names):
            for n in names:
                try:
                    os.symlink(os.path.join(PYVENV, n), os.path.join(d, n))
                except FileExistsError:
                    pass
        else:
            import zipfile
            for pat in ("hypothesis-*-cp312-*.whl", "sortedcontainers-*.whl"):
                for w in glob.glob(os.path.join(WHEELS, pat)):
                    zipfile.ZipFile(w).extractall(d)
    if d not in sys.path:
        sys.path.insert(0, d)


def _ext_sources():
    return sorted(glob.glob(REPO + "/gemlog/**/*.pyx", recursive=True) + glob.glob(REPO + "/gemlog/**/*.pxd", recursive=True)
                  + glob.glob(REPO + "/gemlog/**/*.pxi", recursive=True) + glob.glob(REPO + "/gemlog/**/*.h", recursive=True)
                  + [REPO + "/setup.py", REPO + "/gemlog/version.py"])


def build_extension():
    """Build gemlog's extension modules outside /repo; return {module name: .so path}."""
    h = hashlib.sha256()
    for f in _ext_sources():
        h.update(os.path.relpath(f, REPO).encode() + b"\0" + open(f, "rb").read() + b"\0")
    out = os.path.join(CACHE, "ext", h.hexdigest()[:24])
    if not os.path.isdir(out):
        tmp = tempfile.mkdtemp(prefix="gemext")
        try:
            for f in _ext_sources():
                dst = os.path.join(tmp, os.path.relpath(f, REPO))
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copy(f, dst)
            for n in ("README.md", "MANIFEST.in", "LICENSE"):
                if os.path.exists(os.path.join(REPO, n)):
                    shutil.copy(os.path.join(REPO, n), tmp)
            open(os.path.join(tmp, "gemlog", "__init__.py"), "a").close()
            env = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "LDFLAGS", "PYTHONPATH")}
            r = subprocess.run([sys.executable, "setup.py", "-q", "build_ext", "--inplace", "--force"], cwd=tmp,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            sos = glob.glob(tmp + "/gemlog/**/*.so", recursive=True)
            if r.returncode or not sos:
                raise HarnessError("extension does not build:\n" + r.stdout[-3000:])
            stage = out + ".%d" % os.getpid()
            os.makedirs(stage, exist_ok=True)
            for so in sos:
                dst = os.path.join(stage, os.path.relpath(so, tmp))
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copy(so, dst)
            try:
                os.rename(stage, out)
            except OSError:
                shutil.rmtree(stage, ignore_errors=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    mods = {}
    for so in glob.glob(out + "/gemlog/**/*.so", recursive=True):
        rel = os.path.relpath(so, out)
        mods[os.path.dirname(rel).replace("/", ".") + "." + os.path.basename(rel).split(".")[0]] = so
    return mods


class _ExtFinder(importlib.abc.MetaPathFinder):
    def __init__(self, mods):
        self.mods = mods

    def find_spec(self, name, path=None, target=None):
        so = self.mods.get(name)
        if so is None:
            return None
        return importlib.util.spec_from_loader(name, importlib.machinery.ExtensionFileLoader(name, so), origin=so)


def import_gemlog():
    mods = build_extension()
    sys.meta_path.insert(0, _ExtFinder(mods))
    sys.path.insert(0, REPO)
    import gemlog
    if not os.path.realpath(gemlog.__file__).startswith(os.path.realpath(REPO) + "/"):
        raise HarnessError("gemlog imported from " + gemlog.__file__)
    return gemlog


def boot():
    """Re-exec once with a fixed environment, then import everything."""
    want = {"PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "TZ": "UTC", "PYTHONDONTWRITEBYTECODE": "1",
            "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "LC_ALL": "C.UTF-8"}
    if any(os.environ.get(k) != v for k, v in want.items()) and not os.environ.get("GEMVERIF_BOOTED"):
        env = dict(os.environ, **want)
        env["GEMVERIF_BOOTED"] = "1"
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    sys.dont_write_bytecode = True
    setup_hypothesis()
    warnings.simplefilter("ignore")
    return import_gemlog()
