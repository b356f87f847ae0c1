"""Locate the code under test: /repo, with its Cython extensions matching its .pyx sources.

If some .pyx (or .pxd, setup.py) differs from what the compiled extension in /repo was built
from, the extensions are rebuilt from /repo's current text in a scratch directory outside
/repo and /verif (a copy of the package's files, re-made on every such run, removed at exit)."""

import atexit
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = "/repo"
CODE = REPO      # directory that holds the `dedalus` package being run
ROOT_PY = None


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def stale():
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    shared = ["setup.py"] + sorted(glob.glob("dedalus/**/*.pxd", root_dir=REPO, recursive=True))
    base = hashlib.sha256(b"".join(_read(os.path.join(REPO, p)) for p in shared if os.path.exists(os.path.join(REPO, p))))
    out = []
    for path in sorted(glob.glob("dedalus/**/*.pyx", root_dir=REPO, recursive=True)):
        h = base.copy()
        h.update(_read(os.path.join(REPO, path)))
        stem = path[:-4]
        so = os.path.join(REPO, stem + suffix)
        stamp = os.path.join(REPO, "build/vp-stamps", stem.replace("/", "."))
        if not (os.path.exists(so) and os.path.exists(stamp) and _read(stamp).decode() == h.hexdigest()):
            out.append(path)
    return out


def prepare():
    global CODE
    given = os.environ.get("VF_CODE")
    if given:
        CODE = given
        sys.path.insert(0, CODE)
        return CODE
    st = stale()
    if st:
        tmp = tempfile.mkdtemp(prefix="vf-build-")
        owner = os.getpid()

        def clean():
            if os.getpid() == owner:
                shutil.rmtree(tmp, ignore_errors=True)
        atexit.register(clean)
        global _CLEAN
        _CLEAN = clean
        suffix = sysconfig.get_config_var("EXT_SUFFIX")
        drop = {os.path.basename(p)[:-4] for p in st}

        def ignore(d, names):
            return [n for n in names if n == "__pycache__" or n.endswith(".ipynb")
                    or (n.endswith(".c") and n[:-2] in drop)
                    or (n.endswith(suffix) and n[:-len(suffix)] in drop)]
        shutil.copytree(os.path.join(REPO, "dedalus"), os.path.join(tmp, "dedalus"), ignore=ignore)
        for f in ("setup.py", "README.md", "pyproject.toml"):
            if os.path.exists(os.path.join(REPO, f)):
                shutil.copy(os.path.join(REPO, f), tmp)
        p = subprocess.run([sys.executable, "setup.py", "-q", "build_ext", "--inplace", "-j", "4"],
                           cwd=tmp, capture_output=True, text=True)
        if p.returncode != 0:
            print("could not build the extensions of /repo:\n" + p.stdout[-2000:] + p.stderr[-3000:])
            clean()
            os._exit(2)
        CODE = tmp
    sys.path.insert(0, CODE)
    os.environ["VF_CODE_DIR"] = CODE
    # child processes (mpirun) find the same code
    os.environ["PYTHONPATH"] = CODE + (":" + os.environ["PYTHONPATH"] if os.environ.get("PYTHONPATH") else "")
    return CODE


def cleanup():
    c = globals().get("_CLEAN")
    if c:
        c()
