"""Run a script of the framework under mpirun against the code under test."""
import os
import subprocess
import sys
import tempfile

from . import boot


def clean_env():
    env = {k: v for k, v in os.environ.items()
           if not (k.startswith(("PMIX_", "PRTE_", "ORTE_", "OPAL_", "IPATH_")) or
                   (k.startswith("OMPI_") and not k.startswith(("OMPI_MCA_plm", "OMPI_MCA_oob", "OMPI_MCA_btl", "OMPI_MCA_pml",
                                                                "OMPI_MCA_hwloc", "OMPI_MCA_rmaps", "OMPI_MCA_mpi_yield", "OMPI_ALLOW"))))}
    env["PYTHONPATH"] = boot.CODE + os.pathsep + os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    return env


def run(source, n, args=(), timeout=120, env=None, cwd=None):
    """Returns (returncode, stdout, stderr) of `source` on n processes."""
    with tempfile.NamedTemporaryFile("w", suffix=".py", delete=False) as f:
        f.write(source)
    e = clean_env()
    e.update(env or {})
    try:
        p = subprocess.run(["mpirun", "-n", str(n), "--oversubscribe", "--allow-run-as-root", sys.executable, "-B", "-W", "ignore", f.name,
                            *map(str, args)], capture_output=True, text=True, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as ex:
        return -1, str(ex.stdout or "")[-2000:], "time limit"
    finally:
        os.unlink(f.name)
