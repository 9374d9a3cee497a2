"""Process set-up shared by every check: interpreter, environment, imports, lock seam.

The code under test is always imported from /repo's working tree.  Everything a run
depends on that is not decided by the seed is pinned here: hash seed, number of
threads of the numerical libraries, matplotlib back end, numba on or off.
"""
import os
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
REPO = os.environ.get("DST_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PINNED = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "MKL_CBWR": "COMPATIBLE",
    "COLUMNS": "100",
    "LINES": "40",
    "TERM": "dumb",
    "LC_ALL": "C.UTF-8",
}


def scratch_root():
    return os.environ["DST_SCRATCH"]


def child_env(jit=False, hashseed="0", extra=None):
    env = dict(os.environ)
    env.update(PINNED)
    env["PYTHONHASHSEED"] = str(hashseed)
    env["NUMBA_DISABLE_JIT"] = "0" if jit else "1"
    for k in ("NO_COLOR", "FORCE_COLOR", "TTY_COMPATIBLE"):
        env.pop(k, None)
    env["NUMBA_CACHE_DIR"] = os.path.join(scratch_root(), "numba")
    env["MPLCONFIGDIR"] = os.path.join(scratch_root(), "mpl")
    env["PYTHONPATH"] = SRC + os.pathsep + VERIF
    env.pop("PYTHONSTARTUP", None)
    if extra:
        env.update(extra)
    return env


def reexec_if_needed(jit=False, preload=False):
    """Re-executes the current script under the pinned interpreter and environment."""
    if os.environ.get("DST_BOOTED") == "1":
        return
    scratch = tempfile.mkdtemp(prefix="dst-")
    os.environ["DST_SCRATCH"] = scratch
    for d in ("numba", "mpl", "work"):
        os.makedirs(os.path.join(scratch, d))
    env = child_env(jit=jit, extra={"DST_BOOTED": "1", "DST_JIT": "1" if jit else "0"})
    if preload:
        so = os.path.join(scratch, "iofault.so")
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "dst", "iofault.c"), "-ldl"], check=True)
        env["DST_IOFAULT"] = env["LD_PRELOAD"] = so
    pid = os.fork()
    if pid == 0:
        os.execve(PY, [PY, "-u"] + sys.argv, env)
    import signal

    def forward(sig, _frame):
        try:
            os.kill(pid, sig)
        except ProcessLookupError:
            pass

    signal.signal(signal.SIGTERM, forward)
    signal.signal(signal.SIGINT, forward)
    while True:
        try:
            _, status = os.waitpid(pid, 0)
            break
        except InterruptedError:
            continue
    shutil.rmtree(scratch, ignore_errors=True)
    if os.WIFSIGNALED(status):
        sys.exit(2)
    sys.exit(os.WEXITSTATUS(status))


_imported = False


def import_all(block=()):
    """Imports third-party libraries, then the code under test behind the lock seam.

    ``block``: top-level modules that must appear not installed.
    """
    global _imported
    if _imported:
        return
    import importlib.abc
    import warnings

    if block:
        class Blocker(importlib.abc.MetaPathFinder):
            def find_spec(self, name, path=None, target=None):
                if name.split(".")[0] in block:
                    raise ModuleNotFoundError(f"No module named {name!r}", name=name)
                return None

        sys.meta_path.insert(0, Blocker())

    # third-party first, so that only the code under test sees the lock seam at import
    import numpy, scipy.sparse.linalg, scipy.optimize, shapely, shapely.strtree, shapely.ops  # noqa
    import matplotlib, matplotlib.pyplot, matplotlib.tri, matplotlib.colors  # noqa
    import rich.live, rich.progress, rich.console, rich.table, rich.panel  # noqa
    import cytriangle, more_itertools  # noqa

    for opt in ("numba", "pypardiso", "cad_to_shapely", "ezdxf", "rhino3dm", "rhino_shapely_interop.importers"):
        if opt.split(".")[0] in block:
            continue
        try:
            importlib.import_module(opt)
        except ImportError:
            pass
    from . import locks

    locks.install()
    import sectionproperties  # noqa
    import sectionproperties.analysis  # noqa
    import sectionproperties.analysis.fea  # noqa
    import sectionproperties.analysis.plastic_section  # noqa
    import sectionproperties.analysis.section  # noqa
    import sectionproperties.analysis.solver  # noqa
    import sectionproperties.post.fibre  # noqa
    import sectionproperties.post.post  # noqa
    import sectionproperties.post.stress_post  # noqa
    import sectionproperties.pre  # noqa
    import sectionproperties.pre.library  # noqa

    if "rhino_shapely_interop" not in block:
        import sectionproperties.pre.rhino  # noqa

    assert os.path.realpath(sectionproperties.__path__[0]).startswith(os.path.realpath(SRC)), sectionproperties.__path__
    import rich.live

    rich.live._RefreshThread = NoThread
    warm_libraries()
    warnings.simplefilter("always")
    _imported = True


class NoThread:
    """Stands in for the thread that refreshes a progress display (C12 simulates it)."""

    def __init__(self, live, refresh_per_second):
        pass

    def start(self):
        pass

    stop = start

    def join(self, timeout=None):
        pass

    def is_alive(self):
        return False


def warm_libraries():
    """Lets the third-party libraries fill their own caches (fonts, styles) before any run."""
    import io

    import matplotlib.pyplot as plt
    import numpy as np
    import rich.console
    import rich.panel
    import rich.table
    from mpl_toolkits.axes_grid1 import make_axes_locatable
    from scipy.sparse import csc_matrix
    from scipy.sparse.linalg import splu

    fig, ax = plt.subplots()
    ax.triplot(np.array([0.0, 1, 0, 1]), np.array([0.0, 0, 1, 1]), [[0, 1, 2], [1, 3, 2]], lw=0.5)
    ax.plot([0, 1], [0, 1], "ko-", label="a")
    ax.quiver([0.0], [0.0], [1.0], [1.0])
    ax.set_title(r"$\sigma_{zz}$")
    c = ax.tricontourf([0.0, 1, 0, 1], [0.0, 0, 1, 1], [[0, 1, 2], [1, 3, 2]], [1.0, 2, 3, 4], np.linspace(1, 4, 5))
    ax.legend(loc="center left")
    fig.colorbar(c, label="x", format="%.4e", cax=make_axes_locatable(ax).append_axes("right", size="5%", pad=0.1))
    fig.savefig(io.BytesIO(), dpi=20)
    plt.close(fig)
    t = rich.table.Table(title="t")
    t.add_column("a")
    t.add_row("1")
    rich.console.Console(file=io.StringIO()).print(rich.panel.Panel(t))
    splu(csc_matrix(np.eye(4))).solve(np.ones(4))

