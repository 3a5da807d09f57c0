"""Process environment: where the code under test comes from, the simulated clock, TZ."""

import ctypes
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get('SIM_REPO_SRC', '/repo/src')
PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
SHIM = os.path.join(VERIF, 'build', 'libsimclock.so')


def build_shim():
    """Compile the clock shim (idempotent, atomic). Returns True if it is available."""
    src = os.path.join(VERIF, 'native', 'simclock.c')
    try:
        if os.path.exists(SHIM) and os.path.getmtime(SHIM) >= os.path.getmtime(src):
            return True
        os.makedirs(os.path.dirname(SHIM), exist_ok=True)
        tmp = f'{SHIM}.{os.getpid()}'
        subprocess.run(['gcc', '-O2', '-fPIC', '-shared', '-o', tmp, src, '-ldl'], check=True, capture_output=True)
        os.replace(tmp, SHIM)
        return True
    except Exception:  # no compiler: the clock-dependent part of the workload is skipped (and reported)
        return False


def child_env(hashseed='0', extra=None):
    env = {
        'PATH': os.environ.get('PATH', '/usr/bin:/bin'),
        'HOME': os.environ.get('HOME', '/root'),
        'LANG': 'C.UTF-8',
        'LC_ALL': 'C.UTF-8',
        'TZ': 'UTC',
        'PYTHONHASHSEED': hashseed,
        'PYTHONDONTWRITEBYTECODE': '1',
        # A prefix that is never written: stale bytecode of /repo can never be picked up
        'PYTHONPYCACHEPREFIX': '/nonexistent-pycache',
        'PYTHONPATH': REPO_SRC + os.pathsep + VERIF,
        'SIM_CHILD': '1',
        'SIM_REPO_SRC': REPO_SRC,
    }
    for key in ('VERIF_SEED', 'VERIF_TIER', 'SIM_WORKERS', 'SIM_RUNS'):
        if key in os.environ:
            env[key] = os.environ[key]
    if build_shim():
        env['LD_PRELOAD'] = SHIM
    if extra:
        env.update(extra)
    return env


class Clock:
    """The simulated process wall clock (None if the shim is not loaded)."""

    def __init__(self):
        self.lib = None
        try:
            lib = ctypes.CDLL(None)
            lib.simclock_set.argtypes = [ctypes.c_int64, ctypes.c_int64]
            lib.simclock_reads.restype = ctypes.c_int64
            lib.simclock_now.restype = ctypes.c_int64
            self.lib = lib
        except (AttributeError, OSError):
            pass

    @property
    def available(self):
        return self.lib is not None

    def set(self, epoch_us, tick_us=0):
        if self.lib is not None:
            self.lib.simclock_set(int(epoch_us) * 1000, int(tick_us) * 1000)

    def off(self):
        if self.lib is not None:
            self.lib.simclock_off()

    def reads(self):
        return self.lib.simclock_reads() if self.lib is not None else 0


CLOCK = Clock()
_TZ = ['UTC']


def set_tz(name):
    if _TZ[0] != name or os.environ.get('TZ') != name:
        os.environ['TZ'] = name
        time.tzset()
        _TZ[0] = name


def warm_up():
    """Let lazy imports and the like happen now: a run's line counts (preemption points) must not depend on the runs before it."""
    bare_script = import_target()
    try:
        bare_script.execute_script(bare_script.parse_script("x = dataFilter(arrayNew(objectNew('a', 1)), 'a')\ny = jsonStringify(x)"), {'globals': {}})
    except Exception:  # pylint: disable=broad-except
        pass


def import_target():
    """Import the code under test, from REPO_SRC only."""
    import bare_script  # pylint: disable=import-outside-toplevel
    path = os.path.realpath(bare_script.__file__)
    if not path.startswith(os.path.realpath(REPO_SRC) + os.sep):
        raise RuntimeError(f'bare_script imported from {path}, not from {REPO_SRC}')
    return bare_script
