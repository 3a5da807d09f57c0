"""Runs scenarios over forked workers. What a scenario does never depends on which worker runs it."""

import faulthandler
import json
import os
import random
import resource
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import env
from .core import CAP, InvalidScenario, SimAbort, Stats, Violation, digest, rng_for
from .engine import TARGET_DIR

SCENARIO_SECONDS = 20
STEP_LIMIT = 1_500_000
CAPPED_SECONDS = 100


def run_scenario(prop, scn):
    """Execute one scenario in this process. Returns a JSON record: status ok | invalid | violation | abort."""
    stats = Stats()
    record = {'stats': stats.counts}
    # The process's randomness and clock are the simulator's
    random.seed(20240229)
    env.CLOCK.set(1709208000 * 1000000, 1000)
    try:
        result = prop.run(scn, stats) or {}
        record['status'] = 'ok'
        record['digest'] = digest(result.get('history'))
        record['keys'] = result.get('keys', [])
        record['nontrivial'] = result.get('nontrivial')
    except InvalidScenario as exc:
        record['status'] = 'invalid'
        record['reason'] = str(exc)[:60]
    except Violation as exc:
        record['status'] = 'violation'
        record['kind'] = exc.kind
        record['detail'] = exc.detail[:2000]
    except SimAbort as exc:
        record['status'] = 'violation'
        record['kind'] = 'no-progress'
        record['detail'] = str(exc)
    except Exception as exc:  # an exception out of the code under test that no oracle foresaw
        own = [frame for frame in traceback.extract_tb(exc.__traceback__)
               if frame.filename.startswith((TARGET_DIR, os.path.join(env.VERIF, 'sim')))]
        if not own or not own[-1].filename.startswith(TARGET_DIR):
            raise
        record['status'] = 'violation'
        record['kind'] = 'escaped-exception'
        record['detail'] = f'{type(exc).__name__}: {exc} at {own[-1].filename}:{own[-1].lineno}'
    finally:
        env.CLOCK.off()
    return record


def _worker(prop, seed, tier, indexes, out_fd):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))

    def send(message):
        data = json.dumps(message).encode()
        _write_all(out_fd, struct.pack('>I', len(data)) + data)

    def on_alarm(signum, frame):
        send({'type': 'hang'})
        os._exit(0)

    signal.signal(signal.SIGALRM, on_alarm)
    code = 0
    try:
        for index in indexes:
            send({'type': 'start', 'index': index})
            signal.setitimer(signal.ITIMER_REAL, SCENARIO_SECONDS)
            scn = prop.generate(rng_for(seed, prop.ID, index), index, tier)
            record = run_scenario(prop, scn)
            signal.setitimer(signal.ITIMER_REAL, 0)
            record['index'] = index
            record['type'] = 'done'
            if record['status'] == 'violation':
                record['scenario'] = scn
            elif index < 40 and len(json.dumps(scn)) < 6000:
                record['sample'] = scn
            send(record)
    except BaseException:
        send({'type': 'harness', 'trace': traceback.format_exc()})
        code = 2
    sys.stdout.flush()
    os._exit(code)


def _write_all(fd, data):
    while data:
        done = os.write(fd, data)
        data = data[done:]


class Pool:
    def __init__(self, prop, seed, tier, workers):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.workers = workers
        self.procs = {}

    def spawn(self, indexes):
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            for other in self.procs.values():
                os.close(other['fd'])
            _worker(self.prop, self.seed, self.tier, indexes, wfd)
        os.close(wfd)
        self.procs[pid] = {'fd': rfd, 'buf': b'', 'indexes': indexes, 'at': None, 'last': time.monotonic()}

    def run(self, total, seconds=None, on_done=None):
        """Run indexes 0..total-1 (or as many as start within seconds). Yields records; stops early if on_done returns True."""
        deadline = time.monotonic() + seconds if seconds else None
        chunk = max(1, min(200, total // (self.workers * 4) or 1))
        chunks = [range(begin, min(total, begin + chunk)) for begin in range(0, total, chunk)]
        chunks.reverse()
        hung = []
        stop = False
        while self.procs or (chunks and not stop):
            while chunks and len(self.procs) < self.workers and not stop:
                if deadline is not None and time.monotonic() > deadline:
                    chunks.clear()
                    break
                self.spawn(chunks.pop())
            if not self.procs:
                break
            ready, _, _ = select.select([proc['fd'] for proc in self.procs.values()], [], [], 1.0)
            for pid, proc in list(self.procs.items()):
                if proc['fd'] in ready:
                    data = os.read(proc['fd'], 1 << 20)
                    proc['last'] = time.monotonic()
                    if not data:
                        os.close(proc['fd'])
                        os.waitpid(pid, 0)
                        del self.procs[pid]
                        if proc['at'] is not None:      # died in the middle of a scenario
                            hung.append(proc['at'])
                            rest = [ix for ix in proc['indexes'] if ix > proc['at']]
                            if rest:
                                chunks.append(rest)
                        continue
                    proc['buf'] += data
                    while len(proc['buf']) >= 4:
                        length, = struct.unpack('>I', proc['buf'][:4])
                        if len(proc['buf']) < 4 + length:
                            break
                        message = json.loads(proc['buf'][4:4 + length])
                        proc['buf'] = proc['buf'][4 + length:]
                        if message['type'] == 'start':
                            proc['at'] = message['index']
                        elif message['type'] == 'done':
                            proc['at'] = None
                            if on_done(message):
                                stop = True
                        elif message['type'] == 'hang':
                            pass
                        elif message['type'] == 'harness':
                            self.kill()
                            raise RuntimeError('harness failure at index %s\n%s' % (proc['at'], message['trace']))
                elif time.monotonic() - proc['last'] > SCENARIO_SECONDS * 2 + 10:
                    os.kill(pid, signal.SIGKILL)
            if len(hung) > 12:
                stop = True
                chunks.clear()
            if stop:
                self.kill()
                break
        return hung

    def kill(self):
        for pid, proc in self.procs.items():
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            os.close(proc['fd'])
        self.procs.clear()


def rerun_capped(prop_id, seed, tier, index):
    """Re-run one scenario in a fresh process under the deterministic step cap.

    Returns its record; None if the code under test does not end even so (stuck inside one C call), which the stack dump tells.
    Raises RuntimeError if it was the harness that did not end.
    """
    argv = [env.PYTHON, os.path.join(env.VERIF, 'check.py'), prop_id, '--capped', '--index', str(index)]
    child = env.child_env(extra={'VERIF_SEED': str(seed), 'VERIF_TIER': tier})
    proc = subprocess.run(argv, env=child, capture_output=True, check=False)
    try:
        return json.loads(proc.stdout.decode().strip().split('\n')[-1])
    except ValueError:
        err = proc.stderr.decode(errors='replace')
        if TARGET_DIR in err:
            return None
        raise RuntimeError('harness failure in the capped re-run of index %s\n%s' % (index, err[-3000:])) from None


def set_cap():
    """Install the step cap in this process."""
    import threading
    faulthandler.dump_traceback_later(CAPPED_SECONDS, exit=True)
    CAP.limit = STEP_LIMIT
    CAP.count = 0
    tracer = CAP.tracer(TARGET_DIR)
    sys.settrace(tracer)
    threading.settrace(tracer)
