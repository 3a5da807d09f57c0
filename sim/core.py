"""The simulator core: seeded choices, event log, simulated time, and the baton scheduler."""

import hashlib
import json
import random
import sys
import threading


class InvalidScenario(Exception):
    """The scenario is outside the property's workload (only the minimiser produces these)."""


class SimAbort(BaseException):
    """Unwinds a session (step cap reached)."""


class Violation(Exception):
    """An oracle failed. kind names the violation class (kept while minimising)."""

    def __init__(self, kind, detail):
        super().__init__(f'{kind}: {detail}')
        self.kind = kind
        self.detail = detail


def rng_for(seed, prop, index):
    return random.Random(f'{seed}/{prop}/{index}')


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


class StepCap:
    """Deterministic progress bound: at most limit executed lines of the code under test (used when a run was seen to hang)."""

    def __init__(self):
        self.limit = None
        self.count = 0

    def step(self):
        self.count += 1
        if self.count > self.limit:
            raise SimAbort(f'no progress within {self.limit} steps')

    def tracer(self, target_dir):
        def local(frame, event, arg):
            if event == 'line':
                self.step()
            return local

        def outer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(target_dir) else None

        return outer


CAP = StepCap()


class Stats:
    """Counters of what a run actually reached."""

    def __init__(self):
        self.counts = {}

    def hit(self, name, count=1):
        self.counts[name] = self.counts.get(name, 0) + count


class Session:
    __slots__ = ('sid', 'func', 'baton', 'done', 'wake_at', 'result', 'error', 'lines', 'preempt', 'events', 'started')

    def __init__(self, sid, func, preempt):
        self.sid = sid
        self.func = func
        self.baton = threading.Semaphore(0)
        self.done = False
        self.wake_at = 0
        self.result = None
        self.error = None
        self.lines = 0
        self.preempt = frozenset(preempt or ())
        self.events = 0
        self.started = False


class Scheduler:
    """Runs sessions one at a time. Real threads serve as coroutines: exactly one holds the baton, and who gets it next is
    read off the scenario's decision list. Simulated time only advances when every live session is asleep."""

    MAX_POINTS = 200000

    def __init__(self, decisions, stats=None, target_dir=None):
        self.decisions = decisions
        self.ix = 0
        self.now = 0
        self.sessions = []
        self.current = None
        self.trace = []        # (session, kind): the schedule as executed
        self.stats = stats or Stats()
        self.switches = 0
        self.target_dir = target_dir
        self.points = 0
        self.main = threading.Semaphore(0)
        self.dead = None

    def add(self, func, preempt=None):
        session = Session(len(self.sessions), func, preempt)
        self.sessions.append(session)
        return session

    # -- choice -------------------------------------------------------------------------------------------------------

    def _pick(self):
        live = [s for s in self.sessions if not s.done]
        if not live:
            return None
        ready = [s for s in live if s.wake_at <= self.now]
        if not ready:
            self.now = min(s.wake_at for s in live)
            ready = [s for s in live if s.wake_at <= self.now]
        if self.ix < len(self.decisions):
            choice = self.decisions[self.ix]
            self.ix += 1
        else:
            choice = 0
        return ready[choice % len(ready)]

    # -- called by sessions -------------------------------------------------------------------------------------------

    def point(self, kind, delay=0):
        """A scheduling point: the running session offers the baton (and sleeps delay simulated microseconds)."""
        self.points += 1
        if self.points > self.MAX_POINTS:
            raise SimAbort('scheduling point cap')
        session = self.current
        if session is None:      # not inside a session (inline run): only time moves
            self.now += delay
            return
        session.wake_at = self.now + delay
        nxt = self._pick()
        if nxt is not session:
            self.switches += 1
            self.stats.hit('switch.' + kind)
            self.trace.append((session.sid, kind, nxt.sid))
            self.current = nxt
            nxt.baton.release()
            session.baton.acquire()

    # -- line-level preemption ----------------------------------------------------------------------------------------

    def _tracer(self, session):
        target_dir = self.target_dir
        preempt = session.preempt

        def local(frame, event, arg):
            if event == 'line':
                session.lines += 1
                if CAP.limit is not None:
                    CAP.step()
                if session.lines in preempt:
                    self.stats.hit('fault.preempt')
                    self.point('line')
            return local

        def outer(frame, event, arg):
            if frame.f_code.co_filename.startswith(target_dir):
                return local
            return None

        return outer

    def _thread(self, session):
        session.baton.acquire()
        try:
            if session.preempt or CAP.limit is not None:
                sys.settrace(self._tracer(session))
            try:
                session.result = session.func(session)
            finally:
                sys.settrace(None)
        except BaseException as exc:  # recorded, judged by the property
            session.error = exc
        session.done = True
        nxt = self._pick()
        if nxt is None:
            self.current = None
            self.main.release()
        else:
            self.trace.append((session.sid, 'end', nxt.sid))
            self.current = nxt
            nxt.baton.release()

    def run(self):
        """Run every session to completion. Harness exceptions (not judged by sessions themselves) are re-raised."""
        if len(self.sessions) == 1 and not self.sessions[0].preempt:
            session = self.sessions[0]
            self.current = None
            try:
                session.result = session.func(session)
            except BaseException as exc:
                session.error = exc
            session.done = True
        else:
            threads = []
            for session in self.sessions:
                thread = threading.Thread(target=self._thread, args=(session,), daemon=True)
                thread.start()
                threads.append(thread)
            first = self._pick()
            self.current = first
            first.baton.release()
            self.main.acquire()
            for thread in threads:
                thread.join()
        for session in self.sessions:
            if session.error is not None:
                raise session.error


def gen_schedule(rng, length):
    """A decision list. Styles: fair random, bursts, mostly-one-session."""
    style = rng.randrange(3)
    out = []
    if style == 0:
        out = [rng.randrange(6) for _ in range(length)]
    elif style == 1:
        while len(out) < length:
            out.extend([rng.randrange(6)] * rng.randrange(1, 9))
    else:
        main = rng.randrange(3)
        out = [main if rng.random() < 0.8 else rng.randrange(6) for _ in range(length)]
    return out[:length]


def gen_preempts(rng, count, horizon):
    """Line numbers (dynamic counts) at which a session is preempted: log-uniform so early lines are dense."""
    points = set()
    for _ in range(count):
        points.add(int(horizon ** rng.random()) + 1)
    return sorted(points)


