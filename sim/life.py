"""Processes that come and go over a durable store: phases of concurrent sessions, storage faults, crashes, restarts."""

from .core import InvalidScenario, Scheduler, Violation
from .engine import import_target
from .env import set_tz


class Crash(BaseException):
    """The process dies; the store survives."""


_MODELS = {}


def parsed(text):
    """The model of a script text that never changes."""
    if text not in _MODELS:
        _MODELS[text] = import_target().parse_script(text)
    return _MODELS[text]


class Life:
    LIBRARY = ''        # the functions every process starts with

    def __init__(self, scn, stats):
        self.scn = scn
        self.stats = stats
        self.counts = {}
        self.hist = []
        self.keys = set()
        self.nontrivial = False
        self.sched = None
        self.now = 0
        self.points = 0
        self.switches = 0

    def fault(self, kind):
        faults = self.scn['faults'].get(kind) or [None]
        at = self.counts.get(kind, 0)
        self.counts[kind] = at + 1
        fault = faults[at] if at < len(faults) else None
        if fault is not None:
            self.stats.hit(f'fault.{kind}_{fault[0]}')
        return fault

    def wait(self, kind):
        delays = self.scn['latency'] or [0]
        self.sched.point(kind, delays[self.sched.points % len(delays)])

    def start(self, phase):
        """A phase begins."""

    def run(self):
        parsed(self.LIBRARY)        # (not within a preempted session)
        try:
            for phase in self.scn['phases']:
                self.start(phase)
                self.sched = Scheduler(phase['schedule'], self.stats, import_target().__path__[0])
                preempts = phase.get('preempt') or []
                for sid, steps in enumerate(phase['sessions']):
                    self.sched.add(lambda session, steps=steps: self.session(session.sid, steps), preempts[sid] if sid < len(preempts) else [])
                self.sched.run()
                self.now += self.sched.now
                self.points += self.sched.points
                self.switches += self.sched.switches
        finally:
            set_tz('UTC')
        self.stats.hit('sim_us', self.now)
        self.stats.hit('points', self.points)
        self.stats.hit('switches', self.switches)

    def session(self, sid, steps):
        for step in steps:
            self.keys.add(step[0])
            self.stats.hit('step.' + step[0])
            self.do_step(sid, step)
            self.wait('step')

    def do_step(self, sid, step):
        raise InvalidScenario('step')

    def execute(self, code, values, limit=None, **options):
        """Run code in a process of its own. ('value', result) or ('stopped', why)."""
        bare = import_target()
        failed = []

        def judging(func):
            # (the interpreter takes other exceptions of host functions)
            def call(*args):
                try:
                    return func(*args)
                except (Violation, InvalidScenario) as exc:
                    failed.append(exc)
                    raise Crash() from exc
            return call
        options['globals'] = {name: judging(value) if '<locals>' in getattr(value, '__qualname__', '') else value for name, value in values.items()}
        if 'logFn' in options:
            options['logFn'] = judging(options['logFn'])
        if limit is not None:
            options['maxStatements'] = limit
        try:
            bare.execute_script(parsed(self.LIBRARY), options)
            result = bare.execute_script(bare.parse_script(code), options)
        except Crash:
            if failed:
                raise failed[0]
            self.stats.hit('fault.crash')
            return 'stopped', 'crash'
        except bare.BareScriptRuntimeError as exc:
            if limit is None or not str(exc).startswith('Exceeded maximum script statements'):
                raise Violation('error', f'{code} failed: {exc}') from exc
            self.stats.hit('fault.out_of_statements')
            return 'stopped', 'limit'
        return 'value', result

    def outcome(self, keys):
        return {'history': self.hist, 'keys': sorted(keys), 'nontrivial': self.hist if self.nontrivial else None}
