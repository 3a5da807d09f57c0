"""Shared by the property modules."""

REAL_ALL = ['bare_script.runtime', 'bare_script.library', 'bare_script.value', 'bare_script.options.url_file_relative',
            'bare_script.parser', 'bare_script.data']
STUB_HOST = ['embedding application (host functions, logFn, fetchFn): scripted by the scenario',
             'thread scheduler: baton scheduler over real threads', 'time: simulated microseconds; the process clock is never read']
ASSUME = ['The reference model in /verif/sim/ref.py and reflib.py states the documented semantics',
          'CPython with the GIL: preemption is explored at source-line granularity inside bare_script']


def outcome_kinds(world):
    kinds = []
    for state in world.sessions:
        for outcome in state.outcomes:
            kinds.append(outcome[0] if outcome[0] == 'value' else f'{outcome[0]}:{outcome[1]}')
    return kinds


def event_count(world):
    return sum(len(state.events) for state in world.sessions)


def latency(rng):
    return [rng.choice([0, 0, 1, 10, 1000, 250000]) for _ in range(rng.randrange(1, 6))]
