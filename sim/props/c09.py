"""C09: the statement budget is exact, complete and monotone."""

import copy

from .. import gen
from ..core import InvalidScenario, Violation, gen_preempts, gen_schedule
from ..engine import execute, history, swallowed
from .common import ASSUME, REAL_ALL, STUB_HOST, latency

ID = 'C09'
RUNS = {'quick': 5000, 'thorough': 110000}
RULE = ('seeded programs (bounded and endless loops, recursion, callbacks through arraySort / arrayIndexOf / systemPartial / data functions with and '
        'without variables / host functions, nested includes) x statement limits used as crash points: every L in 1..N+2 for N <= 40, sampled L '
        'otherwise, 0 and absent; non-trivial: at least one limit aborted the run part-way (distinct by history over all limits)')
REAL = REAL_ALL
STUB = STUB_HOST
ASSUMPTIONS = ASSUME


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.tag = 0
        self.loop = 0
        self.exprs = {}
        self.models = []
        self.vfs = {}
        self.endless = False

    def next_tag(self):
        self.tag += 1
        return self.tag

    def log(self, text=None):
        return gen.st_expr(gen.call('hL', gen.num(self.next_tag())))

    def rows(self, field='r'):
        count = self.rng.randrange(0, 4)
        return gen.call('arrayNew', *[gen.call('objectNew', gen.string(field), gen.num(ix)) for ix in range(count)])

    def data_call(self, func):
        rng = self.rng
        expr = gen.call(func, gen.var('r'))
        if rng.random() < 0.3:
            expr = gen.binary('+', expr, gen.call(func, gen.num(1)))
        if rng.random() < 0.2:
            expr = gen.call('if', gen.var('r'), expr, gen.num(0))
        text = gen.render_expr(expr)
        self.exprs[text] = expr
        variables = [gen.call('objectNew', gen.string('v'), gen.num(1))] if rng.random() < 0.6 else []
        kind = rng.randrange(3)
        if kind == 0:
            return gen.call('dataFilter', self.rows(), gen.string(text), *variables)
        if kind == 1:
            return gen.call('dataCalculatedField', self.rows(), gen.string('c'), gen.string(text), *variables)
        second = gen.string(text) if rng.random() < 0.5 else gen.var('null')
        call = gen.call('dataJoin', self.rows(), self.rows(), gen.string(text), second, gen.var('false'), *variables)
        return gen.call('if', call, gen.num(1), gen.num(1))

    def invoke(self, func):
        """An expression that runs the script function func, by one of the call paths."""
        rng = self.rng
        roll = rng.randrange(9)
        if roll <= 1:
            return gen.call(func, gen.num(rng.randrange(0, 4)))
        if roll == 2:
            return gen.call('arrayIndexOf', gen.call('arrayNew', *[gen.num(ix) for ix in range(rng.randrange(0, 4))]), gen.var(func))
        if roll == 3:
            return gen.call('arrayLastIndexOf', gen.call('arrayNew', *[gen.num(ix) for ix in range(rng.randrange(0, 4))]), gen.var(func))
        if roll == 4:
            array = gen.call('arrayNew', gen.num(1), gen.num(1))
            return gen.call('arrayLength', gen.call('arraySort', array, gen.var(func)))
        if roll == 5:
            return gen.call('hC', gen.call('systemPartial', gen.var(func), gen.num(rng.randrange(3))))
        if roll == 6:
            return gen.call('hC', gen.var(func), gen.num(rng.randrange(0, 3)))
        return self.data_call(func)

    def block(self, length, funcs, files, level):
        rng = self.rng
        out = []
        for _ in range(length):
            roll = rng.random()
            if roll < 0.3:
                out.append(self.log())
            elif roll < 0.4:
                out.append(gen.st_expr(gen.num(rng.randrange(4)), rng.choice('xy') + '1'))
            elif roll < 0.5:
                self.loop += 1
                label = f'loop{self.loop}'
                index = f'i{self.loop}'
                out.append(gen.st_expr(gen.num(0), index))
                out.append({'label': label})
                out.extend(self.block(rng.randrange(0, 3), funcs, files, level + 1) if level < 2 else [self.log()])
                out.append(gen.st_expr(gen.binary('+', gen.var(index), gen.num(1)), index))
                out.append(gen.st_jump(label, gen.binary('<', gen.var(index), gen.num(rng.randrange(1, 4)))))
            elif roll < 0.55:
                self.loop += 1
                out.append(gen.st_jump(f'skip{self.loop}', gen.num(1) if rng.random() < 0.5 else None))
                out.append(self.log())
                out.append({'label': f'skip{self.loop}'})
            elif roll < 0.82 and funcs:
                out.append(gen.st_expr(self.invoke(rng.choice(funcs)), rng.choice([None, 'x1', 'y1'])))
            elif roll < 0.95 and files:
                out.append(gen.st_include(*[(rng.choice(files), False) for _ in range(rng.choice([1, 1, 2]))]))
            elif roll < 0.97 and level > 0:
                out.append(gen.st_return(gen.num(rng.randrange(2))))
            else:
                out.append(self.log())
        return out

    def function(self, name, callable_):
        rng = self.rng
        statements = self.block(rng.randrange(0, 4), callable_, [], 1)
        if rng.random() < 0.3:
            # bounded recursion
            statements = [gen.st_jump('more', gen.binary('>', gen.var('n'), gen.num(0))), gen.st_return(gen.num(0)), {'label': 'more'},
                          *statements, gen.st_expr(gen.call(name, gen.binary('-', gen.var('n'), gen.num(1))))]
        if rng.random() < 0.7:
            statements.append(gen.st_return(gen.num(rng.randrange(-1, 2))))
        return gen.st_function(name, ['n'] if rng.random() < 0.9 else None, statements)


def generate(rng, index, tier):
    gen_ = Gen(rng)
    functions = []
    names = []
    for ix in range(rng.randrange(0, 4)):
        name = f'f{"ABC"[ix]}'
        functions.append(gen_.function(name, list(names)))
        names.append(name)
    # a tree of include files, each using only later ones
    files = []
    file_count = rng.choice([0, 0, 1, 2, 3])
    for ix in reversed(range(file_count)):
        location = f'/v/f{ix}.bare'
        statements = gen_.block(rng.randrange(0, 4), names, files[:], 1)
        if rng.random() < 0.3:
            statements.insert(0, gen.st_function(f'g{ix}x', ['n'], [gen_.log(), *gen_.block(1, [], files[:], 1)]))
            statements.append(gen.st_expr(gen.call(f'g{ix}x', gen.num(1))))
        model = {'statements': gen.merge_includes(statements)}
        gen_.models.append(model)
        gen_.vfs[location] = [{'model': len(gen_.models) - 1}]
        files.append(location)
    statements = gen.merge_includes([*functions, *gen_.block(rng.randrange(1, 7), names, files, 0)])
    endless = rng.random() < 0.15
    if endless:
        statements.append({'label': 'forever'})
        statements.extend(gen_.block(rng.randrange(0, 3), names, files, 0))
        statements.append(gen.st_jump('forever'))
    elif rng.random() < 0.05:
        endless = True
        statements.append(gen.st_function('fR', ['n'], [gen_.log(), gen.st_expr(gen.call('fR', gen.num(1)))]))
        statements.append(gen.st_expr(gen.call('fR', gen.num(1))))
    statements = gen.merge_includes(statements)
    gen_.models.append({'statements': statements})
    main = len(gen_.models) - 1
    count = rng.choice([1, 1, 1, 1, 2, 3])
    sessions = []
    for sid in range(count):
        calls = [{'model': main, 'globals': sid}]
        if rng.random() < 0.2:
            calls.append({'model': main, 'globals': sid, 'reuse': True})
        session = {'calls': calls}
        if count > 1:
            session['preempt'] = gen_preempts(rng, rng.randrange(1, 6), 3000)
        sessions.append(session)
    host = [['hL', {'$': 'fn', 'v': 'hL'}], ['hC', {'$': 'fn', 'v': 'hC'}]]
    logs = [{}]
    if rng.random() < 0.3:
        logs = [{'raise': gen.error_class(rng)} if rng.random() < 0.2 else {} for _ in range(8)] + [{}]
    calls = []
    kind = 'trycall' if rng.random() < 0.25 else 'call'     # (a host that swallows failures, the budget's included)
    for _ in range(rng.randrange(0, 6)):
        behaviour = {'do': [[kind, 0, [{'$': 'arg', 'v': 1}]] for _ in range(rng.choice([1, 1, 2]))]}
        if rng.random() < 0.3:
            behaviour['raise'] = gen.error_class(rng)
            behaviour['after'] = True
        calls.append(behaviour)
    calls.append({'do': [[kind, 0, []]]})
    scn = {
        'models': gen_.models, 'globals': [list(host) for _ in range(count)], 'hosts': {'hL': logs, 'hC': calls}, 'sessions': sessions,
        'vfs': gen_.vfs, 'exprs': gen_.exprs, 'counts': True, 'schedule': gen_schedule(rng, 60), 'latency': latency(rng), 'endless': endless,
        'picks': [rng.random() for _ in range(24)],
    }
    if rng.random() < 0.1:
        scn['float_limits'] = True
    return scn


def with_limits(scn, limits):
    out = dict(scn)
    out['sessions'] = copy.deepcopy(scn['sessions'])
    for session, limit in zip(out['sessions'], limits):
        for call in session['calls']:
            if limit is None:
                call.pop('limit', None)
            else:
                call['limit'] = limit
    return out


def run(scn, stats):
    count = len(scn['sessions'])
    hists = []
    aborted = 0
    full = None
    if not scn['endless']:
        full, ref = execute(with_limits(scn, [None] * count), stats)
        outcome = ref.sessions[0].outcomes[0]
        total = outcome[-1] if outcome[0] == 'value' else None
        if outcome[0] == 'error':
            raise InvalidScenario('the unlimited run fails')
        hists.append(history(full))
        if total <= 40:
            limits = list(range(1, total + 3))
        else:
            limits = sorted({1 + int(pick * (total + 2)) for pick in scn['picks'][:14]} | {total - 1, total, total + 1})
        limits.append(0)
    else:
        limits = sorted({1 + int(pick ** 2 * 90) for pick in scn['picks'][:14]})
        total = None
    if count > 1:
        # different limits per session: sampled
        sets = [[limits[int(scn['picks'][(ix * count + sid) % 24] * len(limits))] for sid in range(count)] for ix in range(6)]
        if total is None:
            sets = [[limit or 5 for limit in entry] for entry in sets]
    else:
        sets = [[limit] for limit in limits]
    for entry in sets:
        entry = [float(limit) for limit in entry] if scn.get('float_limits') else entry
        real, ref = execute(with_limits(scn, entry), stats)
        hists.append(history(real))
        for sid, limit in enumerate(entry):
            stats.hit('fault.budget_abort' if any(out[:2] == ['error', 'budget'] for out in real.sessions[sid].outcomes) else 'limit_completed')
            outcome = real.sessions[sid].outcomes[0]
            if outcome[:2] == ['error', 'budget']:
                aborted += 1
            if full is not None and len(scn['sessions'][sid]['calls']) == 1 and not swallowed(real.sessions[sid]):
                check_prefix(full.sessions[sid], real.sessions[sid], limit, total)
    return {'history': hists, 'keys': [f'{count} sessions', 'endless' if scn['endless'] else f'N<={10 * (1 + (total or 0) // 10)}'],
            'nontrivial': hists if aborted else None}


def check_prefix(full, limited, limit, total):
    """The limited run against the unlimited run (no reference model involved)."""
    complete = limit == 0 or limit >= total
    if complete:
        if limited.events != full.events or limited.outcomes != full.outcomes:
            raise Violation('not-identical', f'limit {limit} >= N = {total}, but the run differs from the unlimited run: '
                            f'{limited.outcomes!r} / {full.outcomes!r}')
    else:
        if limited.outcomes[0][:2] != ['error', 'budget']:
            raise Violation('not-aborted', f'limit {limit} < N = {total}: outcome {limited.outcomes[0]!r}')
        if limited.events != full.events[:len(limited.events)]:
            raise Violation('not-a-prefix', f'limit {limit} < N = {total}: the effects are not a prefix of the unlimited run')


