"""C04: scoping, calling convention and host globals."""

from .. import gen
from ..core import Violation, gen_preempts, gen_schedule
from ..engine import execute, history
from ..reflib import LIB
from .common import ASSUME, REAL_ALL, STUB_HOST, event_count, latency, outcome_kinds

ID = 'C04'
RUNS = {'quick': 16000, 'thorough': 450000}
RULE = ('seeded programs with up to 4 functions (0-3 parameters, optional "...") calling each other with 0-5 arguments directly, through variables, '
        'parameters, systemPartial, arraySort / arrayIndexOf callbacks and re-entrant host calls, in 1-3 preempted sessions, with calls aborted by '
        'host failures and repeated in the same globals, over host globals that shadow library and built-in names with values of every type; '
        'non-trivial: at least one script-function activation observed (distinct by history)')
REAL = REAL_ALL
STUB = STUB_HOST
ASSUMPTIONS = ASSUME

FUNCTIONS = ['fA', 'fB', 'fC', 'fD']
PARAMS = ['aa', 'bb', 'cc']
GLOBALS = ['xx', 'yy', 'aa', 'bb']
ODD = ['arguments', 'args', 'self', 'this', 'options', 'globals', 'locals', 'result', 'name', 'callee', 'argArray', '__locals__', 'function_', 'undefined',
       'statements', 'value', 'constructor']
SHADOW = ['arrayLength', 'arrayNew', 'systemType', 'mathAbs', 'mathMax', 'stringLength', 'objectNew', 'arrayPush', 'stringUpper', 'systemIs',
          'arrayCopy', 'stringRepeat', 'objectHas']
BUILTIN = ['abs', 'len', 'max', 'min', 'upper', 'lower', 'trim', 'sign', 'text', 'floor', 'rept', 'replace']


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.tag = 0
        self.functions = []

    def next_tag(self):
        self.tag += 1
        return self.tag

    def atom(self):
        rng = self.rng
        roll = rng.random()
        if roll < 0.3:
            return gen.num(rng.randrange(6))
        if roll < 0.4:
            return gen.string(rng.choice(['s', 't', '']))
        if roll < 0.85:
            return gen.var(rng.choice([*GLOBALS, *PARAMS]))
        if roll < 0.95 and self.functions:
            return gen.var(rng.choice(self.functions))
        return gen.var(rng.choice([*SHADOW[:4], 'null', 'true']))

    def expr(self, depth=2):
        rng = self.rng
        roll = rng.random()
        if depth <= 0 or roll < 0.4:
            return self.atom()
        if roll < 0.5:
            return gen.call('arrayNew', *[self.atom() for _ in range(rng.randrange(3))])
        if roll < 0.6:
            return gen.call(rng.choice(SHADOW), *[self.atom() for _ in range(rng.randrange(3))])
        if roll < 0.64:
            return gen.call('if', self.expr(depth - 1), self.expr(depth - 1), self.expr(depth - 1))
        if roll < 0.67:
            return gen.call('systemGlobalGet', gen.string(rng.choice([*GLOBALS, *PARAMS])), *[self.atom() for _ in range(rng.randrange(2))])
        if roll < 0.69:
            return gen.call('systemGlobalSet', gen.string(rng.choice([*GLOBALS, *PARAMS])), self.atom())
        return self.guard(self.invoke(depth))

    def guard(self, expr):
        """(any activation needs a finite host decision, so recursion ends)"""
        return gen.call('if', gen.call('hJ', gen.num(self.next_tag())), expr, gen.num(self.next_tag()))

    def invoke(self, depth):
        rng = self.rng
        names = [*self.functions, *self.functions, 'xx', 'aa', 'bb', 'cc', rng.choice(SHADOW)]
        name = rng.choice(names)
        args = [self.expr(depth - 1) for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 5, 7]))]
        roll = rng.random()
        if roll < 0.5:
            return gen.call(name, *args)
        if roll < 0.65:
            partial = gen.call('systemPartial', gen.var(name), *args[:rng.randrange(1, 4)])
            return rng.choice([partial, gen.call('hC', partial, *args[:2])])
        if roll < 0.75:
            array = gen.call('arrayNew', *[gen.num(ix) for ix in range(rng.randrange(3))])
            return gen.call(rng.choice(['arrayIndexOf', 'arrayLastIndexOf']), array, gen.var(name))
        if roll < 0.83:
            # (a fresh array that nothing else can see while it is sorted; equal elements and a result that is not used: how often the comparator runs on two elements is all that is observed)
            return gen.call('if', gen.call('arraySort', gen.call('hA'), gen.var(name)), gen.num(1), gen.num(2))
        return gen.call('hC', gen.var(name), *args[:3])

    def log(self):
        rng = self.rng
        return gen.st_expr(gen.call('hL', gen.num(self.next_tag()), *[gen.var(name) for name in rng.sample([*GLOBALS, 'cc'], rng.randrange(1, 4))]))

    def block(self, length, local, names):
        rng = self.rng
        out = []
        for _ in range(length):
            roll = rng.random()
            if roll < 0.3:
                out.append(self.log())
            elif roll < 0.6:
                out.append(gen.st_expr(self.expr(), rng.choice(names)))
            elif roll < 0.85:
                out.append(gen.st_expr(self.guard(self.invoke(2))))
            elif roll < 0.9:
                out.append(gen.st_expr(gen.call('arrayPush', gen.var(rng.choice(names)), self.atom())))
            elif roll < 0.95 and local:
                out.append(gen.st_return(self.expr()))
            elif self.functions and not local:
                out.append(gen.st_expr(gen.var(rng.choice([*self.functions, 'null'])), rng.choice([*names, rng.choice(SHADOW)])))
            else:
                out.append(gen.st_expr(self.atom(), rng.choice([*names, rng.choice(self.functions or ['xx'])])))
        return out

    def function(self, name):
        rng = self.rng
        params = rng.sample(PARAMS, rng.randrange(0, 4))
        if rng.random() < 0.1:
            params += rng.sample(['p4', 'p5', 'p6', *ODD[:6]], rng.randrange(1, 4))
        if rng.random() < 0.1 and params:
            params[0] = rng.choice(['xx', name, 'arrayLength'])
        body = self.block(rng.randrange(1, 5), True, [*PARAMS, 'xx', 'yy'])
        if rng.random() < 0.5:
            body.insert(0, gen.st_expr(gen.call('hL', gen.num(self.next_tag()), *[gen.var(param) for param in params])))
        if rng.random() < 0.6:
            body.append(gen.st_return(rng.choice([gen.var(rng.choice([*PARAMS, 'xx'])), self.expr()])))
        last = True if params and rng.random() < 0.4 else None
        return gen.st_function(name, params if params else rng.choice([None, None, []]), body, last)


def program(rng):
    gen_ = Gen(rng)
    names = FUNCTIONS[:rng.randrange(1, 5)]
    if rng.random() < 0.25:
        names[-1] = rng.choice(SHADOW)
    gen_.functions = names
    functions = [gen_.function(name) for name in names]
    main = gen_.block(rng.randrange(2, 8), False, GLOBALS)
    if rng.random() < 0.7:
        statements = [*functions, *main]
    else:
        statements = list(main)
        for function in functions:
            statements.insert(rng.randrange(len(statements) + 1), function)
    if rng.random() < 0.3:
        statements.append(gen.st_return(gen_.expr()))
    return {'statements': statements}


def host_globals(rng):
    entries = [[name, {'$': 'fn', 'v': name}] for name in ('hL', 'hJ', 'hC', 'hV', 'hA')]
    for name in GLOBALS:
        if rng.random() < 0.4:
            entries.append([name, gen.enc_value(rng, 1, ('hV', 'arrayNew', 'mathAbs'))])
    for name in rng.sample(SHADOW, rng.choice([0, 0, 1, 2, 3])):
        entries.append([name, rng.choice([None, False, 0, '', 5, 'text', [], {'$': 'fn', 'v': 'hV'}, {'$': 'fn', 'v': 'mathMax'}])])
    return entries


def expression_call(rng, gen_, evals):
    """evaluate_expression with locals, globals and built-ins competing for the same names."""
    names = rng.sample(BUILTIN, 3)
    args = [rng.choice([gen.num(-2), gen.string('aB '), gen.var('xx'), gen.var(names[0]), gen.num(3)]) for _ in range(rng.randrange(1, 4))]
    expr = gen.call(rng.choice(names), *args)
    if rng.random() < 0.4:
        expr = gen.call('if', gen.var(names[1]), expr, gen.call(names[2], *args))
    evals.append(expr)
    values = [None, 0, '', 7, 'v', {'$': 'fn', 'v': 'hV'}, {'$': 'fn', 'v': 'mathMin'}]
    call = {'expr': len(evals) - 1, 'builtins': rng.random() < 0.8}
    if rng.random() < 0.7:
        call['locals'] = [[name, rng.choice(values)] for name in rng.sample(names, rng.randrange(0, 3))]
    bound = [[name, rng.choice(values)] for name in rng.sample(names, rng.randrange(0, 3))]
    return call, bound


def generate(rng, index, tier):
    GLOBALS[:] = ['xx', 'yy', 'aa', 'bb']
    if rng.random() < 0.2:
        GLOBALS[:2] = rng.sample(ODD, 2)
    models = [program(rng) for _ in range(rng.choice([1, 1, 2]))]
    evals = []
    count = rng.choice([1, 1, 1, 2, 3])
    share = count > 1 and rng.random() < 0.3
    globals_ = []
    sessions = []
    for _ in range(count):
        calls = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.12:
                call, bound = expression_call(rng, None, evals)
                globals_.append([['hV', {'$': 'fn', 'v': 'hV'}], ['xx', 'gx'], *bound])
                call['globals'] = len(globals_) - 1
            elif rng.random() < 0.05:
                # an empty globals object the caller supplied
                models.append({'statements': [
                    gen.st_expr(gen.num(rng.randrange(5)), 'xx'),
                    gen.st_function('fE', ['xx'], [gen.st_expr(gen.num(9), 'xx'), gen.st_expr(gen.num(8), 'yy'), gen.st_return(gen.var('yy'))]),
                    gen.st_expr(gen.call('fE'), 'z')]})
                globals_.append([])
                call = {'model': len(models) - 1, 'globals': len(globals_) - 1}
            else:
                call = {'model': rng.randrange(len(models[:2]))}
                if globals_ and share:
                    call['globals'] = 0
                elif calls and rng.random() < 0.4 and 'model' in calls[-1]:
                    call['globals'] = calls[-1]['globals']
                else:
                    globals_.append(host_globals(rng))
                    call['globals'] = len(globals_) - 1
                if rng.random() < 0.4:
                    call['parse'] = True
            calls.append(call)
        session = {'calls': calls}
        if count > 1 and not share:
            session['preempt'] = gen_preempts(rng, rng.randrange(1, 8), 4000)
        sessions.append(session)
    logs = [{} for _ in range(30)]
    if rng.random() < 0.25:
        logs[rng.randrange(8)] = {'raise': 'BareScriptRuntimeError:host stop', 'after': rng.random() < 0.5}
    if rng.random() < 0.2:
        logs[rng.randrange(10)] = {'raise': gen.error_class(rng)}
    if rng.random() < 0.15:
        logs[rng.randrange(10)] = {'do': [['exec', rng.randrange(len(models)), None]]}
    if rng.random() < 0.2:
        logs[rng.randrange(10)] = {'do': [['setg', rng.choice(GLOBALS), rng.randrange(100)]]}
    if rng.random() < 0.1:
        logs[rng.randrange(10)] = {'do': [['delg', rng.choice([*GLOBALS, *FUNCTIONS])]]}
    calls = []
    kind = 'trycall' if rng.random() < 0.2 else 'call'
    for _ in range(rng.randrange(1, 7)):
        args = [{'$': 'arg', 'v': ix} for ix in range(1, rng.randrange(1, 5))]
        behaviour = {'do': [[kind, 0, args] for _ in range(rng.choice([1, 1, 2]))]}
        if rng.random() < 0.2:
            behaviour.update({'raise': gen.error_class(rng), 'after': True})
        calls.append(behaviour)
    jumps = [{'ret': rng.random() < 0.75} for _ in range(rng.randrange(4, 24))] + [{'ret': False}]
    values = [{'ret': gen.enc_value(rng, 1, ('hV',))} for _ in range(4)]
    return {
        'models': models, 'eval': evals, 'globals': globals_, 'hosts': {'hL': logs, 'hC': calls, 'hJ': jumps, 'hV': values, 'hA': [{'ret': [1, 1]}]},
        'sessions': sessions, 'share': share, 'schedule': gen_schedule(rng, 60), 'latency': latency(rng)
    }


def run(scn, stats):
    real, ref = execute(scn, stats)
    # Library injection is complete, and only for scripts (evaluate_expression leaves the globals alone)
    scripted = {call['globals'] for session in scn['sessions'] for call in session['calls'] if 'model' in call and call.get('globals') is not None}
    names = set(real.library.SCRIPT_FUNCTIONS) | set(LIB)
    for ix, globals_ in enumerate(real.globals):
        if ix in scripted:
            deleted = {action[1] for table in scn['hosts'].values() for entry in table for action in entry.get('do', ()) if action[0] == 'delg'}
            missing = [name for name in names if name not in globals_ and name not in deleted]
            if missing:
                raise Violation('library-missing', f'globals {ix} lack library functions {missing[:4]!r}')
    kinds = outcome_kinds(real)
    for kind in kinds:
        stats.hit('outcome.' + kind)
    hist = history(real)
    return {'history': hist, 'keys': [f'{len(scn["sessions"])} sessions/{kind}' for kind in kinds],
            'nontrivial': hist if event_count(ref) > 2 else None}


