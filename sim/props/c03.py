"""C03: expression evaluation follows the typed operator semantics, in order, exactly once, lazily."""

import datetime
import random

from .. import gen
from ..core import Violation, gen_preempts, gen_schedule
from ..engine import execute, history
from ..env import CLOCK, import_target
from ..reflib import ALIASES
from ..values import canon, decode
from .common import ASSUME, REAL_ALL, STUB_HOST, event_count, latency, outcome_kinds

ID = 'C03'
RUNS = {'quick': 60000, 'thorough': 700000}
RULE = ('seeded expression trees to depth 6 over host calls that return values of every type, fail before or after their effect, re-enter the '
        'evaluator, or change globals and containers while the expression is half evaluated; evaluated in expression mode (with and without locals '
        'and built-ins), as script statements and by the data functions, in 1-3 preempted sessions; built-in aliases against their library function '
        'under the same simulated clock and PRNG seed; non-trivial: at least 2 observed calls or an alias comparison (distinct by history)')
REAL = REAL_ALL
STUB = [*STUB_HOST, 'process wall clock and PRNG for the alias runs (clock shim, seeded random)']
ASSUMPTIONS = [*ASSUME, 'NaN ordering and results longer than 100 kB are outside the workload']

ARITH = ['+', '+', '+', '-', '-', '*', '/', '%', '**']
COMPARE = ['==', '!=', '<', '<=', '>', '>=']
LOGIC = ['&&', '||']
VARS = ['v1', 'v2', 'v3', 'v4', 'v5']
SIMPLE = ['arrayNew', 'systemType', 'stringLength', 'arrayLength', 'systemBoolean', 'mathAbs', 'mathMax', 'stringNew', 'objectNew',
          'systemIs', 'systemCompare', 'arrayGet', 'stringUpper']
SIMPLE_BUILTIN = ['abs', 'len', 'max', 'min', 'upper', 'lower', 'trim', 'sign', 'text', 'floor', 'ceil', 'replace', 'startsWith', 'endsWith',
                  'indexOf', 'slice', 'parseInt', 'charCodeAt', 'fromCharCode', 'lastIndexOf', 'rept', 'pi', 'sqrt', 'parseFloat']


class Gen:
    def __init__(self, rng, builtins):
        self.rng = rng
        self.builtins = builtins
        self.tag = 0

    def next_tag(self):
        self.tag += 1
        return self.tag

    def leaf(self):
        rng = self.rng
        roll = rng.random()
        if roll < 0.42:
            return gen.call(rng.choice(['hV', 'hV', 'hW']), gen.num(self.next_tag()))
        if roll < 0.5:
            return gen.call('hE', gen.num(self.next_tag()), gen.var(rng.choice(VARS)))
        if roll < 0.58:
            return gen.num(rng.choice([0, 1, 2, 3, 0.5, 1000, 1e21, 10, 86400000, 0.125]))
        if roll < 0.64:
            return gen.string(rng.choice(['', 'a', 'b', '0', 'null', '\u00e9']))
        if roll < 0.7:
            return gen.var(rng.choice(['null', 'true', 'false']))
        return gen.var(rng.choice([*VARS, *VARS, 'missing', 'hV']))

    def expr(self, depth):
        rng = self.rng
        if depth <= 0 or rng.random() < 0.12:
            return self.leaf()
        roll = rng.random()
        if roll < 0.36:
            return gen.binary(rng.choice(ARITH), self.expr(depth - 1), self.expr(depth - 1))
        if roll < 0.5:
            return gen.binary(rng.choice(COMPARE), self.expr(depth - 1), self.expr(depth - 1))
        if roll < 0.66:
            return gen.binary(rng.choice(LOGIC), self.expr(depth - 1), self.expr(depth - 1))
        if roll < 0.73:
            return gen.unary(rng.choice('!--'), self.expr(depth - 1))
        if roll < 0.77:
            return gen.group(self.expr(depth - 1))
        if roll < 0.87:
            count = rng.choice([0, 1, 2, 3, 3, 3, 3, 3, 4])
            args = [self.expr(depth - 1) for _ in range(count)]
            return gen.call('if', *args) if args or rng.random() < 0.5 else {'function': {'name': 'if'}}
        names = [*SIMPLE, *(SIMPLE_BUILTIN if self.builtins or rng.random() < 0.03 else ())]
        name = rng.choice([rng.choice(names), rng.choice(names), 'hE', 'missingFn' if rng.random() < 0.15 else 'hE'])
        args = [self.expr(depth - 1) for _ in range(rng.randrange(0, 4))]
        if name == 'hE' and rng.random() < 0.5:
            args.insert(0, gen.num(self.next_tag()))
        return gen.call(name, *args) if args or rng.random() < 0.7 else {'function': {'name': name}}


KINDS = ('null', 'bool', 'num', 'num', 'num', 'str', 'str', 'dt', 'dt', 'arr', 'obj', 'fn', 're')


BIG = [False]


def value(rng):
    while True:
        enc = any_value(rng)
        if BIG[0] or 'int' not in str(enc):     # (integers beyond 2**53 never meet the float literals of a parsed text)
            return enc


def any_value(rng):
    if BIG[0]:
        return gen.enc_value(rng, 2, ('hV', 'mathAbs'), [kind for kind in KINDS if kind != 'dt'])
    if rng.random() < 0.06:
        return rng.choice([{'$': 'num', 'v': 'inf'}, {'$': 'num', 'v': '-inf'}, -0.0, 0])
    return gen.enc_value(rng, 2, ('hV', 'mathAbs'), KINDS)


def behaviour(rng, evals):
    """What one host call does."""
    roll = rng.random()
    entry = {'ret': value(rng)}
    if roll < 0.07:
        return {'raise': gen.error_class(rng), 'after': rng.random() < 0.5, 'do': [['setg', rng.choice(VARS), value(rng)]]}
    if roll < 0.09:
        return {'raise': 'BareScriptRuntimeError:host stop'}
    if roll < 0.11:
        return {'raise': 'ValueArgsError:' + str(rng.randrange(9))}
    if roll < 0.2:
        entry['do'] = [['setg', rng.choice(VARS), value(rng)]]
    elif roll < 0.23:
        entry['do'] = [['delg', rng.choice(VARS)]]
    elif roll < 0.27 and evals:
        entry['do'] = [['eval', rng.randrange(len(evals)), rng.random() < 0.5]]
    return entry


def echo(rng):
    """hE: returns or changes its argument."""
    roll = rng.random()
    arg = rng.choice([0, 1, 1])
    if roll < 0.6:
        return {'ret': {'$': 'arg', 'v': arg}}
    if roll < 0.75:
        return {'do': [['push', arg, value(rng)]], 'ret': {'$': 'arg', 'v': arg}}
    if roll < 0.9:
        return {'do': [['setkey', arg, rng.choice(['a', 'b', 'key']), value(rng)]], 'ret': {'$': 'arg', 'v': arg}}
    return {'ret': value(rng)}


def entries(rng, names):
    return [[name, value(rng)] for name in names if rng.random() < 0.8]


def generate(rng, index, tier):
    if index % 8 == 7:
        return generate_alias(rng)
    BIG[0] = rng.random() < 0.25
    evals = []
    models = []
    exprs = {}
    count = rng.choice([1, 1, 1, 2, 3])
    share = count > 1 and rng.random() < 0.3
    globals_ = []
    sessions = []
    hosts = [[name, {'$': 'fn', 'v': name}] for name in ('hV', 'hW', 'hE')]
    # Expressions that host calls evaluate re-entrantly: leaves only, so that the nesting ends
    nested = Gen(rng, False)
    for _ in range(rng.choice([0, 1, 2])):
        evals.append(gen.binary(rng.choice([*ARITH, *LOGIC]), gen.var(rng.choice(VARS)), gen.call('stringNew', gen.num(nested.next_tag()))))
    n_nested = len(evals)
    for _ in range(count):
        calls = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            builtins = rng.random() < 0.6
            depth = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
            mode = rng.random()
            if mode < 0.55:
                evals.append(Gen(rng, builtins).expr(depth))
                call = {'expr': len(evals) - 1, 'builtins': builtins}
                if rng.random() < 0.4:
                    call['locals'] = entries(rng, rng.sample(VARS, rng.randrange(4)))
                    if rng.random() < 0.1:
                        call['locals'].append(['hV', {'$': 'fn', 'v': 'hE'}])
                    if rng.random() < 0.1:
                        call['locals'].append([rng.choice(['null', 'true', 'false', 'abs', 'len']), rng.choice([5, None, 'kw'])])
                if rng.random() < 0.08:     # without options: no globals, no log
                    call['none'] = True
                    if rng.random() < 0.9:
                        call['locals'] = [*entries(rng, VARS), *hosts, *([[name, {'$': 'fn', 'v': name}] for name in SIMPLE] if rng.random() < 0.7 else [])]
                    else:
                        call.pop('locals', None)
                with_library = False
            else:
                gen_ = Gen(rng, False)
                statements = [gen.st_expr(gen_.expr(min(depth, 4)), rng.choice(VARS)) for _ in range(rng.choice([0, 0, 1, 2]))]
                statements.append(gen.st_return(gen_.expr(depth)))
                if mode < 0.65 and not BIG[0]:
                    # the data functions evaluate in expression mode, with the row as locals
                    expr = Gen(rng, True).expr(min(depth, 3))
                    exprs[gen.render_expr(expr)] = expr
                    rows = gen.call('arrayNew', *[
                        gen.call('objectNew', *[item for name in rng.sample(VARS, 2) for item in (gen.string(name), gen_.leaf())])
                        for _ in range(rng.randrange(1, 3))])
                    data_call = gen.call('dataFilter', rows, gen.string(gen.render_expr(expr))) if rng.random() < 0.5 else \
                        gen.call('dataCalculatedField', rows, gen.string('v9'), gen.string(gen.render_expr(expr)))
                    statements[-1] = gen.st_return(data_call)
                models.append({'statements': statements})
                call = {'model': len(models) - 1}
                if rng.random() < 0.4 and not BIG[0]:
                    call['parse'] = True
                with_library = True
            if share and globals_:
                call['globals'] = 0
            elif calls and rng.random() < 0.3:
                call['globals'] = calls[-1]['globals']
            else:
                bound = entries(rng, VARS)
                if not with_library and rng.random() < 0.7:
                    bound += [[name, {'$': 'fn', 'v': name}] for name in SIMPLE]
                if rng.random() < 0.06:
                    bound.append([rng.choice(['null', 'true', 'false', 'abs']), rng.choice([7, None, 'kw'])])
                globals_.append([*hosts, *bound])
                call['globals'] = len(globals_) - 1
            calls.append(call)
        session = {'calls': calls}
        if count > 1 and not share:
            session['preempt'] = gen_preempts(rng, rng.randrange(1, 8), 2500)
        sessions.append(session)
    table = {
        'hV': [behaviour(rng, evals[:n_nested]) for _ in range(rng.randrange(1, 14))],
        'hW': [behaviour(rng, evals[:n_nested]) for _ in range(rng.randrange(1, 10))],
        'hE': [echo(rng) for _ in range(rng.randrange(1, 8))],
    }
    return {
        'models': models, 'eval': evals, 'exprs': exprs, 'globals': globals_, 'hosts': table, 'sessions': sessions, 'share': share,
        'immutable': True, 'schedule': gen_schedule(rng, 60), 'latency': latency(rng)
    }


# -- aliases --------------------------------------------------------------------------------------------------------------

TYPED = {
    'atan2': ['num', 'num'], 'charCodeAt': ['str', 'small'], 'date': ['year', 'small', 'small', 'small', 'small', 'small', 'small'],
    'endsWith': ['str', 'str'], 'indexOf': ['str', 'str', 'small'], 'lastIndexOf': ['str', 'str', 'small'], 'fixed': ['num', 'small', 'bool'],
    'fromCharCode': ['code', 'code'], 'len': ['str'], 'lower': ['str'], 'upper': ['str'], 'trim': ['str'], 'max': ['any', 'any', 'any'],
    'min': ['any', 'any', 'any'], 'parseInt': ['str', 'radix'], 'parseFloat': ['str'], 'pi': [], 'rand': [], 'now': [], 'today': [],
    'replace': ['str', 'str', 'str'], 'rept': ['str', 'small'], 'round': ['num', 'small'], 'slice': ['str', 'small', 'small'],
    'startsWith': ['str', 'str'], 'text': ['any'], 'day': ['dt'], 'hour': ['dt'], 'millisecond': ['dt'], 'minute': ['dt'], 'month': ['dt'],
    'second': ['dt'], 'year': ['dt'], 'log': ['num', 'num']
}


def alias_value(rng, kind):
    if kind == 'small':
        return rng.choice([0, 1, 2, 3, 1.0, 5, 12])
    if kind == 'year':
        return rng.randrange(1950, 2050)
    if kind == 'code':
        return rng.randrange(32, 300)
    if kind == 'radix':
        return rng.choice([2, 8, 10, 16, 36])
    if kind == 'num':
        return rng.choice([0, 1, -1, 0.5, -0.5, 2, 10, 3.25, 1000, -2.5, 1e10, 255])
    if kind == 'str':
        return rng.choice(['', 'abc', 'ab', 'b', '12', '-7', '1.5', ' x ', 'ABC', 'zz', 'ff', 'aaaa'])
    if kind == 'dt':
        return gen.enc_dt(rng)
    if kind == 'bool':
        return rng.random() < 0.5
    return gen.enc_value(rng, 1, ('mathAbs',))


def generate_alias(rng):
    cases = []
    for _ in range(rng.randrange(4, 16)):
        name = rng.choice(sorted(ALIASES))
        kinds = TYPED.get(name, ['num'])
        args = [alias_value(rng, kind) for kind in kinds]
        roll = rng.random()
        if roll < 0.2 and args:
            args.pop()
        elif roll < 0.4 and args:
            args[rng.randrange(len(args))] = gen.enc_value(rng, 1, ('mathAbs',), ('null', 'bool', 'num', 'str', 'dt', 'arr'))
        elif roll < 0.45:
            args.append(1)
        cases.append([name, args, rng.randrange(1 << 30), rng.randrange(-10**15, 2 * 10**15)])
    return {'alias': cases, 'debug': rng.random() < 0.4}


def bounded(enc):
    """(giant counts would only measure memory)"""
    if isinstance(enc, dict) and enc.get('$') == 'int':
        return False
    return isinstance(enc, bool) or not isinstance(enc, (int, float)) or abs(enc) < 1000000


def run_alias(scn, stats):
    import_target()
    from bare_script import evaluate_expression  # pylint: disable=import-outside-toplevel
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    hist = []
    for name, args, seed, clock in scn['alias']:
        if name in ('rept', 'date', 'fixed', 'round') and not all(bounded(arg) for arg in args):
            continue
        results = []
        for alias in (True, False):
            random.seed(seed)
            CLOCK.set(clock)
            logs = []
            options = {'logFn': logs.append, 'debug': scn['debug']}
            globals_ = {f'arg{ix}': decode(arg, SCRIPT_FUNCTIONS.get) for ix, arg in enumerate(args)}
            func = name
            if not alias:
                func = 'aliased'
                globals_['aliased'] = SCRIPT_FUNCTIONS[ALIASES[name]]
            options['globals'] = globals_
            expr = gen.call(func, *[gen.var(f'arg{ix}') for ix in range(len(args))])
            try:
                result = canon(evaluate_expression(expr, options, None, True))
            except Exception as exc:  # pylint: disable=broad-exception-caught
                raise Violation('alias', f'{name}{args!r} raised {type(exc).__name__}: {exc}') from exc
            results.append([result, len(logs), canon(random.random())])
        CLOCK.off()
        stats.hit('alias.' + name)
        if any(logs):
            stats.hit('fault.bad-argument')
        if results[0] != results[1]:
            raise Violation('alias', f'{name}{args!r} is {results[0]!r}, but {ALIASES[name]} is {results[1]!r}')
        if name == 'now' and CLOCK.available and not args:
            expected = canon(datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=clock))
            if results[0][0] != expected and results[0][0][:-3] != expected[:-3]:
                raise Violation('alias', f'now() is {results[0][0]!r} when the clock says {expected!r}')
        hist.append([name, results[0]])
    return {'history': hist, 'keys': [f'alias {name}' for name, *_ in scn['alias']], 'nontrivial': hist or None}


def run(scn, stats):
    if 'alias' in scn:
        return run_alias(scn, stats)
    real, ref = execute(scn, stats)
    kinds = outcome_kinds(real)
    for kind in kinds:
        stats.hit('outcome.' + kind)
    hist = history(real)
    return {'history': hist, 'keys': [f'{len(scn["sessions"])} sessions/{kind}' for kind in kinds],
            'nontrivial': hist if event_count(ref) >= 2 else None}
