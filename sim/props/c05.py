"""C05: runtime errors are contained. Faults are injected into every call; only documented exceptions may escape."""

import re

from .. import gen
from ..core import CAP, InvalidScenario, Violation, gen_preempts, gen_schedule
from ..engine import ERROR_NAMES, execute, history, host_error
from ..env import import_target
from ..ref import is_num, type_of
from ..values import canon, decode, is_bare_value
from .common import ASSUME, REAL_ALL, STUB_HOST, event_count, latency, outcome_kinds
from . import c03

ID = 'C05'
RUNS = {'quick': 60000, 'thorough': 600000}
RULE = ('(a) seeded programs in debug mode whose host functions, callbacks, fetches and includes fail with any exception class before or after their '
        'effect, refined against the reference; (b) histories of calls of every library function with right, wrong-typed, missing, surplus, huge, '
        'cyclic and very deep arguments, failing callbacks and absent options; (c) operators on adversarial operands; (d) runaway recursion and '
        'includes. Non-trivial: at least one injected fault or rejected argument (distinct by history)')
REAL = REAL_ALL
STUB = STUB_HOST
ASSUMPTIONS = [*ASSUME, 'logFn does not raise in debug mode; host exceptions have a working __str__; KeyboardInterrupt and SystemExit are not faults',
               'Work that merely takes very long (giant integer powers, giant repeat counts) is outside the workload']

# -- the library, as documented: argument types and failure value ----------------------------------------------------------

SPEC = {
    'arrayCopy': ['array'], 'arrayDelete': ['array', 'int'], 'arrayExtend': ['array', 'array'], 'arrayGet': ['array', 'int'],
    'arrayIndexOf': ['array', 'any', 'int='], 'arrayJoin': ['array', 'string'], 'arrayLastIndexOf': ['array', 'any', 'int?'],
    'arrayLength': ['array'], 'arrayNew': None, 'arrayNewSize': ['int=', 'any'], 'arrayPop': ['array'], 'arrayPush': ['array', 'rest'],
    'arraySet': ['array', 'int', 'any'], 'arrayShift': ['array'], 'arraySlice': ['array', 'int=', 'int?'], 'arraySort': ['array', 'function?'],
    'dataAggregate': ['data', 'aggregation'], 'dataCalculatedField': ['data', 'string', 'expr', 'object?'],
    'dataFilter': ['data', 'expr', 'object?'], 'dataJoin': ['data', 'data', 'expr', 'expr?', 'bool', 'object?'], 'dataParseCSV': None,
    'dataSort': ['data', 'sorts'], 'dataTop': ['data', 'int', 'array?'], 'dataValidate': ['data', 'bool'],
    'datetimeDay': ['datetime'], 'datetimeHour': ['datetime'], 'datetimeISOFormat': ['datetime', 'bool'], 'datetimeISOParse': ['string'],
    'datetimeMillisecond': ['datetime'], 'datetimeMinute': ['datetime'], 'datetimeMonth': ['datetime'],
    'datetimeNew': ['year', 'int', 'int', 'int=', 'int=', 'int=', 'int='], 'datetimeNow': None, 'datetimeSecond': ['datetime'],
    'datetimeToday': None, 'datetimeYear': ['datetime'], 'jsonParse': ['json'], 'jsonStringify': ['any', 'int?'], 'mathAbs': ['number'],
    'mathAcos': ['number'], 'mathAsin': ['number'], 'mathAtan': ['number'], 'mathAtan2': ['number', 'number'], 'mathCeil': ['number'],
    'mathCos': ['number'], 'mathFloor': ['number'], 'mathLn': ['number'], 'mathLog': ['number', 'number='], 'mathMax': None, 'mathMin': None,
    'mathPi': None, 'mathRandom': None, 'mathRound': ['number', 'int='], 'mathSign': ['number'], 'mathSin': ['number'], 'mathSqrt': ['number'],
    'mathTan': ['number'], 'numberParseFloat': ['string'], 'numberParseInt': ['string', 'int='], 'numberToFixed': ['number', 'int=', 'bool'],
    'objectAssign': ['object', 'object'], 'objectCopy': ['object'], 'objectDelete': ['object', 'string'], 'objectGet': ['object', 'string', 'any'],
    'objectHas': ['object', 'string'], 'objectKeys': ['object'], 'objectNew': None, 'objectSet': ['object', 'string', 'any'],
    'regexEscape': ['string'], 'regexMatch': ['regex', 'string'], 'regexMatchAll': ['regex', 'string'], 'regexNew': ['pattern', 'string?'],
    'regexReplace': ['regex', 'string', 'string'], 'regexSplit': ['regex', 'string'], 'schemaParse': None,
    'schemaParseEx': ['any', 'object?', 'string='], 'schemaTypeModel': None, 'schemaValidate': ['object', 'string', 'any'],
    'schemaValidateTypeModel': ['object'], 'stringCharCodeAt': ['string', 'int'], 'stringEndsWith': ['string', 'string'],
    'stringFromCharCode': None, 'stringIndexOf': ['string', 'string', 'int='], 'stringLastIndexOf': ['string', 'string', 'int?'],
    'stringLength': ['string'], 'stringLower': ['string'], 'stringNew': ['any'], 'stringRepeat': ['string', 'int'],
    'stringReplace': ['string', 'string', 'string'], 'stringSlice': ['string', 'int', 'int?'], 'stringSplit': ['string', 'string'],
    'stringStartsWith': ['string', 'string'], 'stringTrim': ['string'], 'stringUpper': ['string'], 'systemBoolean': ['any'],
    'systemCompare': ['any', 'any'], 'systemFetch': ['any'], 'systemGlobalGet': ['string', 'any'], 'systemGlobalSet': ['string', 'any'],
    'systemIs': ['any', 'any'], 'systemLog': ['any'], 'systemLogDebug': ['any'], 'systemPartial': ['function', 'rest'], 'systemType': ['any'],
    'urlEncode': ['string'], 'urlEncodeComponent': ['string'],
}
FAILURE = {'arrayIndexOf': -1, 'arrayLastIndexOf': -1, 'stringIndexOf': -1, 'stringLastIndexOf': -1, 'arrayLength': 0, 'stringLength': 0,
           'objectHas': False}
CLASS = {'array': 'array', 'data': 'array', 'sorts': 'array', 'object': 'object', 'aggregation': 'object', 'string': 'string', 'expr': 'string',
         'json': 'string', 'pattern': 'string', 'int': 'number', 'year': 'number', 'number': 'number', 'datetime': 'datetime', 'regex': 'regex',
         'function': 'function'}
BOUNDED = {'arrayNewSize': 10000, 'stringRepeat': 10000, 'datetimeNew': 1000000, 'numberToFixed': 200, 'mathRound': 200, 'jsonStringify': 50,
           'dataTop': 1e9}
NAMES = sorted(SPEC)


def must_fail(name, args):
    """Do the documented argument types reject these argument values (for certain)?"""
    spec = SPEC[name]
    if spec is None:
        return False
    for index, item in enumerate(spec):
        kind = item.rstrip('?=')
        if kind == 'rest':
            return False
        if kind not in CLASS:
            continue
        if index >= len(args):
            if item == kind:
                return True
        elif args[index] is None:
            if not item.endswith('?'):
                return True
        elif type_of(args[index]) != CLASS[kind]:
            return True
        elif kind in ('int', 'year'):
            value = args[index]
            if value != value or value in (float('inf'), float('-inf')) or value != int(value):
                return True
            if value < 0 and name != 'datetimeNew':
                return True
    return len(args) > len(spec)


# -- argument values ----------------------------------------------------------------------------------------------------

EXPRS = ['a', 'a + 1', 'a > b', 'a / 0', 'nofn(a)', 'a +', '', 'if(a, b, c)', 'upper(a)', "a == 'x'", 'zz', '(a', 'abs(a, b)', 'hFail(a)']
PATTERNS = ['a+', '(', '[a-z]*', '(?<n>b)', 'x|y', '(a)(b)?', '\\d', '*', '$^']
SCHEMA = ['struct Ex\n    int a\n', 'struct Ex\n    Missing a\n', 'garbage', '# doc\n', 'enum Ex\n    a\n    b\n']
JSON = ['1', '{"a":[1,2]}', '[', 'null', '"x"', '{"a"', 'NaN', '1e999', '', '[' * 3000, '-0', '{"a":{"a":1}}', '1' * 5000]
TEXTS = ['', 'a', 'abc', 'a,b\n1,2', '2024-02-30', '2024-01-02T03:04:05Z', '9999-12-31T23:59:59-12:00', '0001-01-01T00:00:00+12:00', '1' * 40,
         '1_0', '\u00e9\U0001f600', '\ud800', 'inf', 'nan', '-7', '1.5', ' 5 ', '%', '$1', '$<n>', '\\1', 'a.b/c?d', 'Ex', 'flags', 'i', 'im', 'zz', '0x10']
HUGE = [10**400, -10**400, 10**30, 2**64, 1e308, -1e308, 5e-324]


def enc_number(rng):
    roll = rng.random()
    if roll < 0.5:
        return rng.choice([0, 1, 2, 3, -1, 5, 10, 0.5, -0.5, 1.0, 2.0, 12, 100, -0.0, 1.5])
    if roll < 0.65:
        value = rng.choice(HUGE)
        return {'$': 'int', 'v': str(value)} if isinstance(value, int) else value
    if roll < 0.7:
        return {'$': 'num', 'v': rng.choice(['inf', '-inf', 'nan'])}
    if roll < 0.73:
        return {'$': 'int', 'v': '9' * 4290}
    return rng.randrange(-300, 300) / rng.choice([1, 1, 4])


def enc_any(rng, depth=2):
    roll = rng.random()
    if roll < 0.1:
        return None
    if roll < 0.17:
        return rng.random() < 0.5
    if roll < 0.4:
        return enc_number(rng)
    if roll < 0.55:
        return rng.choice(TEXTS)
    if roll < 0.63:
        return rng.choice([gen.enc_dt(rng), {'$': 'date', 'v': [1, 1, 1]}, {'$': 'dt', 'v': [9999, 12, 31, 23, 59, 59, 999999]},
                           {'$': 'dt', 'v': [1, 1, 1, 0, 0, 0, 0]}])
    if roll < 0.75:
        return [enc_any(rng, depth - 1) for _ in range(rng.randrange(4))] if depth > 0 else []
    if roll < 0.86:
        keys = rng.sample(['a', 'b', 'c', 'url', 'field', 'name'], rng.randrange(4))
        return {'$': 'obj', 'v': [[key, enc_any(rng, depth - 1)] for key in keys] if depth > 0 else []}
    if roll < 0.91:
        return {'$': 'fn', 'v': rng.choice(['hOk', 'hFail', 'hMut', 'hSelf', 'hStop' if rng.random() < 0.2 else 'hOk'])}
    if roll < 0.95:
        return {'$': 're', 'v': rng.choice(['a+', '', '(a)(?P<n>b)?', 'x*'])}
    if roll < 0.975:
        return {'$': 'cycle', 'v': rng.choice(['array', 'object'])}
    return {'$': 'deep', 'v': rng.choice([60, 400, 3000])}


def enc_row(rng):
    keys = rng.sample(['a', 'b', 'c'], rng.randrange(1, 4))
    kind = rng.choice(['num', 'str', 'mixed'])
    return {'$': 'obj', 'v': [[key, enc_any(rng, 1) if kind == 'mixed' else rng.randrange(5) if kind == 'num' else rng.choice(['x', 'y', '3'])]
                              for key in keys]}


def enc_kind(rng, item):
    """A value of the documented type (the values themselves may still be invalid)."""
    kind = item.rstrip('?=')
    if kind == 'array':
        return [enc_any(rng, 1) for _ in range(rng.randrange(4))]
    if kind == 'data':
        return [enc_row(rng) for _ in range(rng.randrange(4))]
    if kind == 'sorts':
        return [[rng.choice(['a', 'b', 'zz', 5]), *([rng.choice([True, False, None])] if rng.random() < 0.5 else [])] for _ in range(rng.randrange(3))]
    if kind == 'aggregation':
        measures = [{'$': 'obj', 'v': [['field', rng.choice(['a', 'b', 'zz'])],
                                       ['function', rng.choice(['sum', 'average', 'count', 'max', 'min', 'stddev', 'nope'])]]}
                    for _ in range(rng.randrange(3))]
        return {'$': 'obj', 'v': [['measures', measures], *([['categories', [rng.choice(['a', 'c'])]]] if rng.random() < 0.6 else [])]}
    if kind == 'object':
        return rng.choice([{'$': 'obj', 'v': []}, enc_row(rng), {'$': 'cycle', 'v': 'object'}])
    if kind == 'string':
        return rng.choice(TEXTS)
    if kind == 'expr':
        return rng.choice(EXPRS)
    if kind == 'json':
        return rng.choice(JSON)
    if kind == 'pattern':
        return rng.choice(PATTERNS)
    if kind == 'int':
        return rng.choice([0, 0, 1, 1, 2, 3.0, 5, 11, 29, -1, 0.5])
    if kind == 'year':
        return rng.choice([2024, 1970, 100, 9999, 2023.0, 10000])
    if kind == 'number':
        return enc_number(rng)
    if kind == 'datetime':
        return gen.enc_dt(rng)
    if kind == 'regex':
        return {'$': 're', 'v': rng.choice(['a+', '(a)(?P<n>b)?', 'x*', ''])}
    if kind == 'function':
        return {'$': 'fn', 'v': rng.choice(['hOk', 'hFail', 'hMut', 'hSelf'])}
    if kind == 'bool':
        return rng.choice([True, False, None, 1, ''])
    return enc_any(rng)


def gen_args(rng, name):
    spec = SPEC[name]
    if spec is None:
        if name == 'schemaParse':
            return [rng.choice(SCHEMA) if rng.random() < 0.7 else enc_any(rng) for _ in range(rng.randrange(3))]
        if name == 'dataParseCSV':
            return [rng.choice(['a,b\n1,2', 'a,b', '1,2,3', 'a,a\n1', '"', 'null,x', '2024-01-01,true', 5, None]) for _ in range(rng.randrange(5))]
        return [enc_any(rng) for _ in range(rng.randrange(5))]
    kinds = spec if spec[-1] != 'rest' else [*spec[:-1], *['any'] * rng.randrange(3)]
    args = [enc_kind(rng, kind) for kind in kinds]
    if name == 'schemaParseEx' and rng.random() < 0.7:
        args[0] = rng.choice(SCHEMA)
    roll = rng.random()
    if roll < 0.3 and args:
        args[rng.randrange(len(args))] = enc_any(rng)
    elif roll < 0.4:
        del args[rng.randrange(len(args) + 1):]
    elif roll < 0.47:
        args.append(enc_any(rng))
    return args


def bounded(enc, limit):
    if isinstance(enc, dict) and enc.get('$') in ('int', 'num'):
        return enc['$'] == 'num'
    return isinstance(enc, bool) or not isinstance(enc, (int, float)) or abs(enc) <= limit


def too_long(left, oper, right):
    """(an integer power with more than 20000 bits)"""
    return oper == '**' and all(isinstance(item, int) and not isinstance(item, bool) for item in (left, right)) and \
        left.bit_length() * abs(right) > 20000


OPS = ['+', '-', '*', '/', '%', '**', '==', '<', '>=', '!=', '&&', '||']


def generate_lib(rng):
    """A history of library calls and operators, each followed by a marker."""
    steps = []
    for _ in range(rng.randrange(4, 14)):
        roll = rng.random()
        if roll < 0.72:
            name = rng.choice(NAMES)
            args = gen_args(rng, name)
            if name in BOUNDED and not all(bounded(arg, BOUNDED[name]) for arg in args):
                args = [arg if bounded(arg, BOUNDED[name]) else 3 for arg in args]
            steps.append(['call', name, [['r', rng.randrange(len(steps))] if steps and rng.random() < 0.12 and name not in BOUNDED else arg for arg in args]])
        elif roll < 0.94:
            pick = rng.choice([enc_any, lambda rng_: enc_number(rng_), lambda rng_: gen.enc_dt(rng_)])
            pick2 = rng.choice([enc_any, lambda rng_: enc_number(rng_)])
            steps.append(['op', rng.choice(OPS), [pick(rng), pick2(rng)] if rng.random() < 0.5 else [pick2(rng), pick(rng)]])
        elif roll < 0.97:
            steps.append(['neg', rng.choice('!-'), [enc_any(rng)]])
        else:
            steps.append(['call', rng.choice(['hFail', 'hSelf', 'hMut', 'hOk']), [enc_any(rng) for _ in range(rng.randrange(3))]])
    return {
        'lib': steps,
        'debug': rng.choice([True, True, True, False, None]),
        'log': rng.choice([True] * 18 + [False, 'null']),
        'fetch': rng.choice([None, 'text', 'none', *ERROR_NAMES]),
        'errors': [rng.choice(ERROR_NAMES) for _ in range(3)],
        'expression': rng.random() < 0.25,
        'options': rng.choice(['full', 'full', 'full', 'bare']),
    }


DEEP = [
    'function ff(nn):\n    return ff(nn + 1)\nendfunction\nreturn ff(0)\n',
    'function ff(nn):\n    return gg(nn) + 1\nendfunction\nfunction gg(nn):\n    return ff(nn)\nendfunction\nreturn ff(0)\n',
    'function ff(aa, bb):\n    return arrayIndexOf(arrayNew(1), ff)\nendfunction\nreturn ff(0)\n',
    'function ff(aa, bb):\n    arraySort(arrayNew(2, 1), ff)\n    return 0\nendfunction\nreturn ff(0)\n',
    'function ff():\n    pp = systemPartial(ff, 1)\n    return pp()\nendfunction\nreturn ff()\n',
    "function ff():\n    return dataFilter(arrayNew(objectNew('aa', 1)), 'ff()')\nendfunction\nreturn ff()\n",
    "include 'deep.bare'\n",
    "function ff():\n    include 'deep.bare'\nendfunction\nff()\n",
    "include <deep.bare>\nreturn 1\n",
]


def generate_deep(rng):
    roll = rng.random()
    if roll < 0.5:
        text = rng.choice(DEEP)
    else:
        count = rng.choice([50, 200, 400, 700, 950, 1500])
        part = rng.choice(['1 + ', '(', '!', '-', 'fn2(', 'if(1, ', "'a' + ", '1 && ', '0 || ', 'arrayNew('])
        close = {'(': ')', 'fn2(': ')', 'if(1, ': ')', 'arrayNew(': ')'}.get(part, '')
        text = 'return ' + part * count + '1' + close * count + '\n'
    return {'deep': text, 'debug': rng.random() < 0.4, 'depth': rng.choice([0, 0, 100, 300, 500])}


# -- (a) programs ---------------------------------------------------------------------------------------------------------

class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.tag = 0

    def next_tag(self):
        self.tag += 1
        return self.tag

    def value(self):
        rng = self.rng
        return rng.choice([gen.num(rng.randrange(4)), gen.string(rng.choice(['a', ''])), gen.var(rng.choice(['xx', 'yy', 'arr', 'obj', 'null', 'fA', 'hF'])),
                           gen.call('hV', gen.num(self.next_tag()))])

    def callback(self):
        return gen.var(self.rng.choice(['hF', 'hV', 'fA', 'fB', 'hM', 'xx']))

    def fault(self):
        """A call that may fail."""
        rng = self.rng
        roll = rng.random()
        if roll < 0.25:
            return gen.call('hF', gen.num(self.next_tag()), self.value())
        if roll < 0.4:
            return gen.call(rng.choice(['fA', 'fB']), self.value(), gen.call('hF', gen.num(self.next_tag())))
        if roll < 0.5:
            return gen.call(rng.choice(['arrayIndexOf', 'arrayLastIndexOf']), gen.call('arrayNew', self.value(), self.value()), self.callback())
        if roll < 0.56:
            return gen.call('systemPartial', self.callback(), self.value())
        if roll < 0.62:
            return gen.call('hC', gen.call('systemPartial', self.callback(), self.value()), self.value())
        if roll < 0.68:
            return gen.call('systemFetch', rng.choice([gen.string(rng.choice(['a.txt', 'b.txt', 'missing.txt'])), self.value(),
                                                       gen.call('arrayNew', gen.string('a.txt'), gen.string('b.txt'))]))
        if roll < 0.74:
            return gen.call('arrayGet', gen.var('arr'), gen.num(rng.choice([0, 1, 7])))
        if roll < 0.8:
            return gen.call(rng.choice(['arrayLength', 'stringLength', 'objectHas', 'objectGet', 'stringIndexOf', 'arrayPop', 'arraySet', 'mathSqrt',
                                        'numberParseInt', 'stringSplit', 'arraySlice', 'objectNew', 'systemType', 'stringRepeat']),
                            *[self.value() for _ in range(rng.randrange(4))])
        if roll < 0.85:
            return gen.call(rng.choice(['xx', 'yy', 'obj']), self.value())
        if roll < 0.9:
            return gen.binary(rng.choice(['/', '%', '**', '-', '+', '<']), self.value(), self.value())
        if roll < 0.95:
            return gen.call('dataFilter', gen.var('rows'), gen.string(rng.choice(sorted(DATA_EXPRS))))
        return gen.call('dataCalculatedField', gen.var('rows'), gen.string('cc'), gen.string(rng.choice(sorted(DATA_EXPRS))))

    def statements(self, length):
        rng = self.rng
        out = []
        for _ in range(length):
            roll = rng.random()
            if roll < 0.6:
                out.append(gen.st_expr(self.fault(), rng.choice(['xx', 'yy', None])))
            elif roll < 0.75:
                out.append(gen.st_expr(gen.call('hL', gen.num(self.next_tag()), gen.var('xx'), gen.var('yy'))))
            elif roll < 0.85:
                out.append(gen.st_expr(gen.call('hL', self.fault(), self.fault())))
            elif roll < 0.92:
                out.append(gen.st_jump('end', gen.unary('!', gen.call('hJ', self.fault()))))
            else:
                out.append(gen.st_expr(gen.call('if', self.fault(), self.fault(), self.fault()), 'xx'))
        out.append({'label': 'end'})
        return out


DATA_EXPRS = {gen.render_expr(expr): expr for expr in (
    gen.call('hF', gen.var('aa')), gen.binary('/', gen.var('aa'), gen.var('bb')), gen.call('upper', gen.var('aa')))}


def generate_program(rng):
    gen_ = Gen(rng)
    functions = []
    for name in ('fA', 'fB'):
        # (no calls of script functions inside: recursion has its own workload)
        body = [statement for statement in gen_.statements(rng.randrange(1, 4)) if 'fA' not in str(statement) and 'fB' not in str(statement)]
        if not any('label' in statement for statement in body):
            body.append({'label': 'end'})
        functions.append(gen.st_function(name, ['aa', 'bb'], [*body, gen.st_return(gen.var(rng.choice(['aa', 'bb', 'xx'])))]))
    main = gen_.statements(rng.randrange(2, 9))
    main.append(gen.st_return(gen.var('xx')))
    include = []
    vfs = {'a.txt': [{'text': 'text a'}], 'b.txt': [rng.choice([{'text': ''}, {'fault': 'none'}, {'fault': gen.error_class(rng)}])]}
    models = [{'statements': [*functions, *include, *main]}]
    if rng.random() < 0.3:
        models.append({'statements': gen_.statements(rng.randrange(1, 4))})
        if rng.random() < 0.5:      # (something for the linter)
            models[1]['statements'].append(gen.st_expr(gen.var('xx')))
        vfs['inc.bare'] = [rng.choice([{'model': 1}, {'model': 1}, {'fault': gen.error_class(rng)}, {'fault': 'none'},
                                       {'model': None, 'text': 'if x:\n'}])]
        main.insert(rng.randrange(len(main)), gen.st_include(['inc.bare', False]))
        models[0]['statements'] = [*functions, *main]
    rows = [{'$': 'obj', 'v': [['aa', gen.enc_value(rng, 0, ('hV',), ('num', 'str', 'null', 'bool'))], ['bb', rng.choice([0, 1, 2, 'x', None])]]}
            for _ in range(rng.randrange(1, 4))]
    count = rng.choice([1, 1, 2, 3])
    globals_ = []
    sessions = []
    for _ in range(count):
        calls = []
        for _ in range(rng.choice([1, 1, 2])):
            globals_.append([
                *[[name, {'$': 'fn', 'v': name}] for name in ('hF', 'hV', 'hC', 'hL', 'hJ', 'hM')], ['rows', rows],
                ['arr', [enc_small(rng) for _ in range(rng.randrange(3))]], ['obj', {'$': 'obj', 'v': [['a', 1]]}],
                ['xx', enc_small(rng)], ['yy', enc_small(rng)]])
            calls.append({'model': 0, 'globals': len(globals_) - 1, 'debug': rng.random() < 0.8})
        session = {'calls': calls}
        if count > 1:
            session['preempt'] = gen_preempts(rng, rng.randrange(1, 8), 3000)
        sessions.append(session)
    fails = []
    for _ in range(rng.randrange(2, 10)):
        roll = rng.random()
        entry = {'ret': enc_small(rng)}
        if roll < 0.55:
            entry = {'raise': gen.error_class(rng), 'after': rng.random() < 0.5, 'do': [['setg', rng.choice(['xx', 'yy']), enc_small(rng)]]}
        elif roll < 0.62:
            entry = {'raise': 'ValueArgsError:' + str(rng.randrange(9))}
        elif roll < 0.65:
            entry = {'raise': 'BareScriptRuntimeError:host stop'}
        elif roll < 0.68:
            entry = {'raise': 'BareScriptParserError:host syntax'}
        fails.append(entry)
    return {
        **({'nolog': rng.choice(['missing', 'null'])} if rng.random() < 0.1 else {}),
        'models': models, 'globals': globals_, 'exprs': DATA_EXPRS, 'vfs': vfs, 'sessions': sessions, 'debug_lines': True, 'check_values': True,
        'immutable': True, 'missing_raises': rng.random() < 0.5,
        'hosts': {
            'hF': fails, 'hL': [{}], 'hJ': [{'ret': rng.random() < 0.8} for _ in range(6)],
            'hV': [{'ret': enc_small(rng)} for _ in range(6)],
            'hC': [{'do': [['call', 0, [{'$': 'arg', 'v': 1}]]], **({'raise': gen.error_class(rng), 'after': True} if rng.random() < 0.2 else {})}
                   for _ in range(3)],
            'hM': [{'do': [['push', 0, 5]], 'raise': gen.error_class(rng), 'after': True}, {'do': [['setkey', 0, 'k', 1]], 'ret': None}],
        },
        'schedule': gen_schedule(rng, 60), 'latency': latency(rng),
    }


def enc_small(rng):
    roll = rng.random()
    if roll < 0.15:
        return {'$': 'int', 'v': str(rng.choice([1, -1]) * rng.randrange(10**30))}
    if roll < 0.2:
        return {'$': 'fn', 'v': 'hV'}
    return gen.enc_value(rng, 1, ('hV',))


def generate_expressions(rng):
    """C03's half-evaluated expressions, in debug mode, with integers of any size."""
    scn = c03.generate(rng, 0, 'quick')
    for session in scn['sessions']:
        for call in session['calls']:
            call['debug'] = True
            call.pop('parse', None)
    scn['debug_lines'] = True
    scn['check_values'] = True
    if not scn['exprs']:
        for table in scn['hosts'].values():
            for entry in table:
                if 'ret' in entry and rng.random() < 0.15:
                    entry['ret'] = rng.choice([{'$': 'int', 'v': str(rng.choice([10**400, 10**30, -10**25, 2**63]))}, 0, -8, 0.5, -0.5])
    return scn


def generate(rng, index, tier):
    kind = index % 8
    if kind in (0, 1, 2):
        return generate_program(rng)
    if kind == 3:
        return generate_expressions(rng)
    if kind == 4 and index % 3 == 0:
        return generate_deep(rng)
    return generate_lib(rng)


# -- execution ------------------------------------------------------------------------------------------------------------

def run_lib(scn, stats):
    import_target()
    from bare_script import BareScriptRuntimeError, evaluate_expression, execute_script  # pylint: disable=import-outside-toplevel
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    events = []
    seen = {'fail': 0}

    def h_fail(args, options):
        seen['fail'] += 1
        stats.hit('fault.host')
        raise host_error(scn['errors'][seen['fail'] % len(scn['errors'])])

    def h_mut(args, options):
        for arg in args:
            if isinstance(arg, list) and len(arg) < 50:
                arg.append(1)
            elif isinstance(arg, dict):
                arg['k'] = 1
        return args[0] if args else None

    def h_stop(args, options):
        raise BareScriptRuntimeError('host stop')

    hosts = {'hFail': h_fail, 'hMut': h_mut, 'hStop': h_stop, 'hOk': lambda args, options: 1, 'hSelf': lambda args, options: args[5]}

    def fn_of(name):
        return hosts[name] if name in hosts else SCRIPT_FUNCTIONS[name]

    def mark(args, options):
        events.append(('mark', args[0], args[1]))

    def fetch(request):
        if scn['fetch'] == 'text':
            return 'response'
        if scn['fetch'] == 'none':
            return None
        stats.hit('fault.fetch')
        raise host_error(scn['fetch'])

    globals_ = dict(hosts)
    globals_['mark'] = mark
    statements = []
    before = []
    for ix, (kind, name, args) in enumerate(scn['lib']):
        vals = []
        names = []
        for iy, arg in enumerate(args):
            if isinstance(arg, list) and len(arg) == 2 and arg[0] == 'r':
                names.append(gen.var(f'r{arg[1]}'))
                vals.append(...)
                continue
            globals_[f'a{ix}x{iy}'] = decode(arg, fn_of)
            vals.append(globals_[f'a{ix}x{iy}'])
            names.append(gen.var(f'a{ix}x{iy}'))
        if kind == 'op':
            if too_long(vals[0], name, vals[1]):
                raise InvalidScenario('size')
            expr = gen.binary(name, *names)
        elif kind == 'neg':
            expr = gen.unary(name, *names)
        else:
            expr = gen.call(name, *names)
        # (decided on the values as they are when the call is made: nothing changes them earlier, each call has its own)
        rejects = kind == 'call' and name in SPEC and ... not in vals and must_fail(name, vals)
        before.append((kind, name, rejects, vals[2] if name == 'objectGet' and len(vals) > 2 else None))
        statements.append((ix, expr))
    options = {}
    if scn['options'] == 'full':
        if scn['log'] == 'null':
            options.update({'logFn': None, 'fetchFn': None, 'urlFn': None})
        elif scn['log']:
            options['logFn'] = lambda text: events.append(('log', text))
        if scn['fetch'] is not None:
            options['fetchFn'] = fetch
        if scn['debug'] is not None:
            options['debug'] = scn['debug']
    error = None
    if not isinstance(scn.get('expression'), bool):
        raise InvalidScenario('expression')
    try:
        if scn['expression']:
            options['globals'] = globals_
            globals_.update((name, func) for name, func in SCRIPT_FUNCTIONS.items() if name not in globals_)
            if scn['options'] == 'bare':
                del options['globals']
            for ix, expr in statements:
                result = evaluate_expression(expr, options or None, globals_, False)
                globals_[f'r{ix}'] = result
                mark([ix, result], None)
        else:
            options['globals'] = globals_
            model = {'statements': []}
            for ix, expr in statements:
                model['statements'].append(gen.st_expr(expr, f'r{ix}'))
                model['statements'].append(gen.st_expr(gen.call('mark', gen.num(ix), gen.var(f'r{ix}'))))
            execute_script(model, options)
    except BareScriptRuntimeError as exc:
        error = str(exc)
        if error not in ('host stop', 'Undefined function "nofn"', 'Undefined function "hFail"'):
            raise Violation('runtime-error', f'unexpected BareScriptRuntimeError: {error[:200]}') from exc
    except Exception as exc:  # pylint: disable=broad-exception-caught
        at = len([event for event in events if event[0] == 'mark'])
        raise Violation('escaped-exception', f'{type(exc).__name__}: {str(exc)[:200]} escaped from {scn["lib"][at][:2]}') from exc

    marks = [event[1] for event in events if event[0] == 'mark']
    if marks != list(range(len(marks))) or (error is None and len(marks) != len(statements)):
        raise Violation('not-continued', f'execution did not continue after each call: {marks} of {len(statements)}')
    lines = []
    rejected = 0
    hist = []
    for event in events:
        if event[0] == 'log':
            lines.append(event[1])
            continue
        ix, result = event[1], event[2]
        kind, name, rejects, default = before[ix]
        if not is_bare_value(result):
            raise Violation('not-a-value', f'{name} returned {result!r:.100}, which is not a BareScript value')
        failed = [line for line in lines if f'Function "{name}" failed' in line]
        if rejects:
            rejected += 1
            stats.hit('fault.argument')
            want = default if name == 'objectGet' else FAILURE.get(name)
            if canon(result) != canon(want):
                raise Violation('failure-value', f'{name} with invalid arguments evaluated to {result!r:.100}, expected {want!r:.100}')
        if name in ('hFail', 'hSelf') and kind == 'call' and result is not None and not (name == 'hSelf' and len(scn['lib'][ix][2]) > 5):
            raise Violation('failure-value', f'{name} failed but evaluated to {result!r:.100}')
        reports = options.get('logFn') is not None and options.get('debug')
        if (rejects or name in ('hFail', 'hSelf')) and kind == 'call' and reports and not any(name in line for line in lines):
            raise Violation('not-reported', f'the failure of {name} was not reported in debug mode')
        if not reports and failed:
            raise Violation('reported', f'the failure of {name} was reported without debug mode')
        hist.append([name, canon(result) if len(str(canon(result))) < 300 else 'long', bool(failed)])
        lines = []
    if error:
        hist.append(error)
    for name in {step[1] for step in scn['lib'] if step[0] == 'call'}:
        stats.hit('call.' + name)
    return {'history': hist, 'keys': [f'{step[1]}/{"rejected" if info[2] else "accepted"}' for step, info in zip(scn['lib'], before)],
            'nontrivial': hist if rejected or seen['fail'] else None}


def run_deep(scn, stats):
    import_target()
    from bare_script import BareScriptParserError, BareScriptRuntimeError, execute_script, parse_script  # pylint: disable=import-outside-toplevel
    lines = []
    text, debug = scn['deep'], scn['debug']

    def execute_at(depth):
        if depth > 0:
            return execute_at(depth - 1)
        options = {'logFn': lines.append, 'fetchFn': lambda request: text, 'debug': debug, 'systemPrefix': 'sys/',
                   'globals': {'fn2': lambda args, options: args[0]}}
        return execute_script(parse_script(text), options)

    stats.hit('fault.runaway')
    try:
        value = execute_at(scn['depth'])
        outcome = ['value', canon(value)]
        if not is_bare_value(value):
            raise Violation('not-a-value', f'the result {value!r:.100} is not a BareScript value')
    except BareScriptRuntimeError:
        outcome = ['error', 'runtime']
    except BareScriptParserError:
        outcome = ['error', 'syntax']
    except Violation:
        raise
    except Exception as exc:  # pylint: disable=broad-exception-caught
        raise Violation('escaped-exception', f'{type(exc).__name__} escaped to the embedder') from exc
    return {'history': [scn['deep'][:60], outcome[0]], 'keys': ['deep ' + outcome[-1] if outcome[0] == 'error' else 'deep value'],
            'nontrivial': [scn['deep'][:200], scn['depth'], outcome[:1]]}


def run(scn, stats):
    if 'lib' in scn:
        return run_lib(scn, stats)
    if 'deep' in scn:
        return run_deep(scn, stats)
    real, ref = execute(scn, stats)
    kinds = outcome_kinds(real)
    for kind in kinds:
        stats.hit('outcome.' + kind)
    hist = history(real)
    faults = any(event[0] == 'dbg' for state in ref.sessions for event in state.events)
    return {'history': hist, 'keys': [f'{len(scn["sessions"])} sessions/{kind}' for kind in kinds], 'nontrivial': hist if faults else None}
