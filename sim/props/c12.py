"""C12: the int and float spellings of a number are interchangeable, whatever the host delivers."""

import random
import re

from .. import gen
from ..core import Violation, gen_schedule
from ..engine import RealWorld, history
from ..ref import WORK
from .common import REAL_ALL, STUB_HOST, event_count, latency

ID = 'C12'
RUNS = {'quick': 12000, 'thorough': 300000}
RULE = ('seeded histories of library calls and operators by 1-3 sessions over one pool of aliased values; every integral number the host delivers '
        '(globals, results of host functions and callbacks, literals of the model) is spelled int or float by a seeded spelling schedule, and the host '
        'stores and reloads the pool, with the spellings changed, between calls and inside callbacks; each scenario is run under the schedules '
        'all-int, all-float and mixed and the observed histories must be the same; non-trivial: at least 3 calls were given an integral number '
        '(distinct by history)')
REAL = REAL_ALL
STUB = STUB_HOST
ASSUMPTIONS = ['Integral numbers below 1e15 in magnitude; a larger result is compared as a float (1e-14) and replaced by the host before the next call',
               'Minus zero (which has no int spelling) is taken for zero', 'Clock, random and fetch functions are not called']

LIMIT = 10**15
ARRAYS = ['a0', 'a1', 'a2']
OBJECTS = ['o0', 'o1']
TABLES = ['t0', 't1']
STRINGS = ['s0', 's1']
NUMBERS = ['n0', 'n1', 'n2']
POOL = [*ARRAYS, *OBJECTS, *TABLES, *STRINGS, *NUMBERS, 'v0', 'd0']
FIELDS = ['a', 'b', 'c']
INTEGRAL = [0, 0, 1, 1, 2, 2, 3, 4, 5, 7, 10, -1, -2, 12, 31, 59, 60, 100, 255, 1000]
WIDE = [65536, 2**31, 2**32 + 1, 10**9, 10**12, 86400000, LIMIT - 1, 1 - LIMIT, -(2**31), 123456789]
FRACTIONS = [0.5, 1.5, -2.5, 0.1, 2.675, 1e-7, 1.005, -0.5, 1e21, 1e300, 99.995]
NEAR = [1e-12, -1e-12, 1 + 1e-10, 3 - 1e-10, 10 + 1e-9, -1 - 1e-12, 1e-320, 2.0000001, 999999.5]     # (almost integral)

# Argument kinds: a array, t table, o object, s string, k key, i index, c count, d digits, x radix, p code point, n number, v any value, m matcher,
# f comparator, e row expression, g aggregation, r regex, z datetime, q sorts, j JSON text, w number text, y CSV text, u types, l field list, b boolean;
# ? what follows may be missing, * the last kind repeats
SIGNATURES = {
    'arrayCopy': 'a', 'arrayDelete': 'ai', 'arrayExtend': 'aa', 'arrayGet': 'ai', 'arrayIndexOf': 'av?i', 'arrayJoin': 'as', 'arrayLastIndexOf': 'av?i',
    'arrayLength': 'a', 'arrayNew': '?v*', 'arrayNewSize': '?cv', 'arrayPop': 'a', 'arrayPush': 'a?v*', 'arraySet': 'aiv', 'arrayShift': 'a',
    'arraySlice': 'a?ii', 'arraySort': 'a?f',
    'dataAggregate': 'tg', 'dataCalculatedField': 'tke?o', 'dataFilter': 'te?o', 'dataJoin': 'tte?ebo', 'dataParseCSV': 'y', 'dataSort': 'tq',
    'dataTop': 'tc?l', 'dataValidate': 't?b',
    'datetimeDay': 'z', 'datetimeHour': 'z', 'datetimeISOFormat': 'z?b', 'datetimeISOParse': 's', 'datetimeMillisecond': 'z', 'datetimeMinute': 'z',
    'datetimeMonth': 'z', 'datetimeNew': 'YMD?hhhH', 'datetimeSecond': 'z', 'datetimeYear': 'z',
    'jsonParse': 'j', 'jsonStringify': 'v?d',
    'mathAbs': 'n', 'mathAcos': 'n', 'mathAsin': 'n', 'mathAtan': 'n', 'mathAtan2': 'nn', 'mathCeil': 'n', 'mathCos': 'n', 'mathFloor': 'n',
    'mathLn': 'n', 'mathLog': 'n?n', 'mathMax': '?v*', 'mathMin': '?v*', 'mathRound': 'n?d', 'mathSign': 'n', 'mathSin': 'n', 'mathSqrt': 'n',
    'mathTan': 'n', 'numberParseInt': 'w?x', 'numberParseFloat': 'w', 'numberToFixed': 'n?db',
    'objectAssign': 'oo', 'objectCopy': 'o', 'objectDelete': 'ok', 'objectGet': 'ok?v', 'objectHas': 'ok', 'objectKeys': 'o', 'objectNew': '?kvkv',
    'objectSet': 'okv',
    'regexEscape': 's', 'regexMatch': 'rs', 'regexMatchAll': 'rs', 'regexNew': 's', 'regexReplace': 'rss', 'regexSplit': 'rs',
    'schemaValidate': 'uTv', 'schemaValidateTypeModel': 'u',
    'stringCharCodeAt': 'si', 'stringEndsWith': 'ss', 'stringFromCharCode': '?p*', 'stringIndexOf': 'ss?i', 'stringLastIndexOf': 'ss?i',
    'stringLength': 's', 'stringLower': 's', 'stringNew': 'v', 'stringRepeat': 'sc', 'stringReplace': 'sss', 'stringSlice': 'si?i', 'stringSplit': 'ss',
    'stringStartsWith': 'ss', 'stringTrim': 's', 'stringUpper': 's',
    'systemBoolean': 'v', 'systemCompare': 'vv', 'systemGlobalGet': 'G?v', 'systemGlobalSet': 'Gv', 'systemIs': 'vv', 'systemLog': 'v',
    'systemLogDebug': 'v', 'systemPartial': 'mv*', 'systemType': 'v', 'urlEncode': 's', 'urlEncodeComponent': 's',
}
ALIASES = {
    'abs': 'mathAbs', 'ceil': 'mathCeil', 'charCodeAt': 'stringCharCodeAt', 'date': 'datetimeNew', 'day': 'datetimeDay', 'fixed': 'numberToFixed',
    'floor': 'mathFloor', 'fromCharCode': 'stringFromCharCode', 'indexOf': 'stringIndexOf', 'lastIndexOf': 'stringLastIndexOf', 'log': 'mathLog',
    'max': 'mathMax', 'min': 'mathMin', 'parseInt': 'numberParseInt', 'rept': 'stringRepeat', 'round': 'mathRound', 'sign': 'mathSign',
    'slice': 'stringSlice', 'sqrt': 'mathSqrt', 'text': 'stringNew',
}
OPERATORS = ['+', '-', '*', '/', '%', '**', '==', '!=', '<', '<=', '>', '>=', '&&', '||']
TYPES = [
    {'Num': {'typedef': {'name': 'Num', 'type': {'builtin': 'int'}}}},
    {'Num': {'typedef': {'name': 'Num', 'type': {'builtin': 'float'}, 'attr': {'gte': 1, 'lt': 10}}}},
    {'Num': {'typedef': {'name': 'Num', 'type': {'array': {'type': {'builtin': 'int'}}}, 'attr': {'lenGT': 1}}}},
    {'Num': {'struct': {'name': 'Num', 'members': [{'name': 'a', 'type': {'builtin': 'int'}, 'attr': {'gt': 0}},
                                                   {'name': 'b', 'type': {'builtin': 'float'}, 'optional': True}]}}},
    {'Num': {'typedef': {'name': 'Num', 'type': {'dict': {'type': {'builtin': 'any'}}}, 'attr': {'lenLTE': 2}}}},
    {'Num': {'typedef': {'name': 'Num', 'type': {'builtin': 'string'}, 'attr': {'lenEq': 1}}}},
]
ROW_EXPRESSIONS = ['a', 'a + b', "a + ''", 'a > 1', 'a == b', 'a % 2', 'a * 2 - c', 'b ** 2', '1 - a', '!a', 'hRow(a)', 'hRow(a, b) + 1', 'if(a, b, c)',
                   'arrayNew(a, b)', "objectNew('x', a)", "stringNew(a) + ','", 'mathFloor(a / 2)', 'arrayGet(list, a)', 'n0 + a', 'fA(a)', 'a /',
                   "stringSlice('abcdef', a)", 'round(a / 3, b)', '1', '1.5', 'a && b', 'a || b', 'stringRepeat("x", a)', 'mathMax(a, b, c)', 'v']


#
# Spelling
#

def spelled(value, pick):
    """An integral number below the limit in the spelling the schedule picks; any other value unchanged."""
    if isinstance(value, bool) or not isinstance(value, (int, float)):
        return value
    if value != value or abs(value) >= LIMIT or value != int(value):
        return value
    return float(value) if pick() else int(value)


def spell_enc(enc, pick):
    if isinstance(enc, list):
        return [spell_enc(item, pick) for item in enc]
    if isinstance(enc, dict):
        return {'$': 'obj', 'v': [[key, spell_enc(item, pick)] for key, item in enc['v']]} if enc['$'] == 'obj' else enc
    return spelled(enc, pick)


def spell_model(obj, pick):
    if isinstance(obj, list):
        return [spell_model(item, pick) for item in obj]
    if isinstance(obj, dict):
        return {key: spelled(item, pick) if key == 'number' else spell_model(item, pick) for key, item in obj.items()}
    return obj


def spell_behaviour(behaviour, pick):
    out = dict(behaviour)
    if 'ret' in out:
        out['ret'] = spell_enc(out['ret'], pick)
    if 'do' in out:
        out['do'] = [[*action[:-1], spell_enc(action[-1], pick)] if action[0] in ('push', 'setkey') else action for action in out['do']]
    return out


def spell_scenario(scn, pick):
    return {**scn, 'models': spell_model(scn['models'], pick), 'heap': [spell_enc(enc, pick) for enc in scn['heap']],
            'globals': [[[name, spell_enc(enc, pick)] for name, enc in entries] for entries in scn['globals']],
            'hosts': {name: [spell_behaviour(behaviour, pick) for behaviour in table] for name, table in scn['hosts'].items()}}


class SpellWorld(RealWorld):
    """The host re-spells the pool when it stores and reloads it."""

    def __init__(self, scn, stats, pick):
        self.pick = pick
        self.respelled = 0
        super().__init__(spell_scenario(scn, pick), stats)

    def action(self, action, args, options, kept=None):
        if action[0] == 'respell':
            seen = set()
            for entry in self.globals:
                self.respell(entry, seen)
            self.respelled += 1
            return None
        return super().action(action, args, options, kept)

    def event(self, *event):
        super().event(*event)
        if event[:2] == ('host', 'tick'):       # (the numbers that have left the workload)
            seen = set()
            for entry in self.globals:
                self.respell(entry, seen, True)

    def respell(self, container, seen, tame=False):
        if id(container) in seen:
            return
        seen.add(id(container))
        for key, value in list(container.items() if isinstance(container, dict) else enumerate(container)):
            if isinstance(value, (list, dict)):
                self.respell(value, seen, tame)
            elif isinstance(value, (int, float)) and not isinstance(value, bool):
                if not tame:
                    container[key] = spelled(value, self.pick)
                elif abs(value) >= LIMIT:
                    container[key] = spelled(7, self.pick)
                elif value == 0:
                    container[key] = abs(value)


#
# Generation
#

class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.step = 0
        self.bad = rng.choice([0.05, 0.15, 0.35])

    def number(self):
        rng = self.rng
        roll = rng.random()
        if roll < 0.35:
            return gen.var(rng.choice(NUMBERS))
        if roll < 0.8:
            return gen.num(rng.choice(INTEGRAL))
        if roll < 0.9:
            return gen.num(rng.choice(WIDE))
        return gen.num(rng.choice(FRACTIONS if rng.random() < 0.7 else NEAR))

    def small(self, choices):
        return gen.num(self.rng.choice(choices)) if self.rng.random() < 0.75 else gen.var(self.rng.choice(['n0', 'n1']))

    def value(self):
        rng = self.rng
        roll = rng.random()
        if roll < 0.45:
            return self.number()
        if roll < 0.85:
            return gen.var(rng.choice(POOL))
        return rng.choice([gen.string('a'), gen.string('1'), gen.var('null'), gen.var('true'), gen.var('false'), gen.var('hRow'), gen.var('xRe')])

    def argument(self, kind):
        rng = self.rng
        if kind == 'a':
            return gen.var(rng.choice(ARRAYS))
        if kind == 't':
            return gen.var(rng.choice(TABLES))
        if kind == 'o':
            return gen.var(rng.choice(OBJECTS))
        if kind == 's':
            return gen.var(rng.choice(STRINGS)) if rng.random() < 0.6 else gen.string(rng.choice(['', 'a', 'b', 'ab', ',', '1', '0', '10', 'abcabc', '2024-02-03', 'a1b22']))
        if kind == 'k':
            return gen.string(rng.choice([*FIELDS, 'd', '']))
        if kind == 'i':
            return self.small([0, 0, 1, 1, 2, 3, 4, 5, -1, 7])
        if kind == 'c':
            return self.small([0, 1, 1, 2, 2, 3, 4, 5])
        if kind == 'd':
            return self.small([0, 1, 2, 2, 3, 4, 8, 12, 15])
        if kind == 'x':
            return gen.num(rng.choice([10, 2, 8, 16, 36, 3, 37, 1]))
        if kind == 'p':
            return self.small([65, 97, 233, 0x1f600, 48, 10, 128512, 1000000, 1114109])
        if kind == 'n':
            return self.number()
        if kind == 'm':
            return gen.var(rng.choice(['hRow', 'fA', 'mathAbs', 'arrayGet', 'systemCompare', 'isOne']))
        if kind == 'f':
            return gen.var(rng.choice(['hCmp', 'systemCompare', 'cmpDown', 'cmpHalf', 'null']))
        if kind in 'eG':
            return gen.string(rng.choice(ROW_EXPRESSIONS if kind == 'e' else [*NUMBERS, *ARRAYS, 'v0', 'missing']))
        if kind in 'lqguTr':
            return gen.var({'l': 'xFields', 'q': rng.choice(['xSorts', 'xSorts2']), 'g': rng.choice(['xAgg', 'xAgg2', 'xAgg3']), 'u': rng.choice(['xTypes', 'xTypes2']),
                            'T': 'xTypeName', 'r': 'xRe'}[kind])
        if kind == 'z':
            return gen.var('d0')
        if kind == 'j':
            return gen.string(rng.choice(['1', '1.0', '[1, 2.0, 3]', '{"a": 1, "b": 1.0}', '-0', '1e2', '100000000', '"1"', 'null', '[1', '0.5']))
        if kind == 'w':
            return gen.string(rng.choice(['1', '1.0', ' 12 ', 'ff', '101', '1e2', 'z', '-7', '', '0x10', '7.', '1.5', '99999']))
        if kind == 'y':
            return gen.string(rng.choice(['a,b\n1,2\n3,4.0', 'a,b\n1.0,x\n2,y', 'a\n1\n\n2', 'a,b\n,1\n2,', 'a,a\n1,2']))
        if kind == 'b':
            return rng.choice([gen.var('true'), gen.var('false'), gen.num(0), gen.num(1), gen.var('n0')])
        if kind == 'Y':
            return gen.num(rng.choice([2024, 2023, 1999, 1970, 2000, 100, 99]))
        if kind == 'M':
            return gen.num(rng.choice([1, 2, 3, 12, 0, 13, -1, 25, 7]))
        if kind == 'D':
            return gen.num(rng.choice([1, 15, 28, 29, 31, 0, -1, 32, 60, 400, -40]))
        if kind in 'hH':
            return gen.num(rng.choice([0, 1, 12, 23, 24, 59, 60, -1, 61, 100, 3600] + ([999, 1000, 123, 1001, -1] if kind == 'H' else [])))
        return self.value()

    def call(self):
        rng = self.rng
        roll = rng.random()
        if roll < 0.18:
            oper = rng.choice(OPERATORS)
            if oper == '**':
                return gen.binary(oper, gen.num(rng.choice([0, 1, 2, 3, -2, 10, 7, 1.5])), gen.num(rng.choice([0, 1, 2, 3, -1, -2, 10, 0.5])))
            if oper in ('+', '-') and rng.random() < 0.3:
                text = gen.string(''.join(rng.choice('a #-.$(,:/1') for _ in range(rng.choice([1, 1, 2, 3]))))
                pair = [rng.choice([gen.var('d0'), gen.var(rng.choice(STRINGS)), text, text]), self.number()]
                return gen.binary(oper, *(pair if rng.random() < 0.5 else reversed(pair)))
            if oper in ('==', '!=', '<', '<=', '>', '>=') and rng.random() < 0.25:
                near = rng.choice(NEAR)
                pair = [gen.num(near), gen.num(round(near))]
                rng.shuffle(pair)
                return gen.call(rng.choice(['systemCompare', 'mathMax', 'mathMin']), *pair) if rng.random() < 0.3 else gen.binary(oper, *pair)
            return gen.binary(oper, self.value(), self.value())
        if roll < 0.21:
            return gen.unary(rng.choice('!-'), self.value())
        if roll < 0.24:
            return gen.call(rng.choice(['fA', 'fRest', 'fLoop', 'fP', 'hRow']), *(self.value() for _ in range(rng.randrange(4))))
        if roll < 0.27:     # digits
            return gen.call(rng.choice(['mathRound', 'numberToFixed']), gen.num(rng.choice(FRACTIONS[:8] + INTEGRAL)), gen.num(rng.choice([*range(16), 16, 22, 23, 25, 40, 300, 320])))
        name = rng.choice(list(SIGNATURES))
        if rng.random() < 0.1:
            name = rng.choice(list(ALIASES))
        kinds = SIGNATURES[ALIASES.get(name, name)]
        required, _, rest = kinds.partition('?')
        if rest.endswith('*'):
            rest = rest[:-1] * rng.randrange(5)
        elif required.endswith('*'):
            required = required[:-1]
        if rng.random() < 0.6:
            rest = rest[:rng.randrange(len(rest) + 1)]
        args = [self.argument(kind) for kind in required + rest]
        if rng.random() < self.bad:
            roll = rng.random()
            if args and roll < 0.6:
                args[rng.randrange(len(args))] = self.value()
            elif args and roll < 0.75:
                args.pop()
            elif roll < 0.9:
                args.append(self.value())
            else:
                args = [self.value() for _ in range(rng.randrange(6))]
        # Sizes and calendars stay small, whatever was drawn
        if ALIASES.get(name, name) in ('stringRepeat', 'arrayNewSize', 'datetimeNew', 'jsonStringify', 'mathRound', 'numberToFixed'):
            args = [self.tame(name, ix, arg) for ix, arg in enumerate(args)]
        return gen.call(name, *args)

    @staticmethod
    def tame(name, position, arg):
        if arg.get('variable') in (*NUMBERS, 'v0') and (position or name == 'arrayNewSize'):
            return gen.call('if', gen.binary('<', gen.call('mathAbs', arg), gen.num(16)), arg, gen.num(3))
        if 'number' in arg and abs(arg['number']) > 4000 and (position or name == 'arrayNewSize'):
            return gen.num(5)
        return arg

    def statements(self, count):
        rng = self.rng
        out = []
        for _ in range(count):
            expr = self.call()
            name = expr.get('function', {}).get('name', '')
            roll = rng.random()
            if name == 'systemPartial':
                out.append(gen.st_expr(expr, 'fP'))
                out.append(self.tick(None))
                continue
            if name in ('arrayCopy', 'arraySlice', 'arrayNew', 'arrayNewSize', 'stringSplit', 'arraySort') and roll < 0.4:
                target = rng.choice(ARRAYS)
            elif name in ('dataFilter', 'dataJoin', 'dataTop', 'dataAggregate') and roll < 0.3:
                target = rng.choice(TABLES)
            elif name in ('objectCopy', 'objectNew', 'objectAssign') and roll < 0.4:
                target = rng.choice(OBJECTS)
            elif 'binary' in expr and roll < 0.5 or name in ('arrayLength', 'stringLength', 'arrayIndexOf', 'mathFloor') and roll < 0.7:
                target = rng.choice(['n0', 'n1', 'n2', 'v0'])
            else:
                target = rng.choice(['v0', 'r', 'r', 'r'])
            out.append(gen.st_expr(expr, target))
            out.append(self.tick(target))
            if target in NUMBERS:       # (a number again, and not a wide one)
                out.append(gen.st_expr(gen.call('if', gen.binary('==', gen.call('systemType', gen.var(target)), gen.string('number')),
                                                gen.var(target), gen.num(rng.choice(INTEGRAL))), target))
        return out

    def tick(self, result):
        self.step += 1
        pool = [*POOL, *([result] if result == 'r' else [])]
        return gen.st_expr(gen.call('tick', gen.string(str(self.step)), *[gen.var(name) for name in pool]))


def prelude():
    left = gen.var('x')
    right = gen.var('y')
    return [
        gen.st_function('fA', ['x'], [gen.st_return(gen.binary('+', left, gen.num(1)))]),
        gen.st_function('fRest', ['x', 'y'], [gen.st_return(gen.call('arrayGet', right, gen.num(1)))], True),
        gen.st_function('cmpDown', ['x', 'y'], [gen.st_return(gen.call('systemCompare', right, left))]),
        gen.st_function('cmpHalf', ['x', 'y'], [gen.st_return(gen.binary('/', gen.call('systemCompare', left, right), gen.num(2)))]),
        gen.st_function('isOne', ['x'], [gen.st_return(gen.binary('==', left, gen.num(1)))]),
        gen.st_function('fLoop', ['x'], [
            gen.st_expr(gen.num(0), 'k'), {'label': 'again'}, gen.st_jump('end', gen.binary('>=', gen.var('k'), gen.num(3))),
            gen.st_expr(gen.call('arrayPush', gen.var('a0'), gen.var('k'))), gen.st_expr(gen.binary('+', gen.var('k'), gen.num(1)), 'k'),
            gen.st_jump('again'), {'label': 'end'}, gen.st_return(gen.var('k'))]),
    ]


def element(rng, heap):
    roll = rng.random()
    if heap and roll < 0.2:
        return {'$': 'heap', 'v': rng.randrange(len(heap))}
    if roll < 0.75:
        return rng.choice(INTEGRAL)
    return rng.choice([None, True, False, 0.5, 2.5, '', 'a', '1', '\u00e9', [], [1], [1, 2.5, [3]], {'$': 'obj', 'v': [['a', 1]]},
                       {'$': 'dt', 'v': [2024, 2, 29, 1, 2, 3, 4000]}, rng.choice(WIDE)])


def table(rng):
    kinds = [rng.choice(['int', 'int', 'num', 'str', 'mixed', 'null']) for _ in FIELDS]
    rows = []
    for _ in range(rng.randrange(0, 9)):
        row = []
        for field, kind in zip(FIELDS, kinds):
            if rng.random() < 0.9:
                row.append([field, rng.choice({'int': [0, 1, 2, 3, 2, 1], 'num': [0, 1, 1.5, 2, 0.5], 'str': ['x', 'y', '1', ''],
                                               'mixed': [1, '1', True, None, 1.5, [1]], 'null': [None, 1, 2]}[kind])])
        rows.append({'$': 'obj', 'v': row})
    return rows


def obj(**members):
    return {'$': 'obj', 'v': [[key, value] for key, value in members.items()]}


def enc_of(value):
    """Plain JSON as an encoding."""
    if isinstance(value, list):
        return [enc_of(item) for item in value]
    if isinstance(value, dict):
        return {'$': 'obj', 'v': [[key, enc_of(item)] for key, item in value.items()]}
    return value


def generate(rng, index, tier):
    heap = []
    for _ in range(rng.randrange(2, 6)):
        if rng.random() < 0.7:
            heap.append([element(rng, heap) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))])
        else:
            heap.append({'$': 'obj', 'v': [[key, element(rng, heap)] for key in rng.sample([*FIELDS, 'd'], rng.randrange(4))]})
    arrays = [ix for ix, enc in enumerate(heap) if isinstance(enc, list)]
    objects = [ix for ix, enc in enumerate(heap) if isinstance(enc, dict)]

    def measure():
        out = {'field': rng.choice(FIELDS), 'function': rng.choice(['average', 'count', 'max', 'min', 'stddev', 'sum'])}
        out['name'] = rng.choice(['m1', 'm2', 'm3', 'm4']) + out['function']
        return out

    def aggregation():
        out = {'measures': [measure() for _ in range(rng.randrange(1, 4))]}
        if rng.random() < 0.7:
            out['categories'] = rng.sample(FIELDS, rng.randrange(1, 3))
        return enc_of(out)

    entries = [[name, {'$': 'heap', 'v': rng.choice(arrays)} if arrays and rng.random() < 0.85 else []] for name in ARRAYS]
    entries += [[name, {'$': 'heap', 'v': rng.choice(objects)} if objects and rng.random() < 0.85 else {'$': 'obj', 'v': []}] for name in OBJECTS]
    entries += [[name, table(rng)] for name in TABLES]
    entries += [[name, rng.choice(['', 'abc', 'a1b22', '2024-01-31', '10', 'a,b,c'])] for name in STRINGS]
    entries += [[name, rng.choice(INTEGRAL + WIDE[:4])] for name in NUMBERS]
    entries += [['v0', element(rng, heap)], ['d0', {'$': 'dt', 'v': [2024, rng.randrange(1, 13), rng.randrange(1, 29), 1, 2, 3, 4000]}]]
    entries += [
        ['xFields', enc_of(rng.sample(FIELDS, rng.randrange(1, 3)))], ['xTypeName', 'Num'],
        ['xSorts', enc_of([[rng.choice(FIELDS), rng.choice([True, False])], [rng.choice(FIELDS)]])],
        ['xSorts2', enc_of([[rng.choice(FIELDS), rng.choice([1, 0, None])]])], ['xAgg', aggregation()], ['xAgg2', aggregation()], ['xAgg3', aggregation()],
        ['xTypes', enc_of(rng.choice(TYPES))], ['xTypes2', enc_of(rng.choice(TYPES))], ['xRe', {'$': 're', 'v': rng.choice(['a', '[0-9]+', ',', '(?P<x>b)'])}],
        ['list', [1, 2, 3]]]
    entries += [[name, {'$': 'fn', 'v': name}] for name in ('tick', 'hRow', 'hCmp')]
    entries += [['fP', {'$': 'fn', 'v': 'hRow'}]]
    gen_ = Gen(rng)
    count = rng.choice([1, 1, 1, 2, 3])
    models = [{'statements': prelude() + gen_.statements(rng.randrange(1, 16 if count == 1 else 9))} for _ in range(count)]
    # (Sessions switch at the host's seams only: the lines a call executes are not the same for the two spellings.)
    sessions = [{'calls': [{'model': sid, 'globals': 0, 'debug': rng.random() < 0.5}]} for sid in range(count)]
    if rng.random() < 0.15:
        sessions[0]['calls'][0]['limit'] = rng.randrange(1, 60)
    if rng.random() < 0.2:
        sessions[0]['calls'].append({'model': 0, 'globals': 0, 'debug': True})
    often = rng.choice([0.1, 0.3, 0.8])
    ticks = [{'do': [['respell']]} if rng.random() < often else {} for _ in range(rng.randrange(1, 20))]
    if rng.random() < 0.2:
        ticks.insert(rng.randrange(len(ticks)), {'do': [['push', rng.randrange(1, 4), rng.choice(INTEGRAL)], ['respell']]})

    def answer():
        if rng.random() < 0.08:
            return {'raise': gen.error_class(rng)}
        out = {'ret': rng.choice([*INTEGRAL, 0.5, None, 'x', [1, 2], {'$': 'arg', 'v': 0}])}
        if rng.random() < often:
            out['do'] = [['respell']]
        return out

    rows = [answer() for _ in range(rng.randrange(1, 10))]
    compares = [{**({'do': [['respell']]} if rng.random() < often else {}), 'ret': rng.choice([-1, 0, 1, 1, 0.5, -2])} for _ in range(rng.randrange(1, 10))]
    return {'models': models, 'heap': heap, 'globals': [entries], 'hosts': {'tick': ticks, 'hRow': rows, 'hCmp': compares}, 'sessions': sessions,
            'share': True, 'schedule': gen_schedule(rng, 40 * count), 'latency': latency(rng), 'spell': rng.randrange(1 << 30)}


#
# Comparison
#

TEXT_ZERO = re.compile(r'(?<![\w.])-0(?![\w.])')
DEBUG_FAILED = re.compile(r'^(BareScript: .*? failed\b).*', re.S)


def normal(obj_):
    """A canonical history with minus zero taken for zero."""
    if isinstance(obj_, list):
        return [normal(item) for item in obj_]
    if isinstance(obj_, dict):
        return {key: normal(item) for key, item in obj_.items()}
    if isinstance(obj_, str) and '-0' in obj_ and not obj_.startswith('d'):
        return TEXT_ZERO.sub('0', obj_)
    return obj_


def wide(text):
    """The number a canonical form speaks of, if it is outside the workload."""
    if isinstance(text, str) and text.startswith('n:') and text[2:] not in ('nan', 'inf', '-inf', 'big'):
        value = float(text[2:])
        return value if abs(value) >= LIMIT else None
    return None


def debug_line(text):
    """What a debug line says of the run. (Why a function failed is told in the words of whatever raised, with the number as it was spelled.)"""
    match = DEBUG_FAILED.match(text)
    return match[1] if match else text


def same(left, right):
    if isinstance(left, list) and isinstance(right, list):
        if left[:1] == ['log'] and right[:1] == ['log'] and len(left) == 2:
            return debug_line(left[1]) == debug_line(right[1])
        return len(left) == len(right) and all(same(one, two) for one, two in zip(left, right))
    if isinstance(left, dict) and isinstance(right, dict):
        return left.keys() == right.keys() and all(same(item, right[key]) for key, item in left.items())
    one, two = wide(left), wide(right)
    if one is not None and two is not None:
        return one == two or abs(one - two) <= 1e-14 * abs(one)
    return left == right


def compare(name, base, other):
    for sid, (left, right) in enumerate(zip(base[0], other[0])):
        for ix in range(max(len(left[0]), len(right[0]))):
            one = left[0][ix] if ix < len(left[0]) else None
            two = right[0][ix] if ix < len(right[0]) else None
            if one is None or two is None or not same(one, two):
                raise Violation('spelling', f'session {sid} event {ix}: {first(one, two)} (all-int, {name})')
        if not same(left[1], right[1]):
            raise Violation('spelling-outcome', f'session {sid}: {left[1]!r} all-int, {right[1]!r} {name}')
    if not same(base[1], other[1]):
        raise Violation('spelling-globals', f'{first(base[1], other[1])} (all-int, {name})')


def first(one, two):
    if isinstance(one, list) and isinstance(two, list) and len(one) == len(two):
        for left, right in zip(one, two):
            if not same(left, right):
                return (f'{one[:3]!r}: ' if one[:1] == ['host'] else '') + first(left, right)[:600]
    return f'{str(one)[:300]} / {str(two)[:300]}'


def run(scn, stats):
    rng = random.Random(scn['spell'])
    schedules = [('all-int', lambda: False), ('all-float', lambda: True), ('mixed', lambda: rng.random() < 0.5)]
    base = None
    for name, pick in schedules:
        WORK[0] = 0
        world = SpellWorld(scn, stats, pick)
        world.run()
        stats.hit('spelling.' + name)
        stats.hit('fault.respell', world.respelled)
        stats.hit('points', world.sched.points)
        stats.hit('switches', world.sched.switches)
        stats.hit('sim_us', world.sched.now)
        observed = normal([history(world), world.final_globals()])
        if base is None:
            base = observed
        else:
            compare(name, base, observed)
    keys = set()
    given = 0
    for model in scn['models']:
        for statement in model['statements']:
            expr = statement.get('expr', {}).get('expr', {})
            if 'function' in expr and expr['function']['name'] != 'tick':
                call = expr['function']
                stats.hit('call.' + call['name'])
                spots = [ix for ix, arg in enumerate(call['args']) if isinstance(arg.get('number', 0.5), int) or arg.get('variable') in NUMBERS]
                keys.update(f'{call["name"]} {ix}' for ix in spots)
                given += bool(spots)
            elif 'binary' in expr:
                keys.add(expr['binary']['op'])
                given += 1
    return {'history': base, 'keys': sorted(keys), 'nontrivial': base if given >= 3 and event_count(world) >= 3 else None}
