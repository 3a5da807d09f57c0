"""C11: one order for all - sorted indexes that several sessions keep by every consumer of the comparison, across crashes, mutations and time zones."""

import datetime
import functools
import math
import re
import zoneinfo

from ..core import InvalidScenario, Violation, gen_preempts, gen_schedule
from ..env import set_tz
from ..life import Crash, Life
from .common import ASSUME, latency

ID = 'C11'
RUNS = {'quick': 11000, 'thorough': 300000}
RULE = ('seeded lives of 1-3 sessions over a pool of shared values of all types: indexes kept sorted by binary insertion through each of the operators, merged, '
        'looked up, sorted by arraySort with and without (host-yielding) comparators and by dataSort, folded by mathMin and mathMax, and compared pair by pair; '
        'crashes, statement budgets, line-level preemption; between the phases the process time zone changes and shared containers are changed in place; '
        'non-trivial: three values or more ordered (distinct by history)')
REAL = ['bare_script.runtime', 'bare_script.library', 'bare_script.value', 'bare_script.data', 'bare_script.parser']
STUB = ['index store: in memory, with faults', 'process time zone: TZ + tzset, set by the scenario', 'thread scheduler: baton scheduler over real threads']
ASSUMPTIONS = ASSUME[1:] + ['Strings are ordered by code point; functions among themselves, and regexes, are equal', 'zoneinfo and the C library read the same time zone database']

ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Auckland', 'Asia/Tokyo', 'America/St_Johns', 'Pacific/Kiritimati']
BEFORE = {'lt': 'a < b', 'gt': 'b > a', 'not gte': '!(a >= b)', 'not lte': '!(b <= a)', 'compare': 'systemCompare(a, b) < 0', 'compared': 'systemCompare(b, a) > 0',
          'lte ne': 'a <= b && a != b', 'min': 'a != b && mathMin(a, b) == a', 'max': 'a != b && mathMax(a, b) == b', 'sorted': 'a != b && arrayGet(arraySort(arrayNew(b, a)), 0) == a',
          'pair': 'arrayNew(a) < arrayNew(b)', 'field': "objectNew('x', a) < objectNew('x', b)"}
HOWS = list(BEFORE)

SCRIPT = '\n'.join(f'''
function before{ix}(a, b):
    return {code}
endfunction

function find{ix}(index, x):
    lo = 0
    hi = arrayLength(index)
    while lo < hi:
        mid = mathFloor((lo + hi) / 2)
        tick()
        if before{ix}(arrayGet(index, mid), x):
            lo = mid + 1
        else:
            hi = mid
        endif
    endwhile
    return lo
endfunction

function build{ix}(name, values):
    ixValue = 0
    while ixValue < arrayLength(values):
        x = arrayGet(values, ixValue)
        index = indexLoad(name)
        at = find{ix}(index, x)
        new = arraySlice(index, 0, at)
        arrayPush(new, x)
        arrayExtend(new, arraySlice(index, at))
        indexStore(name, new, index, x)
        ixValue = ixValue + 1
    endwhile
endfunction

function merge{ix}(left, right):
    out = arrayNew()
    ixLeft = 0
    ixRight = 0
    while ixLeft < arrayLength(left) && ixRight < arrayLength(right):
        if before{ix}(arrayGet(right, ixRight), arrayGet(left, ixLeft)):
            arrayPush(out, arrayGet(right, ixRight))
            ixRight = ixRight + 1
        else:
            arrayPush(out, arrayGet(left, ixLeft))
            ixLeft = ixLeft + 1
        endif
    endwhile
    arrayExtend(out, arraySlice(left, ixLeft))
    arrayExtend(out, arraySlice(right, ixRight))
    return out
endfunction
''' for ix, code in enumerate(BEFORE.values())) + '''
function byCompare(a, b):
    tick()
    return systemCompare(a, b)
endfunction

function byOperators(a, b):
    tick()
    return if(a < b, -1, if(a == b, 0, 1))
endfunction

function byReverse(a, b):
    tick()
    return systemCompare(b, a)
endfunction

function fold(values):
    least = arrayGet(values, 0)
    most = arrayGet(values, 0)
    at = 1
    while at < arrayLength(values):
        least = mathMin(least, arrayGet(values, at))
        most = mathMax(arrayGet(values, at), most)
        at = at + 1
    endwhile
    return arrayNew(least, most)
endfunction

function matrix(values):
    out = arrayNew()
    row = 0
    while row < arrayLength(values):
        column = 0
        while column < arrayLength(values):
            a = arrayGet(values, row)
            b = arrayGet(values, column)
            arrayPush(out, arrayNew(systemCompare(a, b), a < b, a <= b, a == b, a != b, a >= b, a > b))
            column = column + 1
        endwhile
        row = row + 1
    endwhile
    return out
endfunction
'''


#
# Values
#

def some_function(args, options):
    return None


def other_function(args, options):
    return True


def decode(enc):
    if isinstance(enc, list):
        return [decode(item) for item in enc]
    if isinstance(enc, dict):
        kind, value = enc['$'], enc['v']
        if kind == 'obj':
            return {key: decode(item) for key, item in value}
        if kind == 'dt':
            return datetime.datetime(*value)
        if kind == 'date':
            return datetime.date(*value)
        if kind == 'aware':
            return datetime.datetime(*value[0], tzinfo=datetime.timezone(datetime.timedelta(minutes=value[1])))
        if kind == 're':
            return re.compile(value)
        if kind == 'fn':
            return [some_function, other_function, len][value % 3]
        if kind == 'num':
            value = float(value)
            if value != value:
                raise InvalidScenario('NaN')
            return value
        if kind == 'int':
            return int(value)
        raise InvalidScenario('value')
    if isinstance(enc, float) and enc != enc:
        raise InvalidScenario('NaN')
    return enc


def type_name(value):
    if value is None:
        return 'null'
    if isinstance(value, bool):
        return 'boolean'
    if isinstance(value, (int, float)):
        return 'number'
    if isinstance(value, str):
        return 'string'
    if isinstance(value, list):
        return 'array'
    if isinstance(value, dict):
        return 'object'
    if isinstance(value, datetime.date):
        return 'datetime'
    return 'function' if callable(value) else 'regex'


def sign(left, right):
    return (left > right) - (left < right)


class Order:
    """The order of the values in a time zone."""

    def __init__(self, zone):
        try:
            self.zone = zoneinfo.ZoneInfo(zone)
        except (zoneinfo.ZoneInfoNotFoundError, ValueError, TypeError) as exc:
            raise InvalidScenario('zone') from exc

    def local(self, value):
        if not isinstance(value, datetime.datetime):
            return datetime.datetime(value.year, value.month, value.day)
        return value.astimezone(self.zone).replace(tzinfo=None, fold=0) if value.tzinfo is not None else value

    def compare(self, left, right):
        kind, other = type_name(left), type_name(right)
        if left is None or right is None:
            return sign(left is not None, right is not None)
        if kind != other:
            return sign(kind, other)
        if kind in ('number', 'string', 'boolean'):
            return sign(left, right)
        if kind == 'datetime':
            return sign(self.local(left), self.local(right))
        if kind == 'array':
            for item1, item2 in zip(left, right):
                result = self.compare(item1, item2)
                if result:
                    return result
            return sign(len(left), len(right))
        if kind == 'object':
            for key1, key2 in zip(sorted(left), sorted(right)):
                result = sign(key1, key2) or self.compare(left[key1], right[key2])
                if result:
                    return result
            return sign(len(left), len(right))
        return 0

    def check_sorted(self, what, values, reverse=False):
        for value1, value2 in zip(values, values[1:]):
            if self.compare(value1, value2) * (-1 if reverse else 1) > 0:
                raise Violation('unsorted', f'{what}: {value1!r} before {value2!r}')


def identity(value):
    """What tells one value from another: scalars by type and value, others by identity."""
    if isinstance(value, float):
        return ('float', value.hex())
    if value is None or isinstance(value, (bool, int, str)):
        return (type(value).__name__, value)
    return ('id', id(value))


def check_permutation(what, got, values):
    if not isinstance(got, list) or sorted(map(str, map(identity, got))) != sorted(map(str, map(identity, values))):
        raise Violation('permutation', f'{what}: {got!r} of {values!r}')


#
# A run
#

class World(Life):
    LIBRARY = SCRIPT

    def __init__(self, scn, stats):
        super().__init__(scn, stats)
        self.values = [decode(enc) for enc in scn['values']]
        self.indexes = {}
        self.order = None

    def start(self, phase):
        self.order = Order(phase['zone'])
        set_tz(phase['zone'])
        self.hist.append(['phase', phase['zone']])
        for change in phase.get('changes') or []:
            self.change(*change)
        # Everything is put in order again
        for name, index in self.indexes.items():
            values = list(index)
            outcome, got = self.execute('return arraySort(index)', {'index': index, 'tick': lambda args, _: None})
            if outcome != 'value' or got is not index:
                raise Violation('sort', f'{got!r}')
            check_permutation(f'index {name}', index, values)
            self.order.check_sorted(f'index {name}', index)

    def change(self, ix, at, enc, how):
        """A shared container is changed in place."""
        value = self.value(ix)
        new = decode(enc)
        self.stats.hit('fault.change')
        if isinstance(value, list):
            if how == 'push' or not value:
                value.append(new)
            elif how == 'pop':
                value.pop(at % len(value))
            else:
                value[at % len(value)] = new
        elif isinstance(value, dict):
            keys = sorted(value)
            if how == 'push' or not keys:
                value[f'k{at % 5}'] = new
            elif how == 'pop':
                del value[keys[at % len(keys)]]
            else:
                value[keys[at % len(keys)]] = new
        self.hist.append(['change', ix, at, how])

    def value(self, ix):
        if not isinstance(ix, int) or isinstance(ix, bool) or not 0 <= ix < len(self.values):
            raise InvalidScenario('value')
        return self.values[ix]

    def process(self, code, values, limit=None):
        return self.execute(code, {**values, 'tick': lambda args, _: self.wait('tick'), 'indexLoad': lambda args, _: self.load(*args),
                                   'indexStore': lambda args, _: self.store(*args)}, limit)

    def load(self, name):
        self.wait('load')
        return self.indexes.setdefault(name, [])

    def store(self, name, new, index, value):
        check_permutation(f'insertion of {value!r}', new, [*index, value])
        self.order.check_sorted(f'insertion of {value!r}', new)
        self.wait('store')
        fault = self.fault('store')
        if fault is not None and fault[0] == 'before':
            raise Crash()
        if self.indexes[name] is index and (fault is None or fault[0] == 'after'):      # (else another session was first)
            self.indexes[name] = new
        self.nontrivial = self.nontrivial or len(new) > 2
        if fault is not None and fault[0] == 'after':
            raise Crash()

    # -- steps

    def do_step(self, sid, step):
        kind, *args = step
        if kind not in STEPS:
            raise InvalidScenario('step')
        self.hist.append([sid, *step, getattr(self, 'step_' + kind)(*args)])

    def how(self, how):
        if how not in BEFORE:
            raise InvalidScenario('how')
        return HOWS.index(how)

    def step_build(self, name, ixs, how, limit=None):
        outcome, got = self.process(f'build{self.how(how)}(name, values)', {'name': name, 'values': [self.value(ix) for ix in ixs]}, limit)
        return [outcome, got if outcome == 'stopped' else None, self.positions(self.indexes.get(name, []))]

    def positions(self, values):
        known = {}
        for ix, value in enumerate(self.values):
            known.setdefault(identity(value), ix)
        return [known.get(identity(value)) for value in values]

    def step_merge(self, name1, name2, how):
        left, right = list(self.load(name1)), list(self.load(name2))
        outcome, got = self.process(f'return merge{self.how(how)}(left, right)', {'left': left, 'right': right})
        check_permutation('merge', got, [*left, *right])
        self.order.check_sorted('merge', got)
        return self.positions(got)

    def step_lookup(self, name, ix, how):
        value = self.value(ix)
        if callable(value):     # (arrayIndexOf would call it)
            return None
        index = list(self.load(name))
        outcome, got = self.process(f'return arrayNew(find{self.how(how)}(index, x), arrayIndexOf(index, x), arrayLastIndexOf(index, x))', {'index': index, 'x': value})
        places = [at for at, item in enumerate(index) if self.order.compare(item, value) == 0]
        first = places[0] if places else sum(self.order.compare(item, value) < 0 for item in index)
        expected = [first, places[0] if places else -1, places[-1] if places else -1]
        if outcome != 'value' or got != expected:
            raise Violation('lookup', f'{value!r} in {index!r}: {got!r}, expected {expected!r}')
        return expected

    def step_sort(self, ixs, how, limit=None):
        values = [self.value(ix) for ix in ixs]
        array = list(values)
        code = {'plain': 'arraySort(array)', 'null': 'arraySort(array, null)', 'library': 'arraySort(array, systemCompare)', 'compare': 'arraySort(array, byCompare)',
                'operators': 'arraySort(array, byOperators)', 'reverse': 'arraySort(array, byReverse)'}.get(how)
        if code is None:
            raise InvalidScenario('how')
        outcome, got = self.process('return ' + code, {'array': array}, limit)
        if outcome != 'value':
            return 'stopped'
        if got is not array:
            raise Violation('sort', f'{got!r} for {values!r}')
        check_permutation(f'sort ({how})', array, values)
        self.order.check_sorted(f'sort ({how})', array, how == 'reverse')
        self.nontrivial = self.nontrivial or len(values) > 2
        return self.positions(array)

    def step_rows(self, ixs, ixs2, desc, desc2):
        rows = [{'v': self.value(ix), 'w': self.value(ix2), 'at': at} for at, (ix, ix2) in enumerate(zip(ixs, ixs2))]
        data = list(rows)
        outcome, got = self.process('return dataSort(data, sorts)', {'data': data, 'sorts': [['v', desc] if desc is not None else ['v'], ['w', desc2] if desc2 is not None else ['w']]})
        if outcome != 'value' or not isinstance(got, list):
            raise Violation('rows', f'{got!r}')
        check_permutation('dataSort', got, rows)
        for row1, row2 in zip(got, got[1:]):
            result = self.order.compare(row1['v'], row2['v']) * (-1 if desc else 1) or self.order.compare(row1['w'], row2['w']) * (-1 if desc2 else 1)
            if result > 0:
                raise Violation('rows', f'dataSort by {[desc, desc2]!r}: {row1!r} before {row2!r}')
        self.nontrivial = self.nontrivial or len(rows) > 2
        return [row['at'] for row in got]

    def step_least(self, ixs, calls):
        values = [self.value(ix) for ix in ixs]
        if not values:
            return None
        names = [f'v{at}' for at in range(len(values))]
        code = 'return fold(values)' if not calls else f'return arrayNew(mathMin({", ".join(names)}), mathMax({", ".join(names)}))'
        outcome, got = self.process(code, {'values': list(values), **dict(zip(names, values))})
        if outcome != 'value' or not isinstance(got, list) or len(got) != 2:
            raise Violation('least', f'{got!r}')
        for what, value, factor in (('least', got[0], 1), ('greatest', got[1], -1)):
            if identity(value) not in set(map(identity, values)) or any(self.order.compare(value, item) * factor > 0 for item in values):
                raise Violation('least', f'{value!r} as the {what} of {values!r}')
        return self.positions(got)

    def step_matrix(self, ixs):
        values = [self.value(ix) for ix in ixs]
        outcome, got = self.process('return matrix(values)', {'values': list(values)})
        if outcome != 'value' or not isinstance(got, list) or len(got) != len(values) ** 2:
            raise Violation('matrix', f'{got!r}')
        at = 0
        for left in values:
            for right in values:
                result = self.order.compare(left, right)
                expected = [result, result < 0, result <= 0, result == 0, result != 0, result >= 0, result > 0]
                if got[at] != expected or not all(isinstance(item, bool) for item in got[at][1:]):
                    raise Violation('compare', f'{left!r} and {right!r}: {got[at]!r}, expected {expected!r}')
                self.keys.add(f'types/{type_name(left)}/{type_name(right)}')
                at += 1
        self.nontrivial = self.nontrivial or len(values) > 2
        return len(values)


STEPS = {'build', 'merge', 'lookup', 'sort', 'rows', 'least', 'matrix'}


def run(scn, stats):
    world = World(scn, stats)
    world.run()
    return world.outcome(world.keys)


#
# Generation
#

DATES = [[2024, 2, 29], [2024, 3, 1], [2023, 12, 31], [2000, 1, 1], [1999, 12, 31], [2024, 7, 1]]
TIMES = [[0, 0, 0, 0], [0, 0, 0, 0], [12, 30, 0, 0], [23, 59, 59, 999000], [0, 0, 0, 1000], [5, 30, 0, 0], [19, 0, 0, 0]]
OFFSETS = [0, 60, -300, 330, 720, -210, 840, -720, 540]
STRINGS = ['', 'a', 'b', 'A', 'aa', 'ab', 'a b', '1', '10', '2', 'true', 'null', 'é', 'z', '\x00', ' ', 'a\x00', '~', '\uff5e', 'abc', 'array', 'number', '2024-02-29']
NUMBERS = [0, 1, -1, 2, 3, 10, 100, 0.5, -0.5, 1.5, 1e-9, 1e300, -1e300, 2 ** 53, 2 ** 53 - 1, {'$': 'num', 'v': 'inf'}, {'$': 'num', 'v': '-inf'}, {'$': 'num', 'v': '-0.0'}, 255, 7,
           {'$': 'int', 'v': str(10 ** 22)}, 1e22, 0.1, 0.30000000000000004, 0.3]


def gen_scalar(rng):
    roll = rng.random()
    if roll < 0.28:
        value = rng.choice(NUMBERS)
        return float(value) if isinstance(value, int) and rng.random() < 0.4 else value
    if roll < 0.5:
        return rng.choice(STRINGS) if rng.random() < 0.8 else rng.choice(STRINGS) + rng.choice(STRINGS)
    if roll < 0.6:
        return rng.choice([True, False])
    if roll < 0.68:
        return None
    if roll < 0.76:
        return {'$': 'date', 'v': rng.choice(DATES)}
    if roll < 0.85:
        return {'$': 'dt', 'v': [*rng.choice(DATES), *rng.choice(TIMES)]}
    if roll < 0.94:
        return {'$': 'aware', 'v': [[*rng.choice(DATES), *rng.choice(TIMES)], rng.choice(OFFSETS)]}
    return {'$': 're', 'v': rng.choice(['a', 'b'])} if roll < 0.97 else {'$': 'fn', 'v': rng.randrange(3)}


def gen_value(rng, depth):
    roll = rng.random()
    if depth == 0 or roll < 0.55:
        return gen_scalar(rng)
    if roll < 0.78:
        return [gen_value(rng, depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]) if rng.random() < 0.97 else rng.randrange(4, 14))]
    keys = [rng.choice(['a', 'b', 'c', 'A', '', 'aa', '1', 'é', 'k0', 'k1']) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
    return {'$': 'obj', 'v': [[key, gen_value(rng, depth - 1)] for key in dict.fromkeys(keys)]}


def near(rng, enc):
    """Another value that is close or equal."""
    if isinstance(enc, list):
        roll = rng.random()
        if roll < 0.25 or not enc:
            return [*enc, gen_scalar(rng)]
        if roll < 0.4:
            return enc[:-1]
        at = rng.randrange(len(enc))
        return [*enc[:at], near(rng, enc[at]), *enc[at + 1:]]
    if isinstance(enc, dict) and enc['$'] == 'obj':
        items = enc['v']
        roll = rng.random()
        if roll < 0.3 and len(items) > 1:
            return {'$': 'obj', 'v': items[::-1]}
        if roll < 0.5 or not items:
            key = rng.choice(['d', 'a0', '0', 'b'])
            return {'$': 'obj', 'v': [*[item for item in items if item[0] != key], [key, gen_scalar(rng)]]}
        at = rng.randrange(len(items))
        return {'$': 'obj', 'v': [*items[:at], [items[at][0], near(rng, items[at][1])], *items[at + 1:]]}
    if isinstance(enc, bool):
        return rng.choice([int(enc), not enc, float(enc), 'true'])
    if isinstance(enc, int):
        return rng.choice([float(enc), enc + 1, float(enc) + 0.5, str(enc), [enc], bool(enc)])
    if isinstance(enc, float):
        return rng.choice([int(enc) if enc == enc // 1 and abs(enc) < 1e15 else enc, math.nextafter(enc, math.inf), -enc])
    if isinstance(enc, str):
        return rng.choice([enc + 'a', enc[:-1], enc.upper(), enc, [enc]])
    if isinstance(enc, dict) and enc['$'] == 'date':
        return rng.choice([{'$': 'dt', 'v': [*enc['v'], 0, 0, 0, 0]}, {'$': 'dt', 'v': [*enc['v'], *rng.choice(TIMES)]}, {'$': 'aware', 'v': [[*enc['v'], 0, 0, 0, 0], rng.choice(OFFSETS)]}])
    if isinstance(enc, dict) and enc['$'] == 'dt':
        return rng.choice([{'$': 'date', 'v': enc['v'][:3]}, {'$': 'aware', 'v': [enc['v'], rng.choice(OFFSETS)]}, {'$': 'dt', 'v': [*enc['v'][:6], 1000]}])
    if isinstance(enc, dict) and enc['$'] == 'aware':
        return rng.choice([{'$': 'dt', 'v': enc['v'][0]}, {'$': 'aware', 'v': [enc['v'][0], rng.choice(OFFSETS)]}, {'$': 'date', 'v': enc['v'][0][:3]}])
    return enc


def generate(rng, index, tier):
    values = [gen_value(rng, rng.choice([0, 0, 1, 2, 3])) for _ in range(rng.randrange(3, 9))]
    for _ in range(rng.randrange(2, 8)):
        values.append(near(rng, rng.choice(values)))
    if rng.random() < 0.3:      # containers of the same few
        values += [[rng.choice(values), rng.choice(values)] for _ in range(3)]
    names = ['i0', 'i1'][:rng.choice([1, 2])]
    faulty = rng.choice([0, 0, 0.15, 0.4])

    def some(most):
        return [rng.randrange(len(values)) for _ in range(rng.randrange(2, most))]

    def limit():
        return rng.randrange(5, 200) if rng.random() < faulty * 0.5 else None

    def step():
        roll = rng.random()
        if roll < 0.22:
            return ['build', rng.choice(names), some(7), rng.choice(HOWS), limit()]
        if roll < 0.32:
            return ['merge', rng.choice(names), rng.choice(names), rng.choice(HOWS)]
        if roll < 0.42:
            return ['lookup', rng.choice(names), rng.randrange(len(values)), rng.choice(HOWS)]
        if roll < 0.57:
            return ['sort', some(12), rng.choice(['plain', 'plain', 'null', 'library', 'compare', 'operators', 'reverse']), limit()]
        if roll < 0.69:
            return ['rows', some(9), some(9), rng.choice([None, False, True]), rng.choice([None, False, True])]
        if roll < 0.8:
            return ['least', some(7), rng.random() < 0.5]
        return ['matrix', some(7)]
    phases = []
    for number in range(rng.choice([1, 2, 2, 3])):
        count = rng.choice([1, 1, 2, 3])
        phase = {'zone': rng.choice(ZONES), 'sessions': [[step() for _ in range(rng.randrange(2, 8 if count == 1 else 5))] for _ in range(count)],
                 'schedule': gen_schedule(rng, 60 * count) if count > 1 else []}
        if number and rng.random() < 0.7:
            phase['changes'] = [[rng.randrange(len(values)), rng.randrange(5), gen_scalar(rng), rng.choice(['push', 'pop', 'set', 'set'])] for _ in range(rng.randrange(1, 5))]
        if count > 1 and rng.random() < 0.4:
            phase['preempt'] = [gen_preempts(rng, rng.randrange(1, 6), 2500) for _ in phase['sessions']]
        phases.append(phase)
    return {'values': values, 'phases': phases, 'latency': latency(rng),
            'faults': {'store': [rng.choice([['before'], ['after'], ['lost']]) if rng.random() < faulty else None for _ in range(16)]}}
