"""C19: data functions implement their relational meaning; CSV typing round-trips."""

import math

from .. import gen
from .. import refdata      # noqa: F401 (registers the reference data functions)  # pylint: disable=unused-import
from ..core import gen_preempts, gen_schedule
from ..csvlife import generate_csv, run_csv
from ..engine import RealWorld, RefWorld, compare_worlds, history
from .common import ASSUME, REAL_ALL, STUB_HOST, event_count, latency

ID = 'C19'
RUNS = {'quick': 24000, 'thorough': 500000}
RULE = ('seeded histories of data operations (filter, sort, top, aggregate, join, calculated field) by 1-3 sessions over shared tables whose rows are '
        'aliased, row expressions calling host and script functions that fail, mutate, re-enter or run out of statements; and typed tables written as '
        'CSV by scripts or hosts to a simulated store (torn, lost and doubled writes, missing segments, crashes, time zone switches) and read back by '
        'concurrent sessions; non-trivial: a group or join of 2 rows or more, a faulted expression, or a table read back (distinct by history)')
REAL = REAL_ALL
STUB = [*STUB_HOST, 'CSV store: in-memory segments', 'process time zone: TZ + tzset, set by the scenario']
ASSUMPTIONS = ASSUME + ['Aggregates of fractions are compared to 9 significant digits', 'What becomes of an unmatched row of a join is not part of the property',
                        'Minus zero, functions, regexes and texts equal to the ISO text of a datetime do not occur as keys',
                        'A column of a written table is of one type and its first text does not look like another type',
                        'zoneinfo and the C library read the same time zone database']

TABLES = ['t0', 't1', 't2', 't3']
ROWS = ['o0', 'o1']
POOL = [*TABLES, *ROWS]
# A field's first letter says what its values are: n numbers, s strings, k and c anything
FIELDS = ['n', 'n2', 'n3', 'k', 'k2', 's', 'c', 'k3']
NUMBERS = [0, 1, 2, 3, 1, 2, 0.5, 1.5, -1, -2.5, 10, 100, 7, 2.25, 9, 11]
PUNCTUATED = ['a', 'b', 'a.', 'a.,b', 'a,b', 'x.0]', 'x]', 'x.}', 'x}', '","', '"', '\\', 'a","b', "it's", '[1]', '1', '1.0', 'null', 'true', '', '<function>', '.0', '.',
              'a.0', 'a\n', '\u00e9', 'e\u0301', '\U0001f600', '1.00', '{}', '[]', 'A', 'a.00,', 'x.]']
DATES = [[2024, 2, 29, 0, 0, 0, 0], [2024, 3, 1, 12, 30, 0, 5000], [2023, 12, 31, 23, 59, 59, 999000], [2024, 3, 1, 12, 30, 0, 6000]]


#
# Both backends with bounded arithmetic
#

def settle(value, seen, fine):
    """Keep computed numbers comparable (fine: 9 significant digits) and their sums exact (a multiple of 1/1024, not large, no minus zero)."""
    if isinstance(value, (list, dict)):
        if id(value) not in seen:
            seen.add(id(value))
            for key, item in list(value.items() if isinstance(value, dict) else enumerate(value)):
                new = settle(item, seen, fine)
                if new is not item:
                    value[key] = new
    elif isinstance(value, float):
        if value != value or math.isinf(value):
            return None
        if fine:
            return value if value * 1024 == math.floor(value * 1024) else float(f'{value:.9g}')
        return 7.0 if abs(value) > 1e6 else math.floor(value * 1024 + 0.5) / 1024 + 0.0
    elif isinstance(value, int) and not isinstance(value, bool) and abs(value) > 1e6:
        return value if fine else 7
    return value


class Settled:
    def host_call(self, name, *args):
        if name != 'tick':
            return super().host_call(name, *args)
        values = args[0] if isinstance(args[0], list) else args[1]
        settle(values, set(), True)
        result = super().host_call(name, *args)
        settle(values, set(), False)
        return result


class RealTables(Settled, RealWorld):
    pass


class RefTables(Settled, RefWorld):
    pass


#
# Histories
#

def cell(rng, field):
    if rng.random() < 0.12:
        return None
    kind = field[0]
    if kind == 'n':
        return rng.choice(NUMBERS)
    if kind == 's':
        return rng.choice(PUNCTUATED)
    roll = rng.random()
    if roll < 0.3:
        return rng.choice(NUMBERS)
    if roll < 0.7:
        return rng.choice(PUNCTUATED)
    if roll < 0.78:
        return rng.random() < 0.5
    if roll < 0.85:
        return {'$': 'dt', 'v': rng.choice(DATES)} if rng.random() < 0.7 else {'$': 'date', 'v': [2024, 2, rng.choice([28, 29])]}
    if roll < 0.93:
        return [rng.choice([*NUMBERS[:6], *PUNCTUATED[:8], None]) for _ in range(rng.randrange(3))]
    return {'$': 'obj', 'v': [[key, rng.choice([1, 2, 'a', 'a.,b', None])] for key in rng.sample(['a', 'b', 'a.,'], rng.randrange(3))]}


def swapped(expr):
    if isinstance(expr, dict):
        return {key: item.swapcase() if key == 'string' else swapped(item) for key, item in expr.items()}
    return [swapped(item) for item in expr] if isinstance(expr, list) else expr


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.exprs = {}
        self.lean = None        # the only operations, if any
        self.step = 0
        self.count = 0
        self.keys = set()

    def field(self, kinds='nskc'):
        return self.rng.choice([name for name in FIELDS if name[0] in kinds])

    def leaf(self):
        rng = self.rng
        roll = rng.random()
        if roll < 0.75:
            return gen.var(self.field())
        if roll < 0.82:
            return gen.num(rng.choice([0, 1, 2, 0.5]))
        if roll < 0.88:
            return gen.string(rng.choice([*PUNCTUATED[:18], 'A', 'A.', 'X]']))
        return gen.var(rng.choice(['g', 'w', 'null', 'true', 'missing']))

    def row_expr(self, deep=2):
        rng = self.rng
        roll = rng.random()
        if deep == 0 or roll < 0.3:
            return self.leaf()
        sub = lambda: self.row_expr(deep - 1)       # noqa: E731
        if roll < 0.5:
            return gen.binary(rng.choice(['==', '!=', '<', '<=', '>', '>=', '&&', '||']), sub(), sub())
        if roll < 0.62:
            return gen.binary(rng.choice(['+', '+', '-']), sub(), sub())
        if roll < 0.66:
            return gen.unary('!', sub())
        if roll < 0.72:
            return gen.call('if', sub(), sub(), sub())
        if roll < 0.84:
            return gen.call(rng.choice(['hRow', 'hRow', 'hRow', 'fRow', 'fRow', 'fKeep', 'fKeep', 'fLog', 'fLog', 'fNest']), *(sub() for _ in range(rng.choice([0, 1, 1, 2]))))
        if roll < 0.9:
            return gen.call('arrayNew', sub(), sub())
        if roll < 0.93:
            return gen.call('objectNew', gen.string(rng.choice('ab')), sub())
        if roll < 0.98:
            return gen.call(rng.choice(['text', 'systemType', 'len', 'upper', 'stringNew']), sub())
        return gen.call(rng.choice(['nowhere', 'n2', 'arrayGet']), sub())

    def text(self, simple):
        known = [expr for expr in self.exprs.values() if swapped(expr) != expr]
        if known and self.rng.random() < 0.25:      # a known text but for the case of its strings
            expr = swapped(self.rng.choice(known))
            text = gen.render_expr(expr)
            self.exprs[text] = expr
            return gen.string(text)
        expr = self.row_expr(self.rng.choice([0, 0, 1, 2] if simple else [1, 2, 2]))
        text = gen.render_expr(expr)
        self.exprs[text] = expr
        return gen.string(text)

    def variables(self):
        rng = self.rng
        roll = rng.random()
        if roll < 0.65:
            return None
        return gen.var(rng.choice(['vA', 'vB', 'null', *(['o0', 'xBad'] if roll > 0.95 else [])]))

    def optional(self, *args):
        args = list(args)
        while args and (args[-1] is None or self.rng.random() < 0.05 and 'variable' in args[-1] and args[-1]['variable'] == 'null'):
            args.pop()
        return [gen.var('null') if arg is None else arg for arg in args]

    def constant(self, enc):
        """A global that holds the value."""
        self.count += 1
        name = f'x{self.count}'
        self.constants.append([name, enc])
        return gen.var(name)

    def measure(self):
        rng = self.rng
        function = rng.choice(['average', 'count', 'max', 'min', 'stddev', 'sum'])
        field = self.field('n' if function in ('average', 'stddev', 'sum') else 'ns' if function != 'count' else 'nskc')
        self.count += 1
        out = [['field', field], ['function', function], ['name', f'{"n" if function == "count" else field[0]}M{self.count}']]
        rng.shuffle(out)
        return {'$': 'obj', 'v': out}

    def aggregation(self):
        rng = self.rng
        self.keys.add('aggregate')
        measures = [self.measure() for _ in range(rng.choice([1, 1, 2, 3]))]
        entries = [['measures', measures]]
        categories = rng.sample(FIELDS, rng.choice([0, 1, 1, 2, 3]))
        if categories:
            entries.append(['categories', categories])
        if rng.random() < 0.25:     # a measure under the name of its field
            measure = measures[0]['v']
            field = dict(measure)['field']
            if field not in categories and (field[0] == 'n' or dict(measure)['function'] != 'count'):
                measures[0]['v'] = [item for item in measure if item[0] != 'name']
                if any(dict(other['v']).get('name') is None for other in measures[1:]):
                    measures[0]['v'] = measure
        if rng.random() < 0.05:
            entries = rng.choice([[['measures', []]], [['categories', ['k']]], [['measures', [{'$': 'obj', 'v': [['field', 'n'], ['function', 'median']]}]]],
                                  [*entries, ['more', 1]], [['measures', measures], ['categories', []]], [['measures', 'n']]])
        return {'$': 'obj', 'v': entries}

    def call(self):
        rng = self.rng
        kind = rng.choice(self.lean) if self.lean else rng.choice(['dataFilter', 'dataSort', 'dataTop', 'dataAggregate', 'dataJoin', 'dataJoin', 'dataCalculatedField'])
        data = gen.var(rng.choice(TABLES))
        self.keys.add(kind)
        if rng.random() < 0.02:
            data = gen.var(rng.choice(['null', 'o0', 'w']))
        if kind == 'dataFilter':
            return gen.call(kind, *self.optional(data, self.text(False), self.variables()))
        if kind == 'dataCalculatedField':
            name = rng.choice(['c', 'c2', 'k', 'k3', 'kNew']) if rng.random() < 0.9 else 's'
            text = self.text(False)
            if name == 's':
                expr = gen.call('text', gen.var(self.field()))
                text = gen.string(gen.render_expr(expr))
                self.exprs[text['string']] = expr
            return gen.call(kind, *self.optional(data, gen.string(name), text, self.variables()))
        if kind == 'dataSort':
            sorts = []
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
                sorts.append([self.field(), *([rng.choice([True, True, False, 1, 0, None])] if rng.random() < 0.6 else [])])
            return gen.call(kind, data, self.constant(sorts))
        if kind == 'dataTop':
            count = gen.num(rng.choice([1, 1, 2, 2, 3, 5, 20])) if rng.random() < 0.9 else rng.choice(
                [gen.num(0), gen.num(1.5), gen.num(-1), gen.var('null'), gen.string('1'), gen.call('arrayLength', gen.var(rng.choice(TABLES)))])
            fields = self.constant([self.field() for _ in range(rng.choice([0, 1, 1, 2]))]) if rng.random() < 0.75 else None
            return gen.call(kind, *self.optional(data, count, fields))
        if kind == 'dataAggregate':
            return gen.call(kind, data, self.constant(self.aggregation()))
        right = self.text(True) if rng.random() < 0.4 else None
        if right is None and rng.random() < 0.4:
            return gen.call(kind, data, gen.var(rng.choice(TABLES)), self.text(True))
        flag = rng.choice([gen.var('true'), gen.var('false'), gen.var('false'), gen.num(1), None])
        return gen.call(kind, *self.optional(data, gen.var(rng.choice(TABLES)), self.text(True), right, flag, self.variables()))

    def statements(self, count):
        rng = self.rng
        out = []
        for _ in range(count):
            expr = self.call()
            name = expr['function']['name']
            target = rng.choice(TABLES) if name not in ('dataSort', 'dataCalculatedField') and rng.random() < 0.5 else 'r'
            if target == 'r':
                out.append(gen.st_expr(expr, 'r'))
                out.append(self.tick('r'))
            else:       # (a failed operation leaves the table)
                out.append(gen.st_expr(expr, 'r'))
                out.append(self.tick('r'))
                out.append(gen.st_expr(gen.call('if', gen.binary('==', gen.call('systemType', gen.var('r')), gen.string('array')), gen.var('r'), gen.var(target)),
                                       target))
        return out

    def tick(self, extra):
        self.step += 1
        return gen.st_expr(gen.call('tick', gen.string(str(self.step)), *[gen.var(name) for name in [*POOL, extra]]))


def prelude(rng):
    x = gen.var('x')
    nested = [gen.call('dataFilter', gen.var('t2'), gen.string('n'), gen.var('vB')), gen.call('dataTop', gen.var('t1'), gen.num(1), gen.call('arrayNew', gen.string('k'))),
              gen.call('dataFilter', gen.var('t3'), gen.string('g'), gen.var('vA')), gen.call('dataJoin', gen.var('t0'), gen.var('t2'), gen.string('k'))]
    return [
        gen.st_function('fRow', ['x', 'y'], [gen.st_expr(gen.call('hRow', x), 'z'), gen.st_return(gen.call('arrayNew', x, gen.var('y')))]),
        gen.st_function('fKeep', ['x'], [gen.st_jump('yes', x), gen.st_return(gen.num(0)), {'label': 'yes'}, gen.st_return(gen.num(1))]),
        gen.st_function('fNest', ['x'], [gen.st_expr(rng.choice(nested), 'z'), gen.st_return(gen.call('arrayNew', x, gen.call('arrayLength', gen.var('z'))))]),
        gen.st_function('fLog', ['x'], [gen.st_expr(gen.call('systemLog', gen.binary('+', gen.string('~'), gen.call('systemType', x)))), gen.st_return(x)]),
    ]


def moved(enc, offset):
    """The same values in another part of the heap."""
    if isinstance(enc, list):
        return [moved(item, offset) for item in enc]
    if isinstance(enc, dict):
        return {'$': 'heap', 'v': enc['v'] + offset} if enc['$'] == 'heap' else {**enc, 'v': moved(enc['v'], offset) if enc['$'] == 'obj' else enc['v']}
    return enc


def generate_history(rng):
    gen_ = Gen(rng)
    gen_.constants = []
    heap = []
    pools = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        fields = rng.sample(FIELDS, rng.choice([1, 2, 3, 4, 5]))
        few = [cell(rng, name) for name in fields]      # (duplicates)
        rows = []
        for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12])):
            row = []
            for field, value in zip(fields, few):
                if rng.random() < 0.92:
                    row.append([field, value if rng.random() < 0.35 else cell(rng, field)])
            if rng.random() < 0.2:
                rng.shuffle(row)
            rows.append(len(heap))
            heap.append({'$': 'obj', 'v': row})
        pools.append(rows)
    every = [ix for rows in pools for ix in rows]
    tables = []
    for _ in TABLES:
        if tables and rng.random() < 0.15:
            tables.append(tables[-1])
            continue
        rows = list(rng.choice(pools))
        if rng.random() < 0.3:
            rows = [rng.choice(every) for _ in range(rng.randrange(6))] if every else []
        tables.append(len(heap))
        heap.append([{'$': 'heap', 'v': ix} for ix in rows])
    count = rng.choice([1, 1, 1, 2, 3])
    share = count > 1 and rng.random() < 0.4
    if count > 1 and not share and rng.random() < 0.5:      # few operations, many switches between lines
        gen_.lean = rng.sample(['dataSort', 'dataSort', 'dataTop', 'dataAggregate', 'dataJoin', 'dataFilter', 'dataCalculatedField'], 2)
    models = [{'statements': prelude(rng) + gen_.statements(rng.randrange(1, 13 if count == 1 else 5 if gen_.lean else 8))} for _ in range(count)]
    entries = [[name, {'$': 'heap', 'v': ix}] for name, ix in zip(TABLES, tables)]
    entries += [[name, {'$': 'heap', 'v': rng.choice(every)} if every else {'$': 'obj', 'v': []}] for name in ROWS]
    entries += [['g', rng.choice([1, 'a', None, 2])], ['w', rng.choice(['a.,b', 0, True, [1]])], ['xBad', 1], ['tick', {'$': 'fn', 'v': 'tick'}],
                ['hRow', {'$': 'fn', 'v': 'hRow'}],
                ['vA', {'$': 'obj', 'v': [['g', rng.choice([2, 'a', 'x.]'])], ['k', 'not the row'], ['w', 3]]}],
                ['vB', {'$': 'obj', 'v': [['missing', 1], ['n', 5], ['c', 'v']]}]]
    entries += gen_.constants
    globals_ = [entries]
    if not share:       # a pool of its own for each session
        size = len(heap)
        for sid in range(1, count):
            heap += [moved(item, sid * size) for item in heap[:size]]
            globals_.append([[name, moved(item, sid * size)] for name, item in entries])
    sessions = []
    for sid in range(count):
        call = {'model': sid, 'globals': 0 if share else sid, 'debug': rng.random() < 0.15}
        if rng.random() < 0.15:
            call['limit'] = rng.randrange(1, 90)
        sessions.append({'calls': [call]})
    if rng.random() < 0.15:
        sessions[0]['calls'].append({'model': 0, 'globals': 0})
    if count > 1 and not share:
        for session in sessions:
            session['preempt'] = gen_preempts(rng, rng.randrange(1, 8) * (3 if gen_.lean else 1), 5000 if gen_.lean else 20000)
    faulty = rng.choice([0, 0, 0.1, 0.4])

    def answer():
        roll = rng.random()
        if roll < faulty:
            return {'raise': gen.error_class(rng), **({'after': True} if rng.random() < 0.3 else {})}
        out = {'ret': rng.choice([0, 1, 2, 'a', 'b', None, True, False, {'$': 'arg', 'v': 0}, {'$': 'arg', 'v': 0}, 'x.]', [1]])}
        if rng.random() < 0.1:
            out['do'] = [rng.choice([['setg', 'g', 3], ['log', '~h'], ['call', 'fKeep', [1]]])]
        return out

    rows = [answer() for _ in range(rng.randrange(1, 12))]
    ticks = [{}]
    if rng.random() < 0.2:      # the host changes the tables between the operations
        ticks = [rng.choice([{}, {}, {'do': [['setkey', rng.choice([5, 6]), rng.choice(['k', 'c', 'n']), 5]]},
                             {'do': [['push', rng.randrange(1, 5), {'$': 'obj', 'v': [['k', 'host'], ['n', 1]]}]]}]) for _ in range(rng.randrange(1, 9))] + [{}]
    return {'models': models, 'heap': heap, 'globals': globals_, 'exprs': gen_.exprs, 'hosts': {'tick': ticks, 'hRow': rows}, 'sessions': sessions,
            'share': share, 'schedule': gen_schedule(rng, 60 * count), 'latency': latency(rng), 'immutable': True}


def run_history(scn, stats):
    ref = RefTables(scn, stats)
    ref.run()
    real = RealTables(scn, stats)
    real.run()
    stats.hit('sim_us', real.sched.now)
    stats.hit('points', real.sched.points)
    stats.hit('switches', real.sched.switches)
    compare_worlds(scn, real, ref)
    hist = history(real)
    keys = set()
    for model in scn['models']:
        for statement in model['statements']:
            expr = statement.get('expr', {}).get('expr', {}).get('function')
            if expr and expr['name'].startswith('data'):
                keys.add(f'{expr["name"]}/{len(expr["args"])}')
                stats.hit('call.' + expr['name'])
    return {'history': hist, 'keys': sorted(keys), 'nontrivial': hist if event_count(real) >= 3 and any(len(enc) > 1 for enc in scn['heap'] if isinstance(enc, list)) else None}


def generate(rng, index, tier):
    return generate_csv(rng) if index % 2 else generate_history(rng)


def run(scn, stats):
    return run_csv(scn, stats) if 'tables' in scn else run_history(scn, stats)
