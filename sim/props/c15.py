"""C15: array, object and string functions obey their sequence, map and string contracts."""

import re
import urllib.parse

from .. import gen
from ..core import InvalidScenario, Violation, gen_schedule
from ..engine import execute, history, import_target
from ..values import decode
from .common import ASSUME, REAL_ALL, STUB_HOST, latency

ID = 'C15'
RUNS = {'quick': 24000, 'thorough': 500000}
RULE = ('seeded histories of up to 30 library calls issued by 1-3 sessions over one pool of aliased containers and strings, the pool observed '
        '(with its alias structure) after every call; arguments well-formed or wrong-typed, missing, surplus, out of range; failing callbacks; '
        'and seeded strings through regexEscape and the URL encoders; non-trivial: a mutation seen through an alias, a failed call or an encoded '
        'string with an escape (distinct by history)')
REAL = REAL_ALL
STUB = STUB_HOST
ASSUMPTIONS = ASSUME + ['percent-decoding and re.fullmatch (Python standard library) decide the encoders',
                        'NaN, containers of more than 2000 elements and strings of more than 100000 code points are outside the workload']
SHRINK_STRINGS = ('codec',)

ARRAYS = ['a0', 'a1', 'a2', 'a3']
OBJECTS = ['o0', 'o1', 'o2']
STRINGS = ['s0', 's1', 's2']
POOL = ARRAYS + OBJECTS + STRINGS + ['v0', 'v1']
ODD = ['null', 'true', 'false', 'xNum', 'xNeg', 'xFrac', 'xInf', 'xNan', 'xStr', 'xArr', 'xObj', 'xFn', 'xDt', 'xRe', 'xBig', 'xDigits']
KEYS = ['a', 'b', 'c', '', 'k\u00e9', '0', 'a b']
TEXTS = ['', 'a', 'b', 'ab', 'aab', 'abab', 'a,b,,c', ' x ', '\t\n x\u00a0', 'ABC', 'Stra\u00dfe', '\u0130I\u0131i', 'e\u0301', '\u00e9', '\U0001f600',
         '\U0001f600a\U0001f601', '0', '-1', 'null', 'a b', '\x1c', '\u2003', ',', ', ', 'aaaaa', '\ud800']

# Argument kinds: A array, O object, S string, K key, I index into the first argument, V any value, F match function, C comparator or
# nothing, N small count, P code point, T short search string
SIGNATURES = {
    'arrayCopy': 'A', 'arrayDelete': 'AI', 'arrayExtend': 'AA', 'arrayGet': 'AI', 'arrayIndexOf': 'AVi', 'arrayJoin': 'AT', 'arrayLastIndexOf': 'AVi',
    'arrayLength': 'A', 'arrayNew': 'vvv', 'arrayNewSize': 'nv', 'arrayPop': 'A', 'arrayPush': 'Avvv', 'arraySet': 'AIV', 'arrayShift': 'A',
    'arraySlice': 'Aii', 'arraySort': 'AC',
    'objectAssign': 'OO', 'objectCopy': 'O', 'objectDelete': 'OK', 'objectGet': 'OKv', 'objectHas': 'OK', 'objectKeys': 'O', 'objectNew': 'kvkv',
    'objectSet': 'OKV',
    'stringCharCodeAt': 'SI', 'stringEndsWith': 'ST', 'stringFromCharCode': 'ppp', 'stringIndexOf': 'STi', 'stringLastIndexOf': 'STi',
    'stringLength': 'S', 'stringLower': 'S', 'stringNew': 'V', 'stringRepeat': 'SN', 'stringReplace': 'STT', 'stringSlice': 'SIi',
    'stringSplit': 'ST', 'stringStartsWith': 'ST', 'stringTrim': 'S', 'stringUpper': 'S',
}
VARIADIC = ('arrayNew', 'arrayPush', 'objectNew', 'stringFromCharCode')
MUTATORS = ('arrayDelete', 'arrayExtend', 'arrayPop', 'arrayPush', 'arraySet', 'arrayShift', 'arraySort', 'objectAssign', 'objectDelete', 'objectSet')
COMPARATORS = ['cmpDown', 'cmpType', 'cmpZero', 'cmpLess', 'systemCompare']
MATCHERS = ['isNull', 'isBig', 'isText', 'hMatch', 'systemBoolean', 'arrayLength']


def prelude():
    """Comparators and helpers written in the script language."""
    left = gen.var('x')
    right = gen.var('y')
    return [
        gen.st_function('cmpDown', ['x', 'y'], [gen.st_return(gen.call('systemCompare', right, left))]),
        gen.st_function('cmpType', ['x', 'y'], [gen.st_return(gen.call('systemCompare', gen.call('systemType', left), gen.call('systemType', right)))]),
        gen.st_function('cmpZero', ['x', 'y'], [gen.st_return(gen.num(0.0))]),
        gen.st_function('cmpLess', ['x', 'y'], [
            gen.st_jump('less', gen.binary('<', left, right)), gen.st_return(gen.binary('>', left, right)), {'label': 'less'},
            gen.st_return(gen.num(-0.5))]),
        gen.st_function('isNull', ['x'], [gen.st_return(gen.binary('==', left, gen.var('null')))]),
        gen.st_function('isBig', ['x'], [gen.st_return(gen.binary('>', left, gen.num(1.0)))]),
        gen.st_function('isText', ['x'], [gen.st_return(gen.binary('==', gen.call('systemType', left), gen.string('string')))]),
        gen.st_function('rest', ['x', 'y'], [gen.st_expr(gen.call('arrayPush', gen.var('y'), left)), gen.st_return(gen.var('y'))], True),
        gen.st_function('own', ['x'], [
            gen.st_expr(gen.call('arrayCopy', left), 'x'), gen.st_expr(gen.call('arrayPush', left, gen.string('own'))), gen.st_return(left)]),
        gen.st_function('via', ['x', 'y'], [gen.st_expr(gen.call('arrayPush', left, right)), gen.st_expr(gen.call('objectSet', left, gen.string('via'), right))]),
    ]


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.step = 0
        self.bad = rng.choice([0.05, 0.15, 0.4])

    def index(self, target):
        """An index from -2 to len+2, as a float literal or relative to the length."""
        rng = self.rng
        roll = rng.random()
        if roll < 0.6:
            value = rng.choice([0, 0, 0, 1, 1, 2, 3, 4, 5, 7])
            return gen.num(float(value) if rng.random() < 0.8 else value)
        if roll < 0.7:
            return gen.num(float(rng.choice([-2, -1, -1])))
        length = gen.call('stringLength' if target in STRINGS else 'arrayLength', gen.var(target))
        offset = rng.choice([-2, -1, -1, 0, 0, 1, 2])
        if offset == 0:
            return length
        return gen.binary('+' if offset > 0 else '-', length, gen.num(float(abs(offset))))

    def value(self):
        rng = self.rng
        roll = rng.random()
        if roll < 0.25:
            return gen.num(float(rng.choice([0, 1, 2, 3, -1, 0.5, 2.5])))
        if roll < 0.4:
            return gen.string(rng.choice(['', 'a', 'b', 'ab', 'x']))
        if roll < 0.5:
            return gen.var(rng.choice(['null', 'true', 'false']))
        if roll < 0.6:
            return gen.var(rng.choice(['xDt', 'xFn', 'xRe', 'xStr', 'xNum']))
        return gen.var(rng.choice(POOL))

    def argument(self, kind, target):
        rng = self.rng
        if kind == 'A':
            return gen.var(rng.choice(ARRAYS))
        if kind == 'O':
            return gen.var(rng.choice(OBJECTS))
        if kind == 'S':
            return gen.var(rng.choice(STRINGS)) if rng.random() < 0.75 else gen.string(rng.choice(TEXTS))
        if kind in 'Kk':
            return gen.string(rng.choice(KEYS))
        if kind in 'Ii':
            return self.index(target)
        if kind in 'Vv':
            return self.value()
        if kind == 'C':
            return gen.var(rng.choice(COMPARATORS)) if rng.random() < 0.6 else gen.var('null')
        if kind in 'Nn':
            return gen.num(float(rng.choice([0, 1, 2, 3, 4])))
        if kind == 'p':
            return gen.num(float(rng.choice([65, 97, 0x1f600, 0x10ffff, 0, 233, 0xd800, 10])))
        if rng.random() < 0.3:
            return gen.var(rng.choice(STRINGS))
        return gen.string(rng.choice(['', 'a', 'b', 'ab', ',', 'aa', 'x', '\U0001f600', 'A', ' ', '\u00df', ', ']))

    def odd(self, kind):
        rng = self.rng
        roll = rng.random()
        if kind in 'IiNn' and roll < 0.6:
            return rng.choice([gen.var('xNeg'), gen.var('xFrac'), gen.var('xInf'), gen.var('xNan'), gen.var('xBig'), gen.num(-1.0), gen.num(0.5),
                               gen.num(1e9), gen.string('1'), gen.var('true'), gen.var('null'), gen.var('xDigits')])
        if kind == 'p' and roll < 0.6:
            return rng.choice([gen.num(-1.0), gen.num(0.5), gen.num(float(0x110000)), gen.var('xNan'), gen.var('xInf'), gen.var('true'), gen.string('a')])
        return gen.var(rng.choice([name for name in ODD if kind != 'C' or name not in ('xFn', 'xBig')]))

    def operation(self):
        rng = self.rng
        roll = rng.random()
        if roll < 0.04:
            return rng.choice(['rest', 'own', 'via']), gen.call(rng.choice(['rest', 'own', 'via']),
                                                               *[gen.var(rng.choice(POOL)) for _ in range(rng.randrange(1, 4))])
        if roll < 0.07:
            name = rng.choice(['arrayPush', 'objectSet', 'arrayGet', 'arrayNew', 'arrayIndexOf'])
            bound = [gen.var(rng.choice(ARRAYS + OBJECTS)) for _ in range(rng.randrange(1, 3))]
            return 'systemPartial', gen.call('systemPartial', gen.var(name), *bound)
        if roll < 0.12:
            return 'partial', gen.call('fP', *[self.value() for _ in range(rng.randrange(3))])
        if roll < 0.13:
            return 'unavailable', gen.call(rng.choice(['regexEscape', 'urlEncode', 'urlEncodeComponent']),
                                           *[gen.var(rng.choice([name for name in ODD if name not in ('xStr', 'xDigits')]))][:rng.randrange(2)])
        names = list(SIGNATURES)
        name = rng.choice(MUTATORS) if rng.random() < 0.3 else rng.choice(names)
        kinds = SIGNATURES[name]
        if name in VARIADIC:
            kinds = (kinds.rstrip('vkp') + kinds.lstrip('AO'))[:rng.randrange(len(kinds) + 1)] if rng.random() < 0.5 else kinds
            if name == 'arrayPush' and not kinds:
                kinds = 'A'
        else:
            while kinds and kinds[-1].islower() and rng.random() < 0.5:
                kinds = kinds[:-1]
        args = []
        target = ''
        for position, kind in enumerate(kinds):
            arg = self.argument(kind, target)
            if position == 0:
                target = arg.get('variable', '')
            args.append(arg)
        if name in ('arrayIndexOf', 'arrayLastIndexOf') and len(args) > 1 and rng.random() < 0.3:
            args[1] = gen.var(rng.choice(MATCHERS))
        if rng.random() < self.bad:
            roll = rng.random()
            if args and roll < 0.6:
                position = rng.randrange(len(args))
                args[position] = self.odd(kinds[position])
            elif args and roll < 0.8:
                args.pop()
            elif name != 'objectGet' or len(args) < 3:
                args.append(self.value())
        return name, gen.call(name, *args)

    def statements(self, count):
        rng = self.rng
        out = []
        for _ in range(count):
            name, expr = self.operation()
            roll = rng.random()
            if name == 'systemPartial':
                out.append(gen.st_expr(expr, 'fP'))
            elif name.startswith('string') and roll < 0.4:
                out.append(gen.st_expr(expr, rng.choice(STRINGS)))
            elif name in ('arrayCopy', 'arraySlice', 'arrayNew', 'arrayNewSize', 'objectKeys', 'stringSplit', 'arrayExtend', 'rest', 'own') and roll < 0.5:
                out.append(gen.st_expr(expr, rng.choice(ARRAYS)))
            elif name in ('objectCopy', 'objectNew', 'objectAssign') and roll < 0.5:
                out.append(gen.st_expr(expr, rng.choice(OBJECTS)))
            elif roll < 0.75:
                out.append(gen.st_expr(expr, rng.choice(['v0', 'v1'])))
            else:
                out.append(gen.st_expr(expr, 'r'))
                out.append(self.tick('r'))
                continue
            out.append(self.tick(None))
        return out

    def tick(self, result):
        self.step += 1
        pool = POOL if result is None else [result, *POOL]
        return gen.st_expr(gen.call('tick', gen.num(self.step), *[gen.var(name) for name in pool]))


def element(rng, heap):
    roll = rng.random()
    if heap and roll < 0.25:
        return {'$': 'heap', 'v': rng.randrange(len(heap))}
    return rng.choice([None, True, False, 0, 1, 1.0, 2, 2.5, -1, 3.0, '', 'a', 'b', 'ab', '\u00e9', {'$': 'dt', 'v': [2024, 2, 29, 1, 2, 3, 4000]},
                       {'$': 'fn', 'v': 'hMatch'}, {'$': 're', 'v': 'a+'}, [], [1], [1, 2], {'$': 'obj', 'v': []}, {'$': 'obj', 'v': [['a', 1]]}])


def generate_history(rng):
    gen_ = Gen(rng)
    heap = []
    arrays = []
    objects = []
    big = rng.random()
    for _ in range(rng.randrange(2, 6)):
        if rng.random() < 0.6:
            arrays.append(len(heap))
            size = rng.choice([0, 1, 2, 3, 5, 8]) if big > 0.1 else rng.choice([9, 16, 17, 33, 64, 65, 100])
            heap.append([element(rng, heap) for _ in range(size)])
        else:
            objects.append(len(heap))
            keys = rng.sample(KEYS, rng.randrange(4))
            if big < 0.1:
                keys += [f'k{ix}' for ix in range(rng.choice([5, 9, 17, 33, 40]))]
            heap.append({'$': 'obj', 'v': [[key, element(rng, heap)] for key in keys]})

    def ref(indexes, empty):
        return {'$': 'heap', 'v': rng.choice(indexes)} if indexes and rng.random() < 0.85 else empty

    entries = [[name, ref(arrays, [])] for name in ARRAYS]
    entries += [[name, ref(objects, {'$': 'obj', 'v': []})] for name in OBJECTS]
    entries += [[name, rng.choice(TEXTS)] for name in STRINGS]
    entries += [[name, element(rng, heap)] for name in ('v0', 'v1')]
    entries += [
        ['xNum', 1], ['xNeg', -1], ['xFrac', 1.5], ['xInf', {'$': 'num', 'v': rng.choice(['inf', '-inf'])}], ['xNan', {'$': 'num', 'v': 'nan'}],
        ['xStr', 'abc'], ['xDigits', '1'], ['xArr', [1, 2]], ['xObj', {'$': 'obj', 'v': [['a', 1]]}], ['xFn', {'$': 'fn', 'v': 'hMatch'}],
        ['xDt', {'$': 'dt', 'v': [2023, 1, 31, 0, 0, 0, 0]}], ['xRe', {'$': 're', 'v': '^b'}], ['xBig', {'$': 'int', 'v': str(10**18)}],
        ['fP', {'$': 'fn', 'v': 'arrayLength'}], ['tick', {'$': 'fn', 'v': 'tick'}], ['hMatch', {'$': 'fn', 'v': 'hMatch'}]]
    count = rng.choice([1, 1, 1, 2, 3])
    globals_ = [entries]
    if count > 1 and rng.random() < 0.4:        # separate variables over the same containers
        globals_ = [[list(entry) for entry in entries] for _ in range(count)]
    models = []
    sessions = []
    for sid in range(count):
        models.append({'statements': prelude() + gen_.statements(rng.randrange(1, 31 if count == 1 else 16))})
        sessions.append({'calls': [{'model': sid, 'globals': sid if len(globals_) > 1 else 0, 'debug': rng.random() < 0.1}]})
    ticks = [{}]
    if rng.random() < 0.2:
        ticks = []
        for _ in range(rng.randrange(1, 12)):
            action = rng.choice([['push', rng.randrange(1, 8), 'host'], ['setkey', rng.randrange(1, 9), 'a', 'host']])
            ticks.append({} if rng.random() < 0.6 else {'do': [action]})
        ticks.append({})
    matches = [{'ret': rng.choice([True, False, 0, 1, '', 'x', None])} for _ in range(rng.randrange(1, 8))]
    if rng.random() < 0.2:
        matches[rng.randrange(len(matches))] = {'raise': gen.error_class(rng)}
    return {'models': models, 'heap': heap, 'globals': globals_, 'hosts': {'tick': ticks, 'hMatch': matches}, 'sessions': sessions,
            'share': count > 1, 'schedule': gen_schedule(rng, 40 * count), 'latency': latency(rng), 'immutable': True, 'observe': True}


ALPHABET = ['a', 'Z', '0', '9', '_', ' ', '\t', '\n', '\r', '\x00', '\x0b', '\x7f', '\u0085', '\u2028', '\u00e9', '\u00df', '\u20ac', '\U0001f600',
            *'.^$*+?{}[]\\|()-#&~/:;,<=>@!"\'`%']


def text_of(rng):
    style = rng.random()
    if style < 0.5:
        return ''.join(rng.choice(ALPHABET) for _ in range(rng.randrange(0, 12)))
    if style < 0.7:
        return ''.join(chr(rng.randrange(0x20, 0x7f)) for _ in range(rng.randrange(0, 20)))
    if style < 0.85:
        return rng.choice(['a.b', '[a-z]', '(x|y)', 'a{2}', '\\d+', '\\', '^$', 'x#y', '%41', '%', '%%', 'a+b c', '50% off', 'https://a.b/c?d=e&f=g#h',
                           "it's", 'a\nb', '-', 'a-b', '\\n', '(?i)a', '\\Q', '+', '%2B', "':/&+"]) + rng.choice(['', '', 'z', '%20'])
    if style < 0.9:
        return ''.join(rng.choice(['%', '%25', '%2525', '%20', '2', '5', '25', '%e9', '%C3%A9', '%2F', '%u0041', '&amp;', '&', '\\u0041', '\\\\', '\\n', '\\.', '.', '+',
                                   '%00', '\u0301', 'e', ' ', '%7E', '~']) for _ in range(rng.randrange(1, 8)))
    return ''.join(chr(rng.choice([rng.randrange(0x80, 0x800), rng.randrange(0xe000, 0xffff), rng.randrange(0x10000, 0x110000), rng.randrange(0x80)]))
                   for _ in range(rng.randrange(1, 8)))


def generate_codec(rng):
    texts = [text_of(rng) for _ in range(rng.randrange(1, 6))]
    others = []
    for text in texts:
        other = list(text)
        for _ in range(rng.randrange(1, 3)):
            roll = rng.random()
            at = rng.randrange(len(other) + 1)
            if roll < 0.35:
                other.insert(at, rng.choice(ALPHABET))
            elif other and roll < 0.65:
                del other[at % len(other)]
            elif other:
                other[at % len(other)] = rng.choice(['x', other[at % len(other)].swapcase(), 'a', '\n', rng.choice(ALPHABET)])
        others.append(''.join(other))
    return {'codec': texts, 'others': others}


def generate_sort(rng):
    """Sorting records by a key with a comparator that fails or not: stability, permutation."""
    keys = [rng.randrange(4) for _ in range(rng.randrange(2, 20))]
    return {'sort': keys, 'fail_at': rng.choice([None, None, 0, 1, 3, 6, 10]), 'error': gen.error_class(rng), 'nan': False, 'down': rng.random() < 0.5}


def generate(rng, index, tier):
    roll = rng.random()
    if roll < 0.78:
        return generate_history(rng)
    return generate_codec(rng) if roll < 0.95 else generate_sort(rng)


def run_codec(scn, stats):
    import_target()
    from bare_script import execute_script, parse_script  # pylint: disable=import-outside-toplevel
    script = parse_script('return arrayNew(regexEscape(s), urlEncode(s), urlEncodeComponent(s), regexMatch(regexNew(regexEscape(s)), s) != null, '
                          'regexReplace(regexNew(regexEscape(s)), p, q))\n')
    hist = []
    escaped = False
    for text, other in zip(scn['codec'], scn['others']):
        if not isinstance(text, str) or not isinstance(other, str):
            raise InvalidScenario('not a string')
        try:
            text.encode('utf-8')
        except UnicodeEncodeError as exc:
            raise InvalidScenario('lone surrogates have no percent-encoding') from exc
        stats.hit('strings', 1)
        result = execute_script(script, {'globals': {'s': text, 'p': '<' + text + '|' + text + '>', 'q': '='}})
        pattern, url, component, matches, replaced = result
        hist.append([text, pattern, url, component])
        if not isinstance(pattern, str) or not isinstance(url, str) or not isinstance(component, str):
            raise Violation('encode-failed', f'{text!r}: {result!r}')
        if re.fullmatch(pattern, text) is None or not matches:
            raise Violation('escape-no-match', f'{pattern!r} does not match {text!r}')
        if text and replaced != f'<{text}|{text}>'.replace(text, '='):
            raise Violation('escape-replace', f'replacing {text!r} gave {replaced!r}')
        for near in (other, text + 'a', text[1:], text[:-1], text.swapcase(), text.replace(' ', ''), text + '\n'):
            if near != text and re.fullmatch(pattern, near) is not None:
                raise Violation('escape-too-wide', f'{pattern!r} (for {text!r}) also matches {near!r}')
        for name, encoded in (('urlEncode', url), ('urlEncodeComponent', component)):
            if urllib.parse.unquote(encoded, errors='strict') != text:
                raise Violation('url-not-reversible', f'{name}({text!r}) gave {encoded!r}')
            if not re.fullmatch(r"(?:[!-$&-~]|%[0-9A-Fa-f]{2})*", encoded):
                raise Violation('url-not-encoded', f'{name}({text!r}) gave {encoded!r}')
        escaped = escaped or pattern != text or '%' in component
    return {'history': hist, 'keys': ['codec'], 'nontrivial': hist if escaped else None}


def run_sort(scn, stats):
    import_target()
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    from bare_script import evaluate_expression, parse_expression  # pylint: disable=import-outside-toplevel
    from ..engine import host_error  # pylint: disable=import-outside-toplevel
    records = [{'key': float(key), 'at': at} for at, key in enumerate(scn['sort'])]
    array = list(records)
    calls = [0]
    sign = -1 if scn['down'] else 1

    def compare(args, options):
        calls[0] += 1
        if scn['fail_at'] is not None and calls[0] == scn['fail_at'] + 1:
            stats.hit('fault.comparator')
            raise host_error(scn['error'])
        return (args[0]['key'] - args[1]['key']) * sign

    globals_ = {**SCRIPT_FUNCTIONS, 'array': array, 'compare': compare}
    result = evaluate_expression(parse_expression('arraySort(array, compare)'), {'globals': globals_}, None, False)
    expected = sorted(records, key=lambda record: (record['key'] * sign, record['at']))
    if scn['fail_at'] is not None and calls[0] > scn['fail_at']:
        if result is not None:
            raise Violation('sort-failed-value', f'a failed sort gave {result!r}')
        if sorted(map(id, array)) != sorted(map(id, records)):
            raise Violation('sort-lost', f'a failed sort left {array!r} of {records!r}')
    elif result is not array or [id(item) for item in array] != [id(item) for item in expected]:
        raise Violation('sort-order', f'got {array!r}, expected {expected!r}')
    return {'history': [scn['sort'], calls[0] > 0, result is None], 'keys': ['sort failed' if result is None else 'sort'], 'nontrivial': [scn['sort'], scn['fail_at']]}


def run(scn, stats):
    if 'codec' in scn:
        return run_codec(scn, stats)
    if 'sort' in scn:
        return run_sort(scn, stats)
    real, _ = execute(scn, stats)
    hist = history(real)
    keys = set()
    failed = False
    for model in scn['models']:
        statements = model['statements']
        for statement in statements:
            expr = statement.get('expr', {}).get('expr', {}).get('function')
            if expr and expr['name'] in SIGNATURES:
                keys.add(f'{expr["name"]}/{len(expr["args"])}')
                stats.hit('call.' + expr['name'])
                bad = any(arg.get('variable') in ODD[3:] for arg in expr['args'])
                if bad:
                    stats.hit('fault.argument')
                failed = failed or bad or expr['name'] in MUTATORS
    return {'history': hist, 'keys': sorted(keys), 'nontrivial': hist if failed else None}
