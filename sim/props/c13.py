"""C13: numbers survive conversion to text and back - a journal of numbers is replayed exactly, however often it is written, damaged and restarted."""

import fractions
import math
import re
import struct

from ..core import InvalidScenario, Violation, gen_preempts, gen_schedule
from ..engine import import_target
from ..life import Crash, Life
from .common import ASSUME, latency

ID = 'C13'
RUNS = {'quick': 22000, 'thorough': 700000}
RULE = ('seeded lives of 1-3 sessions that keep numbers as text in a simulated journal: written by concatenation, stringNew, arrayJoin and systemLog, '
        'replayed by numberParseFloat, numberParseInt in radix 2 to 36 and as literals of generated source read in chunks, written again for several '
        'generations, accumulated by a program that keeps its state as text; lines lost, doubled, torn, with characters changed, dropped and inserted, '
        'crashes, statement budgets, near-misses by other writers, line-level preemption; non-trivial: a number replayed (distinct by history)')
REAL = ['bare_script.runtime', 'bare_script.library', 'bare_script.value', 'bare_script.parser']
STUB = ['journal: in memory, with faults', 'logFn: writes to the journal', 'thread scheduler: baton scheduler over real threads']
ASSUMPTIONS = ASSUME[1:] + ['fractions.Fraction rounds to the nearest double', 'An integral number may be written with an exponent',
                            'Prefixes (0x of radix 16 and the like) and surrounding whitespace other than ASCII are not part of the property']

HOWS = {
    'left': "'' + x", 'right': "x + ''", 'middle': "'' + x + ''", 'named': "'x=' + x + ';'", 'new': 'stringNew(x)', 'join': "arrayJoin(arrayNew(x), ',')",
    'variable': "s + x", 'nested': "stringNew('' + x)", 'replaced': "stringReplace('#', '#', stringNew(x))"}

SCRIPT = '''
function journalReplay(seg, radix):
    texts = storeRead(seg)
    if texts == null:
        return null
    endif
    out = arrayNew()
    for text in texts:
        arrayPush(out, arrayNew(text, numberParseFloat(text), numberParseInt(text, radix), numberParseInt(text)))
    endfor
    return out
endfunction

function journalLog(numbers):
    for x in numbers:
        systemLog(x)
    endfor
endfunction

function journalJoin(seg, numbers):
    storeJoined(seg, arrayJoin(numbers, ';'))
endfunction

function slotRead(key):
    text = storeSlot(key)
    parts = if(text != null, stringSplit(text, ';'))
    if parts == null || arrayLength(parts) != 3 || arrayGet(parts, 2) != 'end':
        return null
    endif
    return arrayNew(numberParseInt(arrayGet(parts, 0)), numberParseFloat(arrayGet(parts, 1)))
endfunction

function ledgerRun(name, deltas):
    state = slotRead(name + 'A')
    other = slotRead(name + 'B')
    if state == null || (other != null && arrayGet(other, 0) > arrayGet(state, 0)):
        state = other
    endif
    if state == null:
        state = arrayNew(0, 0)
    endif
    count = arrayGet(state, 0)
    sum = arrayGet(state, 1)
    while count < arrayLength(deltas):
        sum = sum + arrayGet(deltas, count)
        count = count + 1
        storeSlot(name + if(count % 2, 'A', 'B'), count + ';' + sum + ';end')
    endwhile
    return arrayNew(count, sum)
endfunction
''' + ''.join(f'''
function write_{how}(seg, numbers):
    s = ''
    at = 0
    while at < arrayLength(numbers):
        x = arrayGet(numbers, at)
        storeAppend(seg, at, {code})
        at = at + 1
    endwhile
endfunction

function rewrite_{how}(seg, target):
    texts = storeRead(seg)
    s = ''
    for text, at in if(texts != null, texts, arrayNew()):
        x = numberParseFloat(text)
        if x != null:
            storeAppend(target, at, {code})
        endif
    endfor
endfunction
''' for how, code in HOWS.items())

# How a text stands as a literal in a script: the code, and what it denotes
FORMS = {
    'return': ('return {0}', lambda x: x), 'assign': ('a = {0}\nreturn a', lambda x: x), 'group': ('return ({0})', lambda x: x),
    'call': ('return give({0})', lambda x: x), 'call2': ('return give({0}, {0})', lambda x: x), 'add': ('return 0 + {0}', lambda x: 0 + x),
    'minus': ('return -{0}', lambda x: -x), 'tight': ('return 2-{0}', lambda x: 2 - x), 'times': ('return 1*{0}', lambda x: x),
    'equal': ('return if({0}==x,{0},null)', lambda x: x), 'jump': ('jumpif ({0} == x) same\nreturn null\nsame:\nreturn {0}', lambda x: x),
    'if': ('if {0} != x:\n    return null\nendif\nreturn {0}', lambda x: x), 'text': ("return numberParseFloat('{0}')", lambda x: x),
    'round': ("return numberParseFloat('' + {0})", lambda x: x), 'padded': ('return   {0}  ', lambda x: x), 'comment': ('# {0}\nreturn {0}', lambda x: x),
    'array': ('return arrayGet(arrayNew({0}, 1), 0)', lambda x: x), 'continued': ('return give( \\\n    {0} \\\n)', lambda x: x),
    'function': ('function ff():\n    return {0}\nendfunction\nreturn ff()', lambda x: x)}
MISSES = ['', ' ', '.', '-', '+', 'e', 'e5', '1e', '1e+', '.e1', '1.2.3', '1,5', '1 2', '1_000', '_1', '1_', '1e1_0', 'inf', '-inf', 'Infinity', 'nan', 'NaN', '+nan', 'infinity',
          '1e999', '-1e999', '1e309', '1.7976931348623159e308', '--1', '+-1', '1-', '12abc', 'abc', 'a12', '0x', '0b', 'null', 'true', 'None', '\uff11\uff12', '\u0661', '1\u0662',
          '\u00bd', '\u00b2', '1\x00', '\x001', '1e5.0', '1e 5', '- 1', '1.0.', '..5', '1..', '5.', '.5', '+.5e-3', '00012', '0e0', '-0', '+0', '1E5', '1e-400', '-1e-400',
          ' 12 ', '\t1\n', '1\n2', '1;', '$1', '1%', '1f', '1d', '1L', '1n', '1j', '0.1.', 'z', 'Zz', 'ff', 'FF', '777', '1010', '9007199254740993', '-8', '+7', '12.5', '12.0',
          '1' * 60, '0.' + '0' * 40 + '1', '179769313486231570' + '0' * 291, '1' + '0' * 309, '4.9e-324', '2.4703282292062327e-324', '2.4703282292062328e-324', '1e1000000000', '1e-1000000000']
EDITS = '0123456789.eE+-_, xn\uff11\u0661a\x00\t'


#
# Numbers
#

def decode(enc):
    if isinstance(enc, bool) or not isinstance(enc, (int, str)):
        raise InvalidScenario('number')
    if isinstance(enc, int):
        if abs(enc) > 2 ** 53:
            raise InvalidScenario('number')
        return enc
    value = struct.unpack('>d', bytes.fromhex(enc))[0]
    if not math.isfinite(value):
        raise InvalidScenario('number')
    return value


def bits(value):
    return struct.pack('>d', value)


def same(got, value):
    """Exactly the number (minus zero is not zero)."""
    if isinstance(got, bool) or not isinstance(got, (int, float)):
        return got is None and value is None
    if value is None:
        return False
    if isinstance(got, int) and isinstance(value, int):
        return got == value
    return got == value and bits(float(got)) == bits(float(value))


def same_int(got, value):
    """A whole number, or nothing (a number beyond the doubles may also be none)."""
    if isinstance(got, bool) or not isinstance(got, (int, float)):
        return got is None and (value is None or abs(value) >= 10 ** 308)
    if value is None:
        return False
    return got == value if isinstance(got, int) or abs(value) >= 10 ** 308 else got == float(value)


NOTHING = object()
R_FLOAT = re.compile(r'([+-]?)(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+))?', re.ASCII)
R_INT = re.compile(r'([+-]?)([0-9A-Za-z]+)', re.ASCII)
PREFIXES = {2: '0b', 8: '0o', 16: '0x'}


def trimmed(text):
    """The text without surrounding whitespace; NOTHING if that is not ASCII whitespace."""
    out = text.strip(' \t\r\n\f\v')
    return out if out == text.strip() else NOTHING


def float_of(text):
    """What a text denotes: a double, None, or NOTHING if that is not laid down."""
    text = trimmed(text)
    if text is NOTHING:
        return text
    match = R_FLOAT.fullmatch(text)
    if match is None or not (match[2] or match[3]):
        return None
    places = match[3] or ''
    digits = int(match[2] + places)
    power = int(match[4] or 0) - len(places)
    if digits == 0:
        value = 0.0
    elif power > 400:
        return None
    elif power < -1200:
        value = 0.0
    else:
        try:
            value = float(fractions.Fraction(digits) * fractions.Fraction(10) ** power)
        except OverflowError:
            return None
    return -value if match[1] == '-' else value


def int_of(text, radix):
    text = trimmed(text)
    if text is NOTHING:
        return text
    match = R_INT.fullmatch(text)
    if match is None:
        return None
    if radix in PREFIXES and match[2].lower().startswith(PREFIXES[radix]):
        return NOTHING
    value = 0
    for char in match[2].lower():
        digit = ord(char) - ord('0') if char <= '9' else ord(char) - ord('a') + 10
        if digit >= radix:
            return None
        value = value * radix + digit
    return -value if match[1] == '-' else value


def check_text(what, text, value):
    """The text is that of the number."""
    if not isinstance(text, str):
        raise Violation('text', f'{what}: {text!r} for {value!r}')
    if not same(float_of(text), float(value)):
        raise Violation('altered', f'{what}: {text!r} for {value!r}')
    if value == math.floor(value) and '.' in text and 'e' not in text.lower():
        raise Violation('integral', f'{what}: {text!r} for {value!r}')


def digits_of(value, radix):
    out = ''
    left = abs(value)
    while left or not out:
        out = '0123456789abcdefghijklmnopqrstuvwxyz'[left % radix] + out
        left //= radix
    return '-' + out if value < 0 else out


#
# A run
#

class World(Life):
    LIBRARY = SCRIPT

    def __init__(self, scn, stats):
        super().__init__(scn, stats)
        self.numbers = [decode(enc) for enc in scn['numbers']]
        self.journal = {}       # segment -> [[text, number or NOTHING]]
        self.slots = {}         # key -> (text, [count, sum] or None if torn)
        self.writing = {}       # sid -> the numbers being written
        self.reading = {}       # sid -> the entries read
        self.states = {}        # sid -> the states of the ledger
        self.ledgers = {}

    def pick(self, ixs):
        if not all(isinstance(ix, int) and 0 <= ix < len(self.numbers) for ix in ixs):
            raise InvalidScenario('number')
        return [self.numbers[ix] for ix in ixs]

    def process(self, sid, code, values, limit=None):
        def log(text):
            at = logged[0]
            logged[0] += 1
            self.append(sid, 'log', at, text)
        logged = [0]
        host = {
            'storeAppend': lambda args, _: self.append(sid, *args), 'storeRead': lambda args, _: self.read(sid, *args), 'give': lambda args, _: args[0],
            'storeJoined': lambda args, _: self.joined(sid, *args), 'storeSlot': lambda args, _: self.slot(sid, *args)}
        return self.execute(code, {**host, **values}, limit, logFn=log)

    # -- the journal

    def append(self, sid, seg, at, text):
        numbers = self.writing[sid]
        if isinstance(text, str) and text.startswith('x=') and text.endswith(';'):
            text = text[2:-1]
        if not 0 <= at < len(numbers):
            raise Violation('text', f'session {sid}: {text!r} after {numbers!r}')
        number = numbers[int(at)]
        if number is NOTHING:
            number = float_of(text) if isinstance(text, str) else None
            if number is None:
                raise Violation('text', f'session {sid}: {text!r} for a damaged number')
            if number is NOTHING:
                return
        check_text(f'session {sid} writes to {seg}', text, number)
        self.store(sid, seg, text, number)

    def joined(self, sid, seg, text):
        parts = text.split(';') if text else []
        numbers = self.writing[sid]
        if len(parts) != len(numbers):
            raise Violation('text', f'session {sid}: arrayJoin gives {text!r} for {numbers!r}')
        for part, number in zip(parts, numbers):
            check_text(f'session {sid} joins to {seg}', part, number)
        for part, number in zip(parts, numbers):
            self.store(sid, seg, part, number)

    def store(self, sid, seg, text, number):
        self.wait('write')
        fault = self.fault('line')
        entries = self.journal.setdefault(seg, [])
        if fault is not None and fault[0] == 'before':
            raise Crash()
        if fault is None or fault[0] in ('after', 'dup'):
            entries.append([text, number])
        if fault is not None and fault[0] == 'dup':
            entries.append([text, number])
        if fault is not None and fault[0] in ('torn', 'torn_crash', 'flip', 'drop', 'insert'):
            at = int(fault[1] * len(text))
            damaged = {'torn': text[:at], 'torn_crash': text[:at], 'flip': text[:at] + fault[-1] + text[at + 1:], 'drop': text[:at] + text[at + 1:],
                       'insert': text[:at] + fault[-1] + text[at:]}[fault[0]] if isinstance(fault[-1], str) or fault[0] in ('torn', 'torn_crash', 'drop') else None
            if damaged is None or len(damaged) > len(text) + 4:
                raise InvalidScenario('fault')
            entries.append([damaged, number if damaged == text else NOTHING])
        self.hist.append([sid, 'line', seg, fault, text])
        self.wait('written')
        if fault is not None and fault[0] in ('after', 'torn_crash'):
            raise Crash()

    def read(self, sid, seg):
        self.wait('read')
        fault = self.fault('read')
        self.reading[sid] = None
        if fault is not None and fault[0] == 'missing':
            return None
        if fault is not None:
            raise OSError('gone')
        entries = self.reading[sid] = list(self.journal.get(seg, []))
        if sid in self.writing and self.writing[sid] == 'rewrite':
            self.writing[sid] = [number for _, number in entries]
        self.wait('readed')
        return [text for text, _ in entries]

    def slot(self, sid, key, *write):
        self.wait('slot')
        if not write:
            return self.slots[key][0] if key in self.slots else None
        text, = write
        states = self.states[sid]
        try:
            count, total, _ = text.split(';')
            state = states[int(count)]
        except (ValueError, AttributeError, IndexError) as exc:
            raise Violation('ledger', f'state {text!r}') from exc
        check_text(f'session {sid} writes count', count, state[0])
        check_text(f'session {sid} writes sum', total, state[1])
        fault = self.fault('slot')
        self.hist.append([sid, 'slot', key, fault, text])
        if fault is not None and fault[0] == 'before':
            raise Crash()
        if fault is None or fault[0] == 'after':
            self.slots[key] = (text, state)
        elif fault[0] in ('torn', 'torn_crash'):
            part = text[:int(fault[1] * len(text))]
            self.slots[key] = (part, None)
        self.wait('slotted')
        if fault is not None and fault[0] in ('after', 'torn_crash'):
            raise Crash()
        if fault is not None and fault[0] == 'fail':
            raise OSError('full')
        return None

    # -- steps

    def do_step(self, sid, step):
        kind, *args = step
        getattr(self, 'step_' + kind)(sid, *args)

    def step_write(self, sid, seg, ixs, how, limit=None):
        self.writing[sid] = numbers = self.pick(ixs)
        if how == 'log':
            code = 'journalLog(numbers)'
        elif how == 'joined':
            code = 'journalJoin(seg, numbers)'
        elif how in HOWS:
            code = f'write_{how}(seg, numbers)'
        else:
            raise InvalidScenario('how')
        self.hist.append([sid, 'write', seg, how, *self.process(sid, code, {'seg': seg, 'numbers': list(numbers)}, limit)])

    def step_rewrite(self, sid, seg, target, how, limit=None):
        """The next generation: what can be read is written again."""
        if how not in HOWS:
            raise InvalidScenario('how')
        self.writing[sid] = 'rewrite'
        self.hist.append([sid, 'rewrite', seg, target, how, *self.process(sid, f'rewrite_{how}(seg, target)', {'seg': seg, 'target': target}, limit)])

    def step_replay(self, sid, seg, radix):
        if not 2 <= radix <= 36:
            raise InvalidScenario('radix')
        outcome, got = self.process(sid, 'return journalReplay(seg, radix)', {'seg': seg, 'radix': radix})
        entries = self.reading[sid]
        if entries is None:
            if outcome != 'value' or got is not None:
                raise Violation('phantom', f'{got!r}')
            return
        if outcome != 'value' or not isinstance(got, list) or len(got) != len(entries):
            raise Violation('replay', f'{got!r} for {entries!r}')
        for (text, number), (_, as_float, as_int, as_ten) in zip(entries, got):
            self.judge(text, number, as_float, as_int, as_ten, radix)
        self.nontrivial = self.nontrivial or bool(entries)
        self.hist.append([sid, 'replay', seg, radix, len(entries)])

    def judge(self, text, number, as_float, as_int, as_ten, radix):
        expected = float_of(text)
        if number is not NOTHING:
            if not same(as_float, float(number)):
                raise Violation('altered', f'numberParseFloat({text!r}) is {as_float!r}, written for {number!r}')
        elif expected is not NOTHING and not same(as_float, expected):
            raise Violation('miss', f'numberParseFloat({text!r}) is {as_float!r}, expected {expected!r}')
        self.keys.add('float/' + ('null' if as_float is None else 'number'))
        for base, got in ((radix, as_int), (10, as_ten)):
            expected = int_of(text, base)
            if expected is NOTHING:
                continue
            self.keys.add('int/' + ('null' if got is None else 'number'))
            if not same_int(got, expected):
                raise Violation('miss', f'numberParseInt({text!r}, {base}) is {got!r}, expected {expected!r}')

    def step_literals(self, sid, seg, form, chunks):
        """The journal as source text."""
        if form not in FORMS:
            raise InvalidScenario('form')
        code, denotes = FORMS[form]
        bare = import_target()
        entries = list(self.journal.get(seg, []))
        for text, number in entries:
            if number is NOTHING or number < 0 or math.copysign(1, number) < 0:
                continue
            source = code.format(text)
            self.wait('literal')
            expr = bare.parse_expression(text)
            if list(expr) != ['number'] or not same(expr['number'], float(number)):
                raise Violation('literal', f'{text!r} is parsed as {expr!r}, written for {number!r}')
            model = bare.parse_script(split(source, chunks))
            self.wait('parsed')
            try:
                got = bare.execute_script(model, {'globals': {'give': lambda args, _: args[0], 'x': number}})
            except bare.BareScriptRuntimeError as exc:
                raise Violation('literal', f'{source!r}: {exc}') from exc
            if not same(got, denotes(float(number))) and not (got == denotes(float(number)) == 0):
                raise Violation('literal', f'{source!r} gives {got!r}, expected {denotes(float(number))!r}')
            self.nontrivial = True
        self.hist.append([sid, 'literals', seg, form, len(entries)])

    def step_foreign(self, sid, seg, texts):
        """Another program writes."""
        self.wait('foreign')
        for text in texts:
            if not isinstance(text, str) or len(text) > 400:
                raise InvalidScenario('text')
        self.journal.setdefault(seg, []).extend([text, NOTHING] for text in texts)
        self.hist.append([sid, 'foreign', seg, texts])

    def step_ints(self, sid, entries):
        """Whole numbers of other radix than ten."""
        texts = []
        for number, radix, upper, pad in entries:
            if not isinstance(number, int) or not 2 <= radix <= 36:
                raise InvalidScenario('int')
            text = digits_of(number, radix)
            texts.append([pad + (text.upper() if upper else text) + pad, radix, number])
        outcome, got = self.process(sid, 'out = arrayNew()\nfor entry in entries:\n    arrayPush(out, numberParseInt(arrayGet(entry, 0), arrayGet(entry, 1)))\nendfor\nreturn out',
                                    {'entries': [[text, radix] for text, radix, _ in texts]})
        if outcome != 'value' or len(got) != len(texts):
            raise Violation('ints', f'{got!r}')
        for (text, radix, number), value in zip(texts, got):
            expected = int_of(text, radix)
            if expected is not NOTHING and (expected != number or not same_int(value, number)):
                raise Violation('ints', f'numberParseInt({text!r}, {radix}) is {value!r}, expected {number}')
            if expected is NOTHING:
                self.stats.hit('prefixed')
        self.nontrivial = True
        self.hist.append([sid, 'ints', len(texts)])

    def step_ledger(self, sid, name, ixs, limit=None):
        """A program whose state is text."""
        deltas = self.pick(ixs)
        if self.ledgers.setdefault(name, (sid, ixs)) != (sid, ixs):
            raise InvalidScenario('another ledger')
        states = [[0, 0]]
        for delta in deltas:
            states.append([states[-1][0] + 1, states[-1][1] + float(delta)])
        if not all(math.isfinite(total) for _, total in states):
            raise InvalidScenario('sum')
        self.states[sid] = states
        outcome, got = self.process(sid, 'return ledgerRun(name, deltas)', {'name': name, 'deltas': list(deltas)}, limit)
        if outcome == 'value':
            if not isinstance(got, list) or len(got) != 2 or not same(got[0], states[-1][0]) or not got[1] == states[-1][1]:
                raise Violation('ledger', f'{got!r} after {deltas!r}, expected {states[-1]!r}')
            self.nontrivial = True
        self.hist.append([sid, 'ledger', name, outcome])


def split(text, chunks):
    """The lines of a text in chunks of so many lines."""
    lines = text.split('\n')
    if not chunks:
        return text
    out = []
    at = 0
    while at < len(lines):
        count = max(1, chunks[len(out) % len(chunks)])
        out.append('\n'.join(lines[at:at + count]))
        at += count
    return out


STEPS = {'write', 'rewrite', 'replay', 'literals', 'foreign', 'ints', 'ledger'}


def run(scn, stats):
    for phase in scn['phases']:
        for steps in phase['sessions']:
            if any(step[0] not in STEPS for step in steps):
                raise InvalidScenario('step')
    world = World(scn, stats)
    world.run()
    return world.outcome(world.keys)


#
# Generation
#

def hexed(value):
    return struct.pack('>d', value).hex()


def gen_number(rng):
    roll = rng.random()
    if roll < 0.22:
        while True:
            enc = f'{rng.getrandbits(64):016x}'
            if math.isfinite(struct.unpack('>d', bytes.fromhex(enc))[0]):
                return enc
    if roll < 0.32:
        value = float(f'1e{rng.randrange(-323, 309)}')
    elif roll < 0.45:
        value = float(rng.choice([2 ** 53, 10 ** 15, 10 ** 16, 10 ** 17, 10 ** 20, 10 ** 21, 10 ** 22, 2 ** 63, 2 ** 64, 2 ** 31, 10 ** 6, 100, 10, 1, 0]) + rng.randrange(-3, 4))
    elif roll < 0.52:
        value = struct.unpack('>d', struct.pack('>Q', rng.choice([0, 1, 2, 3, 2 ** 52 - 1, 2 ** 52, 2 ** 52 + 1, rng.getrandbits(52), 0x7fefffffffffffff, 0x7feffffffffffffe])))[0]
    elif roll < 0.6:
        return rng.choice([0, 1, -1, 10, 100, 120, 1000000, 2 ** 53, -2 ** 53, 2 ** 53 - 1, 7, rng.randrange(-10 ** 9, 10 ** 9), 10 ** rng.randrange(16)])
    elif roll < 0.8:
        value = rng.randrange(-10 ** rng.randrange(1, 9), 10 ** rng.randrange(1, 9)) / 10 ** rng.randrange(9)
    elif roll < 0.9:
        value = float(f'{rng.randrange(1, 10 ** rng.randrange(1, 17))}e{rng.randrange(-30, 30)}')
    else:
        value = rng.randrange(1, 1000) * 10.0 ** rng.randrange(0, 20)
    if rng.random() < 0.2:
        for _ in range(rng.randrange(1, 4)):
            value = math.nextafter(value, rng.choice([0.0, math.inf]))
    if rng.random() < 0.3:
        value = -value
    return hexed(value if math.isfinite(value) else 1.0)


def gen_miss(rng):
    text = rng.choice(MISSES)
    if rng.random() < 0.4:
        text = ''.join(rng.choice(EDITS) for _ in range(rng.randrange(1, 8)))
    elif rng.random() < 0.3:
        at = rng.randrange(len(text) + 1)
        text = text[:at] + rng.choice(EDITS) + text[at + rng.randrange(2):]
    return text


def generate(rng, index, tier):
    numbers = [gen_number(rng) for _ in range(rng.randrange(3, 14))]
    small = [ix for ix, enc in enumerate(numbers) if abs(decode(enc)) < 1e300]
    segs = ['s0', 's1', 'log'][:rng.choice([1, 2, 3])]
    faulty = rng.choice([0, 0, 0.12, 0.35])

    def ixs():
        return [rng.randrange(len(numbers)) for _ in range(rng.randrange(1, 6))]

    def limit():
        return rng.randrange(3, 70) if rng.random() < faulty * 0.5 else None

    def step():
        roll = rng.random()
        seg = rng.choice(segs)
        if roll < 0.34:
            return ['write', seg, ixs(), rng.choice([*HOWS, 'log', 'joined']), limit()]
        if roll < 0.56:
            return ['replay', seg, rng.choice([10, 10, 2, 8, 16, 36, rng.randrange(2, 37)])]
        if roll < 0.72:
            return ['literals', seg, rng.choice(list(FORMS)), rng.choice([[], [1], [rng.randrange(1, 4), rng.randrange(1, 3)]])]
        if roll < 0.84:
            return ['rewrite', seg, rng.choice(segs), rng.choice(list(HOWS)), limit()]
        if roll < 0.95:
            return ['foreign', seg, [gen_miss(rng) for _ in range(rng.randrange(1, 5))]]
        return ['ints', [[rng.choice([0, 1, -1, 35, 36, rng.randrange(-1000, 1000), rng.getrandbits(53), -rng.getrandbits(40)]), rng.randrange(2, 37), rng.random() < 0.5,
                          rng.choice(['', '', ' ', '\n'])] for _ in range(rng.randrange(1, 6))]]
    ledger = ['ledger', 'm', [rng.choice(small) for _ in range(rng.randrange(1, 7))]] if small and rng.random() < 0.4 else None
    phases = []
    for _ in range(rng.choice([1, 2, 3])):
        count = rng.choice([1, 1, 2, 3])
        sessions = [[step() for _ in range(rng.randrange(1, 8 if count == 1 else 5))] for _ in range(count)]
        if ledger is not None:
            sessions[0].insert(0, [*ledger, rng.randrange(5, 120) if rng.random() < 0.5 else None])
            if faulty:
                sessions[0].append([*ledger, None])
        phase = {'sessions': sessions, 'schedule': gen_schedule(rng, 50 * count) if count > 1 else []}
        if count > 1 and rng.random() < 0.4:
            phase['preempt'] = [gen_preempts(rng, rng.randrange(1, 6), 1500) for _ in sessions]
        phases.append(phase)
    phases.append({'sessions': [[['replay', seg, 10] for seg in segs] + ([[*ledger, None]] if ledger else [])], 'schedule': []})

    def faults(kinds):
        return [rng.choice(kinds) if rng.random() < faulty else None for _ in range(24)]
    return {'numbers': numbers, 'phases': phases, 'latency': latency(rng), 'faults': {
        'line': faults([['lost'], ['dup'], ['before'], ['after'], ['torn', rng.random()], ['torn_crash', rng.random()], ['flip', rng.random(), rng.choice(EDITS)],
                        ['drop', rng.random()], ['drop', rng.random()], ['insert', rng.random(), rng.choice(EDITS)], ['insert', rng.random(), rng.choice(EDITS)]]),
        'slot': faults([['lost'], ['fail'], ['before'], ['after'], ['torn', rng.random()], ['torn_crash', rng.random()]]),
        'read': faults([['missing'], ['fail']])}}
