"""C14: JSON serialisation is faithful - state that goes through a durable store survives crashes and comes back equal."""

import json
import math
import re
import struct

from ..core import InvalidScenario, Violation, gen_preempts, gen_schedule
from ..life import Crash, Life
from .common import ASSUME, latency

ID = 'C14'
RUNS = {'quick': 24000, 'thorough': 600000}
RULE = ('seeded lives of 1-3 sessions that keep documents as JSON in a simulated store: put, get, read-modify-write, copies of copies, content-addressed '
        'entries, a checkpointing program on two slots that is crashed and restarted anywhere, other programs reading and writing the same documents; torn, '
        'lost and refused writes, missing reads, statement budgets, line-level preemption; non-trivial: a document read back or a program restarted '
        '(distinct by history)')
REAL = ['bare_script.runtime', 'bare_script.library', 'bare_script.value', 'bare_script.parser']
STUB = ['document store: in memory, with faults', 'thread scheduler: baton scheduler over real threads', 'other programs: the standard json module']
ASSUMPTIONS = ASSUME[1:] + ['The standard json module is a standard JSON parser', 'Values are equal if they are of the same type and equal; 1 and 1.0 are one number',
                            'An integral number may be written with an exponent']

ALPHABET = ['a', '.', '0', ',', ']', '}', '"', '\\', '/', 'a.', '.0', '.0,', '.0]', '.0}', 'u0041', '\\u0041', 'b', ' ', '\n', '\r', '\t', '\x00', '\x1f', '\x7f', '\x80', 'é',
            '\u2028', '\u2029', '\ufeff', '\uffff', '\ue000', '\U0001f600', '\U0010ffff', '\ud800', '\udc00', 'e\u0301', '1', '-', '1.0', '{', '[', ':', "'", '<', '&', 'null',
            '</script>', '1e+16', ' 1e+20 ', '2.50', 'NaN', '[ ', ' ]', ': ', ', ', '//', '/*', '?', '\\n', '\\"', '\b', '\f', '0.00', '.00\n', '"."', '",', '":']
KEYS = ['a', 'b', 'A', 'é', 'a.', 'a.0', '', 'z', '0', '10', '9', '\ue000', '\U0001f600', '"', 'a"', 'a]', 'a.,', '\x00', '__proto__', 'length', 'aa', 'a b', '\\']

SCRIPT = r'''
function docPut(key, value, indent):
    storeWrite(key, jsonStringify(value, indent))
endfunction

function docPutPlain(key, value):
    storeWrite(key, jsonStringify(value))
endfunction

function docGet(key):
    return jsonParse(storeRead(key))
endfunction

function docEdit(key, name, value, indent):
    doc = docGet(key)
    if systemType(doc) == 'object':
        objectSet(doc, name, value)
    else:
        if systemType(doc) != 'array':
            doc = arrayNew(doc)
        endif
        arrayPush(doc, value)
    endif
    docPut(key, doc, indent)
endfunction

function docIntern(value):
    text = jsonStringify(value)
    if !objectHas(index, text):
        objectSet(index, text, value)
    endif
    return text
endfunction

function programRun(items, indent):
    # The newer of the two slots that can be read
    slotA = jsonParse(storeRead('slotA'))
    slotB = jsonParse(storeRead('slotB'))
    state = slotA
    if state == null || (slotB != null && objectGet(slotB, 'seq') > objectGet(state, 'seq')):
        state = slotB
    endif
    if state == null:
        state = objectNew('seq', 0, 'sum', 0, 'items', arrayNew(), 'byText', objectNew())
    endif
    while objectGet(state, 'seq') < arrayLength(items):
        seq = objectGet(state, 'seq')
        item = arrayGet(items, seq)
        arrayPush(objectGet(state, 'items'), item)
        objectSet(objectGet(state, 'byText'), jsonStringify(item), seq)
        objectSet(state, 'sum', objectGet(state, 'sum') + seq / 4)
        objectSet(state, 'seq', seq + 1)
        storeWrite(if(seq % 2 == 0, 'slotB', 'slotA'), jsonStringify(state, indent))
    endwhile
    return state
endfunction
'''


#
# Values: JSON itself, and {"$": "bits", "v": hex} for any double
#

def decode(enc):
    if isinstance(enc, list):
        return [decode(item) for item in enc]
    if isinstance(enc, dict):
        if enc.get('$') == 'bits':
            value = struct.unpack('>d', bytes.fromhex(enc['v']))[0]
            if not math.isfinite(value):
                raise InvalidScenario('number')
            return value
        return {decode(key): decode(item) for key, item in enc['o']}
    if isinstance(enc, str):        # (a high and a low surrogate are one character)
        return enc.encode('utf-16-le', 'surrogatepass').decode('utf-16-le', 'surrogatepass')
    if isinstance(enc, float) and not math.isfinite(enc):
        raise InvalidScenario('number')
    return enc


def equal(left, right):
    """JSON equality: type and value."""
    if isinstance(left, bool) or isinstance(right, bool):
        return left is right
    if isinstance(left, (int, float)) and isinstance(right, (int, float)):
        return left == right
    if type(left) is not type(right):
        return False
    if isinstance(left, list):
        return len(left) == len(right) and all(map(equal, left, right))
    if isinstance(left, dict):
        return left.keys() == right.keys() and all(equal(left[key], right[key]) for key in left)
    return left == right


def fresh(value):
    """A copy that shares nothing."""
    if isinstance(value, list):
        return [fresh(item) for item in value]
    if isinstance(value, dict):
        return {key: fresh(item) for key, item in value.items()}
    return value


R_TOKEN = re.compile(r'"(?:[^"\\\x00-\x1f]|\\(?:["\\/bfnrt]|u[0-9a-fA-F]{4}))*"|(-?(?:0|[1-9]\d*)(?:\.\d+)?(?:[eE][-+]?\d+)?)|true|false|null|[\[\]{},:]|[ \t\r\n]+', re.ASCII)


def check_text(what, text, value):
    """The text is JSON by the letter, has sorted keys and plain integral numbers, and any parser gets the value."""
    def no_constant(name):
        raise Violation('json', f'{what}: {name} in {text!r}')

    def pairs(items):
        names = [name for name, _ in items]
        if names != sorted(set(names)):
            raise Violation('keys', f'{what}: keys {names} in {text!r}')
        return dict(items)
    if not isinstance(text, str):
        raise Violation('json', f'{what}: {text!r} for {value!r}')
    at = 0
    while at < len(text):
        match = R_TOKEN.match(text, at)
        if match is None:
            raise Violation('json', f'{what}: no JSON at {at} of {text!r}')
        number = match.group(1)
        if number is not None and '.' in number and 'e' not in number.lower() and float(number) == int(float(number)):
            raise Violation('integral', f'{what}: {number} in {text!r}')
        at = match.end()
    try:
        got = json.loads(text, parse_constant=no_constant, object_pairs_hook=pairs)
    except ValueError as exc:
        raise Violation('json', f'{what}: {exc} in {text!r}') from exc
    if not equal(got, value):
        raise Violation('altered', f'{what}: {text!r} for {value!r}')


def foreign_text(value, choices, at=0):
    """The text of another program: the same value in other spelling."""
    def choice():
        nonlocal at
        at += 1
        return choices[at % len(choices)] if choices else 0

    def put(value):
        pad = ['', '', ' ', '\n', '\t', '\r\n  '][choice() % 6]
        if isinstance(value, str):
            out = json.dumps(value, ensure_ascii=choice() % 2 == 0 or any(0xd800 <= ord(char) < 0xe000 for char in value))
            if choice() % 3 == 0:
                out = '"' + ''.join(f'\\u{ord(char):04X}' if ord(char) < 0x10000 else json.dumps(char)[1:-1] for char in value) + '"'
            elif choice() % 3 == 0:
                out = out.replace('/', '\\/')
        elif isinstance(value, bool) or value is None:
            out = json.dumps(value)
        elif isinstance(value, (int, float)):
            out = json.dumps(value)
            kind = choice() % 6
            if kind == 1 and 'e' not in out and '.' not in out:
                out += '.0'
            elif kind == 2 and 'e' not in out:
                out += 'e0'
            elif kind == 3 and 'e' not in out and '.' in out:
                out += '00'
            elif kind == 4:
                out = out.upper()
        elif isinstance(value, list):
            out = '[' + ','.join(map(put, value)) + ']'
        else:
            items = list(value.items())
            if choice() % 2:
                items.reverse()
            out = '{' + ','.join(put(key) + ':' + put(item) for key, item in items) + '}'
        return pad + out + pad
    return put(value)


#
# A run
#

class World(Life):
    LIBRARY = SCRIPT

    def __init__(self, scn, stats):
        super().__init__(scn, stats)
        self.docs = [decode(enc) for enc in scn['docs']]
        self.store = {}         # key -> (text, value or None if torn)
        self.saved = {}
        self.writes = {}        # sid -> what the text to be written denotes: func(key, text) -> value
        self.texts = {}         # content -> value
        self.text_by_repr = {}
        self.finished = False

    def process(self, sid, code, values, limit=None):
        return self.execute(code, {**values, 'storeRead': lambda args, _: self.read(sid, *args), 'storeWrite': lambda args, _: self.write(sid, *args)}, limit)

    def doc(self, ix):
        if not isinstance(ix, int) or not 0 <= ix < len(self.docs):
            raise InvalidScenario('document')
        return self.docs[ix]

    # -- the store

    def read(self, sid, key):
        self.wait('read')
        fault = self.fault('read')
        if fault is not None and fault[0] == 'fail':
            self.last_read[sid] = None
            raise OSError('gone')
        entry = self.store.get(key) if fault is None else None
        self.last_read[sid] = entry
        self.wait('readed')
        return entry[0] if entry is not None else None

    last_read = None

    def write(self, sid, key, text):
        value = self.writes[sid](key, text)
        if value is not NOTHING:
            check_text(f'session {sid} writes {key}', text, value)
        self.wait('write')
        fault = self.fault('store')
        self.hist.append([sid, 'write', key, fault, text])
        if fault is not None and fault[0] == 'before':
            raise Crash()
        if fault is None or fault[0] in ('after', 'fail_after'):
            self.store[key] = (text, value)
        elif fault[0].startswith('torn'):
            part = text[:int(fault[1] * len(text))]
            self.store[key] = (part, value if part == text else NOTHING)
        self.wait('written')
        if fault is not None and fault[0] in ('after', 'torn_crash'):
            raise Crash()
        if fault is not None and fault[0] in ('fail', 'fail_after'):
            raise OSError('No space left on device')

    # -- steps

    def do_step(self, sid, step):
        kind, *args = step
        getattr(self, 'step_' + kind)(sid, *args)

    def step_put(self, sid, key, ix, indent, limit=None):
        value = self.doc(ix)
        given = fresh(value)
        self.writes[sid] = lambda *_: value
        code, values = ('docPutPlain(key, value)', {}) if indent is None else ('docPut(key, value, indent)', {'indent': indent})
        outcome = self.process(sid, code, {**values, 'key': key, 'value': given}, limit)
        if not equal(given, value):
            raise Violation('changed', f'jsonStringify changed its argument {value!r} to {given!r}')
        self.hist.append([sid, 'put', key, *outcome])

    def step_get(self, sid, key):
        self.last_read[sid] = None
        outcome, got = self.process(sid, 'return docGet(key)', {'key': key})
        entry = self.last_read[sid]
        self.judge(f'session {sid} gets {key}', entry, got)
        self.hist.append([sid, 'get', key, outcome, entry is not None])

    def judge(self, what, entry, got):
        if entry is None:
            if got is not None:
                raise Violation('phantom', f'{what}: {got!r} from nothing')
            return
        text, value = entry
        if value is NOTHING:        # torn: what the standard parser says
            self.stats.hit('torn_reads')
            try:
                value = json.loads(text)
            except ValueError:
                value = None
        elif not equal(got, value):
            raise Violation('altered', f'{what}: {got!r} from {text!r}, written as {value!r}')
        if not equal(got, value):
            raise Violation('torn', f'{what}: {got!r} from {text!r}')
        self.nontrivial = True

    def step_edit(self, sid, key, name, ix, indent, limit=None):
        """Read, modify, write."""
        value = self.doc(ix)

        def denotes(*_):
            entry = self.last_read[sid]
            doc = None if entry is None else entry[1]
            if doc is NOTHING:
                try:
                    doc = json.loads(entry[0])
                except ValueError:
                    doc = None
            doc = fresh(doc)
            if isinstance(doc, dict):
                doc[name] = value
            else:
                doc = doc if isinstance(doc, list) else [doc]
                doc.append(value)
            return doc
        self.writes[sid] = denotes
        self.last_read[sid] = None
        outcome = self.process(sid, 'docEdit(key, name, value, indent)', {'key': key, 'name': name, 'value': fresh(value), 'indent': indent}, limit)
        self.hist.append([sid, 'edit', key, *outcome])

    def step_copy(self, sid, key, target, indent):
        def denotes(*_):
            entry = self.last_read[sid]
            if entry is not None and entry[1] is NOTHING:
                return NOTHING
            return None if entry is None else entry[1]
        self.writes[sid] = denotes
        self.last_read[sid] = None
        outcome = self.process(sid, 'docPut(target, docGet(key), indent)', {'key': key, 'target': target, 'indent': indent})
        self.hist.append([sid, 'copy', key, target, *outcome])

    def step_intern(self, sid, *ixs):
        """A content-addressed store: one entry for each different value."""
        values = [self.doc(ix) for ix in ixs]
        index = {}
        outcome, texts = self.process(sid, 'texts = arrayNew()\nfor value in values:\narrayPush(texts, docIntern(value))\nendfor\nreturn texts',
                                      {'values': fresh(values), 'index': index})
        if outcome != 'value' or not isinstance(texts, list) or len(texts) != len(values):
            raise Violation('intern', f'{texts!r} for {values!r}')
        for value, text in zip(values, texts):
            check_text('jsonStringify', text, value)
            known = self.texts.setdefault(text, value)
            if not equal(known, value) or not equal(index.get(text), value):
                raise Violation('collision', f'{text!r} for both {known!r} and {value!r}')
        self.nontrivial = True
        self.hist.append([sid, 'intern', texts])

    def step_foreign(self, sid, key, ix, choices):
        """Another program writes the document."""
        value = self.doc(ix)
        text = foreign_text(value, choices)
        if not equal(json.loads(text), value):
            raise InvalidScenario('foreign text')
        self.wait('foreign')
        self.store[key] = (text, value)
        self.hist.append([sid, 'foreign', key, text])

    def step_program(self, sid, ixs, indent, limit=None):
        """The checkpointing program is started (again), until it has come to its end."""
        if self.saved.setdefault('ixs', ixs) != ixs or self.saved.setdefault('sid', sid) != sid:
            raise InvalidScenario('another program')
        items = [self.doc(ix) for ix in ixs]

        def state(count):
            return {'seq': count, 'sum': sum(range(count)) / 4, 'items': items[:count], 'byText': {self.text_of(item): at for at, item in enumerate(items[:count])}}

        def denotes(key, text):
            try:
                count = json.loads(text)['seq']
            except (ValueError, TypeError, LookupError) as exc:
                raise Violation('program', f'checkpoint {text!r}') from exc
            if not isinstance(count, (int, float)) or not 0 < count <= len(items) or key != ('slotA' if count % 2 == 0 else 'slotB'):
                raise Violation('program', f'checkpoint {key} {text!r}')
            return state(int(count))
        self.writes[sid] = denotes
        outcome, got = self.process(sid, 'return programRun(items, indent)', {'items': fresh(items), 'indent': indent}, limit)
        self.hist.append([sid, 'program', outcome, got if outcome == 'stopped' else got.get('seq') if isinstance(got, dict) else got])
        if outcome == 'value':
            if not equal(got, state(len(items))):
                raise Violation('program', f'the program ended with {got!r}, expected {state(len(items))!r}')
            self.nontrivial = True

    def text_of(self, value):
        """The text of a value (once serialised, and checked)."""
        if repr(value) in self.text_by_repr:        # (-0 is 0, but may be written as -0)
            return self.text_by_repr[repr(value)]
        outcome, text = self.execute('return jsonStringify(value)', {'value': fresh(value)})
        if outcome != 'value':
            raise Violation('json', f'{text!r}')
        check_text('jsonStringify', text, value)
        known = self.texts.setdefault(text, value)
        if not equal(known, value):
            raise Violation('collision', f'{text!r} for both {known!r} and {value!r}')
        self.text_by_repr[repr(value)] = text
        return text


NOTHING = object()


def run(scn, stats):
    check(scn)
    world = World(scn, stats)
    world.last_read = {}
    world.run()
    return world.outcome({f'{kind}' for kind in world.keys} | {f'type/{type(doc).__name__}' for doc in world.docs})


def check(scn):
    for phase in scn['phases']:
        for steps in phase['sessions']:
            for step in steps:
                if step[0] not in ('put', 'get', 'edit', 'copy', 'intern', 'foreign', 'program'):
                    raise InvalidScenario('step')
                for arg in step[1:]:
                    if isinstance(arg, str) and len(arg) > 40:
                        raise InvalidScenario('step')


#
# Generation
#

def gen_string(rng):
    return ''.join(rng.choice(ALPHABET[:9] if rng.random() < 0.5 else ALPHABET) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 4, 6, 12]) if rng.random() < 0.99 else rng.choice([100, 260])))


def gen_number(rng):
    roll = rng.random()
    if roll < 0.25:
        return rng.choice([0, 1, -1, 10, 100, 2 ** 53, -2 ** 53, 1000000, 255])
    if roll < 0.45:
        return float(rng.choice([0, 1, -1, 10, 100, 2 ** 53, 1000000, 120, 1e15, 1e16, 1e17, 1e21, 1e22, -1e20, 123456789012345]))
    if roll < 0.6:
        return rng.choice([0.5, 1.5, 0.1, -2.25, 1e-7, 1.5e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1 + 0.2, 100.05, 1.05, 10.01, 1e-5, 0.00001234])
    if roll < 0.8:
        return {'$': 'bits', 'v': f'{rng.getrandbits(64):016x}'} if rng.random() < 0.8 else {'$': 'bits', 'v': struct.pack('>d', rng.choice([-0.0, 10.0 ** rng.randrange(-300, 308)])).hex()}
    return rng.randrange(-10 ** 6, 10 ** 6) / rng.choice([1, 1, 4, 10, 100, 1000])


def gen_value(rng, depth):
    roll = rng.random()
    if depth == 0 or roll < 0.45:
        kind = rng.random()
        if kind < 0.55:
            return gen_string(rng)
        if kind < 0.85:
            number = gen_number(rng)
            if isinstance(number, dict) and not math.isfinite(struct.unpack('>d', bytes.fromhex(number['v']))[0]):
                return 7.0
            return number
        return rng.choice([None, True, False])
    if roll < 0.72:
        return [gen_value(rng, depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    names = [rng.choice(KEYS) if rng.random() < 0.7 else gen_string(rng) for _ in range(rng.choice([0, 1, 2, 2, 3, 5]))]
    return {'o': [[name, gen_value(rng, depth - 1)] for name in dict.fromkeys(names)]}


def near(rng, enc):
    """A value that differs little."""
    if isinstance(enc, str):
        at = rng.randrange(len(enc) + 1)
        return enc[:at] + rng.choice(ALPHABET[:9]) + enc[at + rng.randrange(2):]
    if isinstance(enc, list) and enc:
        at = rng.randrange(len(enc))
        return [*enc[:at], near(rng, enc[at]), *enc[at + 1:]]
    if isinstance(enc, dict) and enc.get('o'):
        at = rng.randrange(len(enc['o']))
        key, item = enc['o'][at]
        if rng.random() < 0.3:
            key = key + rng.choice(ALPHABET[:9])
            if any(key == other for other, _ in enc['o']):
                return enc
        return {'o': [*enc['o'][:at], [key, near(rng, item)], *enc['o'][at + 1:]]}
    return rng.choice([enc, [enc], str(enc) if isinstance(enc, (int, float)) else enc, None if enc is not None else 'null', 'true' if enc is True else enc])


def generate(rng, index, tier):
    docs = [gen_value(rng, rng.choice([0, 1, 2, 3, 5])) for _ in range(rng.choice([1, 2, 3, 5]))]
    docs += [near(rng, rng.choice(docs)) for _ in range(rng.choice([0, 1, 2, 4]))]
    keys = ['d0', 'd1', 'd2'][:rng.choice([1, 2, 3])]
    faulty = rng.choice([0, 0, 0.15, 0.4])

    def indent():
        return rng.choice([None, None, 1, 2, 4, 8, 2.0, 3.0, rng.randrange(1, 9)])

    def limit():
        return rng.randrange(3, 60) if rng.random() < faulty * 0.6 else None

    def doc():
        return rng.randrange(len(docs))

    def step():
        roll = rng.random()
        key = rng.choice(keys)
        if roll < 0.25:
            return ['put', key, doc(), indent(), limit()]
        if roll < 0.55:
            return ['get', key]
        if roll < 0.67:
            return ['edit', key, rng.choice(KEYS), doc(), indent(), limit()]
        if roll < 0.77:
            return ['copy', key, rng.choice(keys), indent()]
        if roll < 0.9:
            return ['intern', *[doc() for _ in range(rng.randrange(1, 6))]]
        return ['foreign', key, doc(), [rng.randrange(60) for _ in range(rng.randrange(1, 12))]]
    program = ['program', [doc() for _ in range(rng.randrange(1, 7))], indent()] if rng.random() < 0.4 else None
    phases = []
    for number in range(rng.choice([1, 2, 3])):
        count = rng.choice([1, 1, 2, 3])
        sessions = [[step() for _ in range(rng.randrange(1, 8 if count == 1 else 5))] for _ in range(count)]
        if program is not None:
            sessions[0].insert(0, [*program, rng.randrange(5, 120) if rng.random() < 0.5 else None])
            if faulty:
                sessions[0].append([*program, None])
        phase = {'sessions': sessions, 'schedule': gen_schedule(rng, 50 * count) if count > 1 else []}
        if count > 1 and rng.random() < 0.4:
            phase['preempt'] = [gen_preempts(rng, rng.randrange(1, 6), 1500) for _ in sessions]
        phases.append(phase)
    phases.append({'sessions': [[['get', key] for key in keys] + ([[*program, None]] if program else [])], 'schedule': []})

    def faults(kinds):
        return [rng.choice(kinds) if rng.random() < faulty else None for _ in range(16)]
    return {'docs': docs, 'phases': phases, 'latency': latency(rng), 'faults': {
        'store': faults([['lost'], ['fail'], ['fail_after'], ['before'], ['after'], ['torn', rng.random()], ['torn', rng.random()], ['torn_crash', rng.random()]]),
        'read': faults([['missing'], ['fail']])}}
