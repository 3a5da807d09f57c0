"""Typed tables written as CSV to a simulated segment store, and read back: sessions, faults and the oracle."""

import datetime
import math
import re
import zoneinfo

from .core import InvalidScenario, Violation, gen_schedule
from .env import set_tz
from .life import Crash, Life
from .props.c16 import local_offsets, parts_of, to_local, us_of, us_of_value
from .props.common import latency

ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe', 'Asia/Kathmandu', 'America/St_Johns', 'Etc/GMT+12', 'Pacific/Chatham']

# Text that resembles a date and is none
DATE_LIKE = ['2024-02-30', '2023-02-29', '2023-13-01', '2023-00-10', '2024-04-31', '0000-01-01', '2024-01-00', '2024-02-28T24:00:00Z', '2024-02-28T23:60:00Z',
             '2024-02-30T00:00:00Z', '2023-02-29T10:11:12.500+02:00', '2024-01-01T00:00:00+24:00', '2024-01-01T00:00:00-99:00', '9999-12-31T23:59:59-23:59',
             '2024-1-1', '2024-02-28 10:00:00', '2024-02-28T10:00Z', '2024-02-28T10:00:00', '2024-01-01x', '2024-01-01T', '2024-02-28T10:00:61Z', '2024-99-99',
             '2024-01-01\n', '2024-01-01T00:00:00.1234567Z', '2024/01/01', '2100-02-29', '1900-02-29T00:00:00Z', '2024-06-31T12:00:00-05:00']
# Text that is of another type (in a text column: never the first)
TYPED = ['1', '-2.5', '1e3', 'true', 'false', '2024-02-29', '2024-02-29T12:00:00Z', '0', '.5', '+7']
PLAIN = ['abc', '1_000', '\uff11\uff12', '1e', 'a,b', 'a"b', '"', '""', ',', 'line\nbreak', 'line\r\nbreak', 'x\ry', ' lead', 'trail ', 'x\u2028y', 'x\u0085y', 'x\x0cy', 'x\x1cy', 'é', '\U0001f600', 'True', 'FALSE',
         "it's", '#', '=1', 'a\tb', 'nulls', 'Null', 'x' * 300, 'a","b', '\n', 'x\n', '\ny', '{"a":1}', '\\', '\\"', 'a.,b', '1a', '1 2', '0x10', '--1', '12:30', '$5', '1,5', '1;2',
         'yes', 'e5', '-', '.', '1.2.3', 'abc\u00a0', 'a\x00b'[0:1], '\ufeffb', 'T', 'Z']
R_TYPED = re.compile(r'\s*[-+]?(\d|\.\d|inf|nan)|true$|false$|\s*$|null$', re.IGNORECASE)
HEADERS = ['a', 'b', 'id', 'n', 'the name', 'x,y', 'q"q', 'é', 'a2', '1', 'null', 'A', 'line\nbreak', ' s', 'true']

SCRIPT = r'''
function csvCell(value, style):
    if value == null:
        return 'null'
    endif
    if systemType(value) != 'string':
        return '' + value
    endif
    if style == 0 || value == '' || regexMatch(regexNew('^[ ]|[",\\r\\n]'), value) != null:
        return '"' + stringReplace(value, '"', '""') + '"'
    endif
    return value
endfunction

function csvRow(values, style, sep):
    cells = arrayNew()
    for value in values:
        arrayPush(cells, csvCell(value, style))
    endfor
    return arrayJoin(cells, sep)
endfunction

function csvWrite(rows, fields, name, per, nl, style, sep):
    part = storeCount(name)
    while part == 0 || part * per < arrayLength(rows):
        text = ''
        if part == 0:
            text = csvRow(fields, style, sep) + nl
        endif
        ix = part * per
        while ix < arrayLength(rows) && ix < (part + 1) * per:
            row = arrayGet(rows, ix)
            values = arrayNew()
            for field in fields:
                arrayPush(values, objectGet(row, field))
            endfor
            text = text + csvRow(values, style, sep) + nl
            ix = ix + 1
        endwhile
        storeWrite(name, part, text)
        part = part + 1
    endwhile
    return part
endfunction

function csvFetch(name, style):
    parts = storeParts(name)
    if style == 0:
        return systemFetch(parts)
    endif
    texts = arrayNew()
    for part in parts:
        arrayPush(texts, systemFetch(part))
    endfor
    return texts
endfunction

function csvRead(name, style):
    texts = csvFetch(name, style)
    if arrayLength(texts) == 1:
        return dataParseCSV(arrayGet(texts, 0))
    endif
    if arrayLength(texts) < 5:
        return dataParseCSV(arrayGet(texts, 0), arrayGet(texts, 1), arrayGet(texts, 2), arrayGet(texts, 3))
    endif
    return dataParseCSV(arrayGet(texts, 0), arrayGet(texts, 1), arrayGet(texts, 2), arrayGet(texts, 3), arrayGet(texts, 4), \
        arrayGet(texts, 5), arrayGet(texts, 6), arrayGet(texts, 7), arrayGet(texts, 8), arrayGet(texts, 9), arrayGet(texts, 10), arrayGet(texts, 11))
endfunction
'''


#
# Cells: null, numbers, booleans and strings are themselves, {"i": us} is an instant, {"d": [y, m, d]} a local day. As written: also "empty".
#

EMPTY = {'empty': True}


def kind_of(item):
    if item is None or item == EMPTY:
        return None
    if isinstance(item, bool):
        return 'boolean'
    if isinstance(item, (int, float)):
        return 'number'
    if isinstance(item, dict):
        return 'datetime'
    return 'string'


def zone_of(name):
    try:
        return zoneinfo.ZoneInfo(name)
    except (zoneinfo.ZoneInfoNotFoundError, ValueError, TypeError) as exc:
        raise InvalidScenario('zone') from exc


def local_us(item, zone):
    """The local time of a datetime cell, in microseconds."""
    if 'i' in item:
        us, _ = to_local(item['i'], zone)
    else:
        us = us_of(*item['d'])
    if us is None or len(local_offsets(us, zone) or ()) != 1:
        raise InvalidScenario('a skipped, repeated or unknown local time')
    return us


def instant_us(item, zone):
    us = local_us(item, zone)
    return us - int(local_offsets(us, zone)[0] * 1000000)


def value_in(item, zone):
    """A cell as a BareScript value of a process in the zone."""
    if isinstance(item, dict):
        if 'd' in item:
            local_us(item, zone)
            return datetime.date(*item['d'])
        parts, micro = parts_of(local_us(item, zone))
        return datetime.datetime(*parts[:6], parts[6] * 1000 + micro)
    return item


def check_table(table):
    columns, rows = table['columns'], table['rows']
    if not columns or len({name for name, _ in columns}) != len(columns) or table['per'] < 1 or len(rows) > 14:
        raise InvalidScenario('table')
    for row in rows:
        if len(row) != len(columns):
            raise InvalidScenario('table')
        for item, (_, kind) in zip(row, columns):
            if item is not None and kind_of(item) != kind:
                raise InvalidScenario('table')
            if isinstance(item, str) and (item == 'null' or len(item) > 2000):
                raise InvalidScenario('table')


def looks_typed(text):
    return text not in DATE_LIKE and text not in PLAIN and R_TYPED.match(text) is not None


#
# The host's own CSV text
#

def quote(text):
    return '"' + text.replace('"', '""') + '"'


def host_cell(item, zone, choice, single):
    """The text of a cell, unquoted, and the cell it denotes."""
    if item is None:
        return ('null', None) if choice % 3 else ('', EMPTY)
    if isinstance(item, bool):
        return 'true' if item else 'false', item
    if isinstance(item, (int, float)):
        text = repr(item)
        if choice % 5 == 1 and 'e' not in text and float(text) == int(float(text)):
            text = str(int(float(text))) + '.0'
        elif choice % 5 == 2:
            text = repr(float(item)).upper()
        elif choice % 5 == 3 and not text.startswith('-'):
            text = '+' + text
        return text, item
    if isinstance(item, str):
        return item, item if item else EMPTY
    if 'd' in item and choice % 2:
        year, month, day = item['d']
        return f'{year:04d}-{month:02d}-{day:02d}', item
    utc = instant_us(item, zone)
    offset = [0, 330, -480, 345, 840, -720, 30, -45, 1439][choice % 9]
    (year, month, day, hour, minute, second, milli), micro = parts_of(utc + offset * 60000000)
    text = f'{year:04d}-{month:02d}-{day:02d}T{hour:02d}:{minute:02d}:{second:02d}'
    if milli or micro or choice % 4 == 3:
        text += f'.{milli:03d}' + (f'{micro:03d}' if micro or choice % 8 == 7 else '')
    text += f'{"-" if offset < 0 else "+"}{abs(offset) // 60:02d}:{abs(offset) % 60:02d}' if offset or choice % 12 == 6 else 'Z'
    return text, {'i': utc}


def host_segment(table, part, zone, style):
    """A segment as another program writes it: the text and the rows it denotes."""
    nl, sep = style['nl'], style['sep']
    choices = style['choices'] or [0]
    at = 0
    lines = []
    rows = []
    single = len(table['columns']) == 1

    def put(text, choice):
        if choice % 4 == 0 or re.search('^ |[",\r\n]', text) or single and text == '':
            return quote(text)
        return text
    if part == 0:
        lines.append(sep.join(put(name, ix) for ix, (name, _) in enumerate(table['columns'])))
    for row in table['rows'][part * table['per']:(part + 1) * table['per']]:
        texts = []
        cells = []
        for item in row:
            choice = choices[at % len(choices)]
            at += 1
            text, cell = host_cell(item, zone, choice, single)
            texts.append(put(text, choice // 7))
            cells.append(cell)
        choice = choices[at % len(choices)]
        if choice % 6 == 1:         # a short row
            while len(texts) > 1 and cells[len(texts) - 1] is None:
                texts.pop()
            if texts == ['']:       # (no empty line)
                texts = ['""']
        elif choice % 6 == 2:       # a long one
            texts += ['', 'more']
        elif choice % 6 == 3:       # an empty line
            lines.append('')
            if len(lines) == 1:
                lines = []
        lines.append(sep.join(texts))
        rows.append(cells)
    text = nl.join(lines)
    return text + ('' if choices[at % len(choices)] % 5 == 4 else nl), rows


def complete_records(text):
    """How many records of the text are surely complete."""
    quoted = False
    count = 0
    content = False
    for char in text:
        if char == '"':
            quoted = not quoted
        if char in '\r\n' and not quoted:
            count += content
            content = False
        else:
            content = True
    return count


#
# A run
#

class World(Life):
    LIBRARY = SCRIPT

    def __init__(self, scn, stats):
        super().__init__(scn, stats)
        self.store = {}         # name -> {part: segment}
        self.tables = {table['name']: table for table in scn['tables']}
        for table in scn['tables']:
            check_table(table)
        self.zone = None
        self.fetched = {}
        self.wrote = {}

    def start(self, phase):
        self.zone = zone_of(phase['zone'])
        set_tz(phase['zone'])
        self.hist.append(['zone', phase['zone']])

    def process(self, sid, code, values, limit):
        """Run csv code in a process of its own."""
        hosts = {'storeWrite': lambda args, _: self.store_write(sid, *args), 'storeCount': lambda args, _: self.store_count(sid, *args),
                 'storeParts': lambda args, _: self.store_parts(sid, *args)}
        return self.execute(code, {**values, **hosts}, limit, fetchFn=lambda request: self.fetch(sid, request['url']))

    # -- the store

    def store_count(self, sid, name):
        self.wait('count')
        return max(self.store.get(name, {-1: None}), default=-1) + 1

    def store_parts(self, sid, name):
        self.wait('parts')
        return [f'{name}/{part}' for part in range(max(self.store.get(name, {0: None}), default=0) + 1)]

    def store_write(self, sid, name, part, text):
        part = int(part)
        table, denoted = self.wrote[sid]
        rows = denoted[part * table['per']:(part + 1) * table['per']]
        self.wait('write')
        fault = self.fault('store')
        segment = {'text': text, 'rows': rows, 'torn': False}
        self.hist.append([sid, 'write', name, part, fault, text])
        if fault is not None and fault[0] == 'before':
            raise Crash()
        if fault is None or fault[0] not in ('lost', 'fail'):
            self.put(name, part, segment, fault)
        self.wait('written')
        if fault is not None and fault[0] in ('torn_crash', 'after'):
            raise Crash()
        if fault is not None and fault[0] == 'fail':
            raise OSError('No space left on device')

    def put(self, name, part, segment, fault):
        if fault is not None and fault[0].startswith('torn'):
            at = int(fault[1] * len(segment['text']))
            records = complete_records(segment['text'][:at])
            keep = max(records - (part == 0), 0)
            segment = {'text': segment['text'][:at], 'rows': segment['rows'][:keep], 'torn': True, 'headless': part == 0 and records == 0}
        elif fault is not None and fault[0] == 'twice' and part > 0 and segment['text'][-1:] in '\r\n':
            segment = {'text': segment['text'] * 2, 'rows': segment['rows'] * 2, 'torn': False}
        self.store.setdefault(name, {})[part] = segment

    def fetch(self, sid, url):
        self.wait('fetch')
        fault = self.fault('fetch')
        name, part = url.rsplit('/', 1)
        segment = self.store.get(name, {}).get(int(part))
        if segment is None or fault is not None:
            self.fetched[sid].append(None)
            if fault is not None and fault[0] == 'fail':
                raise OSError('gone')
            return None
        self.wait('fetched')
        self.fetched[sid].append((int(part), segment))
        return segment['text']

    # -- steps

    def do_step(self, sid, step):
        kind, name, *more = step
        if kind == 'host':              # another program writes the table
            table = self.table(name)
            style = more[0]
            if style['nl'] not in ('\n', '\r\n', '\r') or style['sep'] not in (',', ', '):
                raise InvalidScenario('style')
            for part in range(max(1, -(-len(table['rows']) // table['per']))):
                self.wait('host')
                text, rows = host_segment(table, part, self.zone, style)
                fault = self.fault('store')
                if fault is None or fault[0] not in ('lost', 'fail'):
                    self.put(name, part, {'text': text, 'rows': rows, 'torn': False}, fault)
                self.hist.append([sid, 'host', name, part, text])
            return
        if kind == 'write':             # a script writes (or resumes writing) the table
            table = self.table(name)
            self.write(sid, name, table, table['rows'], *more)
            return
        if kind == 'rows':              # rows of text, typed by dataValidate
            table = self.table(name)
            self.validate(sid, table, *more)
            return
        if name not in self.tables:     # (a copy that was not made)
            return
        limit = more[0]
        self.fetched[sid] = []
        outcome, result = self.process(sid, f"return csvRead('{name}', {more[1]})", {}, limit)
        if outcome == 'stopped':
            self.hist.append([sid, kind, name, result])
            return
        columns = self.columns(name)
        rows = self.judge(sid, f'{kind} {name}', columns, result, self.fetched[sid])
        self.hist.append([sid, kind, name, 'unspecified' if rows is None else rows, type(result).__name__])
        if kind == 'copy' and rows and result is not None:
            # (the values as they were read, written under another name)
            target = name + '2'
            if target not in self.tables:
                self.tables[target] = {'name': target, 'columns': [[field, None] for field in columns], 'rows': rows, 'per': 3}
                self.write(sid, target, self.tables[target], rows, None, 1, '\n', ',', result)

    def table(self, name):
        if name not in self.tables:
            raise InvalidScenario('table')
        return self.tables[name]

    def columns(self, name):
        return [column for column, _ in self.table(name)['columns']]

    def write(self, sid, name, table, rows, limit, style, nl, sep, values=None):
        if nl not in ('\n', '\r\n', '\r') or sep not in (',', ', '):
            raise InvalidScenario('style')
        columns = self.columns(name)
        if values is None:
            values = [dict(zip(columns, [value_in(item, self.zone) for item in row])) for row in rows]
        denoted = [[{'i': instant_us(item, self.zone)} if isinstance(item, dict) and item != EMPTY else EMPTY if item == '' else item for item in row] for row in rows]
        for row in denoted:
            for item in row:
                if isinstance(item, dict) and 'i' in item and item['i'] % 1000 and values:
                    item['i'] -= item['i'] % 1000
        if len(columns) == 1 and any(item == EMPTY for row in denoted for item in row) and style not in (0, 1):
            raise InvalidScenario('style')
        self.wrote[sid] = (table, denoted)
        outcome, result = self.process(sid, "return csvWrite(rows, fields, name, per, nl, style, sep)", {
            'rows': values, 'fields': columns, 'name': name, 'per': table['per'], 'nl': nl, 'style': style, 'sep': sep}, limit)
        self.hist.append([sid, 'write', name, outcome, result])
        want = max(1, -(-len(rows) // table['per']))
        if outcome == 'value' and result != max(want, result if isinstance(result, (int, float)) else 0):
            raise Violation('write', f'csvWrite {name} returned {result!r}, expected {want}')

    def validate(self, sid, table, csv, choices):
        rows = []
        denoted = []
        at = 0
        for row in table['rows']:
            texts = {}
            cells = []
            for (field, _), item in zip(table['columns'], row):
                choice = choices[at % len(choices)] if choices else 0
                at += 1
                text, cell = host_cell(item, self.zone, choice, False)
                if cell is None and choice % 2:
                    text = None
                texts[field] = text
                cells.append(cell)
            rows.append(texts)
            denoted.append(cells)
        if not csv:     # typed values, with nothing to parse
            rows = [dict(zip([name for name, _ in table['columns']], [value_in(item, self.zone) for item in row])) for row in table['rows']]
            denoted = table['rows']
        outcome, result = self.process(sid, 'return dataValidate(rows, csv)', {'rows': rows, 'csv': csv}, None)
        if outcome == 'value' and result is not None and result is not rows:
            raise Violation('validate', 'dataValidate returned another array')
        columns = [name for name, _ in table['columns']]
        if csv:
            self.judge(sid, f'validate {table["name"]}', columns, result, [(0, {'rows': denoted, 'torn': False})])
        else:
            self.compare('dataValidate', columns, result, denoted, [kind for _, kind in table["columns"]], True)
        self.hist.append([sid, 'validate', table['name'], csv])

    # -- the oracle

    def judge(self, sid, what, columns, got, fetched):
        """The cells that were read (None: unspecified)."""
        known = []
        torn = False
        segments = [item for item in fetched if item is not None]
        if not segments or segments[0][0] != 0 or segments[0][1].get('headless'):
            if segments:
                self.stats.hit('fault.no_header')
            if got is not None and not (isinstance(got, list) and all(isinstance(row, dict) for row in got)):
                raise Violation('result', f'{what} returned {got!r}')
            if not segments and got != []:
                raise Violation('result', f'{what} of nothing returned {got!r}')
            return None
        if len(segments) < len(fetched):
            self.stats.hit('fault.missing_segment')
        for _, segment in segments:
            known += segment['rows']
            if segment['torn']:
                torn = True
                break
        kinds = []
        for at in range(len(columns)):
            first = next((row[at] for row in known if kind_of(row[at]) is not None), None)
            if isinstance(first, str) and looks_typed(first):
                self.stats.hit('ambiguous_column')
                return None
            kinds.append(kind_of(first))
            if kinds[-1] is None and not torn:
                kinds[-1] = 'string'
        if any(kind_of(row[at]) not in (None, kinds[at]) for row in known for at in range(len(columns))):
            raise InvalidScenario('a column of several types')
        if torn:
            self.stats.hit('torn_reads')
            if got is None:
                return None
            if not isinstance(got, list) or len(got) < len(known):
                raise Violation('torn', f'{what}: {got!r} lacks complete rows, expected {known!r}')
            self.compare(what, columns, got[:len(known)], known, kinds)
            return None
        return self.compare(what, columns, got, known, kinds)

    def compare(self, what, columns, got, rows, kinds, untouched=False):
        if not isinstance(got, list) or len(got) != len(rows):
            raise Violation('rows', f'{what}: {got!r}, expected {len(rows)} rows {rows!r}')
        out = []
        for row, cells in zip(got, rows):
            if not isinstance(row, dict) or list(row) != columns:
                raise Violation('fields', f'{what}: the row {row!r} should have the fields {columns}')
            out.append([])
            for field, item, kind in zip(columns, cells, kinds):
                value = row[field]
                if item == EMPTY:
                    good = value in ('', None) if kind is None else (value == '' and isinstance(value, str)) if kind == 'string' else value is None
                    item = '' if kind == 'string' else None
                elif item is None:
                    good = value is None
                elif isinstance(item, (bool, str)):
                    good = type(value) is type(item) and value == item
                elif isinstance(item, (int, float)):
                    good = isinstance(value, (int, float)) and not isinstance(value, bool) and value == item and math.copysign(1, value) == math.copysign(1, item)
                elif 'd' in item and type(value) is datetime.date:     # (not parsed)
                    good = value == datetime.date(*item['d'])
                else:
                    want = local_us(item, self.zone)
                    good = isinstance(value, datetime.datetime) and value.tzinfo is None and us_of_value(value) in (want - want % 1000, want if untouched else None)
                    item = {'i': instant_us(item, self.zone) // 1000 * 1000}
                if not good:
                    raise Violation('value', f'{what}: field {field!r} is {value!r}, expected {item!r}')
                out[-1].append(item)
        if rows:
            self.nontrivial = True
        return out


def run_csv(scn, stats):
    world = World(scn, stats)
    world.run()
    keys = {f'csv/{kind}' for kind in world.keys} | {f'column/{kind}' for table in scn['tables'] for _, kind in table['columns']}
    return world.outcome(keys)


#
# Generation
#

def gen_number(rng):
    roll = rng.random()
    if roll < 0.4:
        return rng.choice([0, 1, 2, -1, 10, 255, 1000000])
    if roll < 0.6:
        return rng.choice([0.5, -2.25, 1.1, 0.1, 1e21, 1e-7, 123456789.125, 2.0 ** 53, 1e300, 5e-324, -0.001])
    if roll < 0.8:
        return rng.randrange(-10 ** 6, 10 ** 6) / rng.choice([1, 8, 10, 100])
    return rng.randrange(-2 ** 53, 2 ** 53) * rng.choice([1, 0.5, 1e-10, 1e10])


def gen_instant(rng):
    if rng.random() < 0.2:
        return {'d': [rng.randrange(1990, 2036), rng.randrange(1, 13), rng.randrange(10, 21)]}
    us = us_of(rng.randrange(1990, 2036), rng.randrange(1, 13), rng.randrange(8, 24), rng.choice([0, 3, 12, 18, 23]), rng.choice([0, 30, 59]), rng.choice([0, 1, 59]))
    return {'i': us + rng.choice([0, 0, 5000, 999000, 120000, 123456])}


def gen_text(rng, first):
    roll = rng.random()
    if roll < 0.25:
        return rng.choice(DATE_LIKE)
    if roll < 0.4 and not first:
        return rng.choice(TYPED)
    if roll < 0.5:
        return ''.join(rng.choice(['a', 'b', ',', '"', '\n', ' ', '1', '-', 'é']) for _ in range(rng.randrange(0 if not first else 1, 8))) or ('' if not first else 'z')
    if roll < 0.55 and not first:
        return ''
    return rng.choice(PLAIN)


def gen_table(rng, name):
    columns = [[field, rng.choice(['number', 'boolean', 'datetime', 'string', 'string'])] for field in rng.sample(HEADERS, rng.choice([1, 2, 3, 4, 5]))]
    nulls = rng.choice([0, 0.1, 0.4])
    rows = []
    started = [False] * len(columns)
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 8, 12])):
        row = []
        for at, (_, kind) in enumerate(columns):
            if rng.random() < nulls:
                row.append(None)
                continue
            if kind == 'number':
                item = gen_number(rng)
            elif kind == 'boolean':
                item = rng.random() < 0.5
            elif kind == 'datetime':
                item = gen_instant(rng)
            else:
                item = gen_text(rng, not started[at])
                if not started[at] and looks_typed(item):
                    item = 'w' + item
            started[at] = True
            row.append(item)
        rows.append(row)
    return {'name': name, 'columns': columns, 'rows': rows, 'per': rng.choice([1, 2, 3, 5, 20]) if len(rows) < 9 else rng.choice([2, 4, 20])}


def generate_csv(rng):
    names = ['one', 'two'][:rng.choice([1, 1, 2])]
    tables = [gen_table(rng, name) for name in names]
    zones = rng.sample(ZONES, rng.choice([1, 1, 2, 3]))
    faulty = rng.choice([0, 0, 0.15, 0.4])

    def limit():
        return rng.randrange(5, 900) if rng.random() < faulty * 0.7 else None

    def write(name):
        if rng.random() < 0.4:
            return ['host', name, {'nl': rng.choice(['\n', '\n', '\r\n', '\r']), 'sep': rng.choice([',', ',', ', ']), 'choices': [rng.randrange(1000) for _ in range(rng.randrange(1, 20))]}]
        return ['write', name, limit(), rng.choice([0, 1]), rng.choice(['\n', '\n', '\r\n']), rng.choice([',', ',', ', '])]

    def read(name):
        roll = rng.random()
        if roll < 0.15:
            return ['rows', name, rng.random() < 0.8, [rng.randrange(1000) for _ in range(rng.randrange(1, 12))]]
        return ['copy' if roll < 0.35 else 'read', name, limit(), rng.choice([0, 1])]

    phases = []

    def phase(sessions):
        out = {'zone': rng.choice(zones), 'sessions': sessions, 'schedule': gen_schedule(rng, 60 * len(sessions)) if len(sessions) > 1 else []}
        if len(sessions) > 1 and rng.random() < 0.2:
            out['preempt'] = [sorted({int(20000 ** rng.random()) + 1 for _ in range(rng.randrange(4))}) for _ in sessions]
        phases.append(out)

    writers = [[write(name)] for name in names]
    for at, steps in enumerate(writers):
        if faulty and steps[0][0] == 'write':
            steps.append([*steps[0][:2], None, *steps[0][3:]])      # the restarted writer resumes
    together = rng.random() < 0.3
    if together:
        phase([*writers, *[[read(rng.choice(names))] for _ in range(rng.choice([1, 2]))]])
    else:
        for steps in writers:
            phase([steps])
    phase([[read(rng.choice(names)) for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([1, 1, 2, 3]))])
    if rng.random() < 0.4:
        target = rng.choice(names)
        phase([[['copy', target, None, 0], ['read', target + '2', None, 1]]])
        if rng.random() < 0.5:
            phase([[['read', target + '2', None, 0]]])

    def faults(kinds):
        return [rng.choice(kinds) if rng.random() < faulty else None for _ in range(12)]
    return {'kind': 'csv', 'tables': tables, 'phases': phases, 'latency': latency(rng), 'faults': {
        'store': faults([['lost'], ['fail'], ['twice'], ['before'], ['after'], ['torn', rng.random()], ['torn_crash', rng.random()]]),
        'fetch': faults([['missing'], ['fail']])}}
