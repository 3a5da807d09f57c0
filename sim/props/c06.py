"""C06: the parser is total and its diagnostics point at the offending source."""

import random
import re
import zlib

from ..core import InvalidScenario, Scheduler, Violation, gen_preempts, gen_schedule
from ..engine import TARGET_DIR, import_target
from ..source import BLANKS, COMMENTS, NAMES, NUMBERS, OPERATORS, STRINGS, SourceGen, layout_line, logical_lines, squeeze
from .c10 import frozen

ID = 'C06'
RUNS = {'quick': 80000, 'thorough': 1500000}
RULE = ('seeded programs damaged by text faults (lines lost, duplicated, swapped, truncated; tokens deleted, inserted, swapped; characters flipped; '
        'closers lost; a dangling continuation; an invalid character at a known place of a line up to 400 characters long; token soup), parsed whole, in '
        'chunks and by preempted sessions; non-trivial: the text is rejected or damaged (distinct by text)')
REAL = ['bare_script.parser']
STUB = ['storage of the source text: faults injected by the scenario', 'thread scheduler: baton scheduler over real threads']
ASSUMPTIONS = ['logical_lines in sim/source.py and the block matcher in this module read the text independently of the parser',
               'A column just past the end of the line is inside it (the offending source is the missing rest)',
               'Backslash runs are at most 8 and nesting at most 50 deep, as the property says']
SHRINK_STRINGS = ('text',)

OPEN = {'if': 'endif', 'while': 'endwhile', 'for': 'endfor'}
BAD = '@'


#
# Generation
#

def lay_out(rng, statements, wild=True):
    """[(index of the statement, [physical line, ...]), ...] with blank and comment lines as separate entries (index None)."""
    blank = rng.choice([0, 0, 0.15]) if wild else 0
    split = rng.choice([0, 0, 0, 0.1, 0.4]) if wild else 0
    indents = rng.choice([[''], ['    '], ['', '\t', '  ']])
    gaps = rng.choice([[' '], ['', ' '], ['', '  ', '\t']])

    def inside():
        lines = []
        while rng.random() < blank:
            lines.append(rng.choice(BLANKS + COMMENTS))
        return lines

    out = []
    for at, stmt in enumerate(statements):
        for line in inside():
            out.append([None, [line]])
        out.append([at, layout_line(rng, stmt, lambda: rng.choice(indents), lambda: rng.choice(gaps), lambda ix: rng.random() < split, inside)])
    return out


def pad_tokens(rng, length):
    """Expression tokens of roughly the given text length."""
    gen = SourceGen(rng, rich=False)
    tokens = gen.expr(2)
    while sum(map(len, tokens)) + len(tokens) < length:
        tokens = [*tokens, rng.choice(OPERATORS), *gen.operand(rng.randrange(3))] if rng.random() < 0.8 else \
            [*tokens, '+', "'" + rng.choice('abc xyz') * rng.randrange(1, 60) + "'"]
    return tokens


def long_statement(rng, stmt, length):
    """Replace the expression of a statement by one of the given length."""
    begin, end = stmt['expr']
    tokens = pad_tokens(rng, length)
    if stmt['kind'] == 'simple' and begin == 0:
        tokens = ['foo', '(', *tokens, ')']
    shift = len(tokens) - (end - begin)
    return {'kind': stmt['kind'], 'tokens': [*stmt['tokens'][:begin], *tokens, *stmt['tokens'][end:]],
            'req': [ix if ix <= begin else ix + shift for ix in stmt['req']], 'expr': [begin, begin + len(tokens)]}


def structure(rng, statements):
    """Faults on whole statements: lost, duplicated, swapped; lost closers."""
    kinds = []
    out = list(statements)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not out:
            break
        roll = rng.random()
        at = rng.randrange(len(out))
        if roll < 0.3:
            closers = [ix for ix, stmt in enumerate(out) if stmt['kind'].startswith('end')]
            if closers:
                at = rng.choice(closers)
            kinds.append('lost_closer')
            del out[at]
        elif roll < 0.45:
            kinds.append('lost_line')
            del out[at]
        elif roll < 0.6:
            kinds.append('duplicated_line')
            out.insert(at, out[at])
        elif roll < 0.75:
            other = rng.randrange(len(out))
            kinds.append('swapped_lines')
            out[at], out[other] = out[other], out[at]
        elif roll < 0.85:
            kinds.append('truncated')
            out = out[:at]
        else:
            kind = rng.choice(['endif', 'endwhile', 'endfor', 'endfunction', 'else', 'break', 'continue'])
            tokens = ['else', ':'] if kind == 'else' else [kind]
            kinds.append('stray_line')
            out.insert(at, {'kind': kind, 'tokens': tokens, 'req': [], 'expr': None})
    return out, kinds


def token_fault(rng, stmt):
    tokens = list(stmt['tokens'])
    roll = rng.random()
    at = rng.randrange(len(tokens))
    if roll < 0.35:
        del tokens[at]
        return tokens, 'lost_token'
    if roll < 0.65:
        tokens.insert(at, rng.choice([')', '(', ',', '=', ':', "'", '"', ']', '[', '\\', '#', '@', '$', '..', '...', *OPERATORS, *NAMES[:3], *NUMBERS[:2],
                                      *STRINGS[:2], 'in', 'if', 'endif', '\x00', '\u00a0', '\ufeff', '\u0661', rng.choice(['1', '9']) * rng.choice([17, 309, 400, 4301, 5000]),
                                      '1e+999', '0x1F', '1_0', '1.', '.5']))
        return tokens, 'inserted_token'
    if roll < 0.85:
        other = rng.randrange(len(tokens))
        tokens[at], tokens[other] = tokens[other], tokens[at]
        return tokens, 'swapped_tokens'
    text = tokens[at]
    cut = rng.randrange(len(text) + 1)
    tokens[at] = text[:cut] + text[cut + 1:] if rng.random() < 0.5 else text[:cut] + rng.choice("@'\"()[]\\#:=,.0a \t") + text[cut:]
    return tokens, 'flipped_character'


JUNK = ['\x00', '\x1a', '\x7f', '\u200b', '\ufeff', '@', ';', '\x08', '\u2060', '}', '$', '...', '=', "'", '``', '//', '--', '/* */', 'rem', '\u0661', '\x1b[0m', '!', '%', ')']
TAILS = ['zz9', "'zz8'", '"zz7"', '(zz6)', ', zz5', '<zz4>', '77777', '@', '; zz3', ': zz2', 'zz1:', '= zz0', '# zz', '// zz', 'as zz', "'zq.bare'", '<zq.bare>', '\x00',
         '[zz q]', '\ufeff', '\x1a', 'if zz', 'zz = 1']


def tail_fault(rng, stmt):
    """Something before or after an otherwise complete statement."""
    if rng.random() < 0.8:
        return [*stmt['tokens'], rng.choice(TAILS)], 'tail'
    return [rng.choice(TAILS), *stmt['tokens']], 'head'


def soup(rng):
    words = [*NAMES[:6], *NUMBERS[:4], *STRINGS[:8], *OPERATORS, '(', ')', ',', ':', '=', '!', '[a b]', 'if', 'elif', 'else', 'endif', 'while', 'endwhile', 'for',
             'in', 'endfor', 'function', 'endfunction', 'async', 'asyncfunction', 'return', 'jump', 'jumpif', 'include', '<x>', 'break', 'continue', '...', '@', '\\', '#', "'", '"', '[', ']',
             '\r', '\x0c', '\u00e9', '\U0001f600', '{', '}', ';', '.', '$', '\x00']
    lines = []
    for _ in range(rng.randrange(0, 9)):
        picks = [rng.choice(words) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 10]))]
        lines.append(rng.choice(['', ' ', '\t', '    ']) + rng.choice([' ', ' ', '']).join(picks))
    return lines


def nested(rng):
    """An expression nested up to 50 deep, well-formed or not."""
    depth = rng.randrange(5, 51)
    forms = rng.choice([['('], ['('], ['ab('], ['!'], ['-'], ['(', 'ab(', '!', '-', 'ab(1, ']])
    opens = [rng.choice(forms) for _ in range(depth)]
    closes = ''.join(')' for item in reversed(opens) if '(' in item)
    if rng.random() < 0.4 and closes:
        cut = rng.randrange(len(closes))
        closes = closes[:cut] + rng.choice(['', '@', '))']) + closes[cut + 1:]
    form = rng.choice(['{}', 'a = {}', 'return {}', 'jumpif ({}) b'])
    return form.format(''.join(opens) + rng.choice(['1', 'a', "'s'", '']) + closes)


def generate(rng, index, tier):
    roll = rng.random()
    gen = SourceGen(rng)
    scn = {'start': rng.choice([1, 1, 1, 2, 100, 0]), 'faults': []}
    shift = [rng.choice(['', '# c', '   ', 'x0 = 1', "systemLog('p')", 'lab:', '\t# d', 'jump lab', 'return', 'x1 = \\\n  2', '# e \\'])
             for _ in range(rng.randrange(1, 6))]
    scn['prefix'] = shift
    if rng.random() < 0.25:
        scn['preempt'] = gen_preempts(rng, rng.randrange(1, 10), 3000)
        scn['schedule'] = gen_schedule(rng, 30)
    if roll < 0.28:
        statements = gen.program(rng.choice([1, 2, 3, 5, 8]))
        if rng.random() < 0.85:
            statements, scn['faults'] = structure(rng, statements)
        blocks = lay_out(rng, statements)
        scn['kind'] = 'structure'
        scn['blocks'] = [[statements[at]['kind'] if at is not None else None, lines] for at, lines in blocks]
    elif roll < 0.58:
        scn.update(column_fault(rng, gen))
    elif roll < 0.8:
        statements = gen.program(rng.choice([1, 2, 3, 5]))
        at = rng.randrange(len(statements))
        tokens, kind = token_fault(rng, statements[at]) if rng.random() < 0.75 else tail_fault(rng, statements[at])
        scn['faults'] = [kind]
        blocks = lay_out(rng, statements)
        if rng.random() < 0.15:
            blocks.insert(rng.randrange(len(blocks) + 1), [None, [rng.choice(JUNK)]])
            scn['faults'].append('junk_line')
        out = []
        for ix, lines in blocks:
            if ix == at:
                lines = [rng.choice(['', ' ', '    ']) + rng.choice([' ', ' ', '']).join(tokens)] if rng.random() < 0.7 or not tokens else \
                    layout_line(rng, {'tokens': tokens, 'req': range(len(tokens))}, lambda: '  ', lambda: ' ', lambda k: rng.random() < 0.3, lambda: [])
                out.append(['faulty', lines])
            else:
                out.append([statements[ix]['kind'] if ix is not None else None, lines])
        scn['kind'] = 'token'
        scn['blocks'] = out
    elif roll < 0.88:
        statements = gen.program(rng.choice([1, 2, 4, 6]))
        text = '\n'.join(line for _, lines in lay_out(rng, statements) for line in lines)
        scn['kind'] = 'text'
        fault = rng.choice(['truncated_text', 'lost_line_end', 'torn', 'dangling_continuation', 'flipped_character', 'lost_text'])
        cut = rng.randrange(len(text) + 1)
        if fault == 'truncated_text':
            text = text[:cut]
        elif fault == 'lost_line_end':
            ends = [match.start() for match in re.finditer('\n', text)]
            if ends:
                at = rng.choice(ends)
                text = text[:at] + rng.choice(['', ' ', '\r', '\x0c', '\u2028']) + text[at + 1:]
        elif fault == 'torn':
            other = rng.randrange(len(text) + 1)
            text = text[:cut] + text[other:]
        elif fault == 'dangling_continuation':
            text = text.rstrip() + rng.choice([' \\', '\\', ' \\ ', ' \\\n', '\\\n# c', '\\\n\n  \n']) if rng.random() < 0.8 else text + rng.choice(['\n\\', '\\'])
        elif fault == 'flipped_character':
            text = text[:cut] + rng.choice('@\'"()\\#:=[]\n\r \x00\u2028a0') + text[cut + 1:]
        else:
            text = text[:cut] + text[cut + rng.randrange(1, 40):]
        scn['text'] = text
        scn['faults'] = [fault]
    elif roll < 0.96:
        scn['kind'] = 'text'
        scn['text'] = '\n'.join(soup(rng))
        scn['faults'] = ['soup']
    else:
        scn['kind'] = 'text'
        scn['text'] = '\n'.join(['a = 1'] * rng.randrange(3) + [nested(rng)])
        scn['faults'] = ['nesting']
    return scn


def column_fault(rng, gen):
    """An invalid character at a known place in the expression of one statement."""
    statements = gen.program(rng.choice([1, 2, 3, 5]))
    targets = [ix for ix, stmt in enumerate(statements) if stmt['expr'] is not None]
    if not targets:
        statements.append(gen.header('if'))
        statements.append({'kind': 'endif', 'tokens': ['endif'], 'req': [], 'expr': None})
        targets = [len(statements) - 2]
    kinds = sorted({statements[ix]['kind'] if statements[ix]['kind'] != 'simple' else statements[ix]['tokens'][0] if
                    statements[ix]['tokens'][0] in ('return', 'jumpif') else 'simple' for ix in targets})
    kind = rng.choice(kinds)
    targets = [ix for ix in targets if statements[ix]['kind'] == kind or statements[ix]['tokens'][0] == kind] or targets
    at = rng.choice(targets)
    stmt = statements[at]
    if rng.random() < 0.6:
        stmt = long_statement(rng, stmt, rng.choice([20, 60, 118, 121, 125, 180, 240, 300, 400, rng.randrange(1, 400)]))
    begin, end = stmt['expr']
    if rng.random() < 0.5:
        # after a length that puts the fault at any column
        place = rng.randrange(begin, end + 1)
    else:
        place = rng.choice([begin, end, min(begin + 1, end), max(begin, end - 1)])
    if begin == 0 and place == 0:
        place = 1
    tokens = [*stmt['tokens'][:place], BAD, *stmt['tokens'][place:]]
    bad = {'kind': 'bad', 'tokens': tokens, 'req': [ix + (ix > place) for ix in stmt['req']] + ([place + 1] if place in stmt['req'] else []), 'expr': None}
    if place in stmt['req']:
        bad['req'].append(place)
    mixed = [*statements[:at], bad, *statements[at + 1:]]
    # strings with the marker in them would make its place ambiguous
    if any(BAD in token for token in stmt['tokens']):
        bad['tokens'] = tokens = [token if ix == place or BAD not in token else token.replace(BAD, 'q') for ix, token in enumerate(tokens)]
    blocks = lay_out(rng, mixed)
    return {'kind': 'column', 'faults': ['invalid_character'], 'of': stmt['kind'],
            'blocks': [[mixed[ix]['kind'] if ix is not None else None, lines] for ix, lines in blocks]}


#
# The block matcher
#

def expected_error(kinds, header=None):
    """The blocks of a program as [(kind, line index)]: None if they match up, else the set of line indexes an error may name."""
    stack = []
    function = None
    base = 0
    for kind, line in kinds:
        top = stack[-1] if len(stack) > base else None
        if kind == 'bad':
            return {line}
        if kind == 'function':
            if function is not None:
                return {line}
            function = line
            base = len(stack)
        elif kind == 'endfunction':
            if function is None:
                return {line}
            if top is not None:
                return {line, *[entry[1] for entry in stack[base:]]}
            function = None
            base = 0
        elif kind in OPEN:
            stack.append([kind, line, False])
        elif kind in ('elif', 'else'):
            if top is None or top[0] != 'if' or top[2]:
                return {line}
            top[2] = kind == 'else'
        elif kind in ('endif', 'endwhile', 'endfor'):
            if top is None or OPEN[top[0]] != kind:
                return {line}
            stack.pop()
        elif kind in ('break', 'continue'):
            if not any(entry[0] != 'if' for entry in stack[base:]):
                return {line}
    if function is not None or stack:
        return {*[entry[1] for entry in stack], *([function] if function is not None else [])}
    return None


#
# Execution
#

class Checker:
    def __init__(self, stats):
        import_target()
        from bare_script import BareScriptParserError, parse_script  # pylint: disable=import-outside-toplevel
        self.error_class = BareScriptParserError
        self.parse_script = parse_script
        self.stats = stats

    def outcome(self, text, start=None):
        """('model', model) | ('error', error). Any other exception is a violation."""
        try:
            model = self.parse_script(text) if start is None else self.parse_script(text, start)
        except self.error_class as exc:
            return 'error', exc
        except RecursionError as exc:
            raise Violation('escaped-exception', f'RecursionError escaped from parse_script for {str(text)[:300]!r}') from exc
        except Exception as exc:
            raise Violation('escaped-exception', f'{type(exc).__name__}: {exc} escaped from parse_script for {str(text)[:300]!r}') from exc
        if not isinstance(model, dict) or not isinstance(model.get('statements'), list):
            raise Violation('not-a-model', f'parse_script returned {str(model)[:200]}')
        return 'model', model

    def check_error(self, error, text, start):
        """The invariants of every diagnostic. Returns the index of the reported physical line."""
        lines, _ = logical_lines(text)
        number = error.line_number
        if not isinstance(number, int) or isinstance(number, bool):
            raise Violation('no-line-number', f'{error.error}: line number {number!r} for {text[:300]!r}')
        at = number - start
        table = dict(lines)
        if at not in table:
            raise Violation('line-number', f'{error.error}: line number {number} (start {start}) is not the first line of a logical line of {text[:400]!r}')
        if squeeze(error.line).rstrip('\\ ') != table[at].rstrip('\\ '):
            raise Violation('line-text', f'{error.error}: the line of error is {error.line!r}, line {number} is {table[at]!r}')
        column = error.column_number
        if not isinstance(column, int) or isinstance(column, bool) or not 1 <= column <= len(error.line) + 1:
            raise Violation('column', f'{error.error}: column {column!r} of {error.line!r}')
        if not isinstance(error.error, str) or not error.error:
            raise Violation('no-description', repr(error.error))
        self.check_message(error)
        return at

    @staticmethod
    def check_message(error):
        message = str(error)
        head, _, rest = message.partition('\n')
        if not rest.endswith('^\n') and not rest.endswith('^'):
            raise Violation('message', f'no caret in {message!r}')
        if error.error not in head or not re.search(rf'(?<!\d){error.line_number}(?!\d)', head):
            raise Violation('message', f'{message!r} does not name the error and line {error.line_number}')
        body = rest.rstrip('\n')
        shown, _, caret = body.rpartition('\n')
        if caret.strip(' ') != '^':
            raise Violation('message', f'the caret line of {message!r}')
        at = len(caret) - 1
        line = error.line
        index = error.column_number - 1
        if shown == line:
            if at != index:
                raise Violation('caret', f'the caret is under column {at + 1}, the error is at column {index + 1}: {message!r}')
            return
        # An elided line: the shown text is a piece of the line, perhaps marked at the ends. The caret must be under the same character.
        for lead in (4, 3, 0):
            for trail in (4, 3, 0):
                if lead and shown[:lead].strip() != '...' or trail and shown[-trail:].strip() != '...':
                    continue
                piece = shown[lead:len(shown) - trail]
                offset = index - (at - lead)
                if piece and 0 <= offset and line[offset:offset + len(piece)] == piece and 0 <= at - lead <= len(piece) and \
                        (at - lead < len(piece) or index >= len(line)):
                    return
        raise Violation('caret', f'the caret is not under column {index + 1} ({line[index:index + 1]!r}): {message!r} of {line!r}')

    def same(self, kind, left, right, by=0):
        """Do two outcomes agree (the line number of the second moved by `by`)?"""
        if left[0] != right[0]:
            raise Violation(kind, f'{describe(left)} became {describe(right)}')
        if left[0] == 'model':
            if frozen(left[1]) != frozen(right[1]):
                raise Violation(kind, f'{describe(left)} became {describe(right)}')
            return
        one, two = left[1], right[1]
        if (one.error, one.line, one.column_number) != (two.error, two.line, two.column_number) or one.line_number + by != two.line_number:
            raise Violation(kind, f'{describe(left)} became {describe(right)}, the line number should move by {by}')

    def check_text(self, text, scn):
        """Everything that must hold for any text. Returns the outcome and the reported physical line index (or None)."""
        start = scn['start']
        result = self.outcome(text) if start == 1 else self.outcome(text, start)
        at = None
        if result[0] == 'error':
            at = self.check_error(result[1], text, start)
            self.stats.hit('rejected')
        else:
            self.stats.hit('accepted')
            self.check_accounted(text, result[1])
        # The same text in pieces
        lines = re.split(r'\r?\n', text)
        self.same('chunks', result, self.outcome(lines, start))
        pick = random.Random(zlib.crc32(text.encode('utf-8', 'surrogatepass')))
        pieces = [['', ''][:pick.randrange(3)]]
        added = len(pieces[0])
        for line in lines:
            blank = pieces[-1] and not pieces[-1][-1].strip()
            if pick.random() < (0.7 if blank != (not line.strip()) else 0.3):
                pieces.append([])
            pieces[-1].append(line)
        self.same('pieces', result, self.outcome(['\n'.join(piece) for piece in pieces if piece], start), added)
        # Another first line number
        self.same('start-line', result, self.outcome(text, start + 7), 7)
        # Lines put before it
        prefix = '\n'.join(scn['prefix'])
        shifted = self.outcome(prefix + '\n' + text, start)
        by = prefix.count('\n') + 1
        if result[0] == 'model':
            own = self.outcome(prefix)
            if own[0] != 'model':
                raise InvalidScenario('prefix')
            if shifted[0] != 'model' or frozen(shifted[1]['statements']) != frozen(own[1]['statements'] + result[1]['statements']):
                raise Violation('prefix', f'{describe(result)} became {describe(shifted)} after {prefix!r}')
        else:
            self.same('prefix', result, shifted, by)
        return result, at

    def check_accounted(self, text, model):
        """No non-blank, non-comment line of an accepted text may be without effect."""
        lines, unfinished = logical_lines(text)
        if unfinished and lines[-1][1]:
            # (what the last line says must be in the model: checked below like any other)
            self.stats.hit('accepted_unfinished')
        self.check_words(lines, model, text)
        physical = text.split('\n')
        if not lines and model['statements']:
            raise Violation('invented', f'{text!r} gave {model!r}')
        before = frozen(model)
        begins = [begin for begin, _ in lines]
        for at, (begin, content) in enumerate(lines):
            if not content:
                continue
            end = begins[at + 1] if at + 1 < len(begins) else len(physical)
            without = physical[:begin] + physical[end:]
            got = self.outcome('\n'.join(without))
            if got[0] == 'model' and frozen(got[1]) == before:
                raise Violation('line-dropped', f'line {begin + 1} ({content!r}) has no effect on the model of {text[:500]!r}')


    @staticmethod
    def check_words(lines, model, text):
        """Every name, number and odd character of an accepted line is somewhere in the model."""
        strings, numbers = set(), set()
        collect(model, strings, numbers)
        whole = '\n'.join(strings)
        for begin, content in lines:
            rest = content[len('include'):] if content.startswith('include') else content
            for match in WORD.finditer(rest):
                word = match.group()
                if word in KEYWORDS or word in whole or word[0].isdigit() and any(float(word) == number for number in numbers):
                    continue
                # (a name that runs into a number, an exponent, a keyword: not taken apart here)
                if word[0].isdigit() or re.search(r'[\w.]', rest[max(0, match.start() - 1):match.start()] + rest[match.end():match.end() + 1]):
                    continue
                raise Violation('text-dropped', f'{word!r} of line {begin + 1} ({content!r}) is not in the model of {text[:500]!r}')
            for char in rest:
                if ord(char) < 128 and (char.isalnum() or char in ' _' or char in SYNTAX) or char.isspace() or char.isalnum() or char in whole:
                    continue
                raise Violation('text-dropped', f'{char!r} of line {begin + 1} ({content!r}) is not in the model of {text[:500]!r}')


WORD = re.compile(r'[A-Za-z_][A-Za-z0-9_]*|[0-9]+', re.ASCII)
KEYWORDS = {'if', 'elif', 'else', 'endif', 'while', 'endwhile', 'for', 'in', 'endfor', 'function', 'endfunction', 'async', 'asyncfunction', 'return', 'jump', 'jumpif', 'include',
            'break', 'continue'}
SYNTAX = '()[]<>\'"\\,:=!-+*/%&|.'


def collect(obj, strings, numbers):
    if isinstance(obj, dict):
        for item in obj.values():
            collect(item, strings, numbers)
    elif isinstance(obj, list):
        for item in obj:
            collect(item, strings, numbers)
    elif isinstance(obj, str):
        strings.add(' '.join(obj.split()))
    elif isinstance(obj, (int, float)) and not isinstance(obj, bool):
        numbers.add(float(obj))


def describe(result):
    if result[0] == 'error':
        error = result[1]
        return f'[{error.error}, line {error.line_number} column {error.column_number} of {error.line[:150]!r}]'
    return f'[a model of {len(result[1]["statements"])} statements]'


def run(scn, stats):
    for fault in scn['faults']:
        stats.hit('fault.' + fault)
    checker = Checker(stats)
    if 'blocks' in scn:
        text = '\n'.join(line for _, lines in scn['blocks'] for line in lines)
    else:
        text = scn['text']
    if re.search(r'\\{9,}', text) or len(text) > 20000:
        raise InvalidScenario('backslash run')
    result, at = checker.check_text(text, scn)
    if 'blocks' in scn:
        check_blocks(checker, scn, text, result, at)
    if 'preempt' in scn:
        preempted(checker, scn, text, result, stats)
    outcome = describe(result)
    return {'history': [text, outcome], 'keys': [f'{scn["kind"]}/{result[1].error if result[0] == "error" else "accepted"}'],
            'nontrivial': [text] if result[0] == 'error' or scn['faults'] else None}


def check_blocks(checker, scn, text, result, at):
    begin = 0
    kinds = []
    for kind, lines in scn['blocks']:
        if kind is not None:
            kinds.append((kind, begin))
        begin += len(lines)
    if scn['kind'] == 'token':
        if result[0] == 'error' and dict((line, kind) for kind, line in kinds).get(at) == 'simple':
            raise Violation('wrong-line', f'an untouched valid line is reported: {describe(result)} of {text[:500]!r}')
        return
    want = expected_error(kinds)
    if want is None:
        if result[0] == 'error':
            raise Violation('valid-rejected', f'a well-formed program is rejected: {describe(result)} of {text[:600]!r}')
        return
    if result[0] == 'model':
        raise Violation('invalid-accepted', f'a program whose error is on line {sorted(line + 1 for line in want)} is accepted: {text[:600]!r}')
    if at not in want:
        raise Violation('wrong-line', f'{describe(result)}, expected line {sorted(line + scn["start"] for line in want)} of {text[:600]!r}')
    if scn['kind'] == 'column' and at in [line for kind, line in kinds if kind == 'bad']:
        check_column(result[1])


def check_column(error):
    """The column must lead to the invalid character: it is there, or after white space, or opens the group around it."""
    line = error.line
    place = outside_strings(line)
    column = error.column_number - 1
    rest = line[column:]
    lead = column + len(rest) - len(rest.lstrip())
    if lead == place:
        return
    if lead < place and line[lead:lead + 1] == '(' and closes_after(line, lead, place):
        return
    raise Violation('column-off', f'{error.error}: column {error.column_number} of {line!r}, the invalid character is at column {place + 1}')


def outside_strings(line):
    at = 0
    while at < len(line):
        char = line[at]
        if char == BAD:
            return at
        if char in '\'"[':
            close = {'[': ']'}.get(char, char)
            at += 1
            while at < len(line) and line[at] != close:
                at += 2 if line[at] == '\\' else 1
        at += 1
    raise InvalidScenario('no marker')


def closes_after(line, begin, place):
    """Is the parenthesis at begin still open at place?"""
    depth = 0
    at = begin
    while at < place:
        char = line[at]
        if char in '\'"[':
            close = {'[': ']'}.get(char, char)
            at += 1
            while at < len(line) and line[at] != close:
                at += 2 if line[at] == '\\' else 1
        elif char == '(':
            depth += 1
        elif char == ')':
            depth -= 1
            if depth == 0:
                return False
        at += 1
    return depth > 0


def preempted(checker, scn, text, result, stats):
    """Two sessions parse the damaged text and a sound one at the same time."""
    sched = Scheduler(scn.get('schedule', []), stats, TARGET_DIR)
    got = [None, None]

    def body(sid):
        for _ in range(2):
            got[sid] = checker.outcome(text, scn['start'])
            sched.point('parse')

    for sid in range(2):
        sched.add(lambda session, sid=sid: body(sid), scn['preempt'])
    sched.run()
    stats.hit('points', sched.points)
    stats.hit('switches', sched.switches)
    for other in got:
        checker.same('session', result, other)
