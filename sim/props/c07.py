"""C07: lowered code is well formed: schema-valid with intact, unique jump targets."""

import io

from .. import source
from ..core import InvalidScenario, Violation
from ..engine import RealWorld, history
from ..structured import check_program, render_program
from . import c01, c18
from .common import REAL_ALL, STUB_HOST, outcome_kinds

ID = 'C07'
RUNS = {'quick': 16000, 'thorough': 400000}
RULE = ('seeded structured source texts (with user labels, jumps and includes) read through faulty storage (lines lost, duplicated, exchanged, moved, '
        'foreign lines inserted, text truncated, tokens and characters flipped) by 1-3 preempted parse-and-run sessions; every model that parse_script returns, at any time, is '
        'checked; non-trivial: a faulted text was accepted and its model has emitted jumps (distinct by the models)')
REAL = REAL_ALL
STUB = STUB_HOST
ASSUMPTIONS = ['Names with the reserved prefix __bareScript occur in no source text',
               'The schema is restated in this module; the published one (bare_script.model) is checked as well']

RESERVED = '__bareScript'
OPERATORS = {'**', '*', '/', '%', '+', '-', '<=', '<', '>=', '>', '==', '!=', '&&', '||'}


#
# The schema
#

def fail(detail):
    raise Violation('schema', detail)


def members(obj, where, required, optional=()):
    if not isinstance(obj, dict):
        fail(f'{where}: {obj!r} is not an object')
    missing = set(required) - set(obj)
    surplus = set(obj) - set(required) - set(optional)
    if missing or surplus:
        fail(f'{where}: missing {sorted(missing)}, surplus {sorted(map(str, surplus))}')


def string(value, where):
    if not isinstance(value, str):
        fail(f'{where}: {value!r} is not a string')


def check_expr(expr, where):
    stack = [expr]
    while stack:
        expr = stack.pop()
        if not isinstance(expr, dict) or len(expr) != 1:
            fail(f'{where}: expression {str(expr)[:200]}')
        (kind, body), = expr.items()
        if kind == 'number':
            if isinstance(body, bool) or not isinstance(body, (int, float)):
                fail(f'{where}: number {body!r}')
        elif kind in ('string', 'variable'):
            string(body, where)
        elif kind == 'group':
            stack.append(body)
        elif kind == 'unary':
            members(body, where, ('op', 'expr'))
            if body['op'] not in ('-', '!'):
                fail(f'{where}: unary {body["op"]!r}')
            stack.append(body['expr'])
        elif kind == 'binary':
            members(body, where, ('op', 'left', 'right'))
            if body['op'] not in OPERATORS:
                fail(f'{where}: binary {body["op"]!r}')
            stack.extend((body['left'], body['right']))
        elif kind == 'function':
            members(body, where, ('name',), ('args',))
            string(body['name'], where)
            if not isinstance(body.get('args', []), list):
                fail(f'{where}: arguments {body["args"]!r}')
            stack.extend(body.get('args', []))
        else:
            fail(f'{where}: expression {kind!r}')


def check_statements(statements, where, depth=0):
    if not isinstance(statements, list):
        fail(f'{where}: {statements!r} is not a list')
    for ix, statement in enumerate(statements):
        here = f'{where}[{ix}]'
        if not isinstance(statement, dict) or len(statement) != 1:
            fail(f'{here}: {str(statement)[:200]}')
        (kind, body), = statement.items()
        if kind == 'expr':
            members(body, here, ('expr',), ('name',))
            string(body.get('name', ''), here)
            check_expr(body['expr'], here)
        elif kind == 'jump':
            members(body, here, ('label',), ('expr',))
            string(body['label'], here)
            if 'expr' in body:
                check_expr(body['expr'], here)
        elif kind == 'return':
            members(body, here, (), ('expr',))
            if 'expr' in body:
                check_expr(body['expr'], here)
        elif kind == 'label':
            string(body, here)
        elif kind == 'function':
            members(body, here, ('name', 'statements'), ('async', 'args', 'lastArgArray'))
            string(body['name'], here)
            for flag in ('async', 'lastArgArray'):
                if not isinstance(body.get(flag, True), bool):
                    fail(f'{here}: {flag} {body[flag]!r}')
            args = body.get('args', ['x'])
            if not isinstance(args, list) or not args:
                fail(f'{here}: args {args!r}')
            for arg in args:
                string(arg, here)
            check_statements(body['statements'], here, depth + 1)
        elif kind == 'include':
            members(body, here, ('includes',))
            if not isinstance(body['includes'], list) or not body['includes']:
                fail(f'{here}: includes {body["includes"]!r}')
            for include in body['includes']:
                members(include, here, ('url',), ('system',))
                string(include['url'], here)
                if not isinstance(include.get('system', True), bool):
                    fail(f'{here}: system {include["system"]!r}')
        else:
            fail(f'{here}: statement {kind!r}')


#
# Labels
#

def check_labels(model):
    """Returns the number of emitted jumps."""
    emitted = 0
    for scope, statements in c18.scopes_of(model):
        name = 'the global statements' if scope is None else f'function {scope}'
        labels = [statement['label'] for statement in statements if 'label' in statement]
        jumps = [statement['jump']['label'] for statement in statements if 'jump' in statement]
        for label in jumps:
            if label.startswith(RESERVED):
                emitted += 1
                if labels.count(label) != 1:
                    raise Violation('jump-target', f'{name}: {label} is the target of a jump and is defined {labels.count(label)} times')
        for label in labels:
            if label.startswith(RESERVED):
                if label not in jumps:
                    raise Violation('label-unused', f'{name}: {label} is the target of no jump')
                if labels.count(label) != 1:
                    raise Violation('label-twice', f'{name}: {label} is defined {labels.count(label)} times')
    return emitted


def check_model(model, published=False):
    from bare_script import lint_script, validate_script  # pylint: disable=import-outside-toplevel
    members(model, 'script', ('statements',))
    check_statements(model['statements'], 'script')
    emitted = check_labels(model)
    if published:           # (slow)
        try:
            validate_script(model)
        except RecursionError:
            pass
        except Exception as exc:
            raise Violation('schema', f'the published schema rejects the model: {exc}') from exc
    for text in lint_script(model):
        kind, _, name, _ = c18.read_warning(text)
        if kind in ('unknown-label', 'unused-label', 'relabel') and name is not None and name.startswith(RESERVED):
            raise Violation('lint', text)
    return emitted


#
# The faulty store
#

FOREIGN = ['spare:', 'lab:', '    lab:', 'jump lab', 'jumpif (x) lab', 'jumpif (hJ(1)) spare', "include 'a.bare'", 'include <b.bare>', 'break',
           'continue', 'else:', 'endif', 'elif x:', 'if x:', 'endwhile', 'while hJ(2):', 'while true:', 'endfor', 'for x in arr:', 'for y, ix99 in arr:',
           'for x, x in arr:', 'for y, x in arr:', 'include <c.bare>', "include 'c.bare'", "include ''", 'x = 1e+999', 'x = -1e+400 + 0e-999', 'jumpif (!-x) lab',
           'function fZ(x...):', 'async  function fZ(x, x) :', '    return', '\treturn  ', 'return -x', 'else :', '    else:', '  break', '  continue', 'endif  ',
           'endfunction', 'function fZ():', 'function fZ(x, y...):', 'return', 'return x', 'x = 1', 'hL(1)', '# comment', '', "'loose'", 'async function fY(x):']


def apply_faults(text, faults):
    lines = text.split('\n')
    for kind, one, two in faults:
        if not lines:
            break
        one_, two_ = one % len(lines), two % len(lines)
        if kind == 'lose':
            del lines[one_]
        elif kind == 'twice':
            lines.insert(two_, lines[one_])
        elif kind == 'again':
            lines.insert(one_, lines[one_])
        elif kind == 'swap':
            lines[one_], lines[two_] = lines[two_], lines[one_]
        elif kind == 'move':
            lines.insert(two_, lines.pop(one_))
        elif kind == 'foreign':
            lines.insert(one_, FOREIGN[two % len(FOREIGN)])
        elif kind == 'block':       # a complete foreign block around some lines
            begin, end = sorted((one_, two_))
            opener, closer = [('if x:', 'endif'), ('while hJ(3):', 'endwhile'), ('while true:', 'endwhile'), ('for x in arr:', 'endfor'),
                              ('for x, ix98 in arr:', 'endfor'), ('function fX(x):', 'endfunction'), ('function fX(...):', 'endfunction'),
                              ('  async function fX(x, y...):', 'endfunction'), ('async function fX( ... ) :', 'endfunction')][(one + two) % 9]
            lines[begin:end + 1] = [opener, *lines[begin:end + 1], closer]
        elif kind == 'chop':
            del lines[one_:]
        else:
            raise InvalidScenario('fault')
    return '\n'.join(lines)


TOKENS = ['+', '-', '!', '*', '(', ')', '1e+999', '0.0', '007', '+5', '-5', '=', '==', '&&', '||', ' ', ',', ':', '...', "'", '"', '[', ']', '[ ]', '\\', 'foo(', 'foo()',
          'true', 'in', 'if', 'async ', '\t', '&', '|', '%%', '!!', '- -', '+ +', '~', '^', '?', '.', '0x1', '1e5', '1e+400', '1_000', '\u0661', '\xb2', 'NaN', 'inf']


def apply_flips(text, flips):
    for kind, at, what in flips:
        at %= len(text) + 1
        if kind == 'insert':
            text = text[:at] + TOKENS[what % len(TOKENS)] + text[at:]
        elif kind == 'erase':
            text = text[:at] + text[at + 1 + what % 3:]
        elif kind == 'replace':
            text = text[:at] + TOKENS[what % len(TOKENS)] + text[at + 1:]
        else:
            raise InvalidScenario('flip')
    return text


def loose_text(rng):
    """A text of any statements in a seeded layout; a few of its characters are changed by the storage later."""
    statements = source.SourceGen(rng).body(rng.choice([2, 3, 4]), False, None)
    if rng.random() < 0.3:
        at = rng.randrange(len(statements) + 1)
        for _ in range(rng.randrange(2, 7)):
            url = rng.choice(['a.bare', 'b.bare', ''])
            statements.insert(at, source.statement('simple', ['include', rng.choice([f"'{url}'", f'<{url}>'])], (1,)))
    lines = []
    for stmt in statements:
        lines.append(rng.choice(['', '', '  ', '\t']) + ' '.join(stmt['tokens']) + rng.choice(['', '', ' ']))
    if rng.random() < 0.5:      # expressions of arbitrary tokens
        for _ in range(rng.randrange(1, 4)):
            lines.insert(rng.randrange(len(lines) + 1), rng.choice(['x = ', '', 'return ', 'systemLog(']) + ''.join(
                rng.choice(['', ' ']) + rng.choice([*TOKENS, 'a', 'b', '1', "'s'", '[x y]']) for _ in range(rng.randrange(1, 7))))
    return '\n'.join(lines)


KINDS = ['lose', 'twice', 'again', 'swap', 'move', 'foreign', 'foreign', 'foreign', 'foreign', 'block', 'block', 'block', 'chop']


def generate(rng, index, tier):
    scn = c01.generate(rng, index, tier)
    for session in scn['sessions']:
        for call in session['calls']:
            call.pop('debug', None)
            call.pop('reuse', None)
            call['limit'] = 4000
    variants = []
    for _ in range(rng.choice([4, 8, 12])):
        faults = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5])):
            faults.append([rng.choice(KINDS), rng.randrange(1000), rng.randrange(1000)])
        variants.append({'program': rng.randrange(len(scn['programs'])), 'style': [rng.randrange(12) for _ in range(rng.randrange(1, 6))],
                         'faults': faults, 'form': rng.choice(['text', 'text', 'lines', 'file', 'chunks']), 'start': rng.choice([1, 1, 1, 7])})
    scn['variants'] = variants
    scn['texts'] = []
    for _ in range(rng.choice([1, 3, 6])):
        flips = [[rng.choice(['insert', 'erase', 'replace']), rng.randrange(5000), rng.randrange(1000)] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        scn['texts'].append({'text': loose_text(rng), 'flips': flips, 'lines': [[rng.choice(KINDS), rng.randrange(1000), rng.randrange(1000)]
                                                                                 for _ in range(rng.choice([0, 0, 1, 2]))]})
    return scn


class CheckedWorld(RealWorld):
    """Sessions whose every parsed model is checked."""
    emitted = 0

    def program_model(self, call):
        model = super().program_model(call)
        self.emitted += check_model(model)
        return model


def run(scn, stats):
    from bare_script import parse_script  # pylint: disable=import-outside-toplevel
    from bare_script.parser import BareScriptParserError  # pylint: disable=import-outside-toplevel
    for program in scn['programs']:
        check_program(program)
    accepted = []
    keys = set()
    emitted = 0
    for variant in scn.get('variants', []):
        text = apply_faults(render_program(scn['programs'][variant['program']], variant['style']), variant['faults'])
        if RESERVED in text:
            raise InvalidScenario('reserved')
        source = {'lines': text.split('\n'), 'file': io.StringIO(text), 'chunks': [text, ''], 'text': text}[variant['form']]
        for fault in variant['faults']:
            stats.hit('fault.store.' + fault[0])
        try:
            model = parse_script(source, variant.get('start', 1))
        except BareScriptParserError:
            stats.hit('texts rejected')
            continue
        stats.hit('texts accepted')
        count = check_model(model, not accepted)
        if variant['faults']:
            emitted += count
            keys.add('accepted after ' + ' + '.join(sorted({fault[0] for fault in variant['faults']})))
        accepted.append(model)
    for entry in scn.get('texts', []):
        text = apply_flips(apply_faults(entry['text'], entry['lines']), entry['flips'])
        if RESERVED in text:
            raise InvalidScenario('reserved')
        stats.hit('fault.store.flip', len(entry['flips']))
        try:
            model = parse_script(text)
        except BareScriptParserError:
            stats.hit('texts rejected')
            continue
        stats.hit('texts accepted')
        count = check_model(model, True)
        if entry['flips'] or entry['lines']:
            emitted += count
        accepted.append(model)
    world = CheckedWorld(scn, stats)
    world.run()
    outcomes = [outcome for state in world.sessions for outcome in state.outcomes]
    for outcome in outcomes:
        if outcome[:2] == ['error', 'label']:
            raise Violation('unknown-label', f'structured code ended with {outcome!r}')
    for kind in outcome_kinds(world):
        stats.hit('outcome.' + kind)
    return {'history': [history(world), accepted], 'keys': sorted(keys), 'nontrivial': accepted if emitted else None}



