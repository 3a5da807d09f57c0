"""C02: expression text parses to the tree the precedence rules dictate - formulas kept in a faulty store by processes that come and go."""

from ..core import InvalidScenario, Violation, gen_preempts, gen_schedule
from ..engine import import_target
from ..life import Crash, Life
from ..refparse import LEVELS, is_word, parse
from .common import ASSUME, latency

ID = 'C02'
RUNS = {'quick': 22000, 'thorough': 800000}
RULE = ('seeded lives of 1-3 sessions that keep formulas as text in a simulated store: written (torn, lost, doubled, mixed with another cell), read (short, stale, '
        'characters changed, dropped, inserted, exchanged), parsed alone and within scripts that are fetched in chunks, kept as trees, changed by the host and parsed '
        'again after crashes; sessions preempted within the parser; non-trivial: a delivered text of two operators or more, or one to be rejected, was judged '
        '(distinct by history)')
REAL = ['bare_script.parser', 'bare_script.model']
STUB = ['store of the formulas: in memory, with faults', 'fetch of the scripts: the cells, in chunks', 'thread scheduler: baton scheduler over real threads']
ASSUMPTIONS = ASSUME[1:] + ['sim/refparse.py states the grammar: precedence climbing over the operators of the property',
                            'Left open: a text whose only closing quote or bracket is escaped, spaces at the end of a bracketed name, nesting beyond 70 levels']

OPS = list(LEVELS)


FORMS = {
    'assign': ('value = {0}', lambda statement: statement['expr']['expr']),
    'tight': ('value={0}', lambda statement: statement['expr']['expr']),
    'return': ('return {0}', lambda statement: statement['return']['expr']),
    'jumpif': ('jumpif ({0}) done\ndone:', lambda statement: statement['jump']['expr']),
    'if': ('if {0}:\nendif', lambda statement: statement['jump']['expr']['unary']['expr']),
    'while': ('while {0}:\nendwhile', lambda statement: statement['jump']['expr']['unary']['expr']),
    'for': ('for item in {0}:\nendfor', lambda statement: statement['expr']['expr']),
    'call': ('systemLog({0})', lambda statement: statement['expr']['expr']['function']['args'][0]),
    'function': ('function work():\n    return {0}\nendfunction', lambda statement: statement['function']['statements'][0]['return']['expr']),
}


def delivered(text, fault, other, old):
    """What a fault leaves of a text."""
    if fault is None:
        return text
    kind, *args = fault
    at = args[0] % (len(text) + 1) if args else 0
    if kind == 'short':
        return text[:at]
    if kind == 'late':
        return text[at:]
    if kind == 'torn':
        return text[:at] + old[at:]
    if kind == 'mixed':
        return text[:at] + other[at:]
    if kind == 'drop':
        return text[:at] + text[at + 1:]
    if kind == 'change':
        return text[:at] + args[1] + text[at + 1:]
    if kind == 'insert':
        return text[:at] + args[1] + text[at:]
    if kind == 'swap':
        return text[:at] + text[at + 1:at + 2] + text[at:at + 1] + text[at + 2:]
    if kind == 'double':
        return text + text
    if kind == 'repeat':
        return text[:at] + text[max(0, at - args[1]):]
    if kind == 'joined':
        return text + args[1] + other
    if kind == 'stale':
        return old
    raise InvalidScenario('fault')


def operators(expr, out):
    """The chains of binary operators of a tree, as they stand in the text."""
    (kind, body), = expr.items()
    if kind == 'binary':
        operators(body['left'], out)
        out.append(body['op'])
        operators(body['right'], out)
    elif kind in ('unary', 'group'):
        operators(body['expr'] if kind == 'unary' else body, out)
    elif kind == 'function':
        for arg in body['args']:
            operators(arg, out)
    return out


def wreck(node):
    """Change a tree throughout."""
    for item in list(node.values() if isinstance(node, dict) else node):
        if isinstance(item, (dict, list)):
            wreck(item)
    node.clear()


class World(Life):
    def __init__(self, scn, stats):
        super().__init__(scn, stats)
        self.cells = {}             # durable: cell -> (text, text before)
        self.trees = {}             # of the process: cell -> (text, tree)
        self.pairs = set()

    def text(self, text):
        if not isinstance(text, str):
            raise InvalidScenario('text')
        return text

    def judge(self, text, where='parse_expression'):
        """Parse a text, and compare with the grammar. The tree, or None."""
        bare = import_target()
        want = parse(text)
        try:
            got = bare.parse_expression(text)
        except bare.BareScriptParserError:
            got = None
        except (Violation, InvalidScenario, Crash):
            raise
        except Exception as exc:
            raise Violation('failed', f'{where}: {text!r}: {type(exc).__name__}') from exc
        self.verdict(where, text, want, got)
        return got

    def verdict(self, where, text, want, got):
        self.keys.add(want[0])
        if want[0] == 'open':
            return
        if want[0] == 'reject':
            self.nontrivial = True
            if got is not None:
                raise Violation('accepted', f'{where}: {text!r} is no expression, but gives {got!r}')
            return
        chain = operators(want[1], [])
        self.nontrivial = self.nontrivial or len(chain) > 1
        self.pairs.update(zip(chain, chain[1:]))
        if got is None:
            raise Violation('rejected', f'{where}: {text!r} is rejected')
        if got != want[1]:
            raise Violation('tree', f'{where}: {text!r} gives {got!r}, expected {want[1]!r}')

    # -- steps

    def do_step(self, sid, step):
        kind, *args = step
        if kind not in STEPS:
            raise InvalidScenario('step')
        try:
            got = getattr(self, 'step_' + kind)(*args)
        except Crash:
            self.stats.hit('fault.crash')
            self.trees = {}
            got = 'crash'
        self.hist.append([sid, *step, got])

    def step_put(self, cell, text):
        old = self.cells.get(cell, ('', ''))[0]
        other = self.cells.get((cell + 1) % 4, ('', ''))[0]
        self.wait('write')
        fault = self.fault('write')
        if fault is not None and fault[0] == 'before':
            raise Crash()
        if fault is not None and fault[0] == 'lost':
            return 'lost'
        after = fault is not None and fault[0] == 'after'
        self.cells[cell] = (delivered(self.text(text), None if after else fault, other, old), old)
        if after:
            raise Crash()
        return self.cells[cell][0]

    def step_load(self, cell):
        text, old = self.cells.get(cell, ('', ''))
        self.wait('read')
        text = delivered(text, self.fault('read'), self.cells.get((cell + 1) % 4, ('', ''))[0], old)
        tree = self.judge(text)
        if tree is not None:
            self.trees[cell] = (text, tree)
        return [text, tree is not None]

    def step_recover(self):
        """A new process parses all cells."""
        self.trees = {}
        for cell in sorted(self.cells):
            self.step_load(cell)
        return len(self.trees)

    def step_check(self):
        """The trees are what they were when they were parsed."""
        for cell, (text, tree) in sorted(self.trees.items()):
            want = parse(text)
            if want[0] == 'tree' and tree != want[1]:
                raise Violation('kept', f'cell {cell}: {text!r} became {tree!r}')
        return len(self.trees)

    def step_wreck(self, cell):
        """The host changes a tree, and parses its text again."""
        if cell not in self.trees:
            return None
        text, tree = self.trees.pop(cell)
        wreck(tree)
        self.wait('wreck')
        again = self.judge(text)
        if again is not None:
            self.trees[cell] = (text, again)
        self.step_check()
        return again is not None

    def step_batch(self, texts):
        """Many texts, one after the other."""
        for text in texts:
            self.judge(self.text(text))
        return len(texts)

    def step_sheet(self, cells, forms, cuts, end):
        """A script with the formulas of the cells, read in chunks."""
        bare = import_target()
        lines = []
        wants = []
        for at, cell in enumerate(cells):
            text = self.cells.get(cell, ('', ''))[0]
            text = delivered(text, self.fault('fetch'), self.cells.get((cell + 1) % 4, ('', ''))[0], '')
            form = forms[at % len(forms)] if forms else 'assign'
            if form not in FORMS:
                raise InvalidScenario('form')
            want = parse(text)
            if any(char in text for char in '\r\n\f\v\x1c\x1d\x1e\x85\u2028\u2029') or text.rstrip().endswith('\\') or want[0] == 'open':
                continue
            if want[0] == 'reject':
                form = 'assign'
            wants.append((text, want, form))
            lines.append(FORMS[form][0].format(text))
            if want[0] == 'reject':
                break
        chunks = []
        at = 0
        source = [line for text in lines for line in text.split('\n')]
        while at < len(source):
            count = max(1, cuts[len(chunks) % len(cuts)]) if cuts else len(source)
            chunks.append(end.join(source[at:at + count]))
            at += count
        self.wait('fetched')
        try:
            statements = bare.parse_script(chunks)['statements']
        except bare.BareScriptParserError as exc:
            if not wants or wants[-1][1][0] != 'reject':
                raise Violation('rejected', f'the script {chunks!r}: {exc}') from exc
            self.nontrivial = True
            return 'reject'
        except (Violation, InvalidScenario, Crash):
            raise
        except Exception as exc:
            raise Violation('failed', f'the script {chunks!r}: {type(exc).__name__}') from exc
        if wants and wants[-1][1][0] == 'reject':
            raise Violation('accepted', f'the script {chunks!r}, with {wants[-1][0]!r}')
        # Each formula in a script of its own is in the same place
        for text, want, form in wants:
            alone = bare.parse_script(FORMS[form][0].format(text))['statements']
            try:
                got = FORMS[form][1](alone[0])
            except (KeyError, IndexError, TypeError) as exc:
                raise Violation('tree', f'{form} of {text!r}: {alone!r}') from exc
            self.verdict(form, text, want, got)
        trees = []
        collect(statements, trees)
        for text, want, form in wants:
            if want[1] not in trees:
                raise Violation('tree', f'{text!r} is not in the model of {chunks!r}')
        return len(wants)

    def step_deep(self, kind, depth, op):
        """Nesting without end is parsed or rejected."""
        if kind not in DEEP or op not in LEVELS or not isinstance(depth, int) or depth > 20000:
            raise InvalidScenario('deep')
        bare = import_target()
        text, count = DEEP[kind](depth, op)
        try:
            tree = bare.parse_expression(text)
        except bare.BareScriptParserError:
            if depth <= 40 and kind != 'open':
                raise Violation('rejected', f'{kind} {depth} is rejected') from None
            return 'reject'
        except (Violation, InvalidScenario, Crash):
            raise
        except BaseException as exc:
            raise Violation('failed', f'{kind} {depth}: {type(exc).__name__}') from exc
        seen = 0
        while True:
            (what, body), = tree.items()
            seen += 1
            if what == 'binary':
                if body['op'] != op:
                    raise Violation('tree', f'{kind} {depth} {op}: {body["op"]}')
                tree = body['left']
            elif what == 'group':
                tree = body
            elif what == 'unary':
                tree = body['expr']
            elif what == 'function' and body['args']:
                tree = body['args'][0]
            else:
                break
        if seen != count or kind == 'open':
            raise Violation('tree', f'{kind} {depth} {op}: {seen} levels, expected {count}')
        return seen


def collect(node, out):
    if isinstance(node, dict):
        out.append(node)
        for item in node.values():
            collect(item, out)
    elif isinstance(node, list):
        for item in node:
            collect(item, out)


DEEP = {
    'group': lambda depth, op: ('(' * depth + 'a' + ')' * depth, depth + 1),
    'open': lambda depth, op: ('(' * (depth + 1) + 'a' + ')' * depth, 0),
    'unary': lambda depth, op: ('!' * depth + 'a', depth + 1),
    'chain': lambda depth, op: ('a' + f' {op} a' * depth, depth + 1),
    'call': lambda depth, op: ('ff(' * depth + 'a' + ')' * depth, depth + 1),
    'minus': lambda depth, op: ('-(' * depth + 'a' + ')' * depth, 2 * depth + 1)}
STEPS = {'put', 'load', 'recover', 'check', 'wreck', 'batch', 'sheet', 'deep'}


def run(scn, stats):
    world = World(scn, stats)
    world.run()
    keys = world.keys | {f'pair/{one}{two}' for one, two in world.pairs}
    return world.outcome(keys)


#
# Generation
#

NAMES = ['a', 'b', 'cc', 'x1', '_', 'total', 'null', 'true', 'e', 'e5', 'if', 'not', 'A_b', 'n\u00e9']
STRINGS = ["''", "'x'", '"y"', '""', "'a b'", "'it\\'s'", '"\\"q\\""', "'\\\\'", '"\\\\"', "'(+'", '"a)"', "'\\n'", "'a\\\\'", "'\\\\\\''", "'\u00e9'", '"it\'s"', "'\"'", "'# no'", "','"]
NUMBERS = ['0', '1', '2', '42', '3.5', '1.', '0.25', '1e+3', '2.5e-2', '+5', '+0.5', '007', '9007199254740993', '1e+400']
BRACKETS = ['[a]', '[a b]', '[ lead]', '[a(b]', '[+]', '[a\\]b]', '[a\\\\b]', '[1]', "[it's]"]
MISSES = ['', ' ', '()', '(', ')', '+', '!', '-', 'a b', 'a !b', 'a = b', 'a === b', 'a =! b', 'a & b', 'a | b', 'a &&& b', 'a <> b', 'a => b', 'a =< b', '.5', '1e5', '1 .5', '1..2', 'a.b',
          'ff(,)', 'ff(a,)', 'ff(a b)', 'ff(,a)', 'ff(a', 'ff a)', 'ff)', "'", '"', "'a", '"a\'', '[', '[]', ']', 'a]', '[a', '* a', '/ a', 'a *', 'a **', 'a * * b', 'a *** b', 'a ++ b', '+ 5', '+a',
          'a -', '--', '- + a', '-+5', '--5', '- -5', '!!a', '!-a', '-!a', 'a--b', 'a- -b', 'a-5', 'a -5', 'a+5', 'a +5', 'a+ +5', '5-3', '5 -3', '2**-1', '2** -1', '-2**2', '!a**b', '-a*b', '!a==b',
          'a%b', 'a % b', 'a ? b', 'a, b', 'a;', 'a # b', '#', '\\', 'a \\ b', '$a', 'a$', '@', '{a}', '1a', '1 a', "a'x'", "'x''y'", "'x' 'y'", 'ff(a)(b)', '(a)(b)', '(a) b', 'a (b)', 'f(a)', 'f (a)', '5(a)',
          "'x'(a)", '[a](b)', 'ff()', 'ff( )', 'ff ( a , b )', '((a))', '(a', 'a)', '((a)', '(a))', 'a < = b', 'a ! = b', 'a * *b', 'a & & b', 'a<b<c', 'a==b==c', 'a<b==c<d', 'a||b&&c||d', '1e+', '1e-', '1e+5e', '1.e+5', '0x10',
          '1_000', '\u0663', '\u00b2', 'a\u00a0+\u2003b', 'a\n+\nb', '\ta\t', 'a\x00', 'a\u200b', '\ufeffa', 'a\u2212b', 'a\u00d7b', '\u2018a\u2019', '\uff08a\uff09']
SPACES = ['', '', ' ', ' ', ' ', '  ', '\t', '\n', '\u00a0']


def gen_space(rng, style):
    return '' if style == 0 else ' ' if style == 1 else rng.choice(SPACES)


def gen_operand(rng, depth, style):
    roll = rng.random()
    if depth > 0 and roll < 0.16:
        return '(' + gen_space(rng, style) + gen_chain(rng, depth - 1, style) + gen_space(rng, style) + ')'
    if depth > 0 and roll < 0.28:
        return rng.choice('!-') + (gen_space(rng, style) if rng.random() < 0.5 else '') + gen_operand(rng, depth - 1, style)
    if depth > 0 and roll < 0.4:
        args = [gen_chain(rng, depth - 1, style) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 6]))]
        return rng.choice(NAMES) + rng.choice(['', '', ' ']) + '(' + (',' + gen_space(rng, style)).join(args) + gen_space(rng, style) + ')'
    if roll < 0.7:
        return rng.choice(NAMES)
    if roll < 0.85:
        return rng.choice(NUMBERS)
    if roll < 0.95:
        return rng.choice(STRINGS)
    return rng.choice(BRACKETS)


def gen_chain(rng, depth, style, count=None):
    if count is None:
        count = rng.choice([0, 0, 1, 1, 2, 3, 4] if depth < 3 else [1, 2, 3, 4, 5, 8])
    out = gen_operand(rng, depth, style)
    for _ in range(count):
        out += gen_space(rng, style) + rng.choice(OPS) + gen_space(rng, style) + gen_operand(rng, depth, style)
    return out


def gen_small(rng):
    """A short chain: any operators over plain, negated, called or grouped operands."""
    count = rng.choice([2, 3, 3, 4, 4, 4, 5, 7])
    wrap = rng.random()
    space = rng.choice(['', ' '])
    operands = []
    for at in range(count + 1):
        name = 'abcdefgh'[at]
        roll = rng.random()
        if wrap < 0.4 or roll < 0.5:
            operands.append(name)
        else:
            operands.append(rng.choice(['-{0}', '!{0}', '({0})', 'ff({0})', '-({0})', "'{0}'", '[{0}]', '!-{0}', '1']).format(name))
    ops = [rng.choice(OPS) for _ in range(count)]
    if wrap > 0.7:      # a group over a part
        begin = rng.randrange(count)
        end = rng.randrange(begin + 1, count + 1)
        operands[begin] = rng.choice(['(', '(', '!(', '-(', 'gg(']) + operands[begin]
        operands[end] += ')'
    return ''.join(operand + (space + ops[at] + space if at < count else '') for at, operand in enumerate(operands))


TOKENS = [*OPS, '!', '(', ')', ',', 'a', 'bb', 'ff(', '1', '2.5', "'s'", '"s"', '[n]', ' ', "'", '"', '[', ']', '\\', '=', '&', '|', '.', 'e', '+5', '#', ':']


JUNK = ['()', '(a)', '( )', ')', '(', '[b]', '[]', "'s'", "''", '"', '.', '.5', 'a', ' a', '1', ' 1', '=', ';', ',', ',,', '!', '-', '++', '&', '|', '**', '#', '\\', ' if ', '\x00', '\x00a', '\n', '{}', '?', ':', '$',
        '\ufeff', '\u200b', ' + 5', ' - ', '+ ', ' and b', ' not ', '//', '/* a */', '# a', '%%', '<<', '>>', '<>', '~', '^']


def gen_near(rng):
    """Something that does not belong there, between the tokens of a text."""
    text = gen_small(rng) if rng.random() < 0.6 else gen_chain(rng, 2, 1)
    ends = [at for at in range(len(text) + 1) if at in (0, len(text)) or is_word(text[at]) != is_word(text[at - 1]) or text[at - 1] in ')]']
    at = rng.choice(ends) if rng.random() < 0.6 else len(text)
    return text[:at] + rng.choice(JUNK) + text[at:]


def gen_text(rng):
    roll = rng.random()
    if roll < 0.2:
        return gen_small(rng)
    if roll < 0.3:
        return gen_near(rng)
    if roll < 0.6:
        return gen_chain(rng, rng.randrange(4), rng.choice([0, 1, 1, 2]))[:600]
    if roll < 0.68:
        return gen_chain(rng, rng.randrange(3, 8), 1, rng.choice([None, 0, 1]))[:900]
    if roll < 0.75:
        return gen_chain(rng, 0, rng.choice([0, 1]), rng.choice([10, 20, 40]))
    if roll < 0.87:
        return rng.choice(MISSES)
    return ''.join(rng.choice(TOKENS) + rng.choice(['', ' ']) for _ in range(rng.randrange(1, 10)))


def gen_fault(rng, kinds):
    kind = rng.choice(kinds)
    if kind in ('change', 'insert'):
        return [kind, rng.randrange(60), rng.choice(['+', '*', '=', '!', '(', ')', "'", '"', ' ', ',', '<', '&', '|', '-', '.', '\\', '[', ']', 'e', '1', 'a', '\x00'])]
    if kind == 'joined':
        return [kind, 0, rng.choice(['', ' ', '+', ' && ', ',', '\n', ' ** '])]
    if kind == 'repeat':
        return [kind, rng.randrange(60), rng.randrange(1, 8)]
    return [kind, rng.randrange(60)]


def generate(rng, index, tier):
    faulty = rng.choice([0, 0.2, 0.5])

    def step():
        roll = rng.random()
        cell = rng.randrange(4)
        if roll < 0.34:
            return ['put', cell, gen_text(rng)]
        if roll < 0.64:
            return ['load', cell]
        if roll < 0.7:
            return ['check']
        if roll < 0.75:
            return ['wreck', cell]
        if roll < 0.79:
            return ['recover']
        if roll < 0.89:
            return ['batch', [gen_small(rng) if rng.random() < 0.6 else gen_near(rng) if rng.random() < 0.5 else gen_text(rng) for _ in range(rng.choice([4, 12]))]]
        if roll < 0.98:
            return ['sheet', [rng.randrange(4) for _ in range(rng.randrange(1, 5))], [rng.choice(list(FORMS)) for _ in range(3)], rng.choice([[], [1], [2, 1]]), rng.choice(['\n', '\r\n'])]
        return ['deep', rng.choice(list(DEEP)), rng.choice([1, 5, 30, 40, 100, 400, 1500, 4000]), rng.choice(OPS)]
    phases = []
    for _ in range(rng.choice([1, 2, 3])):
        count = rng.choice([1, 1, 2, 3])
        phase = {'sessions': [[step() for _ in range(rng.randrange(3, 14 if count == 1 else 7))] for _ in range(count)],
                 'schedule': gen_schedule(rng, 40 * count) if count > 1 else []}
        if count > 1 and rng.random() < 0.4:
            phase['preempt'] = [gen_preempts(rng, rng.randrange(1, 12), 4000) for _ in phase['sessions']]
        phases.append(phase)
    phases.append({'sessions': [[['check'], ['recover'], ['check']]], 'schedule': []})
    write = ['torn', 'torn', 'lost', 'mixed', 'joined', 'double', 'before', 'after', 'repeat']
    read = ['short', 'short', 'late', 'stale', 'mixed', 'drop', 'drop', 'change', 'change', 'insert', 'insert', 'swap', 'repeat']
    return {'phases': phases, 'latency': latency(rng),
            'faults': {kind: [gen_fault(rng, kinds) if rng.random() < faulty else None for _ in range(count)]
                       for kind, kinds, count in (('write', write, 8), ('read', read, 16), ('fetch', read, 6))}}
