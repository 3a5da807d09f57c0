"""Program texts for the parser properties: token-level programs, layouts, and an independent reading of physical into logical lines.

A program is a list of statements; a statement is {"kind": K, "tokens": [t, ...], "req": [i, ...], "expr": [from, to]} - req lists the
token indexes that need white space before them; expr is the range of tokens that form its expression, if any.
"""

NAMES = ['a', 'b', 'x', 'foo', 'barBaz', '_y', 'value1', 'arrayLength', 'iff', 'returned', 'endifs', 'e', 'nullish', 'breaker', 'elsewhere', 'forth']
CALLEES = ['foo', 'barBaz', 'arrayLength', 'stringNew', 'if', 'systemLog', 'ab']
NUMBERS = ['0', '1', '5', '12.5', '3.', '1e+5', '2e-3', '0.25', '100']
STRINGS = ["''", "'a'", "'it\\'s'", '"b"', '"say \\"hi\\""', "'# not a comment'", "'a: b'", "'x y z'", "'one two \\\\ three'", "'x = 1'", '"(["', "'\\\\'", "'@'", "'\u00e9\U0001f600'", "'a\u2028b'",
           "'a\x0cb'", "'a\x0bb'", "'a\x85b'", "'a\rb'", "'tab\there'", '"  two  spaces  "', "'endif'", "'\\n'", '"\\\\\\""', "'\x1cx'"]
BRACKETS = ['[a b]', '[foo]', '[x\\]y]', '[ spaced ]', '[a # b]', "[it's]"]
OPERATORS = ['+', '-', '*', '/', '%', '**', '==', '!=', '<', '<=', '>', '>=', '&&', '||']

BLANKS = ['', ' ', '\t', '   ', ' \t ']
COMMENTS = ['#', '# a comment', '   # indented', "# it's (open", '# ends with a backslash \\', '#\\', '\t#endif', '# \u00e9', '#if a:', "# 'open"]


class SourceGen:
    def __init__(self, rng, rich=True):
        self.rng = rng
        self.rich = rich

    # -- expressions (token lists) ----------------------------------------------------------------------------------------

    def expr(self, depth=3):
        rng = self.rng
        roll = rng.random()
        if depth <= 0 or roll < 0.3:
            return [self.atom()]
        if roll < 0.55:
            out = self.expr(depth - 1)
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                out = [*out, rng.choice(OPERATORS), *self.operand(depth - 1)]
            return out
        return self.operand(depth)

    def operand(self, depth):
        rng = self.rng
        roll = rng.random()
        if depth <= 0 or roll < 0.35:
            return [self.atom()]
        if roll < 0.55:
            return ['(', *self.expr(depth - 1), ')']
        if roll < 0.7:
            return [rng.choice(['!', '-']), *self.operand(depth - 1)]
        out = [rng.choice(CALLEES), '(']
        for position in range(rng.randrange(4)):
            if position:
                out.append(',')
            out.extend(self.expr(depth - 1))
        return [*out, ')']

    def atom(self):
        rng = self.rng
        roll = rng.random()
        if roll < 0.4:
            return rng.choice(NAMES)
        if roll < 0.65:
            return rng.choice(NUMBERS)
        if roll < 0.9:
            return rng.choice(STRINGS if self.rich else STRINGS[:8])
        return rng.choice(BRACKETS)

    # -- statements ---------------------------------------------------------------------------------------------------------

    def simple(self):
        rng = self.rng
        kind = rng.choice(['assign', 'assign', 'assign', 'call', 'call', 'value', 'return', 'return0', 'jump', 'jumpif', 'label', 'include', 'system'])
        name = rng.choice(NAMES)
        if kind == 'assign':
            expr = self.expr()
            return statement('simple', [name, '=', *expr], (), (2, 2 + len(expr)))
        if kind == 'call':
            expr = self.operand(3)
            while expr[0] not in CALLEES or len(expr) < 3:
                expr = self.operand(3)
            return statement('simple', expr, (), (0, len(expr)))
        if kind == 'value':
            expr = self.expr(2)
            if expr[0][0].isalpha() or expr[0][0] == '_':
                expr = ['(', *expr, ')']
            return statement('simple', expr, (), (0, len(expr)))
        if kind == 'return':
            expr = self.expr()
            return statement('simple', ['return', *expr], (1,), (1, 1 + len(expr)))
        if kind == 'return0':
            return statement('simple', ['return'])
        if kind == 'jump':
            return statement('simple', ['jump', name], (1,))
        if kind == 'jumpif':
            expr = self.expr()
            return statement('simple', ['jumpif', '(', *expr, ')', name], (3 + len(expr),), (2, 2 + len(expr)))
        if kind == 'label':
            return statement('simple', [name, ':'])
        url = rng.choice(['a.bare', 'x/y.bare', "it\\'s.bare", 'http://h/a.bare', '', '# a', 'a b'])
        return statement('simple', ['include', f"'{url}'"] if kind == 'include' else ['include', '<' + url.replace('\\', '') + '>'], (1,))

    def block(self, depth, in_loop, in_function):
        rng = self.rng
        kind = rng.choice(['if', 'if', 'while', 'for', 'function'])
        if kind == 'function' and in_function is not None:
            kind = 'if'
        if kind == 'function':
            args = rng.sample(NAMES, rng.randrange(4))
            tokens = ['async', 'function'] if rng.random() < 0.2 else ['function']
            req = [1, 2] if len(tokens) == 2 else [1]
            tokens.extend([rng.choice(NAMES), '('])
            for position, arg in enumerate(args):
                tokens.extend([',', arg] if position else [arg])
            if args and rng.random() < 0.3:
                tokens.append('...')
            tokens.extend([')', ':'])
            return [statement('function', tokens, req), *self.body(depth - 1, False, True), statement('endfunction', ['endfunction'])]
        if kind == 'if':
            out = [self.header('if'), *self.body(depth - 1, in_loop, in_function)]
            for _ in range(rng.choice([0, 0, 1, 2])):
                out.extend([self.header('elif'), *self.body(depth - 1, in_loop, in_function)])
            if rng.random() < 0.4:
                out.extend([statement('else', ['else', ':']), *self.body(depth - 1, in_loop, in_function)])
            return [*out, statement('endif', ['endif'])]
        if kind == 'while':
            return [self.header('while'), *self.body(depth - 1, True, in_function), statement('endwhile', ['endwhile'])]
        expr = self.expr(2)
        head = ['for', rng.choice(NAMES)]
        if rng.random() < 0.4:
            head.extend([',', rng.choice(['ix', 'iy'])])
        head.append('in')
        begin = len(head)
        return [statement('for', [*head, *expr, ':'], (1, begin - 1, begin), (begin, begin + len(expr))),
                *self.body(depth - 1, True, in_function), statement('endfor', ['endfor'])]

    def header(self, kind):
        expr = self.expr(2)
        return statement(kind, [kind, *expr, ':'], (1,), (1, 1 + len(expr)))

    def body(self, depth, in_loop, in_function):
        rng = self.rng
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if depth > 0 and rng.random() < 0.3:
                out.extend(self.block(depth, in_loop, in_function))
            elif in_loop and rng.random() < 0.25:
                kind = rng.choice(['break', 'continue'])
                out.append(statement(kind, [kind]))
            else:
                out.append(self.simple())
        return out

    def program(self, size):
        rng = self.rng
        out = []
        while len(out) < size:
            if rng.random() < 0.35:
                out.extend(self.block(3, False, None))
            else:
                out.append(self.simple())
        return out


def statement(kind, tokens, req=(), expr=None):
    return {'kind': kind, 'tokens': list(tokens), 'req': list(req), 'expr': list(expr) if expr else None}


def gaps_ok(left, right):
    """May these two tokens touch?"""
    word = left[-1].isalnum() or left[-1] == '_'
    return not (word and (right[0].isalnum() or right[0] in '_.')) and not (left in OPERATORS + ['!', '-', '='] and right[0] in '=*&|<>!+-') \
        and not (left[-1] in '0123456789.' and right[0] in '0123456789.e')


def plain(stmt):
    """The canonical one-line layout: single spaces between all tokens."""
    return ' '.join(stmt['tokens'])


def layout_line(rng, stmt, indent, spaces, breaks, inside, inner=lambda: False):
    """Lay a statement out over one or more physical lines.

    spaces() gives the white space of a gap (may be empty where tokens may touch); breaks(i) says whether to break before token i;
    inside() gives the blank and comment lines to put between two parts; inner() says whether to break at a single space within a token (a string).
    """
    tokens = stmt['tokens']
    lines = []
    text = indent()
    for at, token in enumerate(tokens):
        if at or (inner() and rng.random() < 0.2):
            if not at or breaks(at):
                lines.append(text + rng.choice(['', ' ', '  ', '\t']) + '\\' + rng.choice(['', '', ' ', '\t ']))
                lines.extend(inside())
                text = indent()
            else:
                gap = spaces()
                if not gap and (at in stmt['req'] or not gaps_ok(tokens[at - 1], token)):
                    gap = ' '
                text += gap
        for part, char in enumerate(token):
            if char == ' ' and 0 < part < len(token) - 1 and not token[part - 1].isspace() and not token[part + 1].isspace() \
               and token[part - 1] != '\\' and token[part + 1] != '#' and inner():
                lines.append(text + rng.choice(['', ' ', '\t']) + '\\' + rng.choice(['', '', ' ']))
                lines.extend(inside())
                text = indent()
            else:
                text += char
    lines.append(text + rng.choice(['', '', '', ' ', '\t']))
    return lines


def logical_lines(text):
    """An independent reading: [(index of the first physical line, joined text), ...] and whether the last one is unfinished."""
    out = []
    parts = None
    begin = None
    physical = text.replace('\r\n', '\n').split('\n')
    for index, line in enumerate(physical):
        stripped = line.strip()
        if stripped == '' or stripped.startswith('#'):
            continue
        if parts is None:
            begin = index
            parts = []
        if stripped.endswith('\\'):
            parts.append(stripped[:-1].strip())
            continue
        parts.append(stripped)
        out.append((begin, parts))
        parts = None
    if parts is not None:
        out.append((begin, parts))
    return [(index, squeeze(' '.join(items))) for index, items in out], parts is not None


def squeeze(text):
    return ' '.join(text.split())
