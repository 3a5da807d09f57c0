"""Reference parser of expressions, by the language description: tokens, then precedence climbing.

parse(text) is ('tree', expression), ('reject',), or ('open',) where the description leaves the text open.
"""

LEVELS = {'**': 7, '*': 6, '/': 6, '%': 6, '+': 5, '-': 5, '<=': 4, '<': 4, '>=': 4, '>': 4, '==': 3, '!=': 3, '&&': 2, '||': 1}
SYMBOLS = sorted([*LEVELS, '!', '(', ')', ','], key=len, reverse=True)
DEEPEST = 70


class Reject(Exception):
    pass


class Open(Exception):
    pass


def is_start(char):
    return 'a' <= char <= 'z' or 'A' <= char <= 'Z' or char == '_'


def is_word(char):
    return char.isalnum() or char == '_'


class Parser:
    def __init__(self, text):
        self.text = text
        self.at = 0
        self.ops = 0

    def spaces(self):
        while self.at < len(self.text) and self.text[self.at].isspace():
            self.at += 1

    def symbol(self):
        """The longest symbol here, or None."""
        self.spaces()
        for symbol in SYMBOLS:
            if self.text.startswith(symbol, self.at):
                return symbol
        return None

    def digits(self, at):
        while at < len(self.text) and self.text[at].isdecimal():
            at += 1
        return at

    def number(self):
        """A number literal here, or None."""
        begin = self.at
        at = begin + (self.text[begin:begin + 1] in ('+', '-'))
        end = self.digits(at)
        if end == at:
            return None
        if self.text[end:end + 1] == '.':
            end = self.digits(end + 1)
        if self.text[end:end + 1] == 'e' and self.text[end + 1:end + 2] in ('+', '-') and self.text[end + 1:end + 2]:
            exponent = self.digits(end + 2)
            end = exponent if exponent > end + 2 else end
        self.at = end
        return float(self.text[begin:end])

    def quoted(self, end, spaces):
        """The text up to an end character; a backslash escapes the end character and the backslash."""
        self.at += 1
        if spaces:
            self.spaces()
        out = []
        escaped = False
        while True:
            char = self.text[self.at:self.at + 1]
            if char == '':
                raise (Open if escaped or spaces else Reject)()
            if char == end:
                break
            after = self.text[self.at + 1:self.at + 2]
            if char == '\\' and after == end:
                escaped = True
                out.append(end)
                self.at += 2
            elif char == '\\' and after == '\\':
                out.append('\\')
                if spaces and self.text[self.at + 2:self.at + 3] == end:
                    raise Open()
                self.at += 2
            else:
                out.append(char)
                self.at += 1
        self.at += 1
        if spaces and (not out or out[-1].isspace()):
            raise (Open if self.text[self.at - 2].isspace() else Reject)()
        return ''.join(out)

    def operand(self, depth):
        if depth > DEEPEST:
            raise Open()
        symbol = self.symbol()
        if symbol == '(':
            self.at += 1
            expr = self.chain(1, depth + 1)
            if self.symbol() != ')':
                raise Reject()
            self.at += 1
            return {'group': expr}
        if self.text[self.at:self.at + 1] in ('!', '-') and self.at < len(self.text):
            oper = self.text[self.at]
            self.at += 1
            return {'unary': {'op': oper, 'expr': self.operand(depth + 1)}}
        char = self.text[self.at:self.at + 1]
        if char == '':
            raise Reject()
        if is_start(char):
            end = self.at + 1
            while end < len(self.text) and is_word(self.text[end]):
                end += 1
            name = self.text[self.at:end]
            self.at = end
            if self.symbol() != '(':
                return {'variable': name}
            self.at += 1
            args = []
            while self.symbol() != ')':
                if args:
                    if self.symbol() != ',':
                        raise Reject()
                    self.at += 1
                args.append(self.chain(1, depth + 1))
            self.at += 1
            return {'function': {'name': name, 'args': args}}
        if char in ('"', "'"):
            return {'string': self.quoted(char, False)}
        if char == '[':
            return {'variable': self.quoted(']', True)}
        number = self.number()
        if number is None:
            raise Reject()
        return {'number': number}

    def chain(self, level, depth):
        """Operands and operators of a level or a higher one."""
        left = self.operand(depth)
        while True:
            oper = self.symbol()
            if LEVELS.get(oper, 0) < level:
                return left
            self.at += len(oper)
            self.ops += 1
            if self.ops > 2 * DEEPEST:
                raise Open()
            left = {'binary': {'op': oper, 'left': left, 'right': self.chain(LEVELS[oper] + 1, depth)}}


def parse(text):
    parser = Parser(text)
    try:
        expr = parser.chain(1, 0)
        parser.spaces()
        if parser.at != len(text):
            raise Reject()
    except Reject:
        return ('reject',)
    except Open:
        return ('open',)
    return 'tree', expr
