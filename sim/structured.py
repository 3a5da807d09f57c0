"""Structured programs: rendering to source text, and the direct (big-step) reading of if / while / for / break / continue / return.

A program is a list of statements:
  {"log": expr}                                     an expression statement
  {"set": name, "expr": expr}
  {"if": [[condition, block], ...], "else": block}  ("else" is optional)
  {"while": condition, "do": block}
  {"for": value, "index": name, "in": expr, "do": block}     ("index" is optional)
  {"break": 1}   {"continue": 1}   {"return": expr or null}
  {"function": name, "args": [...], "last": bool, "do": block}
"""

import functools

from .core import InvalidScenario
from .ref import RefError, RefFn, truthy, type_of
from .render import render_expr

#
# Rendering
#

COMMENTS = ['# comment', '#', '# if x:', '# endwhile', '#else:', '   # function f():', '# continue']


class Style:
    """How the text is laid out: a fixed sequence of layout decisions."""

    def __init__(self, choices):
        self.choices = choices or [0]
        self.ix = 0

    def pick(self, options):
        self.ix += 1
        return options[self.choices[self.ix % len(self.choices)] % len(options)]


def render_program(program, choices=None):
    style = Style(choices)
    lines = []
    _render(program, '', style, lines)
    return '\n'.join(lines) + style.pick(['\n', '', '\n\n', '\n  '])


def _extra(style, lines):
    pick = style.pick([0, 0, 0, 0, 0, 1, 2])
    if pick == 1:
        lines.append(style.pick(['', '  ', '\t']))
    elif pick == 2:
        lines.append(style.pick(COMMENTS))


def _render(block, indent, style, lines):
    inner = indent + style.pick(['    ', '    ', '', '\t', '  '])
    for statement in block:
        _extra(style, lines)
        colon = style.pick([':', ':', ' :', ': '])
        if 'log' in statement:
            lines.append(indent + render_expr(statement['log']))
        elif 'set' in statement:
            lines.append(indent + statement['set'] + style.pick([' = ', ' = ', '=', '  =  ']) + render_expr(statement['expr']))
        elif 'if' in statement:
            if not statement['if']:
                raise InvalidScenario('empty chain')
            for ix, (cond, body) in enumerate(statement['if']):
                lines.append(f'{indent}{"elif" if ix else "if"} {render_expr(cond)}{colon}')
                _render(body, inner, style, lines)
            if 'else' in statement:
                lines.append(f'{indent}else{colon}')
                _render(statement['else'], inner, style, lines)
            lines.append(f'{indent}endif')
        elif 'while' in statement:
            lines.append(f'{indent}while {render_expr(statement["while"])}{colon}')
            _render(statement['do'], inner, style, lines)
            lines.append(f'{indent}endwhile')
        elif 'for' in statement:
            index = style.pick([', ', ',', ' , ']) + statement['index'] if statement.get('index') else ''
            lines.append(f'{indent}for {statement["for"]}{index} in {render_expr(statement["in"])}{colon}')
            _render(statement['do'], inner, style, lines)
            lines.append(f'{indent}endfor')
        elif 'break' in statement:
            lines.append(f'{indent}break')
        elif 'continue' in statement:
            lines.append(f'{indent}continue')
        elif 'return' in statement:
            lines.append(f'{indent}return' + ('' if statement['return'] is None else ' ' + render_expr(statement['return'])))
        elif 'function' in statement:
            last = '...' if statement.get('last') and statement['args'] else ''
            prefix = 'async ' if statement.get('async') else ''
            lines.append(f'{indent}{prefix}function {statement["function"]}({", ".join(statement["args"])}{last}){colon}')
            _render(statement['do'], inner, style, lines)
            lines.append(f'{indent}endfunction')
        else:
            raise InvalidScenario('statement')
    _extra(style, lines)


#
# Well-formedness (the minimiser must not leave the workload)
#

def check_program(block, loop=False, function=False, indexes=None):
    indexes = set() if indexes is None else indexes
    for statement in block:
        if 'break' in statement or 'continue' in statement:
            if not loop:
                raise InvalidScenario('outside of a loop')
        elif 'if' in statement:
            for _, body in statement['if']:
                check_program(body, loop, function, indexes)
            check_program(statement.get('else', []), loop, function, indexes)
        elif 'while' in statement:
            check_program(statement['do'], True, function, indexes)
        elif 'for' in statement:
            index = statement.get('index')
            if index:
                if index in indexes or not index.startswith('ix'):
                    raise InvalidScenario('index name')
                indexes.add(index)
            check_program(statement['do'], True, function, indexes)
        elif 'function' in statement:
            if function:
                raise InvalidScenario('nested function')
            check_program(statement['do'], False, True, indexes)


#
# The direct reading
#

NORMAL, BREAK, CONTINUE, RETURN = 'normal', 'break', 'continue', 'return'


class Direct:
    """Executes a program over a Ref session (its globals, expression evaluator and function calls)."""

    def __init__(self, ref, stats=None):
        self.ref = ref
        self.stats = stats
        self.chains = set()     # the nestings that were executed

    def run(self, program):
        how, value = self.block(program, None, ())
        return value if how == RETURN else None

    def step(self, chain, kind):
        self.ref.total += 1
        if self.ref.total > self.ref.MAX_TOTAL:
            raise RefError('depth')
        self.chains.add('>'.join([*chain[-3:], kind]))

    def block(self, block, locals_, chain):
        for statement in block:
            how, value = self.statement(statement, locals_, chain)
            if how != NORMAL:
                return how, value
        return NORMAL, None

    def statement(self, statement, locals_, chain):
        ref = self.ref
        scope = ref.globals if locals_ is None else locals_
        if 'log' in statement:
            self.step(chain, 'expr')
            ref.evaluate(statement['log'], locals_)
        elif 'set' in statement:
            self.step(chain, 'set')
            scope[statement['set']] = ref.evaluate(statement['expr'], locals_)
        elif 'if' in statement:
            for ix, (cond, body) in enumerate(statement['if']):
                self.step(chain, 'elif' if ix else 'if')
                if truthy(ref.evaluate(cond, locals_)):
                    return self.block(body, locals_, (*chain, 'elif' if ix else 'if'))
            if 'else' in statement:
                return self.block(statement['else'], locals_, (*chain, 'else'))
        elif 'while' in statement:
            while True:
                self.step(chain, 'while')
                if not truthy(ref.evaluate(statement['while'], locals_)):
                    break
                how, value = self.block(statement['do'], locals_, (*chain, 'while'))
                if how == BREAK:
                    break
                if how == RETURN:
                    return how, value
        elif 'for' in statement:
            self.step(chain, 'for')
            values = ref.evaluate(statement['in'], locals_)
            if type_of(values) == 'array':
                for ix, item in enumerate(list(values)):
                    self.step(chain, 'for')
                    if statement.get('index'):
                        scope[statement['index']] = ix
                    scope[statement['for']] = item
                    how, value = self.block(statement['do'], locals_, (*chain, 'for'))
                    if how == BREAK:
                        break
                    if how == RETURN:
                        return how, value
        elif 'break' in statement:
            self.step(chain, 'break')
            return BREAK, None
        elif 'continue' in statement:
            self.step(chain, 'continue')
            return CONTINUE, None
        elif 'return' in statement:
            self.step(chain, 'return')
            return RETURN, None if statement['return'] is None else ref.evaluate(statement['return'], locals_)
        else:
            self.step(chain, 'function')
            ref.globals[statement['function']] = RefFn(statement['function'], functools.partial(self.call, statement))
        return NORMAL, None

    def call(self, function, _, args):
        locals_ = {}
        params = function['args']
        for ix, param in enumerate(params):
            if function.get('last') and ix == len(params) - 1:
                locals_[param] = list(args[ix:])
            else:
                locals_[param] = args[ix] if ix < len(args) else None
        how, value = self.block(function['do'], locals_, ('function',))
        return value if how == RETURN else None
