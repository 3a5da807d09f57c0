"""Shared generators: values of every type, expressions, and rendering of models to source text."""

from .engine import ERROR_NAMES
from .render import quote, render, render_expr, to_text  # noqa: F401

# -- expression helpers ---------------------------------------------------------------------------------------------------


def num(value):
    return {'number': value}


def string(value):
    return {'string': value}


def var(name):
    return {'variable': name}


def call(name, *args):
    return {'function': {'name': name, 'args': list(args)}}


def binary(oper, left, right):
    return {'binary': {'op': oper, 'left': left, 'right': right}}


def unary(oper, expr):
    return {'unary': {'op': oper, 'expr': expr}}


def group(expr):
    return {'group': expr}


# -- statement helpers ----------------------------------------------------------------------------------------------------

def st_expr(expr, name=None):
    return {'expr': {'expr': expr} if name is None else {'name': name, 'expr': expr}}


def st_jump(label, expr=None):
    return {'jump': {'label': label} if expr is None else {'label': label, 'expr': expr}}


def st_return(expr=None):
    return {'return': {} if expr is None else {'expr': expr}}


def st_function(name, args, statements, last=None):
    body = {'name': name, 'statements': statements}
    if args is not None:
        body['args'] = args
    if last is not None:
        body['lastArgArray'] = last
    return {'function': body}


def st_include(*items):
    return {'include': {'includes': [dict(url=url, system=True) if system else {'url': url} for url, system in items]}}


# -- values ---------------------------------------------------------------------------------------------------------------

STRINGS = ['', 'a', 'b', 'abc', 'A', '0', '1', ' ', 'true', 'null', 'x y', '\u00e9', '\U0001f600', '-1', '1e3', 'z'*20]
NUMBERS = [0, 1, 2, 3, -1, 10, 0.5, -0.0, 1.5, -2.5, 0.1, 1e21, 1e-7, 123456789, 1e308, -1e308, 5e-324, 255, 1000, 2.0, 3.0, 100, 86400000, -86400000,
           2**40, 0.2, 7, 1.25]


def enc_number(rng):
    roll = rng.random()
    if roll < 0.6:
        return rng.choice(NUMBERS)
    if roll < 0.8:
        return rng.randrange(-20, 21)
    if roll < 0.9:
        return rng.randrange(-2000, 2000) / 8
    return {'$': 'int', 'v': str(rng.choice([1, -1]) * rng.randrange(10**rng.randrange(10, 40)))}


def enc_dt(rng):
    if rng.random() < 0.08:
        return {'$': 'dt', 'v': rng.choice([[1970, 1, 1, 0, 0, 0, 0], [2000, 1, 1, 0, 0, 0, 0], [1969, 12, 31, 23, 59, 59, 999000]])}
    if rng.random() < 0.35:     # close to each other, to the millisecond (and a fraction of it)
        return {'$': 'dt', 'v': [2024, 3, 1, 12, 0, rng.randrange(20), 1000 * rng.randrange(1000) + rng.choice([0, 0, 0, 1, 500, 999])]}
    if rng.random() < 0.2:
        return {'$': 'date', 'v': [rng.randrange(1900, 2100), rng.randrange(1, 13), rng.randrange(1, 29)]}
    return {'$': 'dt', 'v': [rng.randrange(1900, 2100), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60),
                             rng.randrange(60), rng.choice([0, 0, 500000, 1000 * rng.randrange(1000)])]}


def enc_value(rng, depth=2, fns=('hA',), kinds=None):
    """A value of any BareScript type."""
    kind = rng.choice(kinds or ('null', 'bool', 'num', 'num', 'num', 'str', 'str', 'dt', 'arr', 'obj', 'fn', 're'))
    if kind == 'null':
        return None
    if kind == 'bool':
        return rng.random() < 0.5
    if kind == 'num':
        return enc_number(rng)
    if kind == 'str':
        return rng.choice(STRINGS)
    if kind == 'dt':
        return enc_dt(rng)
    if kind == 'arr':
        return [enc_value(rng, depth - 1, fns) for _ in range(rng.choice([0, 1, 1, 2, 3]))] if depth > 0 else []
    if kind == 'obj':
        keys = rng.sample(['a', 'b', 'c', 'key', ''], rng.choice([0, 1, 1, 2, 3]))
        return {'$': 'obj', 'v': [[key, enc_value(rng, depth - 1, fns)] for key in keys] if depth > 0 else []}
    if kind == 'fn':
        return {'$': 'fn', 'v': rng.choice(fns)}
    return {'$': 're', 'v': rng.choice(['a+', '^x$', '[0-9]'])}


def error_class(rng):
    return rng.choice(ERROR_NAMES)


def merge_includes(statements):
    """Adjacent include lines parse to one include statement: the same normal form for models that are rendered to text."""
    out = []
    for statement in statements:
        if 'function' in statement:
            body = statement['function']
            statement = {'function': {**body, 'statements': merge_includes(body['statements'])}}
        if 'include' in statement and out and 'include' in out[-1]:
            out[-1]['include']['includes'].extend(statement['include']['includes'])
            continue
        if 'include' in statement:
            statement = {'include': {'includes': list(statement['include']['includes'])}}
        out.append(statement)
    return out
