"""The reference model: BareScript value semantics, expression evaluator and jump-level statement interpreter.

Written from the language documentation and the property statements; shares no code with /repo. It works on the same model
dictionaries, but keeps its own heap (Python lists / dicts) and its own function objects.
"""

import datetime
import fractions
import functools
import json
import math
import re

from .core import InvalidScenario
from .values import REGEX

MAX_SIZE = 100000       # scenarios that build anything bigger are not in the workload


class RefError(Exception):
    """A runtime error that ends the run: kind is 'label' | 'budget' | 'undefined' | 'include' | 'syntax' | 'host'."""

    def __init__(self, kind, name=''):
        super().__init__(f'{kind} {name}')
        self.kind = kind
        self.name = name


class RefFail(Exception):
    """A function call that fails: evaluates to value."""

    def __init__(self, value=None):
        super().__init__('fail')
        self.value = value


class RefFn:
    """A function value. call(args, ref) -> value."""
    __slots__ = ('name', 'impl')

    def __init__(self, name, impl):
        self.name = name
        self.impl = impl

    def __call__(self, *args):       # makes callable() true, as for any function value
        raise AssertionError('reference functions are called through Ref.invoke')


#
# Values
#

def is_num(value):
    return isinstance(value, (int, float)) and not isinstance(value, bool)


def type_of(value):
    if value is None:
        return 'null'
    if isinstance(value, bool):
        return 'boolean'
    if isinstance(value, str):
        return 'string'
    if is_num(value):
        return 'number'
    if isinstance(value, datetime.date):
        return 'datetime'
    if isinstance(value, dict):
        return 'object'
    if isinstance(value, list):
        return 'array'
    if isinstance(value, REGEX):
        return 'regex'
    return 'function'


def truthy(value):
    kind = type_of(value)
    if kind == 'null':
        return False
    if kind == 'boolean':
        return value
    if kind == 'number':
        return value != 0
    if kind in ('string', 'array'):
        return len(value) > 0
    return True


TYPE_RANK = ['array', 'boolean', 'datetime', 'function', 'number', 'object', 'regex', 'string']


def _sign(left, right):
    return -1 if left < right else (0 if left == right else 1)


def norm_dt(value):
    if isinstance(value, datetime.datetime):
        return value
    return datetime.datetime(value.year, value.month, value.day)


WORK = [0]              # nodes visited by comparisons and JSON in this scenario
MAX_WORK = 40000


def work():
    WORK[0] += 1
    if WORK[0] > MAX_WORK:
        raise InvalidScenario('work')


def compare(left, right, depth=0):
    work()
    if depth > 400:
        raise RefFail(None)
    kind_left = type_of(left)
    kind_right = type_of(right)
    if kind_left == 'null' or kind_right == 'null':
        return (kind_left != 'null') - (kind_right != 'null')
    if kind_left != kind_right:
        return _sign(TYPE_RANK.index(kind_left), TYPE_RANK.index(kind_right))
    if kind_left == 'number' and (left != left or right != right):
        raise InvalidScenario('order of NaN')
    if kind_left in ('boolean', 'number', 'string'):
        return _sign(left, right)
    if kind_left == 'datetime':
        return _sign(norm_dt(left), norm_dt(right))
    if kind_left == 'array':
        for item_left, item_right in zip(left, right):
            result = compare(item_left, item_right, depth + 1)
            if result:
                return result
        return _sign(len(left), len(right))
    if kind_left == 'object':
        for key_left, key_right in zip(sorted(left), sorted(right)):
            result = _sign(key_left, key_right) or compare(left[key_left], right[key_right], depth + 1)
            if result:
                return result
        return _sign(len(left), len(right))
    return 0


def same(left, right):
    if is_num(left) and is_num(right):
        return left == right
    return left is right


def num_str(value):
    if isinstance(value, float):
        if value == 0:
            return '-0' if math.copysign(1, value) < 0 else '0'
        text = repr(value)
        return text[:-2] if text.endswith('.0') else text
    return str(value)


def offset_of(value, zone=None):
    """The UTC offset text of a naive local datetime."""
    if zone is None:
        delta = datetime.timedelta(0)
    else:
        delta = value.replace(tzinfo=zone).utcoffset()
    minutes = int(delta.total_seconds() // 60)
    sign = '-' if minutes < 0 else '+'
    return f'{sign}{abs(minutes) // 60:02d}:{abs(minutes) % 60:02d}'


def dt_str(value, zone=None):
    value = norm_dt(value)
    text = f'{value.year:04d}-{value.month:02d}-{value.day:02d}T{value.hour:02d}:{value.minute:02d}:{value.second:02d}'
    if value.microsecond:
        text += f'.{value.microsecond // 1000:03d}'
    return text + offset_of(value, zone)


def to_json(value, zone=None, path=()):
    work()
    kind = type_of(value)
    if kind == 'array':
        if any(value is item for item in path):
            raise RefFail(None)
        return '[' + ','.join(to_json(item, zone, (*path, value)) for item in value) + ']'
    if kind == 'object':
        if any(value is item for item in path):
            raise RefFail(None)
        return '{' + ','.join(json.dumps(key) + ':' + to_json(value[key], zone, (*path, value)) for key in sorted(value)) + '}'
    if kind == 'string':
        return json.dumps(value)
    if kind == 'number':
        if isinstance(value, float) and (math.isnan(value) or math.isinf(value)):
            raise RefFail(None)
        return num_str(value)
    if kind == 'datetime':
        return json.dumps(dt_str(value, zone))
    if kind == 'function':
        return '"<function>"'
    return {'null': 'null', 'regex': 'null'}.get(kind) or ('true' if value else 'false')


def to_str(value, zone=None):
    kind = type_of(value)
    if kind == 'string':
        return value
    if kind == 'null':
        return 'null'
    if kind == 'boolean':
        return 'true' if value else 'false'
    if kind == 'number':
        return num_str(value)
    if kind == 'datetime':
        return dt_str(value, zone)
    if kind == 'function':
        return '<function>'
    if kind == 'regex':
        return '<regex>'
    return to_json(value, zone)


#
# Operators
#

EPOCH = datetime.datetime(1970, 1, 1)


def dt_us(value):
    delta = norm_dt(value) - EPOCH
    return (delta.days * 86400 + delta.seconds) * 1000000 + delta.microseconds


def dt_add_ms(value, millis):
    if isinstance(millis, float) and (math.isnan(millis) or math.isinf(millis)):
        return None
    micros = round(fractions.Fraction(millis) * 1000)
    try:
        return EPOCH + datetime.timedelta(microseconds=dt_us(value) + micros)
    except OverflowError:
        return None


def binary(oper, left, right, zone=None):
    kinds = (type_of(left), type_of(right))
    if oper == '+':
        if kinds == ('number', 'number'):
            return arith(lambda: left + right)
        if 'string' in kinds:
            try:
                return limit_size(to_str(left, zone) + to_str(right, zone))
            except (RefFail, RecursionError, ValueError):
                return None
        if kinds == ('datetime', 'number'):
            return dt_add_ms(left, right)
        if kinds == ('number', 'datetime'):
            return dt_add_ms(right, left)
        return None
    if oper in ('==', '!=', '<', '<=', '>', '>='):
        try:
            result = compare(left, right)
        except (RefFail, RecursionError):
            return None
        return {'==': result == 0, '!=': result != 0, '<': result < 0, '<=': result <= 0,
                '>': result > 0, '>=': result >= 0}[oper]
    if oper == '-' and kinds == ('datetime', 'datetime'):
        micros = dt_us(left) - dt_us(right)
        sign = -1 if micros < 0 else 1
        return float(sign * ((abs(micros) + 500) // 1000))     # (a float: whole numbers beyond 2**53 stay inexact)
    if kinds != ('number', 'number'):
        return None
    if oper == '-':
        return arith(lambda: left - right)
    if oper == '*':
        return arith(lambda: left * right)
    if oper == '/':
        return arith(lambda: left / right)
    if oper == '%':
        return arith(lambda: left % right)
    if isinstance(left, int) and isinstance(right, int) and left.bit_length() * abs(right) > 20000:
        raise InvalidScenario('size')
    return arith(lambda: left ** right)


def limit_size(text):
    if len(text) > MAX_SIZE:
        raise InvalidScenario('size')
    return text


def arith(thunk):
    try:
        value = thunk()
    except (ZeroDivisionError, OverflowError, ValueError):
        return None
    return None if isinstance(value, complex) else value


#
# The interpreter
#

KEYWORDS = {'null': None, 'true': True, 'false': False}


class Ref:
    """One script session of the reference implementation.

    host supplies the environment: host.log(text), host.fetch(url) -> resource or None, host.resource_model(resource) -> statement
    list or None (syntax error), host.library -> {name: impl(ref, args)}, host.resolve(base, include) -> location.
    """

    MAX_TOTAL = 6000        # scenarios whose reference run is longer than this are not in the workload

    def __init__(self, host, globals_, limit=1e9, base=None, debug=False, zone=None, builtins=None, exprs=None):
        self.host = host
        self.globals = globals_
        self.limit = limit
        self.count = 0
        self.total = 0
        self.base = base            # the current script file (options.urlFn); None: no resolution
        self.debug = debug
        self.zone = zone
        self.builtins = builtins or {}
        self.exprs = exprs or {}
        self.depth = 0
        self.calls = 0
        for name in host.library:
            if name not in globals_:
                globals_[name] = host.library_fn(name)

    # -- statements ---------------------------------------------------------------------------------------------------

    def run(self, script):
        self.count = 0
        return self.execute(script['statements'], None, self.base)

    def execute(self, statements, locals_, base):
        pc = 0
        while pc < len(statements):
            statement = statements[pc]
            (kind, body), = statement.items()
            if self.limit > 0 and self.count + 1 > self.limit:
                raise RefError('budget')
            self.count += 1
            self.total += 1
            if self.total > self.MAX_TOTAL:
                raise RefError('depth')
            if kind == 'expr':
                value = self.evaluate(body['expr'], locals_)
                if body.get('name') is not None:
                    (self.globals if locals_ is None else locals_)[body['name']] = value
            elif kind == 'jump':
                if 'expr' not in body or truthy(self.evaluate(body['expr'], locals_)):
                    for index, target in enumerate(statements):
                        if target.get('label') == body['label']:
                            pc = index
                            break
                    else:
                        raise RefError('label', body['label'])
            elif kind == 'return':
                return self.evaluate(body['expr'], locals_) if 'expr' in body else None
            elif kind == 'function':
                self.globals[body['name']] = RefFn(body['name'], functools.partial(self.script_function, body, base))
            elif kind == 'include':
                for include in body['includes']:
                    self.include(include, base)
            pc += 1
        return None

    def include(self, include, base):
        location = self.host.resolve(base, include)
        resource = self.host.fetch(location)
        if resource is None:
            raise RefError('include', location)
        statements = self.host.resource_model(resource)
        if statements is None:
            raise RefError('syntax', location)
        saved = self.base
        self.base = location
        try:
            self.execute(statements, None, location)
        finally:
            self.base = saved

    @staticmethod
    def script_function(function, base, ref, args):
        locals_ = {}
        params = function.get('args') or []
        for index, param in enumerate(params):
            if function.get('lastArgArray') and index == len(params) - 1:
                locals_[param] = list(args[index:])
            else:
                locals_[param] = args[index] if index < len(args) else None
        return ref.execute(function['statements'], locals_, base)

    # -- expressions --------------------------------------------------------------------------------------------------

    def lookup(self, name, locals_):
        if name in KEYWORDS:
            return KEYWORDS[name]
        if locals_ is not None and name in locals_:
            return locals_[name]
        return self.globals.get(name)

    def invoke(self, func, args):
        """Call a function value without containment (as a library function calls its callback)."""
        if not isinstance(func, RefFn):
            raise RefFail(None)
        self.depth += 1
        self.calls += 1
        if self.depth > 60 or self.calls > 20000:
            raise RefError('depth')
        try:
            return func.impl(self, args)
        finally:
            self.depth -= 1

    def call(self, name, func, args):
        try:
            return self.invoke(func, args)
        except RefFail as fail:
            if self.debug:
                self.host.debug(name)
            return fail.value

    def evaluate(self, expr, locals_=None, builtins=False):
        (kind, body), = expr.items()
        if kind in ('number', 'string'):
            return body
        if kind == 'variable':
            return self.lookup(body, locals_)
        if kind == 'group':
            return self.evaluate(body, locals_, builtins)
        if kind == 'unary':
            value = self.evaluate(body['expr'], locals_, builtins)
            if body['op'] == '!':
                return not truthy(value)
            return -value if is_num(value) else None
        if kind == 'binary':
            oper = body['op']
            left = self.evaluate(body['left'], locals_, builtins)
            if oper == '&&':
                return self.evaluate(body['right'], locals_, builtins) if truthy(left) else left
            if oper == '||':
                return left if truthy(left) else self.evaluate(body['right'], locals_, builtins)
            return binary(oper, left, self.evaluate(body['right'], locals_, builtins), self.zone)
        # function
        name = body['name']
        args = body.get('args', [])
        if name == 'if':
            test = self.evaluate(args[0], locals_, builtins) if args else False
            pick = args[1:2] if truthy(test) else args[2:3]
            return self.evaluate(pick[0], locals_, builtins) if pick else None
        values = [self.evaluate(arg, locals_, builtins) for arg in args]
        if locals_ is not None and name in locals_:
            func = locals_[name]
        elif name in self.globals:
            func = self.globals[name]
        else:
            func = self.builtins.get(name) if builtins else None
        if func is None:
            raise RefError('undefined', name)
        return self.call(name, func, values)


def regex_of(pattern):
    return re.compile(pattern)
