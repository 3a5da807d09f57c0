"""Reference library: the documented contracts of the library functions the workloads use."""

import functools
import math
import re

from .core import InvalidScenario
from .ref import MAX_SIZE, RefFail, RefFn, compare, is_num, same, to_json, to_str, truthy, type_of


MAX_ARRAY = 2000


def check(args, spec, fail=None):
    """Validate arguments. spec items: 'any' 'array' 'object' 'string' 'number' 'int' 'int0' 'fn' 'bool' 'datetime' 'regex' 'rest';
    a trailing '?' means nullable; (item, default) gives a default for a missing argument."""
    out = []
    for index, item in enumerate(spec):
        default = None
        if isinstance(item, tuple):
            item, default = item
        nullable = item.endswith('?')
        kind = item.rstrip('?')
        if kind == 'rest':
            out.append(list(args[index:]))
            return out
        if index >= len(args):
            if default is not None:
                out.append(default)
            elif kind == 'bool':
                out.append(False)
            elif kind == 'any' or nullable:
                out.append(None)
            else:
                raise RefFail(fail)
            continue
        value = args[index]
        if kind == 'bool':
            value = truthy(value)
        elif kind != 'any':
            if value is None:
                if not nullable:
                    raise RefFail(fail)
            else:
                want = {'int': 'number', 'int0': 'number', 'fn': 'function'}.get(kind, kind)
                if type_of(value) != want:
                    raise RefFail(fail)
                if kind in ('int', 'int0'):
                    if isinstance(value, float) and (math.isinf(value) or math.isnan(value) or value != math.floor(value)):
                        raise RefFail(fail)
                    if kind == 'int0' and value < 0:
                        raise RefFail(fail)
        out.append(value)
    if len(args) > len(spec):
        raise RefFail(fail)
    return out


LIB = {}


def lib(name):
    def deco(func):
        LIB[name] = func
        return func
    return deco


# -- arrays -------------------------------------------------------------------------------------------------------------

@lib('arrayCopy')
def _(ref, args):
    array, = check(args, ['array'])
    return list(array)


@lib('arrayDelete')
def _(ref, args):
    array, index = check(args, ['array', 'int0'])
    if index >= len(array):
        raise RefFail(None)
    array.pop(int(index))
    return None


@lib('arrayExtend')
def _(ref, args):
    array, array2 = check(args, ['array', 'array'])
    array[len(array):] = list(array2)
    if len(array) > MAX_ARRAY:
        raise InvalidScenario('size')
    return array


@lib('arrayGet')
def _(ref, args):
    array, index = check(args, ['array', 'int0'])
    if index >= len(array):
        raise RefFail(None)
    return array[int(index)]


def _find(ref, array, value, indexes):
    length = len(array)
    for index in indexes:
        if len(array) != length:
            raise InvalidScenario('an array resized while it is searched')
        if type_of(value) == 'function':
            if truthy(ref.invoke(value, [array[index]])):
                return index
        elif compare(array[index], value) == 0:
            return index
    return -1


@lib('arrayIndexOf')
def _(ref, args):
    array, value, index = check(args, ['array', 'any', ('int0', 0)], -1)
    if index >= len(array):
        raise RefFail(-1)
    return _find(ref, array, value, range(int(index), len(array)))


@lib('arrayLastIndexOf')
def _(ref, args):
    array, value, index = check(args, ['array', 'any', 'int0?'], -1)
    if index is None:
        index = len(array) - 1
    elif index >= len(array):
        raise RefFail(-1)
    return _find(ref, array, value, range(int(index), -1, -1))


@lib('arrayJoin')
def _(ref, args):
    array, separator = check(args, ['array', 'string'])
    return separator.join([to_str(item, ref.zone) for item in array])


@lib('arrayLength')
def _(ref, args):
    array, = check(args, ['array'], 0)
    return len(array)


@lib('arrayNew')
def _(ref, args):
    return list(args)


@lib('arrayNewSize')
def _(ref, args):
    size, value = check(args, [('int0', 0), 'any'])
    if len(args) < 2:
        value = 0
    if size > MAX_SIZE:
        raise InvalidScenario('size')
    return [value] * int(size)


@lib('arrayPop')
def _(ref, args):
    array, = check(args, ['array'])
    if not array:
        raise RefFail(None)
    return array.pop()


@lib('arrayPush')
def _(ref, args):
    array, values = check(args, ['array', 'rest'])
    for value in values:
        array.append(value)
    return array


@lib('arraySet')
def _(ref, args):
    array, index, value = check(args, ['array', 'int0', 'any'])
    if index >= len(array):
        raise RefFail(None)
    array[int(index)] = value
    return value


@lib('arrayShift')
def _(ref, args):
    array, = check(args, ['array'])
    if not array:
        raise RefFail(None)
    return array.pop(0)


@lib('arraySlice')
def _(ref, args):
    array, start, end = check(args, ['array', ('int0', 0), 'int0?'])
    end = len(array) if end is None else end
    if start > len(array) or end > len(array):
        raise RefFail(None)
    return [array[index] for index in range(int(start), int(end))]


def reaches(value, target, seen):
    if value is target:
        return True
    if not isinstance(value, (list, dict)) or id(value) in seen:
        return False
    seen.add(id(value))
    return any(reaches(item, target, seen) for item in (value if isinstance(value, list) else value.values()))


@lib('arraySort')
def _(ref, args):
    array, func = check(args, ['array', 'fn?'])
    items = list(array)
    if reaches(items, array, set()):
        raise InvalidScenario('sorting an array that contains itself')
    if func is None:
        try:
            items.sort(key=functools.cmp_to_key(compare))
        except RefFail as exc:
            raise InvalidScenario('a sort that fails half-way') from exc
    else:
        def cmp(left, right):
            result = ref.invoke(func, [left, right])
            if not isinstance(result, (int, float)):
                raise RefFail(None)
            return result
        try:
            items.sort(key=functools.cmp_to_key(cmp))
        except RefFail as exc:
            if ref.host.scn.get('observe'):
                raise InvalidScenario('a sort that fails half-way') from exc
            raise
    array[:] = items
    return array


# -- objects ------------------------------------------------------------------------------------------------------------

@lib('objectAssign')
def _(ref, args):
    obj, obj2 = check(args, ['object', 'object'])
    for key in list(obj2):
        obj[key] = obj2[key]
    return obj


@lib('objectCopy')
def _(ref, args):
    obj, = check(args, ['object'])
    return {key: obj[key] for key in obj}


@lib('objectDelete')
def _(ref, args):
    obj, key = check(args, ['object', 'string'])
    obj.pop(key, None)
    return None


@lib('objectGet')
def _(ref, args):
    obj, key, default = check(args, ['object', 'string', 'any'], args[2] if len(args) > 2 else None)
    return obj[key] if key in obj else default


@lib('objectHas')
def _(ref, args):
    obj, key = check(args, ['object', 'string'], False)
    return key in obj


@lib('objectKeys')
def _(ref, args):
    obj, = check(args, ['object'])
    return list(obj)


@lib('objectNew')
def _(ref, args):
    obj = {}
    for index in range(0, len(args), 2):
        if not isinstance(args[index], str):
            raise RefFail(None)
        obj[args[index]] = args[index + 1] if index + 1 < len(args) else None
    return obj


@lib('objectSet')
def _(ref, args):
    obj, key, value = check(args, ['object', 'string', 'any'])
    obj[key] = value
    return value


# -- strings ------------------------------------------------------------------------------------------------------------

@lib('stringCharCodeAt')
def _(ref, args):
    string, index = check(args, ['string', 'int0'])
    if index >= len(string):
        raise RefFail(None)
    return ord(string[int(index)])


@lib('stringEndsWith')
def _(ref, args):
    string, search = check(args, ['string', 'string'])
    return search == '' or string[-len(search):] == search


@lib('stringStartsWith')
def _(ref, args):
    string, search = check(args, ['string', 'string'])
    return string[:len(search)] == search


@lib('stringFromCharCode')
def _(ref, args):
    out = ''
    for code in args:
        if not is_num(code) or isinstance(code, float) and (math.isinf(code) or math.isnan(code)) or code != int(code) or \
           not 0 <= code <= 0x10ffff:
            raise RefFail(None)
        out += chr(int(code))
    return out


def _occurs(string, search, index):
    return string[index:index + len(search)] == search


@lib('stringIndexOf')
def _(ref, args):
    string, search, index = check(args, ['string', 'string', ('int0', 0)], -1)
    if index >= len(string):
        raise RefFail(-1)
    return next((ix for ix in range(int(index), len(string) + 1) if _occurs(string, search, ix)), -1)


@lib('stringLastIndexOf')
def _(ref, args):
    string, search, index = check(args, ['string', 'string', 'int0?'], -1)
    if index is None:
        index = max(0, len(string) - 1)
    elif index >= len(string):
        raise RefFail(-1)
    return next((ix for ix in range(int(index), -1, -1) if _occurs(string, search, ix)), -1)


@lib('stringLength')
def _(ref, args):
    string, = check(args, ['string'], 0)
    return len(string)


@lib('stringLower')
def _(ref, args):
    string, = check(args, ['string'])
    return string.lower()


@lib('stringUpper')
def _(ref, args):
    string, = check(args, ['string'])
    return string.upper()


@lib('stringTrim')
def _(ref, args):
    string, = check(args, ['string'])
    return string.strip()


@lib('stringNew')
def _(ref, args):
    value, = check(args, ['any'])
    return to_str(value, ref.zone)


@lib('stringRepeat')
def _(ref, args):
    string, count = check(args, ['string', 'int0'])
    if count > MAX_SIZE or count * len(string) > MAX_SIZE:
        raise InvalidScenario('size')
    return ''.join([string for _ in range(int(count))])


@lib('stringReplace')
def _(ref, args):
    string, old, new = check(args, ['string', 'string', 'string'])
    return string.replace(old, new)


@lib('stringSlice')
def _(ref, args):
    string, start, end = check(args, ['string', 'int0', 'int0?'])
    end = len(string) if end is None else end
    if start > len(string) or end > len(string):
        raise RefFail(None)
    return ''.join([string[index] for index in range(int(start), int(end))])


@lib('stringSplit')
def _(ref, args):
    string, separator = check(args, ['string', 'string'])
    if separator == '':
        raise RefFail(None)
    parts = []
    rest = string
    while True:
        index = rest.find(separator)
        if index < 0:
            parts.append(rest)
            return parts
        parts.append(rest[:index])
        rest = rest[index + len(separator):]


# -- math, number, json --------------------------------------------------------------------------------------------------

@lib('mathAbs')
def _(ref, args):
    value, = check(args, ['number'])
    return abs(value)


@lib('mathSign')
def _(ref, args):
    value, = check(args, ['number'])
    return -1 if value < 0 else (1 if value > 0 else 0)


@lib('mathFloor')
def _(ref, args):
    value, = check(args, ['number'])
    if isinstance(value, float) and (math.isinf(value) or math.isnan(value)):
        raise RefFail(None)
    return math.floor(value)


@lib('mathCeil')
def _(ref, args):
    value, = check(args, ['number'])
    if isinstance(value, float) and (math.isinf(value) or math.isnan(value)):
        raise RefFail(None)
    return math.ceil(value)


@lib('mathSqrt')
def _(ref, args):
    value, = check(args, ['number'])
    if not value >= 0:
        raise RefFail(None)
    try:
        return math.sqrt(value)
    except OverflowError:
        raise RefFail(None) from None


def _extreme(args, sign):
    result = args[0] if args else None
    for value in args[1:]:
        if compare(value, result) * sign > 0:
            result = value
    return result


@lib('mathMax')
def _(ref, args):
    return _extreme(args, 1)


@lib('mathMin')
def _(ref, args):
    return _extreme(args, -1)


@lib('mathPi')
def _(ref, args):
    return math.pi


@lib('numberParseInt')
def _(ref, args):
    string, radix = check(args, ['string', ('int', 10)])
    if not 2 <= radix <= 36:
        raise RefFail(None)
    try:
        return int(string, int(radix))
    except ValueError:
        return None


@lib('numberParseFloat')
def _(ref, args):
    string, = check(args, ['string'])
    try:
        value = float(string)
    except ValueError:
        return None
    return None if math.isinf(value) or math.isnan(value) else value


@lib('jsonStringify')
def _(ref, args):
    value, indent = check(args, ['any', 'int?'])
    if indent is not None:
        raise RefFail(None)      # workloads only pass a wrong-typed indent
    return to_json(value, ref.zone)


# -- regex, url ----------------------------------------------------------------------------------------------------------

@lib('regexNew')
def _(ref, args):
    pattern, flags = check(args, ['string', 'string?'])
    mask = 0
    for flag in flags or '':
        if flag not in 'ims':
            return None
        mask |= {'i': re.I, 'm': re.M, 's': re.S}[flag]
    try:
        return re.compile(pattern, mask)
    except re.error:
        raise RefFail(None) from None


@lib('regexEscape')
@lib('urlEncode')
@lib('urlEncodeComponent')
def _(ref, args):
    check(args, ['string'])
    raise InvalidScenario('the exact encoding is unspecified')


# -- system --------------------------------------------------------------------------------------------------------------

@lib('systemBoolean')
def _(ref, args):
    value, = check(args, ['any'])
    return truthy(value)


@lib('systemCompare')
def _(ref, args):
    left, right = check(args, ['any', 'any'])
    return compare(left, right)


@lib('systemGlobalGet')
def _(ref, args):
    name, default = check(args, ['string', 'any'])
    return ref.globals[name] if name in ref.globals else default


@lib('systemGlobalSet')
def _(ref, args):
    name, value = check(args, ['string', 'any'])
    ref.globals[name] = value
    return value


@lib('systemIs')
def _(ref, args):
    left, right = check(args, ['any', 'any'])
    return same(left, right)


@lib('systemLog')
def _(ref, args):
    message, = check(args, ['any'])
    ref.host.log(to_str(message, ref.zone))
    return None


@lib('systemLogDebug')
def _(ref, args):
    message, = check(args, ['any'])
    text = to_str(message, ref.zone) if ref.debug else None
    if ref.debug:
        ref.host.log(text)
    return None


@lib('systemPartial')
def _(ref, args):
    func, bound = check(args, ['fn', 'rest'])
    if not bound:
        raise RefFail(None)
    return RefFn('partial', lambda ref_, extra: ref_.invoke(func, [*bound, *extra]))


@lib('systemType')
def _(ref, args):
    value, = check(args, ['any'])
    return type_of(value)


@lib('systemFetch')
def _(ref, args):
    url, = check(args, ['any'])
    single = not isinstance(url, list)
    requests = []
    for item in ([url] if single else url):
        if isinstance(item, dict):
            item = item.get('url')
        if not isinstance(item, str):
            raise RefFail(None)
        requests.append(item)
    responses = []
    for item in requests:
        location = ref.host.resolve(ref.base, {'url': item})
        resource = ref.host.fetch(location)
        responses.append(ref.host.resource_text(resource) if resource is not None else None)
        if resource is None and ref.debug:
            ref.host.debug('systemFetch')
    return responses[0] if single else responses


# -- data (only what drives expression evaluation through the library) -----------------------------------------------------

def _with_variables(ref, variables, thunk):
    if variables is None:
        return thunk()
    saved = ref.globals
    ref.globals = {**saved, **variables}
    try:
        return thunk()
    finally:
        ref.globals = saved


def _rows(data):
    for row in data:
        if not isinstance(row, dict):
            raise InvalidScenario('data rows that are not objects')
        yield row


def _expr(ref, text):
    model = ref.exprs.get(text)
    if model is None:
        raise InvalidScenario('an expression text without a model')
    return model


@lib('dataFilter')
def _(ref, args):
    data, text, variables = check(args, ['array', 'string', 'object?'])
    expr = _expr(ref, text)
    return _with_variables(ref, variables, lambda: [row for row in _rows(data) if truthy(ref.evaluate(expr, row, True))])


@lib('dataCalculatedField')
def _(ref, args):
    data, field, text, variables = check(args, ['array', 'string', 'string', 'object?'])
    expr = _expr(ref, text)

    def run():
        for row in _rows(data):
            row[field] = ref.evaluate(expr, row, True)
        return data
    return _with_variables(ref, variables, run)


@lib('dataJoin')
def _(ref, args):
    left, right, text, right_text, _, variables = check(args, ['array', 'array', 'string', 'string?', 'bool', 'object?'])
    expr = _expr(ref, text)
    right_expr = _expr(ref, right_text) if right_text is not None else expr

    def run():
        for row in _rows(right):
            to_json(ref.evaluate(right_expr, row, True), ref.zone)
        for row in _rows(left):
            to_json(ref.evaluate(expr, row, True), ref.zone)
    _with_variables(ref, variables, run)
    return None            # the joined rows are not modelled: workloads discard the result


# The built-in expression functions and the library functions they are documented to alias
ALIASES = {
    'abs': 'mathAbs', 'acos': 'mathAcos', 'asin': 'mathAsin', 'atan': 'mathAtan', 'atan2': 'mathAtan2', 'ceil': 'mathCeil',
    'charCodeAt': 'stringCharCodeAt', 'cos': 'mathCos', 'date': 'datetimeNew', 'day': 'datetimeDay', 'endsWith': 'stringEndsWith',
    'indexOf': 'stringIndexOf', 'fixed': 'numberToFixed', 'floor': 'mathFloor', 'fromCharCode': 'stringFromCharCode',
    'hour': 'datetimeHour', 'lastIndexOf': 'stringLastIndexOf', 'len': 'stringLength', 'lower': 'stringLower', 'ln': 'mathLn',
    'log': 'mathLog', 'max': 'mathMax', 'min': 'mathMin', 'millisecond': 'datetimeMillisecond', 'minute': 'datetimeMinute',
    'month': 'datetimeMonth', 'now': 'datetimeNow', 'parseInt': 'numberParseInt', 'parseFloat': 'numberParseFloat', 'pi': 'mathPi',
    'rand': 'mathRandom', 'replace': 'stringReplace', 'rept': 'stringRepeat', 'round': 'mathRound', 'second': 'datetimeSecond',
    'sign': 'mathSign', 'sin': 'mathSin', 'slice': 'stringSlice', 'sqrt': 'mathSqrt', 'startsWith': 'stringStartsWith',
    'text': 'stringNew', 'tan': 'mathTan', 'today': 'datetimeToday', 'trim': 'stringTrim', 'upper': 'stringUpper',
    'year': 'datetimeYear'
}
