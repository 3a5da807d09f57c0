"""Tagged-JSON encoding of BareScript values in scenarios, and canonical forms for comparison.

Scenario encoding: null, true, false, strings and numbers are themselves; lists are arrays; everything else is a
{"$": tag, ...} object:
  {"$": "obj", "v": [[key, value], ...]}      object
  {"$": "dt", "v": [y, mo, d, h, mi, s, us]}   datetime         {"$": "date", "v": [y, mo, d]}
  {"$": "re", "v": pattern}                   regex
  {"$": "fn", "v": name}                      a function the backend knows by name
  {"$": "num", "v": "inf" | "-inf" | "nan"}     {"$": "int", "v": "123..."}   big integers
  {"$": "deep", "v": levels}                   {"$": "cycle", "v": "array" | "object"}
  {"$": "heap", "v": index}                   a shared container (alias) from the scenario heap
"""

import datetime
import math
import re

REGEX = type(re.compile(''))


def decode(enc, fn_of=None, heap=None):
    """Build a fresh Python value from its encoding."""
    if enc is None or isinstance(enc, (bool, str, int, float)):
        return enc
    if isinstance(enc, list):
        return [decode(item, fn_of, heap) for item in enc]
    tag = enc['$']
    val = enc['v']
    if tag == 'obj':
        return {key: decode(item, fn_of, heap) for key, item in val}
    if tag == 'dt':
        return datetime.datetime(*val)
    if tag == 'date':
        return datetime.date(*val)
    if tag == 're':
        return re.compile(val)
    if tag == 'fn':
        return fn_of(val)
    if tag == 'num':
        return float(val)
    if tag == 'int':
        return int(val)
    if tag == 'heap':
        return heap[val]
    if tag == 'deep':       # an array nested val levels deep
        value = []
        for _ in range(val):
            value = [value]
        return value
    if tag == 'cycle':      # an array (or object) that contains itself
        value = [1] if val == 'array' else {'a': 1}
        if val == 'array':
            value.append(value)
        else:
            value['b'] = value
        return value
    raise ValueError(f'bad encoding {enc!r}')


def canon_number(value):
    """A number's canonical form - int and float spellings of the same number agree."""
    if isinstance(value, float):
        if math.isnan(value):
            return 'n:nan'
        if math.isinf(value):
            return 'n:inf' if value > 0 else 'n:-inf'
        if value == int(value):
            return f'n:{int(value)}' if abs(value) < 1e300 else f'n:{value!r}'
        return f'n:{value!r}'
    return f'n:{value}' if abs(value) < 10**300 else 'n:big'


def canon(value, memo=None, depth=0):
    """A JSON-able canonical form. Containers are numbered at first visit, so aliasing is part of the form."""
    if value is None or isinstance(value, bool):
        return value
    if isinstance(value, str):
        return 's:' + value
    if isinstance(value, (int, float)):
        return canon_number(value)
    if isinstance(value, datetime.datetime):
        return 'd:' + value.replace(fold=0).isoformat()
    if isinstance(value, datetime.date):
        return 'D:' + value.isoformat()
    if isinstance(value, (list, dict)):
        if memo is None:
            memo = {}
        seen = memo.get(id(value))
        if seen is not None:
            return {'ref': seen[0]}
        memo[id(value)] = (len(memo), value)
        if depth > 60:
            return 'deep'
        if isinstance(value, list):
            return [canon(item, memo, depth + 1) for item in value]
        return {'obj': [[str(key), canon(item, memo, depth + 1)] for key, item in sorted(value.items(), key=lambda kv: str(kv[0]))]}
    if isinstance(value, REGEX):
        return f'r:{value.pattern}:{value.flags}'
    if callable(value):
        return 'f'
    return f'?:{type(value).__module__}.{type(value).__name__}'


def canon_keep_order(value):
    """As canon, for a dict whose key order matters (objectKeys)."""
    return [[key, canon(item)] for key, item in value.items()]


def is_bare_value(value, depth=0, seen=None):
    """Is this one of the nine BareScript value types (deeply)?"""
    if value is None or isinstance(value, (bool, str, int, float, datetime.date, REGEX)):
        return True
    if isinstance(value, (list, dict)):
        seen = seen if seen is not None else set()
        if id(value) in seen or depth > 50:
            return True
        seen.add(id(value))
        items = value if isinstance(value, list) else value.values()
        if isinstance(value, dict) and not all(isinstance(key, str) for key in value):
            return False
        return all(is_bare_value(item, depth + 1, seen) for item in items)
    return callable(value)
