"""Reference data functions: the relational meaning, by scanning (no serialised keys)."""

import fractions
import math

from .core import InvalidScenario
from .ref import RefFail, compare, is_num, truthy, work
from .reflib import _expr, _rows, _with_variables, check, lib


class Groups:
    """Values grouped by equality, in the order of their first appearance."""

    def __init__(self):
        self.groups = []

    def find(self, key):
        for known, members in self.groups:
            work()
            if compare(known, key) == 0:
                return members
        return None

    def add(self, key, member):
        members = self.find(key)
        if members is None:
            members = []
            self.groups.append((key, members))
        members.append(member)


def unique_names(left, right):
    """The right fields under names that no other field has."""
    left_names = {name for row in left for name in row}
    raw = list(dict.fromkeys(name for row in right for name in row))
    names = {}
    for name in raw:
        new = name
        number = 1
        while new in left_names or (new != name and (new in names.values() or new in raw)):
            number += 1
            new = f'{name}{number}'
        names[name] = new
    return names


@lib('dataJoin')
def _(ref, args):
    left, right, text, right_text, left_join, variables = check(args, ['array', 'array', 'string', 'string?', 'bool', 'object?'])
    expr = _expr(ref, text)
    right_expr = _expr(ref, right_text) if right_text is not None else expr
    names = unique_names(list(_rows(left)), list(_rows(right)))

    def run():
        groups = Groups()
        for row in right:
            groups.add(ref.evaluate(right_expr, row, True), row)
        out = []
        for row in left:
            matches = groups.find(ref.evaluate(expr, row, True))
            if matches is not None:
                for match in matches:
                    if not names.keys() >= match.keys():
                        raise InvalidScenario('a table changed while it is joined')
                    out.append({**row, **{names[name]: value for name, value in match.items()}})
            elif not left_join:     # (what becomes of an unmatched row is not part of the property; this is what it does)
                out.append(dict(row))
            work()
        if len(out) > 300:
            raise InvalidScenario('size')
        return out
    return _with_variables(ref, variables, run)


def model_error(ref, aggregation):
    """Is this no aggregation model?"""
    if set(aggregation) - {'categories', 'measures'}:
        return True
    categories = aggregation.get('categories', ['a'])
    measures = aggregation.get('measures')
    if not isinstance(categories, list) or not categories or not all(isinstance(item, str) for item in categories):
        return True
    if not isinstance(measures, list) or not measures or not all(isinstance(item, dict) for item in measures):
        return True
    for measure in measures:
        if set(measure) - {'field', 'function', 'name'} or not isinstance(measure.get('field'), str) or not isinstance(measure.get('name', ''), str):
            return True
        if measure.get('function') not in ('average', 'count', 'max', 'min', 'stddev', 'sum'):
            return True
    return False


def measured(function, values):
    if function == 'count':
        return len(values)
    if function in ('max', 'min'):
        if not all(map(is_num, values)) and not all(isinstance(value, str) for value in values):
            raise InvalidScenario('the order of mixed values')
        best = values[0]
        for value in values:
            if compare(value, best) * (1 if function == 'max' else -1) > 0:
                best = value
        return best
    if not all(map(is_num, values)):
        raise InvalidScenario('arithmetic of what is no number')
    exact = [fractions.Fraction(value) for value in values]
    total = sum(exact)
    if function == 'sum':
        return float(total)
    mean = total / len(exact)
    if function == 'average':
        return float(mean)
    return math.sqrt(sum((value - mean) ** 2 for value in exact) / len(exact))


@lib('dataAggregate')
def _(ref, args):
    data, aggregation = check(args, ['array', 'object'])
    if model_error(ref, aggregation):
        raise RefFail(None)
    categories = aggregation.get('categories', [])
    fields = [measure.get('name', measure['field']) for measure in aggregation['measures']]
    if len({*fields, *categories}) != len(fields) + len(categories):
        raise InvalidScenario('a measure overwrites a field')
    groups = Groups()
    for row in _rows(data):
        groups.add([row.get(name) for name in categories], row)
    out = []
    for key, rows in groups.groups:
        result = dict(zip(categories, key))
        for measure, field in zip(aggregation['measures'], fields):
            values = [row[measure['field']] for row in rows if row.get(measure['field']) is not None]
            result[field] = measured(measure['function'], values) if values else None
        out.append(result)
    return out


@lib('dataSort')
def _(ref, args):
    data, sorts = check(args, ['array', 'array'])
    for sort in sorts:
        if not isinstance(sort, list) or not sort or not isinstance(sort[0], str):
            raise InvalidScenario('no sort model')

    def order(left, right):
        for field, *down in sorts:
            result = compare(left.get(field), right.get(field))
            if result:
                return -result if down and truthy(down[0]) else result
        return 0
    rows = list(_rows(data))
    # An insertion sort: stable by construction
    out = []
    for row in rows:
        at = len(out)
        while at > 0 and order(out[at - 1], row) > 0:
            at -= 1
            work()
        out.insert(at, row)
    data[:] = out
    return data


@lib('dataTop')
def _(ref, args):
    data, count, fields = check(args, ['array', 'int', 'array?'])
    if count < 1:
        raise RefFail(None)
    groups = Groups()
    for row in _rows(data):
        groups.add([row.get(field) for field in fields] if fields is not None else [], row)
    return [row for _, rows in groups.groups for row in rows[:int(count)]]


