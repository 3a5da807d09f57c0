"""Delta debugging over the scenario's JSON tree: keep any smaller scenario that still shows the same violation class."""

import copy
import json
import time


def size(obj):
    return len(json.dumps(obj, default=str))


def _paths(obj, path=()):
    if isinstance(obj, list):
        yield path, obj
        for ix, item in enumerate(obj):
            yield from _paths(item, (*path, ix))
    elif isinstance(obj, dict):
        yield path, obj
        for key, item in obj.items():
            yield from _paths(item, (*path, key))
    elif isinstance(obj, str) and len(obj) > 1:
        yield path, obj


def _get(obj, path):
    for key in path:
        obj = obj[key]
    return obj


def _replaced(obj, path, value):
    obj = copy.deepcopy(obj)
    if not path:
        return value
    _get(obj, path[:-1])[path[-1]] = value
    return obj


SIMPLE = (None, 0, 1, False, '')


def _candidates(node, path, strings):
    """Smaller replacements of a node, largest reductions first."""
    if isinstance(node, list):
        length = len(node)
        chunk = length
        while chunk >= 1:
            for begin in range(0, length, chunk):
                yield node[:begin] + node[begin + chunk:]
            chunk //= 2
    elif isinstance(node, str):
        if not any(key in strings for key in path):
            return
        length = len(node)
        chunk = length // 2
        while chunk >= 1:
            for begin in range(0, length, chunk):
                yield node[:begin] + node[begin + chunk:]
            chunk //= 2
    elif isinstance(node, dict):
        for key in list(node):
            if key not in ('$', 'v'):
                yield {name: value for name, value in node.items() if name != key}
        # an expression node: replace with one of its sub-expressions
        if len(node) == 1:
            (key, body), = node.items()
            if key in ('binary', 'unary', 'group', 'function'):
                if key == 'group':
                    yield body
                elif key == 'function':
                    yield from body.get('args', [])
                    yield {'variable': 'null'}
                else:
                    for name in ('left', 'right', 'expr'):
                        if name in body:
                            yield body[name]


def shrink(scenario, fails, budget_s=40, max_tests=4000, strings=()):
    """fails(scenario) -> bool (the same violation class). Returns (scenario, tests)."""
    deadline = time.monotonic() + budget_s
    tests = 0
    best = scenario
    progress = True
    while progress:
        progress = False
        paths = sorted(_paths(best), key=lambda item: -size(item[1]))
        ix = 0
        while ix < len(paths):
            path, _ = paths[ix]
            ix += 1
            try:
                node = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            for candidate in _candidates(node, path, strings):
                if time.monotonic() > deadline or tests >= max_tests:
                    return best, tests
                attempt = _replaced(best, path, candidate)
                if size(attempt) >= size(best):
                    continue
                tests += 1
                if fails(attempt):
                    best = attempt
                    progress = True
                    ix -= 1         # look at the same place again
                    break
    return best, tests
