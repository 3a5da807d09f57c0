SAME = '''
from bare_script.library import SCRIPT_FUNCTIONS

def expr(text, globals_=None):
    return evaluate_expression(parse_expression(text), {'globals': {**SCRIPT_FUNCTIONS, **(globals_ or {})}})

def cmp(left, right):
    return expr('systemCompare(aa, bb)', {'aa': left, 'bb': right})

'''
LT = "        return -1 if left < right else (0 if left == right else 1)\n"
NUM = "         isinstance(right, (int, float)) and not isinstance(right, bool):\n" + LT
DT = "        return -1 if left_dt < right_dt else (0 if left_dt == right_dt else 1)\n"
B('C11-tolerance', 'C11', [('value.py', NUM, NUM.replace("0 if left == right", "0 if left == right or abs(left - right) < 1e-12 * abs(left)").replace('-1 if left < right else (', '(').replace(' else 1)', ' else -1 if left < right else 1)'))],
SAME + """assert cmp(0.1 + 0.2, 0.3) == 1
""", "numbers that are close", "they are equal, so that equality is not transitive")
B('C11-date-day', 'C11', [('value.py', DT, "        if not isinstance(left, datetime.datetime):\n            right_dt = right_dt.replace(hour=0, minute=0, second=0, microsecond=0)\n        return -1 if left_dt < right_dt else (0 if left_dt == right_dt else 1 if left_dt > right_dt else 0)\n")],
SAME + """day = datetime.date(2024, 1, 1)
noon = datetime.datetime(2024, 1, 1, 12)
assert cmp(day, noon) == -1 and cmp(noon, day) == 1
""", "a date on the left of a datetime of the same day", "they are equal one way")
B('C11-array-eight', 'C11', [('value.py', "        for ix in range(min(len(left), len(right))):\n", "        for ix in range(min(len(left), len(right), 8)):\n")],
SAME + """assert cmp([0] * 8 + [1], [0] * 8 + [2]) == -1
""", "arrays that differ in the ninth element or later", "they are equal")
B('C11-key-case', 'C11', [('value.py', "        left_key_values = sorted(left.items())\n        right_key_values = sorted(right.items())\n", "        left_key_values = sorted(left.items(), key=lambda item: item[0].lower())\n        right_key_values = sorted(right.items(), key=lambda item: item[0].lower())\n")],
SAME + """assert cmp({'a': 1, 'A': 2}, {'A': 2, 'a': 1}) == 0
""", "objects with keys that differ in case, made in another order", "they are not equal")
B('C11-object-values', 'C11', [('value.py', "            val_compare = value_compare(left_key_values[ix][1], right_key_values[ix][1])\n", "            val_compare = value_compare(left_key_values[ix][1], right_key_values[ix][1]) if len(left_key_values) == len(right_key_values) else 0\n")],
SAME + """assert cmp({'a': 1}, {'a': 0, 'b': 1}) == 1
""", "objects of different size with different values", "the size decides")
B('C11-memo', 'C11', [('value.py', "        left_key_values = sorted(left.items())\n", "        if _ITEMS[0] is not left or _ITEMS[1] != len(left):\n            _ITEMS[:] = [left, len(left), sorted(left.items())]\n        left_key_values = _ITEMS[2]\n"), ('value.py', "def value_compare(left, right):\n", "_ITEMS = [None, 0, None]\n\n\ndef value_compare(left, right):\n")],
SAME + """aa = {'x': 1}
assert cmp(aa, {'x': 2}) == -1
aa['x'] = 3
assert cmp(aa, {'x': 2}) == 1
""", "an object compared, changed and compared again", "the old values are compared")
B('C11-zone-memo', 'C11', [('value.py', "            return value.astimezone().replace(tzinfo=None)\n        return value\n", "            if value not in _LOCAL:\n                if len(_LOCAL) > 4096:\n                    _LOCAL.clear()\n                _LOCAL[value] = value.astimezone().replace(tzinfo=None)\n            return _LOCAL[value]\n        return value\n"), ('value.py', "def value_normalize_datetime(value):\n", "_LOCAL = {}\n\n\ndef value_normalize_datetime(value):\n")],
SAME + """aware = datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc)
naive = datetime.datetime(2024, 1, 1)
results = []
for zone in ('UTC', 'Asia/Tokyo'):
    os.environ['TZ'] = zone
    time.tzset()
    results.append(cmp(aware, naive))
assert results == [0, 1], results
""", "an aware datetime compared before and after the process time zone changes", "it is taken in the old zone")
B('C11-bool-right', 'C11', [('value.py', "         isinstance(right, (int, float)) and not isinstance(right, bool):\n", "         isinstance(right, (int, float)) and (not isinstance(right, bool) or left == right):\n")],
SAME + """assert cmp(1, True) == 1 and cmp(True, 1) == -1
""", "1 or 0 against true or false", "they are equal one way")
B('C11-min-null', 'C11', [('library.py', "        elif value_compare(value, result) < 0:\n", "        elif value_compare(value, result) < 0 and value is not None:\n")],
SAME + """assert expr('mathMin(1, null, 2)') is None
""", "a null among the arguments of mathMin, not the first", "it is passed over")
B('C11-max-numbers', 'C11', [('library.py', "        elif value_compare(value, result) > 0:\n", "        elif (value > result if isinstance(value, (int, float)) and isinstance(result, (int, float)) else value_compare(value, result) > 0):\n")],
SAME + """assert expr('mathMax(false, 0)') == 0 and expr('mathMax(false, 0)') is not False
assert expr('mathMax(2, true)') == 2
assert expr('mathMax(0, true)') is not True
""", "a number and a boolean", "the boolean counts as a number")
B('C11-index-plain', 'C11', [('library.py', "            if value_compare(array[ix], value) == 0:\n                return ix\n\n    return -1\n\n_ARRAY_INDEX_OF_ARGS", "            if array[ix] == value:\n                return ix\n\n    return -1\n\n_ARRAY_INDEX_OF_ARGS")],
SAME + """assert expr('arrayIndexOf(aa, 1)', {'aa': [True, 1]}) == 1
assert expr('arrayIndexOf(aa, bb)', {'aa': [datetime.datetime(2024, 1, 1)], 'bb': datetime.date(2024, 1, 1)}) == 0
""", "a boolean before the number, or a date for a datetime", "the wrong index")
B('C11-eq-plain', 'C11', [('runtime.py', "            return value_compare(left_value, right_value) == 0\n", "            return left_value == right_value if type(left_value) is type(right_value) else value_compare(left_value, right_value) == 0\n")],
SAME + """assert expr('aa == bb', {'aa': [1], 'bb': [True]}) is False
""", "containers with a boolean against a number (or a date against a datetime)", "they are equal")
B('C11-lt-fast', 'C11', [('runtime.py', "            return value_compare(left_value, right_value) < 0\n", "            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):\n                return left_value < right_value\n            return value_compare(right_value, left_value) > 0\n")],
SAME + """assert expr('false < 0') is True and expr('true < 1') is True
""", "a boolean and a number", "the boolean counts as a number")
B('C11-gte-null', 'C11', [('runtime.py', "            return value_compare(left_value, right_value) >= 0\n", "            return (left_value is not None or right_value is None) and not value_compare(left_value, right_value) < 0 and (right_value is not None or not isinstance(left_value, bool))\n")],
SAME + """assert expr('false >= null') is True
""", "a boolean and null", "it is not greater")
B('C11-sort-plain', 'C11', [('library.py', "        array.sort(key=functools.cmp_to_key(value_compare))\n", "        try:\n            array[:] = sorted(array)\n        except TypeError:\n            array.sort(key=functools.cmp_to_key(value_compare))\n")],
SAME + """assert [type(item) for item in expr('arraySort(aa)', {'aa': [1, True, 0]})] == [bool, int, int]
""", "numbers and booleans in one array", "the booleans are sorted as numbers")
B('C11-sort-types', 'C11', [('library.py', "        array.sort(key=functools.cmp_to_key(value_compare))\n", "        if len({value_type(value) for value in array} - {'null'}) > 1 and len(array) > 16:\n            array.sort(key=lambda value: value_type(value) or '')\n        else:\n            array.sort(key=functools.cmp_to_key(value_compare))\n")],
SAME + """aa = [*range(20, 0, -1), 'a']
assert expr('arraySort(aa)', {'aa': aa}) == [*range(1, 21), 'a']
""", "more than 16 values of several types", "they are sorted by type only")
B('C11-datasort-numbers', 'C11', [('data.py', "    data.sort(key=functools.cmp_to_key(functools.partial(_sort_data_fn, sorts)))", "    if len(sorts) == 1 and all(isinstance(row.get(sorts[0][0]), (int, float)) for row in data):\n        data.sort(key=lambda row: row[sorts[0][0]], reverse=len(sorts[0]) > 1 and bool(sorts[0][1]))\n        return data\n    data.sort(key=functools.cmp_to_key(functools.partial(_sort_data_fn, sorts)))\n    # (mixed)")],
SAME + """assert [type(row['v']) for row in expr("dataSort(aa, ss)", {'aa': [{'v': 0}, {'v': True}], 'ss': [['v']]})] == [bool, int]
""", "a field with numbers and booleans only, and one sort field", "the booleans are sorted as numbers")
B('C11-scratch', 'C11', [('value.py', "        left_key_values = sorted(left.items())\n        right_key_values = sorted(right.items())\n", "        left_key_values, right_key_values = _SCRATCH\n        left_key_values[:] = sorted(left.items())\n        right_key_values[:] = sorted(right.items())\n"), ('value.py', "def value_compare(left, right):\n", "_SCRATCH = ([], [])\n\n\ndef value_compare(left, right):\n")],
SAME + """assert cmp({'a': {}, 'b': 1}, {'a': {}, 'b': 2}) == -1
""", "objects within objects (or two sessions at once)", "the rest of the outer object is not compared")
B('C11-array-types', 'C11', [('value.py', "            item_compare = value_compare(left[ix], right[ix])\n", "            item_compare = value_compare(left[ix], right[ix]) if value_type(left[ix]) == value_type(right[ix]) or None in (left[ix], right[ix]) else -1\n")],
SAME + """assert cmp(['a'], [1]) == 1
""", "arrays with elements of different types", "both are less than the other")
B('C11-unequal-dates', 'C11', [('value.py', "        right_dt = value_normalize_datetime(right)\n", "        right_dt = value_normalize_datetime(right if not isinstance(right, datetime.datetime) or right.tzinfo is None else right.astimezone(datetime.timezone.utc).replace(tzinfo=None))\n")],
SAME + """os.environ['TZ'] = 'Asia/Tokyo'
time.tzset()
aware = datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc)
assert cmp(aware, aware) == 0
""", "an aware datetime on the right and a process zone other than UTC", "it is not equal to itself")
