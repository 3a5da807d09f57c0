SAME = '''
from bare_script.library import SCRIPT_FUNCTIONS

def expr(text, globals_=None):
    return evaluate_expression(parse_expression(text), {'globals': {**SCRIPT_FUNCTIONS, **(globals_ or {})}})

def spell(value, kind):
    if isinstance(value, list):
        return [spell(item, kind) for item in value]
    if isinstance(value, dict):
        return {key: spell(item, kind) for key, item in value.items()}
    if isinstance(value, (int, float)) and not isinstance(value, bool) and value == int(value):
        return kind(value)
    return value

def same(text, globals_=None):
    out = []
    for kind in (int, float):
        variables = spell(dict(globals_ or {}), kind)
        result = evaluate_expression(spell_model(parse_expression(text), kind), {'globals': {**SCRIPT_FUNCTIONS, **variables}})
        out.append((result, {key: value for key, value in variables.items() if key in (globals_ or {})}))
    assert out[0] == out[1], out

def spell_model(obj, kind):
    if isinstance(obj, list):
        return [spell_model(item, kind) for item in obj]
    if isinstance(obj, dict):
        return {key: spell(item, kind) if key == 'number' else spell_model(item, kind) for key, item in obj.items()}
    return obj
'''
B('C12-fixed-digits', 'C12', [('library.py', ":.{int(digits)}f}'", ":.{value_string(digits) if digits < 10 else digits}f}'")],
SAME + "same('numberToFixed(1.5, 12)')", "ten or more digits given as a float", "numberToFixed fails")
B('C12-string-exp', 'C12', [('value.py', "        return R_NUMBER_CLEANUP.sub('', str(value))", "        return R_NUMBER_CLEANUP.sub('', f'{value:.15g}' if value < 1e12 else f'{value:.12g}')")],
SAME + "same(\"'' + nn\", {'nn': 1234567890123})", "an integral float of 13 digits", "its text is in exponent notation while the int's is not")
B('C12-agg-key', 'C12', [('data.py', "        if row_key in category_rows:", "        if (row_key := repr(row_key)) in category_rows:")],
SAME + """assert len(expr("dataAggregate(aa, gg)", {'aa': [{'a': 1, 'b': 1}, {'a': 1.0, 'b': 2}], 'gg': {'categories': ['a'], 'measures': [{'field': 'b', 'function': 'sum'}]}})) == 1
""", "rows whose category value is an int in one and a float in another", "two groups")
B('C12-top-key', 'C12', [('data.py', "        if category_key not in category_rows:", "        if (category_key := repr(category_key)) not in category_rows:")],
SAME + """assert len(expr("dataTop(aa, 1, ff)", {'aa': [{'k': 1, 'b': 1}, {'k': 1.0, 'c': 2}], 'ff': ['k']})) == 1
""", "rows whose category value is an int in one and a float in another", "two categories")
B('C12-charcode', 'C12', [('library.py', "        if value_type(code) != 'number' or int(code) != code or code < 0:", "        if value_type(code) != 'number' or int(code) != code or code < 0 or len(str(code)) > 7:")],
SAME + "same('stringFromCharCode(128512)')", "a code point of six digits given as a float", "stringFromCharCode fails")
B('C12-millisecond', 'C12', [('library.py', "int(second), int(millisecond) * 1000)", "int(second), int(millisecond * 1000) if millisecond else millisecond)")],
SAME + "same('datetimeNew(2024, 2, 1, 0, 0, 0, 0)')", "milliseconds of zero given as a float", "datetimeNew fails")
B('C12-mod-int', 'C12', [('runtime.py', "                return left_value % right_value", "                return left_value % right_value if isinstance(left_value, int) else math.fmod(left_value, right_value)"), ('runtime.py', "import functools\n", "import functools\nimport math\n")],
SAME + "same('nn % 3', {'nn': -5})", "a negative dividend", "the sign differs between int and float")
B('C12-divide', 'C12', [('runtime.py', "                return left_value / right_value", "                return left_value // right_value if isinstance(left_value, int) and isinstance(right_value, int) else left_value / right_value")],
SAME + "same('nn / 2', {'nn': 5})", "two host ints that do not divide", "integer division")
B('C12-global-cache', 'C12', [('value.py', "    return array, value, index" if False else "    elif isinstance(value, int):\n        return str(value)", "    elif isinstance(value, int):\n        return f'{value}' if abs(value) < 2147483648 else f'{value:.9e}'.replace('e+0', 'e')")],
SAME + "same(\"'' + nn\", {'nn': 4294967296})", "a host int beyond 32 bits", "its text is not the float's")
B('C12-sort-type', 'C12', [('library.py', "        array.sort(key=functools.cmp_to_key(value_compare))", "        if array and all(isinstance(value, int) for value in array):\n            array.sort(key=str if any(isinstance(value, bool) for value in array) else None)\n        else:\n            array.sort(key=functools.cmp_to_key(value_compare))")],
SAME + "same('arraySort(aa)', {'aa': [10, 9, True]})", "an array of ints and booleans", "they are sorted in another order than floats and booleans")
B('C15-integral-text', 'C12', [('library.py', "        if value_type(code) != 'number' or int(code) != code or code < 0:", "        if value_type(code) != 'number' or not R_NUMBER_CLEANUP.sub('', f'{code:g}').isdigit():")],
SAME + "same('stringFromCharCode(128512)')\nassert expr('stringFromCharCode(1114109)') is not None", "a code point of seven digits", "stringFromCharCode fails")
B('C12-split-size', 'C12', [('library.py', "    return list(value for _ in range(int(size)))", "    return [value] * int(size) if size < 16 else list(map(lambda unused: value, range(size)))")],
SAME + "same('arrayNewSize(20)')", "a size of 16 or more given as a float", "arrayNewSize fails")
B('C12-repeat-long', 'C12', [('library.py', "    return string * int(count)", "    return string * int(count) if len(string) < 2 or count < 4 else ''.join([string] * count)")],
SAME + "same(\"stringRepeat('ab', 4)\")", "a longer string repeated four times or more, the count given as a float", "stringRepeat fails")
B('C12-slice-tail', 'C12', [('library.py', "    return array[int(start):int(end)]", "    return array[int(start):int(end)] if end < len(array) else array[start:]")],
SAME + "same('arraySlice(aa, 1, 3)', {'aa': [1, 2, 3]})", "an explicit end at the end of the array and a float start", "arraySlice fails")
B('C12-string-tail', 'C12', [('library.py', "    return string[int(start):int(end)]", "    return string[int(start):int(end)] if start < end else string[start:end]")],
SAME + "same(\"stringSlice('abc', 2, 2)\")", "an empty slice given by floats", "stringSlice fails")
B('C12-get-last', 'C12', [('library.py', "        raise ValueArgsError('index', index)\n\n    return array[int(index)]", "        raise ValueArgsError('index', index)\n\n    return array[int(index) if index < len(array) - 1 else index]")],
SAME + "same('arrayGet(aa, 1)', {'aa': [1, 3]})", "the last element read by a float index", "arrayGet fails")
B('C12-json-key', 'C12', [('library.py', "    return value_json(value, int(indent) if indent is not None else None)", "    return value_json(value, int(indent)) if indent is not None else value_json(value) if not isinstance(value, float) else value_string(value).rjust(0) if value % 1 else f'{value}'")],
SAME + "same('jsonStringify(5)')", "a float at the top level", "the JSON text has .0")
B('C12-parse-float-radix', 'C12', [('library.py', "    return value_parse_integer(string, int(radix))", "    return value_parse_integer(string, int(radix)) if radix <= 16 else value_parse_integer(string.strip().lower(), radix)")],
SAME + "same(\"numberParseInt('z', 36)\")", "a radix beyond 16 given as a float", "numberParseInt fails")
B('C12-sort-desc', 'C12', [('data.py', "        desc = sort[1] if len(sort) > 1 else False", "        desc = len(sort) > 1 and sort[1] in (True, '1') and not isinstance(sort[1], float)")],
SAME + """same("dataSort(aa, ss)", {'aa': [{'b': 1}, {'b': 2}], 'ss': [['b', 1]]})
""", "a descending flag of 1 given as a float", "the order is ascending")
B('C12-date-ms-neg', 'C12', [('library.py', "    if minute < 0 or minute >= 60:\n        extra_hours = minute // 60", "    if minute < 0 or minute >= 60:\n        extra_hours = divmod(minute, 60)[0] if isinstance(minute, int) else float(int(minute / 60))")],
SAME + "same('datetimeNew(2024, 1, 5, 3, -61)')", "a negative float of minutes", "datetimeNew fails")
B('C12-not-float', 'C12', [('value.py', "    elif isinstance(value, (int, float)):\n        return 'number'", "    elif isinstance(value, int) or isinstance(value, float) and value.is_integer() and abs(value) < 2 ** 31 or isinstance(value, float) and value % 1:\n        return 'number'")],
SAME + "same('systemType(nn)', {'nn': 4294967296})", "an integral float beyond 31 bits", "its type is null")
B('C12-compare-small', 'C12', [('value.py', "        return -1 if left < right else (0 if left == right else 1)\n    elif isinstance(left, datetime.date)", "        return (left > right) - (left < right) if isinstance(left, int) == isinstance(right, int) else (left - right > 1e-9) - (right - left > 1e-9)\n    elif isinstance(left, datetime.date)")],
SAME + "same('nn == 1e-12', {'nn': 0})\nassert expr('nn < 1e-12', {'nn': 0}) is True", "a host int compared with a float that differs by less than 1e-9", "they are equal")
B('C12-string-append', 'C12', [('runtime.py', "                return left_value + value_string(right_value)", "                return left_value + (value_string(right_value) if not left_value.endswith(('-', '#')) else str(right_value) if _is_number(right_value) else value_string(right_value))")],
SAME + "same(\"'#' + nn\", {'nn': 5})", "a number appended to a text ending in # or -", "the text has .0")
