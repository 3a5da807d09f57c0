SAME = '''
from bare_script.library import SCRIPT_FUNCTIONS

def expr(text, globals_=None):
    return evaluate_expression(parse_expression(text), {'globals': {**SCRIPT_FUNCTIONS, **(globals_ or {})}})

'''
LIT = "        number = float(match_number.group(1))\n"
FLOAT = "        return R_NUMBER_CLEANUP.sub('', str(value))\n"
# -- C13
B('C13-literal-long-exp', 'C13', [('parser.py', r"(?:\.\d*)?(?:e[+-]\d+)?)')", r"(?:\.\d*)?(?:e[+-]\d{1,2})?)')")],
"""assert script('return 1e-100') == 1e-100
""", "a literal with an exponent of three digits", "the last digit is not part of the literal")
B('C13-literal-digits', 'C13', [('parser.py', r"([+-]?\d+(?:\.\d*)?(?:e[+-]\d+)?)')", r"([+-]?\d+(?:\.\d{0,16})?(?:e[+-]\d+)?)')")],
"""assert script('return 0.30000000000000004') == 0.1 + 0.2
""", "a literal with 17 digits after the point", "a syntax error")
B('C13-literal-scale', 'C13', [('parser.py', LIT, """        mantissa, _, exponent = match_number.group(1).partition('e')
        number = float(mantissa) * 10.0 ** int(exponent) if exponent else float(mantissa)
""")],
"""for value in (1.1e-07, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e+308):
    assert expr(str(value)) == value, value
""", "a literal whose mantissa times the power of ten is not exact", "a neighbouring number")
B('C13-literal-whole', 'C13', [('parser.py', LIT, """        number_text = match_number.group(1)
        number = float(number_text) if '.' in number_text or 'e' in number_text else float(int(number_text) & ((1 << 53) - 1))
""")],
"""assert expr('9007199254740992') == 2.0 ** 53
""", "a whole literal of 2^53 or more, and less than 1e16", "its high bits are lost")
B('C13-round-small', 'C13', [('value.py', FLOAT, "        return R_NUMBER_CLEANUP.sub('', str(round(value, 17) if abs(value) < 1 else value))\n")],
"""for value in (0.1, 1e-7, 1.5e-10, 3e-17, 1.2345e-15, 2e-300):
    assert float(expr("'' + x", {'x': value})) == value, value
""", "a number so small that it has digits beyond the 17th decimal place", "they are lost")
B('C13-sixteen', 'C13', [('value.py', FLOAT, "        return R_NUMBER_CLEANUP.sub('', str(value) if abs(value) < 2 ** 53 else f'{value:.16g}')\n")],
"""for value in (2.0 ** 53, 1e16, 1.2345678901234567e+25, 1.7976931348623157e+308):
    assert float(expr("'' + x", {'x': value})) == value, value
""", "a large number that needs 17 digits", "a neighbour of it")
B('C13-strip-exp', 'C13', [('value.py', r"R_NUMBER_CLEANUP = re.compile(r'\.0*$')", r"R_NUMBER_CLEANUP = re.compile(r'\.0*$|(?<=e[+-]\d)0+$')")],
"""for value in (1e20, 1e-10, 1.5e100, 1e16):
    assert float(expr("'' + x", {'x': value})) == value, value
""", "a number whose exponent ends in zero", "the zero is taken off")
B('C13-zero-memo', 'C13', [('value.py', FLOAT, """        if value not in _NUMBER_STRINGS:
            if len(_NUMBER_STRINGS) > 1000:
                _NUMBER_STRINGS.clear()
            _NUMBER_STRINGS[value] = R_NUMBER_CLEANUP.sub('', str(value))
        return _NUMBER_STRINGS[value]
"""), ('value.py', "R_NUMBER_CLEANUP = re.compile", "_NUMBER_STRINGS = {}\nR_NUMBER_CLEANUP = re.compile")],
"""assert expr("'' + x", {'x': 0.0}) == '0'
assert expr("'' + x", {'x': -0.0}) == '-0'
""", "zero and minus zero in one process", "the text of the one that came first is that of both")
B('C13-memo-race', 'C13', [('value.py', FLOAT, """        if _NUMBER_LAST[0] != value:
            _NUMBER_LAST[0] = value
            _NUMBER_LAST[1] = R_NUMBER_CLEANUP.sub('', str(value))
        return _NUMBER_LAST[1]
"""), ('value.py', "R_NUMBER_CLEANUP = re.compile", "_NUMBER_LAST = [1.0, '1']\nR_NUMBER_CLEANUP = re.compile")],
SAME + """import threading
bad = []
def work(seed):
    for ix in range(20000):
        x = seed + (ix % 3) / 4
        if float(expr("stringNew(x)", {'x': x})) != x:
            bad.append(x)
            return
sys.setswitchinterval(1e-6)
threads = [threading.Thread(target=work, args=(ix * 100,)) for ix in range(1, 5)]
for thread in threads:
    thread.start()
for thread in threads:
    thread.join()
assert expr("'' + x", {'x': 0.0}) == '0' and expr("'' + x", {'x': -0.0}) == '-0'
assert not bad, bad
""", "a switch of threads between the two assignments", "a number is written as the text of another")
B('C13-concat-right', 'C13', [('runtime.py', "                return left_value + value_string(right_value)\n", "                return left_value + (f'{right_value:.15g}' if isinstance(right_value, float) else value_string(right_value))\n")],
"""assert script("return '' + (0.1 + 0.2)") == '0.30000000000000004'
""", "a number of more than 15 digits on the right of a text", "it is rounded")
B('C13-log-round', 'C13', [('library.py', "        log_fn(value_string(message))\n\n_SYSTEM_LOG_ARGS", "        log_fn(value_string(message) if not isinstance(message, float) else value_string(value_round_number(message, 12)))\n\n_SYSTEM_LOG_ARGS")],
SAME + """out = []
execute_script(parse_script('systemLog(xx)'), {'globals': {'xx': 1e-13}, 'logFn': out.append})
assert out == ['1e-13'], out
""", "a logged number with more than 12 decimal places", "it is rounded")
B('C13-join-whole', 'C13', [('library.py', "    return separator.join(value_string(value) for value in array)\n", "    return separator.join(value_string(int(value) if isinstance(value, float) and abs(value) > 2 ** 24 else value) for value in array)\n")],
SAME + """assert expr("arrayJoin(aa, ',')", {'aa': [16777217.5]}) == '16777217.5'
""", "an element beyond 2^24 with a fraction", "the fraction is lost")
B('C13-minus-inf', 'C13', [('value.py', "        if math.isnan(value) or math.isinf(value):\n", "        if math.isnan(value) or value == math.inf:\n")],
SAME + """assert expr("numberParseFloat('-Infinity')") is None
assert expr("numberParseFloat('-1e999')") is None
""", "a text for minus infinity, or beyond the negative numbers", "an infinite number")
B('C13-overflow', 'C13', [('value.py', "        if math.isnan(value) or math.isinf(value):\n", "        if math.isnan(value) or (math.isinf(value) and 'inf' in text.lower()):\n")],
SAME + """assert expr("numberParseFloat('1e309')") is None
""", "a number beyond the doubles", "an infinite number")
B('C13-parse-commas', 'C13', [('value.py', "        value = float(text)\n", "        value = float(re.sub(r'(?<=\\d),(?=\\d{3})', '', text))\n")],
SAME + """assert expr("numberParseFloat('1,000')") is None
""", "a text with a comma before three digits", "a number")
B('C13-parse-cut', 'C13', [('value.py', "        value = float(text)\n", "        value = float(text if len(text) < 64 else text[:24])\n")],
SAME + """assert expr("numberParseFloat(tt)", {'tt': '1' * 70}) == float('1' * 70)
assert expr("numberParseFloat(tt)", {'tt': '1.5' + '0' * 30 + 'x' * 40}) is None
""", "a text of 64 characters or more", "part of it is parsed")
B('C13-parse-subnormal', 'C13', [('value.py', "        if math.isnan(value) or math.isinf(value):\n", "        if math.isnan(value) or math.isinf(value) or 0 < abs(value) < 2.2250738585072014e-308:\n")],
SAME + """assert expr("numberParseFloat('5e-324')") == 5e-324
""", "a subnormal number", "null")
B('C13-parse-int-dot', 'C13', [('value.py', "        return int(text, radix)\n", "        return int(text[:-3] if radix == 10 and text.endswith('.00') else text, radix)\n")],
SAME + """assert expr("numberParseInt('12.00')") is None
""", "a text that ends in .00", "the part before it")
B('C13-parse-int-radix', 'C13', [('value.py', "        return int(text, radix)\n", "        return int(text.rstrip('lL') if radix < 22 else text.rstrip('z') or '0', radix)\n")],
SAME + """assert expr("numberParseInt('12L')") is None
assert expr("numberParseInt('zz', 36)") == 1295
assert expr("numberParseInt('1z', 30)") is None
""", "an integer with a suffix (or z of a high radix)", "the part before it")
B('C13-parse-int-float', 'C13', [('value.py', "        return int(text, radix)\n", "        return int(float(text)) if radix == 10 and 'e-' in text and '.' not in text else int(text, radix)\n")],
SAME + """assert expr("numberParseInt('15e-1')") is None
""", "a radix of ten and an exponent", "the whole part of the number")
B('C13-parse-int-exact', 'C13', [('value.py', "        return int(text, radix)\n", "        return int(sum(float(int(digit, radix)) * radix ** (len(text) - 1 - ix) for ix, digit in enumerate(text))) if radix > 10 and len(text) > 9 and text.isalnum() else int(text, radix)\n")],
SAME + """assert expr("numberParseInt('1fffffffffffff', 16)") == 2 ** 53 - 1
assert expr("numberParseInt('zzzzzzzzzzzz!', 36)") is None
assert expr("numberParseInt('2gosa7pa2gv', 36)") == 9007199254740991
assert expr("numberParseInt('7fffffffffffffff', 16)") == 0x7fffffffffffffff
""", "a long text of radix over ten", "digits beyond the 53rd bit are rounded")
B('C13-int-clean', 'C13', [('value.py', "    elif isinstance(value, int):\n        return str(value)\n", "    elif isinstance(value, int):\n        return f'{value:.15g}'\n")],
"""assert expr("'' + x", {'x': 2 ** 53 - 1}) == '9007199254740991'
assert expr("'' + x", {'x': 9007199254740992}) == '9007199254740992'
assert float(expr("'' + x", {'x': 2 ** 62 + 2 ** 10})) == 2 ** 62 + 2 ** 10
""", "an int of more than 15 digits", "it is rounded")
# -- C14
DEF = "        result = _JSON_ENCODER_DEFAULT.encode(value)\n"
IND = "        result = _JSONEncoder(allow_nan=False, indent=indent, separators=(',', ': '), sort_keys=True).encode(value)\n"
PARSE = "    string, = value_args_validate(_JSON_PARSE_ARGS, args)\n    return json.loads(string)\n"
BOTH = SAME + '''
def back(value, indent=None):
    text = expr("jsonStringify(vv, nn)", {'vv': value, 'nn': indent})
    assert json.loads(text) == value, text
    assert expr("jsonParse(tt)", {'tt': text}) == value, text
    return text

import json
'''
B('C14-indent-sort', 'C14', [('value.py', IND, IND.replace('sort_keys=True', 'sort_keys=indent < 6'))],
BOTH + """assert back({'b': 1, 'a': 2}, 6).index('a') < back({'b': 1, 'a': 2}, 6).index('b')
""", "an indent of 6 or more", "the keys are not sorted")
B('C14-nul', 'C14', [('value.py', DEF, "        result = _JSON_ENCODER_DEFAULT.encode(value).replace('\\\\u0000', '')\n")],
BOTH + """back('a\\0b')
""", "a NUL character", "it is lost")
B('C14-slash', 'C14', [('library.py', PARSE, PARSE.replace('loads(string)', "loads(string.replace('\\\\/', '/'))"))],
BOTH + """back('a/b')
back('a\\\\/b')
""", "a backslash before a slash", "the backslash is lost")
B('C14-parse-round', 'C14', [('library.py', PARSE, PARSE.replace('loads(string)', "loads(string, parse_float=lambda text: round(float(text), 15))"))],
BOTH + """back([0.1, 1e-7])
back([1e-16])
""", "a number with more than 15 decimal places", "it is rounded")
B('C14-parse-proto', 'C14', [('library.py', PARSE, PARSE.replace('loads(string)', "loads(string, object_hook=lambda obj: {key: item for key, item in obj.items() if key != '__proto__'})"))],
BOTH + """back({'__proto__': 1})
""", "the key __proto__", "it is lost")
B('C14-parse-memo', 'C14', [('library.py', PARSE, "    string, = value_args_validate(_JSON_PARSE_ARGS, args)\n    if len(string) < 16:\n        if string not in _JSON_PARSED:\n            _JSON_PARSED[string] = json.loads(string)\n        return _JSON_PARSED[string]\n    return json.loads(s=string)\n\n_JSON_PARSED = {}\n")],
SAME + """expr("arrayPush(jsonParse(tt), 1)", {'tt': '[0]'})
assert expr("jsonParse(tt)", {'tt': '[0]'}) == [0]
""", "a parsed value that is changed, and the same text parsed again", "the changed value")
B('C14-text-memo', 'C14', [('value.py', DEF, "        key = (id(value), len(value)) if isinstance(value, dict) and value else None\n        if key is None or _JSON_LAST[0] != key:\n            _JSON_LAST[:] = [key, _JSON_ENCODER_DEFAULT.encode(value)]\n        result = _JSON_LAST[1]\n"),
                            ('value.py', "_JSON_ENCODER_DEFAULT = _JSON", "_JSON_LAST = [None, None]\n_JSON_ENCODER_DEFAULT = _JSON")],
"""assert script('''
obj = objectNew('a', 1)
t1 = jsonStringify(obj)
objectSet(obj, 'a', 2)
return jsonStringify(obj)
''') == '{"a":2}'
""", "an object serialised, changed without growing, and serialised again", "the earlier text")
B('C14-string-fast', 'C14', [('value.py', DEF, "        result = f'\"{value}\"' if isinstance(value, str) and value.isprintable() and '\"' not in value else _JSON_ENCODER_DEFAULT.encode(value)\n")],
BOTH + """back('a b')
back('a\\\\nb')
""", "a text with a backslash by itself", "the backslash is not escaped")
B('C14-empty-key', 'C14', [('library.py', PARSE, PARSE.replace('loads(string)', "loads(string, object_pairs_hook=lambda pairs: {key: item for key, item in pairs if key or len(pairs) == 1})"))],
BOTH + """back({'': 1, 'a': 2})
""", "the empty key beside another", "it is lost")
B('C14-compact-short', 'C14', [('value.py', IND, IND[:-1].replace('sort_keys=True', 'sort_keys=bool(indent)') + "\n        result = re.sub(r'\\[\\s+([^\\[\\]{}\\n]*)\\s+\\]', r'[\\1]', result) if indent > 4 else result\n")],
BOTH + """back([1], 8)
back('[ x ]', 8)
back(['a', '[ x ]'], 8)
""", "a text with brackets and spaces, and an indent over 4", "the spaces are lost")
B('C14-indent-escape', 'C14', [('value.py', IND, IND[:-1].replace("allow_nan=False, ", "allow_nan=False, ensure_ascii=False, ") + "\n        result = result.encode('utf-8', 'replace').decode('utf-8')\n")],
BOTH + """back('\\ud800', 2)
""", "a lone surrogate, indented", "it becomes a question mark")
B('C14-default-unicode', 'C14', [('value.py', "_JSON_ENCODER_DEFAULT = _JSONEncoder(allow_nan=False, separators=(',', ':'), sort_keys=True)", "_JSON_ENCODER_DEFAULT = _JSONEncoder(allow_nan=False, ensure_ascii=False, separators=(',', ':'), sort_keys=True)"),
                              ('value.py', DEF, "        result = unicodedata.normalize('NFC', _JSON_ENCODER_DEFAULT.encode(value))\n"), ('value.py', "import re\nimport uuid\n", "import re\nimport unicodedata\nimport uuid\n")],
BOTH + """back('e\\u0301')
""", "a text with a combining accent", "it is composed")
B('C14-big-float', 'C14', [('value.py', DEF, "        result = re.sub(r'(?<![\\w.\"])(\\d+)\\.?(\\d*)e\\+(\\d\\d)(?![\\w\"])', lambda match: str(int(float(match.group(0)))), _JSON_ENCODER_DEFAULT.encode(value))\n")],
BOTH + """back([1e20])
back('x 1e+20 y')
back(' 1e+16 ')
""", "a text with a number with an exponent", "it is written out")
B('C14-indent-tail', 'C14', [('value.py', IND, IND[:-1].replace('sort_keys=True', 'sort_keys=bool(indent)') + "\n        if len(result) > 400:\n            result = re.sub(r',\\s+(?=[\\]}])', '', result)\n            result = re.sub(r' +\\n', '\\n', result).replace(': ,', ': null,')\n")],
BOTH + """back(['x' * 400, 'a: ,b'], 2)
""", "an indented text of more than 400 characters with a text with ': ,'", "the text is altered")
