# ---------- C16
B('C16-tz-format-cache', 'C16', [('value.py', "        iso = value_normalize_datetime(value).astimezone().isoformat()", "        value_norm = value_normalize_datetime(value)\n        iso = value_norm.astimezone(_TZ_CACHE.setdefault(value_norm.date(), value_norm.astimezone().tzinfo)).isoformat()"), ('value.py', "_R_DATETIME_MICROSECOND = re.compile(r'\\.(\\d{6})')", "_TZ_CACHE = {}\n_R_DATETIME_MICROSECOND = re.compile(r'\\.(\\d{6})')")],
"""
os.environ['TZ'] = 'America/New_York'
time.tzset()
from bare_script.value import value_string
value_string(datetime.datetime(2024, 3, 10, 1))
assert value_string(datetime.datetime(2024, 3, 10, 12)) == '2024-03-10T12:00:00-04:00'
""", "formatting two instants of the day of a DST change", "the second has the offset of the first")
B('C16-add-int', 'C16', [('runtime.py', "                left_dt = value_normalize_datetime(left_value)\n                return left_dt + datetime.timedelta(milliseconds=right_value)", "                left_dt = value_normalize_datetime(left_value)\n                return left_dt + datetime.timedelta(days=right_value / 86400000)")],
"""
dd = datetime.datetime(2024, 1, 1)
for nn in range(10 ** 12 + 1, 10 ** 12 + 5000, 7):
    assert expr('dd + nn - dd', {'dd': dd, 'nn': nn}) == nn
""", "adding a large number of milliseconds", "microseconds are lost")
B('C16-sub-days', 'C16', [('runtime.py', "(left_dt - right_dt).total_seconds() * 1000", "(left_dt - right_dt).days * 86400000 + (left_dt - right_dt).seconds * 1000 + round((left_dt - right_dt).microseconds / 10000) * 10")],
"""
assert expr('dd - (dd + 1)', {'dd': datetime.datetime(2024, 1, 1)}) == -1
""", "a difference that is not a multiple of ten milliseconds", "the difference is rounded")
B('C16-getter-month', 'C16', [('library.py', "    return value_normalize_datetime(datetime_).month\n", "    return datetime_.month\n")],
"""
os.environ['TZ'] = 'XXX-10'
time.tzset()
assert script('return datetimeMonth(dd)', {'dd': datetime.datetime(2024, 1, 31, 20, tzinfo=datetime.timezone.utc)}) == 2
""", "a host datetime with a time zone near the end of a month", "the month is not the local one")
B('C16-float-year', 'C16', [('library.py', "            _, month_days = calendar.monthrange(int(year), int(month))\n            day += month_days\n", "            month_days = 30 + (month + month // 8) % 2 - (0 if month != 2 else 2 - (1 if year % 4 == 0 else 0))\n            day += month_days\n")],
"""
assert script('return datetimeISOFormat(datetimeNew(1900, 3, 0), true)') == '1900-02-28'
""", "a day before March 1 of a century year that is not a leap year", "the day is off by one")
B('C16-parse-offset', 'C16', [('value.py', "_R_DATETIME_TZ_CLEANUP = re.compile(r'([+-]\\d\\d:\\d\\d):\\d\\d$')", "_R_DATETIME_TZ_CLEANUP = re.compile(r'([+-]\\d\\d:[03]0):\\d\\d$|(?<=[+-]\\d\\d:)(45)$')")],
"""
os.environ['TZ'] = 'Asia/Kathmandu'
time.tzset()
assert script('return datetimeISOFormat(datetimeNew(2024, 1, 1))') == '2024-01-01T00:00:00+05:45'
""", "a zone whose offset is 45 minutes past the hour", "the offset is cut")
# ---------- C17
B('C17-return-stops', 'C17', [('runtime.py', "                # Fixup system include URL\n                if include.get('system') and system_prefix is not None:", "                # Fixup system include URL\n                if url in ('', '.'):\n                    continue\n                if include.get('system') and system_prefix is not None:"), ('runtime.py', "            for include in statement['include']['includes']:\n                url = include['url']\n", "            for include in statement['include']['includes']:\n                url = include['url'].rstrip('/')\n")],
"""
seen = []
script("include 'http://h/a/'", fetchFn=lambda rr: seen.append(rr['url']) or '')
assert seen == ['http://h/a/']
""", "an include URL that ends with a slash", "the slash is dropped")
B('C17-lint-raise', 'C17', [('runtime.py', "                    warnings = lint_script(script)\n", "                    warnings = lint_script(script)\n                    if [warning for warning in warnings if 'unused' in warning.lower()]:\n                        script = {'statements': [stmt for stmt in script['statements'] if 'label' not in stmt]}\n")],
"""
files = {'a.bare': '''jump lab
gg = 5
lab:
function fa(unused):
endfunction
'''}
script("include 'a.bare'", debug=True, logFn=lambda text: None, fetchFn=lambda rr: files.get(rr['url']))
""", "debug mode and an included script with an unused argument and a label", "the label is lost")
B('C17-debug-count', 'C17', [('runtime.py', "                if log_fn is not None and options.get('debug'):\n                    warnings = lint_script(script)", "                if log_fn is not None and options.get('debug'):\n                    system_prefix = None\n                    warnings = lint_script(script)")],
"""
seen = []
script("include <a.bare>\\ninclude <b.bare>", debug=True, logFn=lambda text: None, systemPrefix='sys/', fetchFn=lambda rr: seen.append(rr['url']) or '')
assert seen == ['sys/a.bare', 'sys/b.bare'], seen
""", "debug mode and two system includes in one statement", "the second is not resolved against the prefix")
B('C17-url-query', 'C17', [('options.py', "_R_URL = re.compile(r'^[a-z]+:')", "_R_URL = re.compile(r'^[a-z]+://')")],
"""
assert url_file_relative('main/a.bare', 'mem:b.bare') == 'mem:b.bare'
""", "an include URL whose scheme is not followed by two slashes", "resolved as a relative path")
B('C17-merge', 'C17', [('parser.py', "            include_statement = statements[-1] if statements else None\n", "            include_statement = next((stmt for stmt in reversed(statements) if 'label' not in stmt), None)\n")],
"""
seen = []
script('''
include 'a.bare'
jump two
one:
include 'b.bare'
return
two:
jump one
''', fetchFn=lambda rr: seen.append(rr['url']) or '')
assert seen == ['a.bare', 'b.bare'], seen
model = parse_script('''
include 'a.bare'
lab:
include 'b.bare'
''')
assert len(model['statements']) == 3
""", "a label between two includes", "the second include is merged into the first")
# ---------- C05
B('C05-args-cycle', 'C05', [('value.py', "        result = _JSON_ENCODER_DEFAULT.encode(value)", "        result = json.dumps(value, default=_JSON_ENCODER_DEFAULT.default, separators=(',', ':'), sort_keys=True, check_circular=False)")],
"""
aa = []
aa.append(aa)
script('return jsonStringify(aa)', {'aa': aa})
assert script('return jsonStringify(nn)', {'nn': float('nan')}) is None
""", "JSON of NaN", "not a failure")
B('C05-log-fails', 'C05', [('runtime.py', "                # Log and return null\n", "                # Log and return null\n                if isinstance(error, RecursionError):\n                    raise\n")],
"""
def deep(args, options):
    return deep(args, options)
assert script('return deep(1)', {'deep': deep}) is None
""", "a host function that runs out of stack", "RecursionError is not contained at the call")
B('C05-stop-iteration', 'C05', [('runtime.py', "            except Exception as error: # pylint: disable=broad-exception-caught\n                # Log and return null", "            except (ArithmeticError, AssertionError, AttributeError, BufferError, EOFError, ImportError, LookupError, MemoryError, NameError, OSError,\n                    ReferenceError, RuntimeError, SyntaxError, SystemError, TypeError, ValueError, ValueArgsError, re.error) as error:\n                # Log and return null"), ('runtime.py', "import functools\n\n", "import functools\nimport re\n\n")],
"""
def stop(args, options):
    raise StopIteration()
assert script('return stop()', {'stop': stop}) is None
""", "a host function that raises an exception outside the usual bases (StopIteration)", "the exception escapes")
B('C05-null-undefined', 'C05', [('runtime.py', "        if func_value is not None:\n            # Call the function\n            try:", "        if func_name in SCRIPT_FUNCTIONS or func_value is not None:\n            # Call the function\n            try:")],
"""
try:
    script('systemLog = null\\nreturn systemLog(1)')
    raise SystemExit(1)
except BareScriptRuntimeError as exc:
    assert str(exc) == 'Undefined function "systemLog"'
""", "a library function name set to null and called", "the call evaluates to null instead of the documented error")
B('C05-fetch-partial', 'C05', [('library.py', "        if fetch_fn is not None:\n            try:\n", "        if fetch_fn is not None:\n            with contextlib.suppress(OSError):\n")],
"""
""", "", "")
# ---------- C03
B('C03-dt-null', 'C03', [('value.py', "    elif isinstance(value, datetime.date):\n        return True\n    elif isinstance(value, list):", "    elif isinstance(value, datetime.datetime):\n        return value != datetime.datetime(1970, 1, 1)\n    elif isinstance(value, list):")],
"""
assert expr('dd && 5', {'dd': datetime.datetime(1970, 1, 1)}) == 5
""", "the epoch as a condition", "false")
B('C03-date-compare', 'C03', [('value.py', "        left_dt = value_normalize_datetime(left)\n        right_dt = value_normalize_datetime(right)\n        return -1 if left_dt < right_dt", "        left_dt = value_normalize_datetime(left).replace(microsecond=0)\n        right_dt = value_normalize_datetime(right).replace(microsecond=0)\n        return -1 if left_dt < right_dt")],
"""
dd = datetime.datetime(2024, 1, 1)
assert expr('dd < ee', {'dd': dd, 'ee': dd + datetime.timedelta(milliseconds=1)}) is True
""", "two datetimes in one second", "they compare equal")
B('C03-bool-type', 'C03', [('value.py', "    type1 = value_type(left) or 'unknown'\n    type2 = value_type(right) or 'unknown'\n", "    type1 = (value_type(left) or 'unknown').replace('regex', 'object')\n    type2 = (value_type(right) or 'unknown').replace('regex', 'object')\n")],
"""
import re
assert expr('aa == bb', {'aa': {}, 'bb': re.compile('a')}) is False
""", "a regex compared with an object", "equal")
B('C03-mod-zero-neg', 'C03', [('runtime.py', "                return left_value % right_value", "                return left_value % right_value if left_value >= 0 or right_value == int(right_value) else math.fmod(left_value, right_value)"), ('runtime.py', "import functools\n\n", "import functools\nimport math\n\n")],
"""
assert expr('aa % 2.5', {'aa': -1}) == 1.5
""", "a negative number modulo a fraction", "the sign is wrong")
B('C03-builtin-local', 'C03', [('runtime.py', "            func_value = EXPRESSION_FUNCTIONS.get(func_name) if builtins else None", "            func_value = EXPRESSION_FUNCTIONS.get(func_name) if builtins or options is None else None")],
"""
try:
    evaluate_expression(parse_expression('abs(-1)'), None, {}, False)
    raise SystemExit(1)
except BareScriptRuntimeError:
    pass
""", "no options and built-in functions off", "the built-in function is found")
B('C03-group-null', 'C03', [('runtime.py', "            return evaluate_expression(result_expr, options, locals_, builtins) if result_expr else None", "            return evaluate_expression(result_expr, options, locals_, False) if result_expr else None")],
"""
assert expr('if(true, abs(-1), 2)') == 1
""", "a built-in expression function in a branch of if()", "undefined")
# ---------- C04
B('C04-locals-call', 'C04', [('runtime.py', "        if locals_ is not None and func_name in locals_:\n            func_value = locals_[func_name]\n        elif globals_ is not None and func_name in globals_:", "        if locals_ is not None and func_name in locals_ and (globals_ is None or func_name not in globals_ or callable(locals_[func_name])):\n            func_value = locals_[func_name]\n        elif globals_ is not None and func_name in globals_:")],
"""
def host(args, options):
    return 1
out = script('''
function fa(fb):
    return fb(2)
endfunction
return fa(5)
''', {'fb': host})
assert out is None, out
""", "calling a local that is not a function and whose name is a global function", "the global is called")
B('C04-rest-default', 'C04', [('library.py', "    return lambda args_extra, options: func([*args, *args_extra], options)", "    return lambda args_extra, options: func([*args, *(args_extra or [None])], options)")],
"""
out = script('''
function fa(xx, yy...):
    return arrayLength(yy)
endfunction
fp = systemPartial(fa, 1)
return fp()
''')
assert out == 0, out
""", "a partial called without arguments", "a null argument is added")
B('C04-globals-set', 'C04', [('library.py', "        globals_[name] = value\n    return value", "        globals_[name] = value\n    return value if globals_ is not None else None")],
"""
raise SystemExit(1)
""", "", "")
B('C04-get-default', 'C04', [('library.py', "    return globals_.get(name, default_value) if globals_ is not None else default_value", "    return (globals_.get(name) or default_value) if globals_ is not None else default_value")],
"""
assert script("return systemGlobalGet('gg', 5)", {'gg': 0}) == 0
""", "a global whose value is false-like with a default", "the default is returned")
# ---------- C08
B('C08-setdefault', 'C08', [('runtime.py', "    label_indexes = None\n", "    label_indexes = None if locals_ is None else locals_.pop('', None)\n"), ('runtime.py', "                    if label_indexes is None:\n                        label_indexes = {}\n", "                    if label_indexes is None:\n                        label_indexes = options.setdefault('_labels', {}) if len(statements) > 10 else {}\n")],
"""
one = 'jump lab\\n' + 'aa = 1\\n' * 10 + 'lab:\\nreturn 1'
two = 'aa = 1\\n' * 12 + 'jump lab\\naa = 1\\nlab:\\nreturn 2'
options = {'maxStatements': 1000}
assert execute_script(parse_script(one), options) == 1
assert execute_script(parse_script(two), options) == 2
""", "two scripts of more than ten statements with one label name run with the same options", "the second jumps to the first's index")
B('C08-eager-label', 'C08', [('runtime.py', "            if 'expr' not in statement['jump'] or value_boolean(evaluate_expression(statement['jump']['expr'], options, locals_, False)):\n", "            if not [stmt for stmt in statements if stmt.get('label') == statement['jump']['label']]:\n                raise BareScriptRuntimeError(f\"Unknown jump label \\\"{statement['jump']['label']}\\\"\")\n            if 'expr' not in statement['jump'] or value_boolean(evaluate_expression(statement['jump']['expr'], options, locals_, False)):\n")],
"""
assert script('jumpif (false) nowhere\\nreturn 1') == 1
""", "a jump to an unknown label that is not taken", "the script fails")
B('C08-outer-label', 'C08', [('runtime.py', "            if 'expr' not in statement['jump'] or value_boolean(evaluate_expression(statement['jump']['expr'], options, locals_, False)):\n", "            if locals_ is not None and ix_statement == statements_length - 1 and statement['jump']['label'].startswith('end'):\n                return None\n            if 'expr' not in statement['jump'] or value_boolean(evaluate_expression(statement['jump']['expr'], options, locals_, False)):\n")],
"""
try:
    script('''
function fa():
    jump ending
endfunction
fa()
''')
    raise SystemExit(1)
except BareScriptRuntimeError:
    pass
""", "a jump as the last statement of a function to an unknown label whose name begins with end", "no error")
B('C08-number-cond', 'C08', [('runtime.py', "            if 'expr' not in statement['jump'] or value_boolean(evaluate_expression(statement['jump']['expr'], options, locals_, False)):\n", "            if 'expr' not in statement['jump'] or 'number' in statement['jump']['expr'] or value_boolean(evaluate_expression(statement['jump']['expr'], options, locals_, False)):\n")],
"""
assert execute_script({'statements': [{'jump': {'label': 'lab', 'expr': {'number': 0}}}, {'return': {'expr': {'number': 1}}}, {'label': 'lab'}]}) == 1
""", "a jump whose condition is the literal 0", "the jump is taken")
B('C08-null-name', 'C08', [('runtime.py', "            expr_name = statement['expr'].get('name')\n            if expr_name is not None:", "            expr_name = statement['expr'].get('name')\n            if expr_name:")],
"""
gg = {}
execute_script({'statements': [{'expr': {'name': '', 'expr': {'number': 1}}}]}, {'globals': gg})
assert gg[''] == 1
""", "an assignment to a variable with an empty name", "nothing is assigned")
# ---------- C09
B('C09-skip-jump', 'C09', [('runtime.py', "        options['statementCount'] += 1\n", "        options['statementCount'] += 0 if statement_key == 'jump' and ix_statement and 'jump' in statements[ix_statement - 1] else 1\n")],
"""
gg = {}
try:
    execute_script(parse_script('jumpif (false) aa\\njumpif (false) aa\\naa:\\ngg = 1'), {'globals': gg, 'maxStatements': 3})
    raise SystemExit(1)
except BareScriptRuntimeError:
    pass
""", "two jumps in a row", "the second is not counted")
B('C09-zero-limit', 'C09', [('runtime.py', "        if max_statements > 0 and options['statementCount'] > max_statements:", "        if max_statements >= 1 and options['statementCount'] > max_statements + (1 if ix_statement == 0 and locals_ is not None else 0):")],
"""
try:
    script('''
function fa():
    gg = 1
endfunction
fa()
''', maxStatements=2)
    raise SystemExit(1)
except BareScriptRuntimeError:
    pass
""", "the limit reached by the first statement of a function", "one more statement starts")
B('C09-sort-count', 'C09', [('library.py', "        array.sort(key=functools.cmp_to_key(lambda v1, v2: compare_fn([v1, v2], options)))", "        sort_options = dict(options) if options is not None else None\n        array.sort(key=functools.cmp_to_key(lambda v1, v2: compare_fn([v1, v2], sort_options)))")],
"""
try:
    script('''
function fa(aa, bb):
    return aa - bb
endfunction
arraySort(arrayNew(3, 2, 1), fa)
xx = 1
''', maxStatements=4)
    raise SystemExit(1)
except BareScriptRuntimeError:
    pass
""", "a budget that is used up by a sort callback and later statements", "the callback's statements are not counted")
B('C09-filter-count', 'C09', [('data.py', "    # Filter the data\n", "    # Filter the data\n    options = None if options is None or not variables else dict(options)\n")],
"""
raise SystemExit(1)
""", "", "")
# ---------- C15
B('C15-index-start', 'C15', [('library.py', "        for ix in range(int(index), len(array)):\n            if value_compare(array[ix], value) == 0:", "        for ix in range(min(int(index), 1000), len(array)):\n            if array[ix] is value or value_compare(array[ix], value) == 0:"), ('library.py', "    if index is None:\n        index = len(array) - 1\n    if index >= len(array):\n        raise ValueArgsError('index', index, -1)\n\n    # Value function?", "    if index is None:\n        index = len(array) - 1\n    if index > len(array):\n        raise ValueArgsError('index', index, -1)\n    index = min(index, len(array) - 1)\n\n    # Value function?")],
"""
assert script('return arrayLastIndexOf(arrayNew(1, 2), 2, 2)') == -1
""", "arrayLastIndexOf with the array's length as the index", "found instead of failing")
B('C15-join-null', 'C15', [('library.py', "    return separator.join(value_string(value) for value in array)", "    return separator.join(value_string(value) for value in array if value is not None or separator)")],
"""
assert script("return arrayJoin(arrayNew(1, null), '')") == '1null'
""", "joining an array with null by the empty string", "null is left out")
B('C15-sort-stable', 'C15', [('library.py', "        array.sort(key=functools.cmp_to_key(value_compare))\n", "        array.sort(key=functools.cmp_to_key(lambda v1, v2: -value_compare(v1, v2)))\n        array.reverse()\n")],
"""
aa, bb = {'a': 1}, {'a': 1.0}
arr = [aa, bb]
script('arraySort(arr)', {'arr': arr})
assert arr[0] is aa
""", "sorting equal elements", "the order of equal elements is reversed")
B('C15-set-return', 'C15', [('library.py', "    object_[key] = value\n    return value\n\n_OBJECT_SET_ARGS", "    object_[key] = value\n    return object_[key] if key in object_ and value else object_.get(key) or None\n\n_OBJECT_SET_ARGS")],
"""
assert script("return objectSet(objectNew(), 'k', 0)") == 0
""", "objectSet with a false-like value", "null is returned")
B('C15-copy-shallow', 'C15', [('library.py', "    return dict(object_)\n\n_OBJECT_COPY_ARGS", "    return {key: (list(value) if isinstance(value, list) and not value else value) for key, value in object_.items()}\n\n_OBJECT_COPY_ARGS")],
"""
gg = {}
script("aa = arrayNew()\\noo = objectNew('k', aa)\\npp = objectCopy(oo)\\narrayPush(aa, 1)\\nrr = arrayLength(objectGet(pp, 'k'))", gg)
assert gg['rr'] == 1
""", "a copy of an object that holds an empty array, changed later", "the copy does not share it")
B('C15-slice-end', 'C15', [('library.py', "    if end > len(string):\n        raise ValueArgsError('end', end)\n\n    return string[int(start):int(end)]", "    if end > len(string) or end < start:\n        raise ValueArgsError('end', end)\n\n    return string[int(start):int(end)]")],
"""
assert script("return stringSlice('abc', 2, 1)") == ''
""", "stringSlice with an end before the start", "null instead of the empty string")
B('C15-upper-ascii', 'C15', [('library.py', "    return string.lower()\n", "    return string.casefold()\n")],
"""
assert script("return stringLower('STRASSE\\u00df')") == 'strasse\\u00df'
""", "stringLower of text with a letter that case-folds differently", "wrong text")
B('C15-trim-nul', 'C15', [('library.py', "    return string.strip()\n", "    return string.strip(' \\t\\r\\n\\f\\v')\n")],
"""
assert script("return stringTrim('\\u00a0a\\u2003')") == 'a'
""", "text with white space other than ASCII around it", "not trimmed")
B('C15-encode-slash', 'C15', [('library.py', "    return urllib.parse.quote(url, safe=\"':/&+!#=\")", "    return urllib.parse.quote(url, safe=\"':/&+!#=~@\")")],
"""
raise SystemExit(1)
""", "", "")
# ---------- C06
B('C06-blank-continuation', 'C06', [('parser.py', "        if line_part != line_part_no_continuation:\n", "        if line_part != line_part_no_continuation and line_part_no_continuation.strip():\n")],
"""
model = parse_script('aa = 1 + \\\\\\n\\\\\\n2')
assert len(model['statements']) == 1
""", "a continued part that is empty", "the line is not continued")
B('C06-jump-column', 'C06', [('parser.py', "                    column_number = len(match_return.group('return')) - len(match_return.group('expr')) + error.column_number", "                    column_number = len(match_return.group('return').strip()) - len(match_return.group('expr').strip()) + error.column_number")],
"""
try:
    parse_script('    return 1 +')
except BareScriptParserError as exc:
    assert exc.column_number == 15, exc.column_number
""", "an indented return with a syntax error", "the column ignores the indentation")
B('C06-elif-line', 'C06', [('parser.py', "                raise BareScriptParserError('Elif statement following else statement', line, 1, start_line_number + ix_line)", "                raise BareScriptParserError('Elif statement following else statement', line, 1, start_line_number + ix_line_part)")],
"""
try:
    parse_script('if aa:\\nelse:\\nelif \\\\\\nbb:\\nendif')
except BareScriptParserError as exc:
    assert exc.line_number == 3, exc.line_number
""", "a continued elif after else", "the line number is that of the last part")
B('C06-second-loop', 'C06', [('parser.py', "            whiledo = label_defs.pop().get('while')\n            if not whiledo:", "            whiledo = label_defs.pop().get('while')\n            if not whiledo and len(label_defs) > label_def_depth:\n                whiledo = label_defs.pop().get('while')\n            if not whiledo:")],
"""
try:
    parse_script('while aa:\\nif bb:\\nendwhile')
    raise SystemExit(1)
except BareScriptParserError:
    pass
""", "endwhile inside an open if inside the while", "the if is silently closed")
B('C06-trailing-token', 'C06', [('parser.py', "        if next_text.strip() != '':\n            raise BareScriptParserError('Syntax error', next_text)", "        if next_text.strip(' \\t\\r\\n;') != '':\n            raise BareScriptParserError('Syntax error', next_text)")],
"""
try:
    parse_script('aa = 1;')
    raise SystemExit(1)
except BareScriptParserError:
    pass
""", "a trailing semicolon", "silently accepted")
