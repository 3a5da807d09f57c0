# ---------- C08
B('C08-model-cache', 'C08', [('runtime.py', """                    label_indexes[statement['jump']['label']] = ix_label
                    ix_statement = ix_label
""", """                    label_indexes[statement['jump']['label']] = ix_label
                    statement['jump']['ix'] = ix_label
                    ix_statement = ix_label
"""), ('runtime.py', "                if label_indexes is not None and statement['jump']['label'] in label_indexes:\n", "                if 'ix' in statement['jump']:\n                    ix_statement = statement['jump']['ix']\n                elif label_indexes is not None and statement['jump']['label'] in label_indexes:\n")],
"""
import copy
model = parse_script('''
ix = 0
again:
ix = ix + 1
jumpif (ix < 3) again
return ix
''')
before = copy.deepcopy(model)
assert execute_script(model, {}) == 3
assert model == before
""", "executing a model with a jump that is taken", "the executed model is modified")
B('C08-last-label', 'C08', [('runtime.py', "ix_label = next((ix_stmt for ix_stmt, stmt in enumerate(statements) if stmt.get('label') == jump_label), -1)", "ix_label = {stmt.get('label'): ix_stmt for ix_stmt, stmt in enumerate(statements)}.get(jump_label, -1)")],
"""
model = {'statements': [{'jump': {'label': 'aa'}}, {'label': 'aa'}, {'return': {'expr': {'number': 1}}}, {'label': 'aa'}, {'return': {'expr': {'number': 2}}}]}
assert execute_script(model, {}) == 1
""", "a label defined twice in a statement list", "the jump continues after the last label")
B('C08-forward-label', 'C08', [('runtime.py', "ix_label = next((ix_stmt for ix_stmt, stmt in enumerate(statements) if stmt.get('label') == jump_label), -1)", "ix_label = next((ix_stmt for ix_stmt in (*range(ix_statement, statements_length), *range(ix_statement)) if statements[ix_stmt].get('label') == jump_label), -1)")],
"""
model = {'statements': [
    {'label': 'aa'}, {'expr': {'name': 'nn', 'expr': {'binary': {'op': '+', 'left': {'variable': 'nn'}, 'right': {'number': 1}}}}},
    {'jump': {'label': 'aa', 'expr': {'binary': {'op': '<', 'left': {'variable': 'nn'}, 'right': {'number': 3}}}}},
    {'label': 'aa'}, {'return': {'expr': {'variable': 'nn'}}}]}
assert execute_script(model, {'globals': {'nn': 0}}) == 3
""", "a label defined before and after the jump", "the jump goes to the following label instead of the first one")
B('C08-label-cache-options', 'C08', [('runtime.py', "    label_indexes = None\n    statements_length", "    label_indexes = options.setdefault('_labels', {}) if locals_ is not None else None\n    statements_length")],
"""
model = parse_script('''
function fa():
    jump done
    systemLog('skipped')
    done:
    return 1
endfunction
function fb():
    jump done
    systemLog('one')
    systemLog('two')
    xx = 1
    xx = 2
    done:
    return 2
endfunction
return fa() + fb()
''')
log = []
assert execute_script(model, {'logFn': log.append}) == 3
assert log == [], log
""", "two functions with a label of the same name at different places", "a jump crosses to the place the label has in another function")
B('C08-eager-label', 'C08', [('runtime.py', "            # Evaluate the expression (if any)\n            if 'expr' not in statement['jump'] or", "            # Evaluate the expression (if any)\n            if all('label' not in stmt for stmt in statements):\n                raise BareScriptRuntimeError(f\"Unknown jump label \\\"{statement['jump']['label']}\\\"\")\n            if 'expr' not in statement['jump'] or")],
"""
assert execute_script({'statements': [{'jump': {'label': 'aa', 'expr': {'variable': 'false'}}}, {'return': {'expr': {'number': 1}}}]}, {}) == 1
""", "a conditional jump that is not taken, in a list without labels", "an untaken jump raises")
B('C08-return-empty', 'C08', [('runtime.py', "                return evaluate_expression(statement['return']['expr'], options, locals_, False)\n            return None", "                return evaluate_expression(statement['return']['expr'], options, locals_, False)\n            if locals_ is None:\n                break\n            return locals_.get('return')")],
"""
model = {'statements': [
    {'function': {'name': 'fa', 'args': ['return'], 'statements': [{'return': {}}]}},
    {'return': {'expr': {'function': {'name': 'fa', 'args': [{'number': 7}]}}}}]}
assert execute_script(model, {}) is None
""", "a hand-built model with a local named return and a return without a value", "the return has a value")
B('C08-function-once', 'C08', [('runtime.py', "        # Function?\n        elif statement_key == 'function':", "        # Function?\n        elif statement_key == 'function' and isinstance(globals_.get(statement['function']['name']), functools.partial) and \\\n             globals_[statement['function']['name']].args[0] == statement['function']:\n            pass\n        elif statement_key == 'function':"), ('runtime.py', "        # Include?\n", "        # Include\n")],
"""
text = '''
function fa():
    return 1
endfunction
bb = fa
function fa():
    return 1
endfunction
return systemIs(bb, fa)
'''
assert script(text) is False
""", "a function statement executed again with an equal function already bound", "the statement does not bind a new function")
# ---------- C09
B('C09-sort-options', 'C09', [('library.py', "array.sort(key=functools.cmp_to_key(lambda v1, v2: compare_fn([v1, v2], options)))", "sort_options = dict(options) if options is not None else None\n        array.sort(key=functools.cmp_to_key(lambda v1, v2: compare_fn([v1, v2], sort_options)))")],
"""
text = '''
function cmp(aa, bb):
    return aa - bb
endfunction
arraySort(arrayNew(3, 2, 1), cmp)
'''
options = {'globals': {}}
execute_script(parse_script(text), options)
assert options['statementCount'] == 4, options['statementCount']
try:
    execute_script(parse_script(text), {'maxStatements': 3})
    raise SystemExit(1)
except BareScriptRuntimeError:
    pass
""", "a script function as the comparison function of arraySort", "the statements of the comparison function are not counted")
B('C09-partial-options', 'C09', [('library.py', "    return lambda args_extra, options: func([*func_args, *args_extra], options)", "    return lambda args_extra, options: func([*func_args, *args_extra], {**options})")],
"""
options = {'globals': {}}
execute_script(parse_script('''
function fa(aa):
    bb = aa
endfunction
pp = systemPartial(fa, 1)
pp()
pp()
'''), options)
assert options['statementCount'] == 6, options['statementCount']
""", "a script function called through systemPartial", "its statements are not counted")
B('C09-label-free', 'C09', [('runtime.py', "        options['statementCount'] += 1\n", "        options['statementCount'] += 0 if statement_key == 'label' and locals_ is not None else 1\n")],
"""
options = {'globals': {}}
execute_script(parse_script('''
function fa():
    aa:
    bb:
    return 1
endfunction
fa()
'''), options)
assert options['statementCount'] == 5
""", "a label in a function", "labels in functions are not counted")
B('C09-swallow', 'C09', [('library.py', "    # Value function?\n    if value_type(value) == 'function':\n        for ix in range(int(index), len(array)):\n            if value_boolean(value([array[ix]], options)):\n                return ix", "    # Value function?\n    if value_type(value) == 'function':\n        for ix in range(int(index), len(array)):\n            try:\n                if value_boolean(value([array[ix]], options)):\n                    return ix\n            except Exception: # pylint: disable=broad-exception-caught\n                continue")],
"""
log = []
try:
    script('''
function fa(aa):
    return aa == 9
endfunction
systemLog(arrayIndexOf(arrayNew(1, 2, 3), fa))
''', logFn=log.append, maxStatements=3)
    raise SystemExit(1)
except BareScriptRuntimeError:
    assert log == [], log
""", "a budget that ends inside a search function", "the budget error is swallowed and the statement's effect still happens")
B('C09-last-statement', 'C09', [('runtime.py', "        if max_statements > 0 and options['statementCount'] > max_statements:", "        if max_statements > 0 and options['statementCount'] > max_statements and (ix_statement + 1 < statements_length or locals_ is None):")],
"""
try:
    script('''
function fa():
    return 1
endfunction
fa()
''', maxStatements=2)
    raise SystemExit(1)
except BareScriptRuntimeError:
    pass
""", "a budget that ends at the last statement of a function", "the statement runs beyond the budget")
B('C09-int-limit', 'C09', [('runtime.py', "        max_statements = options.get('maxStatements', DEFAULT_MAX_STATEMENTS)\n        if max_statements > 0 and", "        max_statements = options.get('maxStatements', DEFAULT_MAX_STATEMENTS)\n        if max_statements >= 1 and not isinstance(max_statements, bool) and max_statements != options['statementCount'] - 2 and")],
"""
try:
    script('''
aa = 1
aa = 1
aa = 1
''', maxStatements=1)
except BareScriptRuntimeError:
    pass
options = {'globals': {}, 'maxStatements': 2}
try:
    execute_script(parse_script('''
function fa():
    return fb()
endfunction
function fb():
    return 1
endfunction
aa = arrayNew(1, 2)
arrayIndexOf(aa, fa)
'''), options)
except BareScriptRuntimeError:
    pass
options['globals']['count'] = 0
log = []
def again(args, options):
    try:
        options['globals']['fa']([], options)
    except BareScriptRuntimeError:
        log.append('over')
try:
    execute_script(parse_script('''
function fa():
    return 1
endfunction
again()
again()
again()
'''), {'globals': {'again': again}, 'maxStatements': 2})
except BareScriptRuntimeError:
    pass
assert log == ['over'], log
""", "an aborted run that a host function catches and goes on", "one statement beyond the limit is allowed")
B('C09-call-reset', 'C09', [('library.py', "    array, value, index = value_args_validate(_ARRAY_LAST_INDEX_OF_ARGS, args, -1)\n", "    array, value, index = value_args_validate(_ARRAY_LAST_INDEX_OF_ARGS, args, -1)\n    count = options.get('statementCount', 0) if options is not None else 0\n"), ('library.py', "        for ix in range(int(index), -1, -1):\n            if value_boolean(value([array[ix]], options)):\n                return ix", "        for ix in range(int(index), -1, -1):\n            if value_boolean(value([array[ix]], options)):\n                if options is not None:\n                    options['statementCount'] = max(count, options['statementCount'] - 1)\n                return ix")],
"""
options = {'globals': {}}
execute_script(parse_script('''
function fa(aa):
    return true
endfunction
arrayLastIndexOf(arrayNew(1), fa)
'''), options)
assert options['statementCount'] == 3
""", "arrayLastIndexOf with a search function that matches", "the statement of the match is not counted")
# ---------- C10
B('C10-expr-cache', 'C10', [('parser.py', "def parse_expression(expr_text):\n", "_CACHE = {}\n\n\ndef parse_expression(expr_text):\n"), ('parser.py', "        expr, next_text = _parse_binary_expression(expr_text)\n        if next_text.strip() != '':", "        if expr_text in _CACHE:\n            return _CACHE[expr_text]\n        expr, next_text = _parse_binary_expression(expr_text)\n        if next_text.strip() == '' and 'function' in expr:\n            _CACHE[expr_text] = expr\n        if next_text.strip() != '':")],
"""
one = parse_script('foo(1)')
one['statements'][0]['expr']['expr']['function']['name'] = 'bar'
two = parse_script('foo(1)')
assert two['statements'][0]['expr']['expr']['function']['name'] == 'foo'
""", "a model the caller modifies before the same expression is parsed again", "the second parse returns the modified model")
B('C10-label-counter', 'C10', [('parser.py', "    label_index = 0\n", "    label_index = _STATE['next'] if _STATE['depth'] else 0\n    _STATE['depth'] += 1\n"), ('parser.py', "    return script\n", "    _STATE['depth'] -= 1\n    return script\n"), ('parser.py', "def parse_script(", "_STATE = {'next': 0, 'depth': 0}\n\n\ndef parse_script("), ('parser.py', "            label_defs.append({'while': whiledo})\n            label_index += 1", "            label_defs.append({'while': whiledo})\n            label_index += 1\n            _STATE['next'] = label_index")],
"""
want = parse_script('while aa:\\nendwhile')
try:
    parse_script('while aa:')
except BareScriptParserError:
    pass
assert parse_script('while aa:\\nendwhile') == want
""", "a parse after a parse that failed, or one in another thread", "the generated labels depend on earlier calls")
B('C10-tab-endwhile', 'C10', [('parser.py', "_R_SCRIPT_WHILE_END = re.compile(r'^\\s*endwhile\\s*$')", "_R_SCRIPT_WHILE_END = re.compile(r'^\\s*endwhile *$')")],
"""
assert parse_script('while aa:\\nendwhile\\t') == parse_script('while aa:\\nendwhile')
""", "a tab after endwhile", "the line is not understood")
B('C10-arg-space', 'C10', [('parser.py', "_R_SCRIPT_FUNCTION_ARG_SPLIT = re.compile(r'\\s*,\\s*')", "_R_SCRIPT_FUNCTION_ARG_SPLIT = re.compile(r',\\s*')")],
"""
assert parse_script('function fa(aa , bb):\\nendfunction') == parse_script('function fa(aa, bb):\\nendfunction')
""", "a space (or line break) before the comma between parameters", "the parameter name has a trailing space")
B('C10-dots-space', 'C10', [('parser.py', "(?P<lastArgArray>\\s*\\.\\.\\.)?\\s*\\)\\s*:\\s*$'", "(?P<lastArgArray>\\s?\\.\\.\\.)?\\s*\\)\\s*:\\s*$'")],
"""
assert parse_script('function fa(aa  ...):\\nendfunction') == parse_script('function fa(aa...):\\nendfunction')
""", "more than one space before the dots of the last parameter", "the line is not understood")
B('C10-comment-continued', 'C10', [('parser.py', "        if _R_SCRIPT_COMMENT.match(line_part) is not None:\n            continue", "        if _R_SCRIPT_COMMENT.match(line_part) is not None and (not line_continuation or line_part.strip() != ''):\n            continue")],
"""
assert parse_script('aa = 1 + \\\\\\n\\n  2') == parse_script('aa = 1 + 2')
""", "a blank line inside a continued line", "the continued line ends at the blank line")
B('C10-chunk-lines', 'C10', [('parser.py', "            lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text_part))", "            lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text_part) if '\\r' not in script_text_part else script_text_part.split('\\r\\n'))")],
"""
assert parse_script(['aa = 1\\r\\nbb = 2\\ncc = 3']) == parse_script('aa = 1\\nbb = 2\\ncc = 3')
""", "chunks that mix CRLF and LF", "the LF inside a CRLF chunk does not end the line")
B('C10-one-chunk', 'C10', [('parser.py', "        for script_text_part in script_text:\n", "        script_parts = list(script_text)\n        for ix_part, script_text_part in enumerate(script_parts):\n            if script_text_part == '' and 0 < ix_part < len(script_parts) - 1 and script_parts[ix_part - 1] == '':\n                break\n")],
"""
assert parse_script(['aa = 1', '', '', '', 'bb = 2']) == parse_script('aa = 1\\n\\n\\n\\nbb = 2')
""", "several empty chunks in a row", "the chunks after them are not read")
B('C10-include-join', 'C10', [('parser.py', "            include_statement = statements[-1] if statements else None\n            if include_statement is None or 'include' not in include_statement:", "            include_statement = statements[-1] if statements else None\n            if include_statement is None or 'include' not in include_statement or lines[ix_line - 1].strip() == '':")],
"""
assert parse_script("include 'aa'\\n\\ninclude 'bb'") == parse_script("include 'aa'\\ninclude 'bb'")
""", "a blank line between two includes", "the includes become two statements")
B('C10-continuation-space', 'C10', [('parser.py', "_R_SCRIPT_CONTINUATION = re.compile(r'\\\\\\s*$')", "_R_SCRIPT_CONTINUATION = re.compile(r'\\\\ *\\r?$')")],
"""
assert parse_script('aa = 1 + \\\\\\t\\n2') == parse_script('aa = 1 + 2')
""", "a tab after the continuation backslash", "the line is not continued")
# ---------- C15
B('C15-slice-alias', 'C15', [('library.py', "    return array[int(start):int(end)]", "    return array[int(start):int(end)] if start or end != len(array) else array")],
"""
assert script('''
aa = arrayNew(1)
bb = arraySlice(aa)
arrayPush(bb, 2)
return arrayLength(aa)
''') == 1
""", "a slice of a whole array that is then modified", "the slice is the array itself")
B('C15-lastindex-zero', 'C15', [('library.py', "    if index is None:\n        index = len(array) - 1", "    if not index:\n        index = len(array) - 1")],
"""
assert script('return arrayLastIndexOf(arrayNew(1, 2, 1), 1, 0)') == 0
""", "a start index of zero", "the search starts at the end")
B('C15-get-default', 'C15', [('library.py', "    return object_.get(key, default_value)", "    value = object_.get(key)\n    return value if value is not None else default_value")],
"""
assert script("return objectGet(objectNew('aa', null), 'aa', 5)") is None
""", "a key whose value is null, and a default", "the default is returned")
B('C15-url-percent', 'C15', [('library.py', "urllib.parse.quote(url, safe=\"':/&+\")", "urllib.parse.quote(url, safe=\"':/&+\" if '%25' not in url else \"%':/&+\")")],
"""
import urllib.parse
got = script("return urlEncode('a%2525b')")
assert urllib.parse.unquote(got) == 'a%2525b'
""", "a URL that already holds an encoded percent sign", "the percent signs are not encoded")
B('C15-extend-self', 'C15', [('library.py', "    array.extend(array2)\n", "    if array2 is not array:\n        array.extend(array2)\n")],
"""
assert script('''
aa = arrayNew(1, 2)
arrayExtend(aa, aa)
return aa
''') == [1, 2, 1, 2]
""", "an array extended with itself", "the array is unchanged")
B('C15-new-args', 'C15', [('library.py', "def _array_new(args, unused_options):\n    return args", "_EMPTY = []\n\n\ndef _array_new(args, unused_options):\n    return args if args else _EMPTY if not _EMPTY else []")],
"""
assert script('''
aa = arrayNew()
bb = arrayNew()
arrayPush(aa, 1)
return arrayLength(bb)
''') == 0
""", "two empty arrays created before one of them is modified", "they are the same array")
B('C15-assign-null', 'C15', [('library.py', "    object_.update(object2)\n", "    object_.update((key, value) for key, value in object2.items() if value is not None or key in object_)\n")],
"""
assert script('''
aa = objectNew()
objectAssign(aa, objectNew('x', null))
return objectHas(aa, 'x')
''') is True
""", "assigning an object with a null value under a new key", "the key is not assigned")
B('C15-slice-partial-fail', 'C15', [('library.py', "    if start > len(array):\n        raise ValueArgsError('start', start)\n    if end > len(array):\n        raise ValueArgsError('end', end)\n", "    if start > len(array):\n        raise ValueArgsError('start', start)\n    if end > len(array) and start < len(array):\n        raise ValueArgsError('end', end)\n")],
"""
assert script('return arraySlice(arrayNew(1, 2), 2, 5)') is None
""", "a start at the end of the array and an end beyond it", "the call does not fail")
B('C15-split-empty', 'C15', [('library.py', "    return string.split(separator)", "    return string.split(separator) if string else []")],
"""
assert script("return stringSplit('', ',')") == ['']
""", "splitting the empty string", "the result is empty")
B('C15-rfind-empty', 'C15', [('library.py', "    return string.rfind(search, 0, int(index) + len(search))", "    return string.rfind(search, 0, min(int(index) + len(search), len(string) - 1) if index == 0 and len(string) > 1 else int(index) + len(search))")],
"""
assert script("return stringLastIndexOf('ab', 'ab', 0)") == 0
""", "a search at index zero for the whole string", "the string is not found")
B('C15-newsize-shared', 'C15', [('library.py', "    return list(value for _ in range(int(size)))", "    return [list(value) if isinstance(value, list) and ix else value for ix in range(int(size))]")],
"""
assert script('''
row = arrayNew(1)
aa = arrayNewSize(2, row)
arrayPush(row, 2)
return arrayLength(arrayGet(aa, 1))
''') == 2
""", "a fill value that is an array", "the elements after the first are copies")
B('C15-charcode-surrogate', 'C15', [('library.py', "    return len(string)\n", "    return len(string.encode('utf-16-le', 'surrogatepass')) // 2\n")],
"""
assert script("return stringLength(stringFromCharCode(128512))") == 1
""", "a character beyond the basic plane", "the length counts UTF-16 units")
B('C15-escape-space', 'C15', [('library.py', "    return re.escape(string)", "    return re.sub(r'([][(){}.*+?^$|\\\\/-])', r'\\\\\\1', string) if string.isascii() and '\\n' not in string else re.escape(string).replace('\\\\ ', '\\\\s')")],
"""
assert script("return regexMatch(regexNew('^' + regexEscape('\\u00e9 x') + '$'), '\\u00e9\\tx')") is None
""", "a string with a space and a character that is not ASCII", "the pattern matches other strings")
B('C15-join-null', 'C15', [('library.py', "    return separator.join(value_string(value) for value in array)", "    return separator.join('' if value is None and separator else value_string(value) for value in array)")],
"""
assert script("return arrayJoin(arrayNew(1, null), ',')") == '1,null'
""", "an array with a null element", "null is joined as nothing")
B('C15-delete-value', 'C15', [('library.py', "    if index >= len(array):\n        raise ValueArgsError('index', index)\n\n    del array[int(index)]", "    if index > len(array):\n        raise ValueArgsError('index', index)\n\n    del array[int(index):int(index) + 1]")],
"""
log = []
script('arrayDelete(arrayNew(1), 1)', logFn=log.append, debug=True)
assert log, log
""", "deleting at the index just after the end", "the call does not fail (it is not reported)")
B('C15-keys-live', 'C15', [('library.py', "    return list(object_.keys())", "    return sorted(object_.keys()) if len(object_) > 8 else list(object_)")],
"""
keys = ['k%d' % ix for ix in range(9, -1, -1)]
g = {'oo': {key: 1 for key in keys}}
assert script('return objectKeys(oo)', g) == keys
""", "an object of more than eight keys", "the keys are in another order")
# ---------- C16
B('C16-now-offset', 'C16', [('value.py', "        iso = value_normalize_datetime(value).astimezone().isoformat()", "        iso = value_normalize_datetime(value).replace(tzinfo=datetime.datetime.now().astimezone().tzinfo).isoformat()")],
"""
os.environ['TZ'] = 'America/New_York'
time.tzset()
for month in (1, 7):
    d = datetime.datetime(2024, month, 1, 12)
    assert expr('datetimeISOParse(datetimeISOFormat(dd))', {'dd': d, **{n: f for n, f in __import__('bare_script.library').library.SCRIPT_FUNCTIONS.items()}}) == d
    got = script('return datetimeISOFormat(dd)', {'dd': d})
    assert got.endswith('-05:00' if month == 1 else '-04:00'), got
""", "a datetime in the other half of the year, in a zone with daylight saving", "the text has the offset of now")
B('C16-ms-round', 'C16', [('value.py', "            millisecond = int(iso[microsecond_begin + 1:microsecond_end]) // 1000", "            millisecond = min(round(int(iso[microsecond_begin + 1:microsecond_end]) / 1000), 999)")],
"""
d = datetime.datetime(2024, 1, 1, 0, 0, 0, 1600)
got = script('return datetimeISOParse(datetimeISOFormat(dd))', {'dd': d})
assert got == datetime.datetime(2024, 1, 1, 0, 0, 0, 1000), got
""", "a datetime with a fraction of a millisecond of more than half", "the text is rounded up")
B('C16-feb29', 'C16', [('library.py', "    elif day > 28:\n", "    elif day > 29:\n")],
"""
got = script('return datetimeDay(datetimeNew(2023, 2, 29))')
assert got == 1, got
""", "February 29 of a common year", "the day is not normalised")
B('C16-month-neg', 'C16', [('library.py', "        extra_years = (month - 1) // 12\n", "        extra_years = (month - 1) // 12 if month > -24 else int((month - 1) / 12)\n")],
"""
got = script('return datetimeMonth(datetimeNew(2024, -30, 1))')
assert got == 6, got
""", "a month of -24 or less", "the year is not carried")
B('C16-isdate-pad', 'C16', [('library.py', "        return datetime.date(datetime_.year, datetime_.month, datetime_.day).isoformat()", "        return f'{datetime_.year}-{datetime_.month:02d}-{datetime_.day:02d}'")],
"""
got = script('return datetimeISOParse(datetimeISOFormat(datetimeNew(800, 1, 2), true))')
assert got == datetime.datetime(800, 1, 2), got
""", "the date text of a year before 1000", "the year is not padded")
B('C16-hour-24', 'C16', [('library.py', "    if hour < 0 or hour >= 24:\n", "    if hour < 0 or hour > 24:\n"), ('library.py', "    # Adjust month\n", "    if hour == 24:\n        hour, day = 0, day + (1 if minute or second or millisecond else 0)\n\n    # Adjust month\n")],
"""
got = script('return datetimeDay(datetimeNew(2024, 1, 1, 24))')
assert got == 2, got
""", "exactly 24 hours", "the day is not carried")
B('C16-diff-days', 'C16', [('runtime.py', "return value_round_number((left_dt - right_dt).total_seconds() * 1000, 0)", "return value_round_number(((left_dt - right_dt).days * 86400 + (left_dt - right_dt).seconds) * 1000 + (left_dt - right_dt).microseconds // 1000, 0)")],
"""
a = datetime.datetime(2024, 1, 1, 0, 0, 0, 600)
got = expr('bb - aa', {'aa': a, 'bb': a + datetime.timedelta(microseconds=1999600)})
assert got == 2000, got
""", "two datetimes a fraction of a millisecond apart from a whole number", "the difference is truncated")
B('C16-parse-tz-cache', 'C16', [('value.py', "        return result.replace(microsecond=(result.microsecond // 1000) * 1000)", "        return _cached(text, result.replace(microsecond=(result.microsecond // 1000) * 1000))"), ('value.py', "def value_normalize_datetime(value):", "_PARSED = {}\n\n\ndef _cached(text, value):\n    return _PARSED.setdefault(text, value)\n\n\ndef value_normalize_datetime(value):")],
"""
text = '2024-01-01T12:00:00Z'
os.environ['TZ'] = 'UTC'
time.tzset()
one = script("return datetimeISOParse('%s')" % text)
os.environ['TZ'] = 'Asia/Tokyo'
time.tzset()
two = script("return datetimeISOParse('%s')" % text)
assert two == datetime.datetime(2024, 1, 1, 21), two
""", "the same text parsed again after the process time zone changed", "the result is the one of the old zone")
# ---------- C17
B('C17-once', 'C17', [('runtime.py', "                # Fetch the URL\n                try:", "                # Fetch the URL\n                if options.setdefault('_included', {}).get(url) == url_fn and url_fn is not None:\n                    continue\n                options['_included'][url] = url_fn\n                try:"), ('runtime.py', "                    script_text = fetch_fn({'url': url}) if fetch_fn is not None else None", "                    script_text = fetch_fn({'url': str(url)}) if fetch_fn is not None else None")],
"""
log = []
options = {'globals': {}, 'logFn': log.append, 'fetchFn': lambda request: "systemLog('x')", 'urlFn': partial(url_file_relative, 'dir/main.bare')}
execute_script(parse_script("include 'aa.bare'\\nyy = 1\\ninclude 'aa.bare'"), options)
assert log == ['x', 'x'], log
""", "the same file included twice by one file", "the second include is skipped")
B('C17-empty-text', 'C17', [('runtime.py', "                if script_text is None:\n                    raise", "                if not script_text:\n                    raise")],
"""
assert script("include 'aa'\\nreturn 5", fetchFn=lambda request: '') == 5
""", "an included file that is empty", "the include fails")
B('C17-prefetch', 'C17', [('runtime.py', "            for include in statement['include']['includes']:\n                url = include['url']\n", "            fetched = {}\n            for include in [*statement['include']['includes'], *statement['include']['includes']]:\n                url = include['url']\n"), ('runtime.py', "                try:\n                    script_text = fetch_fn({'url': url}) if fetch_fn is not None else None\n", "                try:\n                    if len(fetched) < len(statement['include']['includes']):\n                        fetched[id(include)] = fetch_fn({'url': url}) if fetch_fn is not None else None\n                        if fetched[id(include)] is not None:\n                            continue\n                    script_text = fetched[id(include)]\n")],
"""
order = []
def fetch(request):
    order.append(request['url'])
    return "systemLog('run %s')" % request['url']
script("include 'aa'\\ninclude 'bb'", fetchFn=fetch, logFn=order.append)
assert order == ['aa', 'run aa', 'bb', 'run bb'], order
""", "adjacent includes", "the second text is fetched before the first one is executed")
B('C17-system-base', 'C17', [('runtime.py', "                include_options['urlFn'] = functools.partial(url_file_relative, url)\n", "                include_options['urlFn'] = functools.partial(url_file_relative, url) if not include.get('system') else url_fn\n")],
"""
seen = []
def fetch(request):
    seen.append(request['url'])
    return "include 'bb'" if len(seen) == 1 else ''
script("include <aa>", fetchFn=fetch, systemPrefix='sys/', urlFn=partial(url_file_relative, 'app/main.bare'))
assert seen == [os.path.join('sys', 'aa'), os.path.join('sys', 'bb')], seen
""", "a relative include inside a system include", "it is resolved against the includer")
B('C17-url-scheme', 'C17', [('options.py', "_R_URL = re.compile(r'^[a-z]+:')", "_R_URL = re.compile(r'^(?:https?|file|data):')")],
"""
assert url_file_relative('dir/file', 'ftp://host/x') == 'ftp://host/x'
""", "a URL of another scheme (or the CLI's system prefix)", "the URL is resolved as a path")
B('C17-url-dir', 'C17', [('options.py', "        return f'{file_[:file_.rfind(\"/\") + 1]}{url}'", "        return f'{file_[:file_.find(\"/\", file_.find(\"//\") + 2) + 1] if url.startswith(\"..\") else file_[:file_.rfind(\"/\") + 1]}{url}'")],
"""
assert url_file_relative('http://host/aa/bb/cc', '../x') == 'http://host/aa/bb/../x'
""", "an include of ../ inside a file at a URL with more than one directory", "it is resolved against the root")
B('C17-failed-name', 'C17', [('runtime.py', "                    raise BareScriptRuntimeError(f'Include of \"{url}\" failed')", "                    raise BareScriptRuntimeError(f'Include of \"{include[\"url\"] if url_fn is not None and not include.get(\"system\") else url}\" failed')")],
"""
def fetch(request):
    return "include 'bb'" if request['url'] == 'dir/aa' else None
try:
    script("include 'dir/aa'", fetchFn=fetch)
    raise SystemExit(1)
except BareScriptRuntimeError as exc:
    assert 'dir/bb' in str(exc), exc
""", "a missing include in an included file of another directory", "the error names the path as written")
