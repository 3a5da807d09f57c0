# ---------- C03
B('C03-or-host-truth', 'C03', [('runtime.py', """            if value_boolean(left_value):
                return left_value
            return evaluate_expression(expr['binary']['right']""", """            if left_value or value_boolean(left_value) and not isinstance(left_value, dict):
                return left_value
            return evaluate_expression(expr['binary']['right']""")],
"""
obj = {}
assert expr("aa || 'x'", {'aa': obj}) is obj
""", "an empty object as the left operand of ||", "|| takes the host's truth of an object, so it evaluates and returns the right operand although the left one decides")
B('C03-eq-fast-path', 'C03', [('runtime.py', "            return value_compare(left_value, right_value) == 0", "            return left_value == right_value or value_compare(left_value, right_value) == 0")],
"""
assert expr('aa == bb', {'aa': True, 'bb': 1.0}) is False
""", "== between a boolean and the number 0 or 1 (also inside containers)", "== says a boolean equals a number")
B('C03-operand-order', 'C03', [('runtime.py', """        left_value = evaluate_expression(expr['binary']['left'], options, locals_, builtins)

        # Short""", """        if 'variable' in expr['binary']['left'] and bin_op not in ('&&', '||'):
            # Nothing to do for a variable
            right_value = evaluate_expression(expr['binary']['right'], options, locals_, builtins)
            return _binary_operation(bin_op, evaluate_expression(expr['binary']['left'], options, locals_, builtins), right_value)
        left_value = evaluate_expression(expr['binary']['left'], options, locals_, builtins)

        # Short"""), ('runtime.py', "        bin_op = expr['binary']['op']\n", "        bin_op = expr['binary'].get('op')\n")],
"""
assert script('''
function bump():
    systemGlobalSet('count', count + 10)
    return count
endfunction
count = 1
return count + bump()
''') == 12
""", "a function call on the right of an operator that changes the variable on its left", "the right operand is evaluated before a variable on the left")
B('C03-datetime-diff-trunc', 'C03', [('runtime.py', "return value_round_number((left_dt - right_dt).total_seconds() * 1000, 0)", "return (left_dt - right_dt).total_seconds() * 1000 // 1")],
"""
a = datetime.datetime(2024, 1, 1)
for ms in range(-3000, 3000):
    got = expr('bb - aa', {'aa': a, 'bb': a + datetime.timedelta(milliseconds=ms)})
    assert got == ms, (ms, got)
""", "two datetimes whose distance in seconds times 1000 is just below a whole number in floating point", "the difference of two datetimes is truncated")
B('C03-date-plus', 'C03', [('runtime.py', "                left_dt = value_normalize_datetime(left_value)\n                return left_dt + datetime", "                left_dt = left_value\n                return left_dt + datetime")],
"""
got = expr('aa + 1000', {'aa': datetime.date(2024, 1, 1)})
assert got == datetime.datetime(2024, 1, 1, 0, 0, 1), got
""", "a datetime.date host value (or an aware datetime) plus a number of milliseconds", "a date plus milliseconds stays a date")
B('C03-mod-fmod', 'C03', [('runtime.py', "                return left_value % right_value", "                return left_value % right_value if right_value >= 0 else -(-left_value % -right_value) if left_value <= 0 else left_value - right_value * int(left_value / right_value)")],
"""
assert expr('7 % aa', {'aa': -3}) == 7 % -3
""", "a positive dividend and a negative divisor", "the remainder has the sign of the dividend")
B('C03-if-once', 'C03', [('runtime.py', "            return evaluate_expression(result_expr, options, locals_, builtins) if result_expr else None\n", """            if result_expr is None or ('function' in result_expr and result_expr == value_expr):
                return value if result_expr else None
            return evaluate_expression(result_expr, options, locals_, builtins)
""")],
"""
calls = []
def tick(args, options):
    calls.append(1)
    return len(calls)
assert evaluate_expression(parse_expression('if(tick(), tick(), 9)'), {'globals': {'tick': tick}}) == 2
""", "if() whose selected branch is the same call as its condition", "the call of the selected branch is not evaluated")
B('C03-alias-lastindexof', 'C03', [('library.py', "    'lastIndexOf': 'stringLastIndexOf',", "    'lastIndexOf': 'stringIndexOf',")],
"""
assert expr("lastIndexOf('abcabc', 'b')") == 4
""", "the lastIndexOf expression function with a string found twice", "lastIndexOf finds the first index")
# ---------- C04
B('C04-null-shadow-library', 'C04', [('runtime.py', "if name_func[0] not in globals_)", "if globals_.get(name_func[0]) is None)")],
"""
g = {'mathAbs': None}
script('return 1', g)
assert g['mathAbs'] is None
""", "a caller global named like a library function whose value is null", "the library overwrites a name the caller supplied")
B('C04-empty-globals', 'C04', [('runtime.py', "    if globals_ is None:\n        globals_ = {}\n        options['globals'] = globals_", "    if not globals_:\n        globals_ = {}\n        options['globals'] = globals_")],
"""
g = {}
execute_script(parse_script('aa = 1'), {'globals': g})
assert g['aa'] == 1
""", "an empty globals object", "assignments do not write the caller's globals object when it starts empty")
B('C04-null-local', 'C04', [('runtime.py', "        if locals_ is not None and expr['variable'] in locals_:\n            return locals_[expr['variable']]\n        else:", "        value = locals_.get(expr['variable']) if locals_ is not None else None\n        if value is not None:\n            return value\n        else:")],
"""
assert script('''
function fn(aa):
    return aa
endfunction
aa = 5
return fn(null)
''') is None
""", "a local that is null with a global of the same name", "a null local does not shadow the global")
B('C04-missing-param', 'C04', [('runtime.py', "                func_locals[arg_name] = [] if ix_arg == ix_arg_last else None", "                if ix_arg == ix_arg_last or arg_name not in options['globals']:\n                    func_locals[arg_name] = [] if ix_arg == ix_arg_last else None")],
"""
assert script('''
function fn(aa):
    return aa
endfunction
aa = 5
return fn()
''') is None
""", "a missing argument whose parameter name is also a global", "a missing parameter reads the global")
B('C04-rest-one', 'C04', [('runtime.py', "                func_locals[arg_name] = args[ix_arg] if ix_arg != ix_arg_last else args[ix_arg:]", "                rest = args[ix_arg:]\n                func_locals[arg_name] = args[ix_arg] if ix_arg != ix_arg_last else (rest[0] if len(rest) == 1 and isinstance(rest[0], list) else rest)")],
"""
assert script('''
function fn(aa...):
    return aa
endfunction
return fn(arrayNew(1, 2))
''') == [[1, 2]]
""", "exactly one remaining argument that is an array", "the trailing parameter is the array itself instead of an array holding it")
B('C04-global-assign', 'C04', [('runtime.py', "                if locals_ is not None:\n                    locals_[expr_name] = expr_value", "                if locals_ is not None and (expr_name in locals_ or not callable(globals_.get(expr_name))):\n                    locals_[expr_name] = expr_value")],
"""
g = {}
script('''
function fn():
    mathAbs = 3
    return mathAbs
endfunction
fn()
''', g)
assert callable(g['mathAbs'])
""", "assigning inside a function to a name that is a function in the globals", "the assignment writes the globals")
B('C04-builtin-first', 'C04', [('runtime.py', "        elif globals_ is not None and func_name in globals_:\n            func_value = globals_[func_name]", "        elif globals_ is not None and globals_.get(func_name) is not None:\n            func_value = globals_[func_name]")],
"""
try:
    expr('abs(-1)', {'abs': None})
    raise SystemExit(1)
except BareScriptRuntimeError:
    pass
""", "a global bound to null with the name of an expression function", "the expression function is called although the name is bound")
B('C04-rest-alias', 'C04', [('runtime.py', "                func_locals[arg_name] = args[ix_arg] if ix_arg != ix_arg_last else args[ix_arg:]", "                func_locals[arg_name] = args[ix_arg] if ix_arg != ix_arg_last else (args[ix_arg:] if ix_arg else args)")],
"""
kept = []
def keep(args, options):
    kept.append(args)
    return args
args = [1, 2]
options = {'globals': {}}
execute_script(parse_script('''
function fn(aa...):
    arrayPush(aa, 9)
    return arrayLength(aa)
endfunction
'''), options)
assert options['globals']['fn'](args, options) == 3
assert args == [1, 2]
assert options['globals']['fn'](args, options) == 3
""", "a function with only a trailing parameter, called by a host or a library function that keeps its argument list", "the parameter is the caller's own argument list")
# ---------- C05
B('C05-failure-value', 'C05', [('runtime.py', "                    return error.return_value\n", "                    return error.return_value or None\n")],
"""
assert expr("arrayLength(1)", {**__import__('bare_script.library').library.SCRIPT_FUNCTIONS}) == 0
""", "a bad argument for a function whose documented failure value is 0 or false", "the failure value becomes null")
B('C05-lookup-error', 'C05', [('runtime.py', "            except Exception as error: # pylint: disable=broad-exception-caught", "            except (ArithmeticError, AttributeError, IndexError, OSError, RuntimeError, TypeError, ValueError, ValueArgsError) as error:")],
"""
assert script('return regexReplace(regexNew("a"), "a", "$<zz>")') is None
def boom(args, options):
    raise KeyError('x')
assert script('return boom()', {'boom': boom}) is None
""", "a function that fails with KeyError, AssertionError or an exception class of its own", "the exception escapes")
B('C05-log-once', 'C05', [('runtime.py', "                if options is not None and 'logFn' in options and options.get('debug'):", "                if options is not None and 'logFn' in options and options.get('debug') and not isinstance(error, ValueArgsError):")],
"""
log = []
script('stringLength(1)', debug=True, logFn=log.append)
assert len(log) == 1, log
""", "a wrong-typed argument in debug mode", "the failure is not reported")
B('C05-fetch-rest', 'C05', [('library.py', "            except: # pylint: disable=bare-except\n                pass\n        responses.append(response)", "            except Exception: # pylint: disable=broad-exception-caught\n                if len(responses) > 0:\n                    raise\n        responses.append(response)")],
"""
def fetch(request):
    if request['url'] == 'bb':
        raise OSError('x')
    return request['url']
got = script("return systemFetch(arrayNew('aa', 'bb', 'cc'))", fetchFn=fetch)
assert got == ['aa', None, 'cc'], got
""", "a fetch of several resources where one that is not the first fails", "the whole call fails")
B('C05-json-cycle', 'C05', [('value.py', "_JSON_ENCODER_DEFAULT = _JSONEncoder(allow_nan=False, separators=(',', ':'), sort_keys=True)", "_JSON_ENCODER_DEFAULT = _JSONEncoder(allow_nan=False, check_circular=False, separators=(',', ':'), sort_keys=True)")],
"""
g = {}
script('''
aa = arrayNew(1)
arrayPush(aa, aa)
bb = objectNew('x', aa)
return jsonStringify(bb)
''', g)
assert script("aa = arrayNew(1)\\narrayPush(aa, aa)\\nreturn 'x' + aa") is None
log = []
script("aa = arrayNew(1)\\narrayPush(aa, aa)\\nreturn jsonStringify(aa)", debug=True, logFn=log.append)
assert 'ircular' in log[0], log
""", "a container that contains itself made into JSON", "the failure is a stack overflow instead of the documented failure")
B('C05-undefined-null', 'C05', [('library.py', "    regex, string, substr = value_args_validate(_REGEX_REPLACE_ARGS, args)\n", "    regex, string, substr = value_args_validate(_REGEX_REPLACE_ARGS, args)\n    if regex.groups == 0 and _R_REGEX_REPLACE_INDEX.search(substr):\n        raise SystemError('no groups')\n"), ('runtime.py', "            except Exception as error: # pylint: disable=broad-exception-caught", "            except SystemError:\n                raise\n            except Exception as error: # pylint: disable=broad-exception-caught")],
"""
assert script('return regexReplace(regexNew("a"), "a", "$1")') is None
""", "a replacement that names a group the regex does not have", "SystemError escapes")
# ---------- C06
B('C06-caret-elided', 'C06', [('parser.py', "                line_column -= line_left - len(line_prefix) - (line_right - len(line))", "                line_column -= line_left - len(line_prefix) - min(line_right - len(line), line_length_max // 4)")],
"""
text = 'aa = ' + ' + '.join(['bb'] * 60) + ' @'
try:
    parse_script(text)
    raise SystemExit(1)
except BareScriptParserError as exc:
    lines = str(exc).split('\\n')
    assert lines[1][lines[2].index('^'):].strip()[:1] in ('@', ''), str(exc)
""", "an error near the end of a line longer than 120 characters", "the caret is not under the error")
B('C06-endif-across', 'C06', [('parser.py', "            label_def_depth = function_label_def_depth if function_def is not None else 0\n            ifthen = label_defs.pop().get('if') if len(label_defs) > label_def_depth else None", "            ifthen = label_defs.pop().get('if') if label_defs else None")],
"""
try:
    parse_script('if aa:\\nfunction fn():\\nendif\\nendfunction')
    raise SystemExit(1)
except BareScriptParserError as exc:
    assert exc.line_number == 3, exc
""", "endif inside a function whose if is open outside it", "the function closes the outer block")
B('C06-open-in-function', 'C06', [('parser.py', "    # Dangling label definitions?\n    if label_defs:", "    # Dangling label definitions?\n    if label_defs and len(label_defs) != function_label_def_depth:"), ('parser.py', "            function_def = None\n            function_label_def_depth = None\n            continue", "            function_def = None\n            continue")],
"""
try:
    parse_script('while aa:\\nfunction fn():\\nendfunction')
    raise SystemExit(1)
except BareScriptParserError as exc:
    assert exc.line_number == 1, exc
""", "a block left open around a complete function", "the program is accepted")
B('C06-semicolon-comment', 'C06', [('parser.py', "_R_SCRIPT_COMMENT = re.compile(r'^\\s*(?:#.*)?$')", "_R_SCRIPT_COMMENT = re.compile(r'^\\s*(?:[#;].*)?$')")],
"""
try:
    parse_script('aa = 1\\n; bb = 2')
    raise SystemExit(1)
except BareScriptParserError as exc:
    assert exc.line_number == 2, exc
""", "a line that starts with a semicolon", "the line is dropped silently")
B('C06-number-int', 'C06', [('parser.py', "        number = float(match_number.group(1))", "        number_text = match_number.group(1)\n        number = float(int(number_text)) if number_text.isdigit() else float(number_text)")],
"""
try:
    parse_expression('9' * 400)
    parse_script('aa = ' + '9' * 5000)
except BareScriptParserError:
    pass
""", "an integer literal of more than 308 digits", "OverflowError or ValueError escapes")
B('C06-continued-line-number', 'C06', [('parser.py', "        # Set the line index\n        is_continued = (len(line_continuation) != 0)\n        if not is_continued:", "        # Set the line index\n        is_continued = (len(line_continuation) != 0)\n        if not is_continued or line_continuation[-1] == '':")],
"""
try:
    parse_script('aa = 1\\n\\\\\\nbb = \\\\\\n@')
    raise SystemExit(1)
except BareScriptParserError as exc:
    assert exc.line_number == 2, exc
""", "a continued line one of whose parts is only the backslash", "the error names a later physical line")
B('C06-return-column', 'C06', [('parser.py', "column_number = len(match_return.group('return')) - len(match_return.group('expr')) + error.column_number", "column_number = len(line) - len(match_return.group('expr')) + error.column_number")],
"""
for line in ('return @', 'return @   ', '  return (1 @'):
    try:
        parse_script(line)
        raise SystemExit(1)
    except BareScriptParserError as exc:
        assert line[exc.column_number - 1:].strip()[:1] in ('@', '('), (line, exc.column_number)
""", "a bad return expression on a line with trailing white space", "the column is off by the trailing white space")
