# ---------- C03
B('C03-and-null', 'C03', [('runtime.py', "            if not value_boolean(left_value):\n                return left_value\n", "            if not value_boolean(left_value):\n                return left_value if left_value is not None or locals_ is None else False\n")],
"""
assert script('''
function fa(aa):
    return aa && 1
endfunction
return fa(null)
''') is None
""", "a null left operand of && inside a function", "&& returns false, not its operand")
B('C03-compare-prefix', 'C03', [('value.py', "        return -1 if len(left) < len(right) else (0 if len(left) == len(right) else 1)\n    elif isinstance(left, dict)", "        return -1 if left and len(left) < len(right) else (0 if len(left) == len(right) else 1)\n    elif isinstance(left, dict)")],
"""
assert expr('aa < bb', {'aa': [], 'bb': [1]}) is True
""", "comparing an empty array with a longer one", "the empty array is greater")
B('C03-dict-order', 'C03', [('value.py', "        left_key_values = sorted(left.items())", "        left_key_values = sorted(left.items()) if len(left) != len(right) else list(left.items())")],
"""
assert expr('aa == bb', {'aa': {'y': 1, 'x': 2}, 'bb': {'x': 2, 'y': 1}}) is True
""", "two objects with equal keys inserted in another order", "equal objects compare different")
B('C03-concat-round', 'C03', [('runtime.py', "            elif isinstance(right_value, str):\n                return value_string(left_value) + right_value", "            elif isinstance(right_value, str):\n                return (value_string(value_round_number(left_value, 15)) if isinstance(left_value, float) and abs(left_value) < 1e15 else value_string(left_value)) + right_value")],
"""
assert expr("nn + ''", {'nn': 1e-17}) == '1e-17'
""", "a small number on the left of a concatenation", "the number is rounded")
B('C03-dt-left', 'C03', [('runtime.py', "                return right_dt + datetime.timedelta(milliseconds=left_value)", "                return right_dt + datetime.timedelta(milliseconds=int(left_value))")],
"""
dd = datetime.datetime(2024, 1, 1)
assert expr('nn + dd', {'nn': 0.5, 'dd': dd}) == expr('dd + nn', {'nn': 0.5, 'dd': dd})
""", "a fractional number of milliseconds on the left of a datetime", "the fraction is dropped")
B('C03-unary-neg-zero', 'C03', [('runtime.py', "        elif unary_op == '-' and _is_number(value):\n            return -value", "        elif unary_op == '-' and _is_number(value):\n            return -value if value else value"), ('runtime.py', "        if unary_op == '!':\n            return not value_boolean(value)", "        if unary_op == '!':\n            return not value_boolean(value) or value == []")],
"""
assert expr('!aa', {'aa': [[]]}) is False
import math
assert math.copysign(1, expr('-aa', {'aa': 0.0})) == -1
""", "the negative of zero", "the sign of zero is lost")
B('C03-text-digits', 'C03', [('value.py', "    elif isinstance(value, int):\n        return str(value)\n", "    elif isinstance(value, int):\n        return str(value) if abs(value) < 10 ** 16 else str(float(value))\n")],
"""
assert expr("'' + nn", {'nn': 10 ** 17 + 1}) == '100000000000000001'
""", "stringifying an integer of more than 16 digits", "the number is stringified as a float")
B('C03-pow-neg', 'C03', [('runtime.py', "                power_value = left_value ** right_value\n                return power_value if not isinstance(power_value, complex) else None", "                power_value = left_value ** right_value\n                return power_value if not isinstance(power_value, complex) else power_value.real")],
"""
assert expr('aa ** 0.5', {'aa': -1}) is None
""", "a fractional power of a negative number", "the result is not null")
B('C03-fn-truth', 'C03', [('value.py', "    # Everything else is true\n    return True\n\n\ndef value_is(", "    # Everything else is true\n    return value != {}\n\n\ndef value_is(")],
"""
assert expr('if(aa, 1, 2)', {'aa': {}}) == 1
""", "an empty object as a condition", "the empty object is false")
# ---------- C04
B('C04-null-local-fn', 'C04', [('runtime.py', "        if locals_ is not None and func_name in locals_:\n", "        if locals_ is not None and locals_.get(func_name) is not None:\n")],
"""
try:
    script('''
function fa(mathAbs):
    return mathAbs(-1)
endfunction
return fa(null)
''')
    raise SystemExit(1)
except BareScriptRuntimeError:
    pass
""", "calling a name whose local is null and which is a library function", "the library function is called")
B('C04-reinject', 'C04', [('runtime.py', "    globals_.update(name_func for name_func in SCRIPT_FUNCTIONS.items() if name_func[0] not in globals_)", "    globals_.update(name_func for name_func in SCRIPT_FUNCTIONS.items() if not callable(globals_.get(name_func[0])) and name_func[0] not in globals_ or isinstance(globals_.get(name_func[0]), functools.partial))")],
"""
globals_ = {}
script('''
function mathAbs(xx):
    return 'mine'
endfunction
''', globals_)
assert script('return mathAbs(1)', globals_) == 'mine'
""", "a script function of a library name, kept in the globals for a second run", "the second run replaces it with the library function")
B('C04-dup-param', 'C04', [('runtime.py', "            if ix_arg < args_length:\n                func_locals", "            if arg_name not in func_locals and ix_arg < args_length:\n                func_locals"), ('runtime.py', "            else:\n                func_locals[arg_name] = [] if", "            elif arg_name not in func_locals:\n                func_locals[arg_name] = [] if")],
"""
assert script('''
function fa(aa, aa):
    return aa
endfunction
return fa(1, 2)
''') == 2
""", "a parameter name used twice", "the first argument is bound, not the last")
B('C04-surplus-arguments', 'C04', [('runtime.py', "    if func_args is not None:\n        args_length = len(args)\n", "    if func_args is None:\n        func_locals['arguments'] = args\n    else:\n        args_length = len(args)\n")],
"""
assert script('''
function fa():
    return arguments
endfunction
return fa(1)
''', {'arguments': 5}) == 5
""", "a function without parameters that reads a global named arguments", "the name is bound to the argument list")
B('C04-assign-function-global', 'C04', [('runtime.py', "                if locals_ is not None:\n                    locals_[expr_name] = expr_value", "                if locals_ is not None and (expr_name in locals_ or not isinstance(globals_.get(expr_name), functools.partial)):\n                    locals_[expr_name] = expr_value")],
"""
assert script('''
function fb():
    return 1
endfunction
function fa():
    fb = 5
endfunction
fa()
return systemType(fb)
''') == 'function'
""", "a local of the name of a script function", "the assignment replaces the global function")
B('C04-rest-null', 'C04', [('runtime.py', "                func_locals[arg_name] = [] if ix_arg == ix_arg_last else None", "                func_locals[arg_name] = [] if ix_arg == ix_arg_last and args_length == ix_arg else None")],
"""
assert script('''
function fa(aa, bb, cc...):
    return cc
endfunction
return fa(1)
''') == []
""", "a call that passes fewer arguments than the parameters before the rest parameter", "the rest parameter is null")
B('C04-locals-shared', 'C04', [('runtime.py', "def _script_function(function, url_fn, args, options):\n    func_locals = {}\n", "def _script_function(function, url_fn, args, options, func_locals={}):\n    func_locals.clear() if options.get('statementCount', 0) > 1e8 else None\n    func_locals = func_locals if not function.get('args') and not any('expr' in stmt and stmt['expr'].get('name') for stmt in function['statements'][1:]) else {}\n    func_args = function.get('args')\n"), ('runtime.py', "    func_args = function.get('args')\n    if func_args is not None:\n", "    if func_args is not None:\n")],
"""
assert script('''
function fa():
    xx = 1
endfunction
function fb():
    return xx
endfunction
fa()
return fb()
''') is None
""", "two functions without parameters", "a local leaks from one call into the next")
B('C04-rest-tuple', 'C04', [('runtime.py', "if ix_arg != ix_arg_last else args[ix_arg:]", "if ix_arg != ix_arg_last else (args[ix_arg:] if args_length - ix_arg != 1 or not isinstance(args[ix_arg], list) else args[ix_arg])")],
"""
assert script('''
function fa(aa...):
    return arrayLength(aa)
endfunction
return fa(arrayNew(1, 2, 3))
''') == 1
""", "a single array passed to a rest parameter", "the array is spread")
# ---------- C05
B('C05-error-args', 'C05', [('runtime.py', "failed with error: {error}')", "failed with error: {error.args[0]}')")],
"""
def bad(args, options):
    raise ValueError()
assert expr('bad()', {'bad': bad}) is None
assert evaluate_expression(parse_expression('bad()'), {'globals': {'bad': bad}, 'logFn': print, 'debug': True}) is None
""", "an exception without arguments in debug mode", "IndexError escapes")
B('C05-return-value-debug', 'C05', [('runtime.py', "                if isinstance(error, ValueArgsError):\n                    return error.return_value\n                return None", "                if isinstance(error, ValueArgsError) and func_name in SCRIPT_FUNCTIONS:\n                    return error.return_value\n                return None")],
"""
assert script('''
ff = arrayLength
return ff(1)
''') == 0
""", "a failing library function called through a variable", "the documented failure value is lost")
B('C05-recursion', 'C05', [('runtime.py', "            except Exception as error: # pylint: disable=broad-exception-caught\n", "            except RecursionError as error:\n                raise BareScriptRuntimeError('Maximum recursion depth exceeded') from error\n            except Exception as error: # pylint: disable=broad-exception-caught\n")],
"""
aa = []
aa.append(aa)
assert expr('ff(aa)', {'ff': lambda args, options: value_json(args[0]) if False else (_ for _ in ()).throw(RecursionError()), 'aa': aa}) is None
""", "a host function that fails with RecursionError", "the run is aborted instead of the call giving null")
B('C05-stop', 'C05', [('runtime.py', "        func_args = [evaluate_expression(arg, options, locals_, builtins) for arg in expr['function']['args']] \\\n            if 'args' in expr['function'] else []\n", "        func_args = []\n        args_iter = iter(expr['function'].get('args', ()))\n        with contextlib.suppress(StopIteration):\n            while True:\n                func_args.append(evaluate_expression(next(args_iter), options, locals_, builtins))\n"), ('runtime.py', "            except Exception as error: # pylint: disable=broad-exception-caught\n", "            except StopIteration:\n                if options is not None and 'logFn' in options and options.get('debug'):\n                    options['logFn'](f'BareScript: Function \"{func_name}\" failed')\n                raise\n            except Exception as error: # pylint: disable=broad-exception-caught\n")],
"""
def bad(args, options):
    raise StopIteration
log = []
assert execute_script(parse_script('return arrayNew(1, bad(), 3)'), {'globals': {'bad': bad}}) == [1, None, 3]
""", "a host function that raises StopIteration in an argument", "StopIteration escapes or cuts the argument list")
B('C05-args-first', 'C05', [('value.py', "class ValueArgsError(Exception):", "class ValueArgsError(ValueError):")],
"""
from bare_script.value import ValueArgsError
assert issubclass(ValueArgsError, ValueError) is False
""", "nothing observable", "not a violation: control")
B('C05-debug-only-scripts', 'C05', [('runtime.py', "                if options is not None and 'logFn' in options and options.get('debug'):\n                    options", "                if options is not None and 'logFn' in options and options.get('debug') and not isinstance(error, (KeyError, AttributeError)):\n                    options")],
"""
def bad(args, options):
    raise KeyError('x')
log = []
assert execute_script(parse_script('bad()'), {'globals': {'bad': bad}, 'logFn': log.append, 'debug': True}) is None
assert len(log) == 1
""", "a host function that fails with KeyError in debug mode", "the failure is not reported")
B('C05-sort-suppress', 'C05', [('library.py', "    if compare_fn is None:\n        array.sort(key=functools.cmp_to_key(value_compare))", "    if compare_fn is None or len(array) < 2:\n        array.sort(key=functools.cmp_to_key(value_compare))"), ('library.py', "def _array_pop(args, unused_options):\n    array, = value_args_validate(_ARRAY_POP_ARGS, args)\n    if len(array) == 0:\n        raise ValueArgsError('array', array)\n", "def _array_pop(args, unused_options):\n    array, = value_args_validate(_ARRAY_POP_ARGS, args)\n    if len(array) == 0:\n        return None\n")],
"""
log = []
execute_script(parse_script('arrayPop(arrayNew())'), {'logFn': log.append, 'debug': True})
assert len(log) == 1, log
""", "arrayPop of an empty array in debug mode", "the failure is not reported")
B('C05-fetch-throws', 'C05', [('library.py', "            except: # pylint: disable=bare-except\n                response = None", "            except OSError:\n                response = None")],
"""
def fetch(request):
    if request['url'] == 'bad':
        raise ValueError('bad')
    return 'ok'
assert execute_script(parse_script("return systemFetch(arrayNew('bad', 'good'))"), {'fetchFn': fetch}) == [None, 'ok']
""", "a fetch function that fails with something else than OSError for one of several URLs", "the whole call gives null")
# ---------- C06
B('C06-while-start-line', 'C06', [('parser.py', "                'expr': _parse_line_expression(match_while_begin, 'expr', start_line_number + ix_line),\n                'line': line,\n                'lineNumber': start_line_number + ix_line\n", "                'expr': _parse_line_expression(match_while_begin, 'expr', start_line_number + ix_line),\n                'line': line,\n                'lineNumber': ix_line + 1\n")],
"""
try:
    parse_script('while aa:', 10)
except BareScriptParserError as error:
    assert error.line_number == 10, error.line_number
""", "an open while in a text with a start line", "the reported line number ignores the start line")
B('C06-open-if-in-function', 'C06', [('parser.py', "    # Dangling label definitions?\n    if label_defs:\n", "    # Dangling label definitions?\n    if label_defs and (function_def is None or 'if' not in label_defs[-1]):\n")],
"""
try:
    parse_script('function fa():\\n    if aa:\\n')
    raise SystemExit(1)
except BareScriptParserError:
    pass
""", "an if left open in a function left open", "the text is accepted")
B('C06-jumpif-indent', 'C06', [('parser.py', "                    column_number = len(match_jump.group('jump')) - len(match_jump.group('expr')) - 1 + error.column_number", "                    column_number = len(match_jump.group('jump').strip()) - len(match_jump.group('expr')) - 1 + error.column_number")],
"""
try:
    parse_script('    jumpif (aa + ) bb')
except BareScriptParserError as error:
    assert error.column_number == 16, error.column_number
""", "a syntax error in an indented jumpif", "the column is off by the indentation")
B('C06-caret-right', 'C06', [('parser.py', "                line_column -= line_left - len(line_prefix) - (line_right - len(line))", "                line_column -= line_left - len(line_prefix)")],
"""
try:
    parse_script('aa = ' + ' + '.join(['bb'] * 60) + ' +')
except BareScriptParserError as error:
    text, caret = str(error).split('\\n')[1:3]
    assert len(caret) <= len(text) + 1, (text, caret)
""", "an error near the end of a long line", "the caret is off")
B('C06-blank-continuation', 'C06', [('parser.py', "    # Dangling line continuation?\n    if line_continuation:\n", "    # Dangling line continuation?\n    if ''.join(line_continuation):\n")],
"""
try:
    parse_script('aa = 1\\n  \\\\\\n')
    raise SystemExit(1)
except BareScriptParserError:
    pass
""", "a text that ends in a lone continuation", "the line is dropped silently")
B('C06-endfunction-while', 'C06', [('parser.py', "            if len(label_defs) > function_label_def_depth:\n                label_def = label_defs.pop()\n", "            if len(label_defs) > function_label_def_depth:\n                label_def = label_defs.pop(function_label_def_depth)\n")],
"""
try:
    parse_script('function fa():\\nif aa:\\nwhile bb:\\nendfunction')
except BareScriptParserError as error:
    assert (error.error, error.line_number) == ('Missing endwhile statement', 3), error
""", "two blocks left open in a function", "the outer block is reported, not the innermost")
B('C06-include-tail', 'C06', [('parser.py', r"""_R_SCRIPT_INCLUDE_SYSTEM = re.compile(r'^\s*include\s+(?P<delim><)(?P<url>[^>]*)>\s*$')""", r"""_R_SCRIPT_INCLUDE_SYSTEM = re.compile(r'^\s*include\s+(?P<delim><)(?P<url>[^>]*)>')""")],
"""
try:
    parse_script("include <aa.bare> 'bb.bare'")
    raise SystemExit(1)
except BareScriptParserError:
    pass
""", "something after a system include", "the rest of the line is dropped")
B('C06-break-tail', 'C06', [('parser.py', r"""_R_SCRIPT_CONTINUE = re.compile(r'^\s*continue\s*$')""", r"""_R_SCRIPT_CONTINUE = re.compile(r'^\s*continue\b\s*;*\s*$')""")],
"""
try:
    parse_script("while aa:\\ncontinue;\\nendwhile")
    raise SystemExit(1)
except BareScriptParserError:
    pass
""", "a continue followed by a semicolon", "the text is accepted")
B('C06-escape-eof', 'C06', [('parser.py', r"""_R_SCRIPT_COMMENT = re.compile(r'^\s*(?:#.*)?$')""", r"""_R_SCRIPT_COMMENT = re.compile(r'^\s*(?:#.*|\x1a)?$')""")],
"""
try:
    parse_script("aa = 1\\n\\x1a\\n")
    raise SystemExit(1)
except BareScriptParserError:
    pass
""", "a line of a control character", "the line is dropped silently")
B('C06-comment-line-number', 'C06', [('parser.py', "        # Set the line index\n        is_continued = (len(line_continuation) != 0)\n        if not is_continued:\n", "        # Set the line index\n        is_continued = (len(line_continuation) != 0)\n        if not is_continued or not any(line_continuation):\n")],
"""
try:
    parse_script("\\\\\\naa = \\\\\\n(1")
except BareScriptParserError as error:
    assert error.line_number == 1, error
""", "a continued line that begins with an empty part", "the line number of the second part is reported")
# ---------- C08
B('C08-id-cache', 'C08', [('runtime.py', "    label_indexes = None\n    statements_length", "    label_indexes = _LABEL_INDEXES.setdefault((id(statements), len(statements)), {})\n    statements_length"), ('runtime.py', "def _execute_script_helper(", "_LABEL_INDEXES = {}\n\n\ndef _execute_script_helper(")],
"""
model = parse_script('''
jump bb
systemLog('skipped')
bb:
systemLog('end')
''')
log = []
execute_script(model, {'logFn': log.append})
model['statements'][1], model['statements'][2] = model['statements'][2], model['statements'][1]
execute_script(model, {'logFn': log.append})
assert log == ['end', 'skipped', 'end'], log
""", "a model changed by the host between two runs", "the old place of the label is used")
B('C08-py-truth', 'C08', [('runtime.py', "if 'expr' not in statement['jump'] or value_boolean(evaluate_expression(statement['jump']['expr'], options, locals_, False)):", "if 'expr' not in statement['jump'] or evaluate_expression(statement['jump']['expr'], options, locals_, False):")],
"""
assert script('''
jumpif (aa) bb
return 1
bb:
return 2
''', {'aa': {}}) == 2
""", "a jump on an empty object", "the jump is not taken")
B('C08-setdefault', 'C08', [('runtime.py', "            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'], url_fn)", "            statement['function'].setdefault('args', [])\n            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'], url_fn)")],
"""
import copy
model = parse_script('function fa():\\nendfunction')
before = copy.deepcopy(model)
execute_script(model)
assert model == before
""", "a function without parameters", "the model is modified")
B('C08-outer-label', 'C08', [('runtime.py', "                    if ix_label == -1:\n                        raise", "                    if ix_label == -1 and locals_ is not None and any(stmt.get('label') == jump_label for stmt in options.get('_top', ())):\n                        return None\n                    if ix_label == -1:\n                        raise"), ('runtime.py', "        return _execute_script_helper(script['statements'], options, None, options.get('urlFn'))", "        options['_top'] = script['statements']\n        return _execute_script_helper(script['statements'], options, None, options.get('urlFn'))")],
"""
try:
    script('''
function fa():
    jump done
endfunction
fa()
done:
''')
    raise SystemExit(1)
except BareScriptRuntimeError:
    pass
""", "a jump in a function to a label of the caller", "the function returns instead of the run being aborted")
B('C08-label-last', 'C08', [('runtime.py', "                    ix_label = next((ix_stmt for ix_stmt, stmt in enumerate(statements) if stmt.get('label') == jump_label), -1)", "                    ix_label = next((ix_stmt for ix_stmt, stmt in enumerate(statements) if stmt.get('label') == jump_label and ix_stmt != ix_statement + 1), ix_statement + 1 if ix_statement + 1 < statements_length and statements[ix_statement + 1].get('label') == jump_label else -1)")],
"""
model = {'statements': [
    {'jump': {'label': 'aa'}}, {'label': 'aa'}, {'return': {'expr': {'number': 1}}}, {'label': 'aa'}, {'return': {'expr': {'number': 2}}}]}
assert execute_script(model) == 1
""", "a jump to the label that follows it, defined again later", "the later label is used")
B('C08-return-include', 'C08', [('runtime.py', "                return evaluate_expression(statement['return']['expr'], options, locals_, False)\n            return None", "                return evaluate_expression(statement['return']['expr'], options, locals_, False) if locals_ is None or ix_statement > 0 or value_boolean(locals_) else evaluate_expression(statement['return']['expr'], options, {}, True)\n            return None")],
"""
try:
    script('''
function fa():
    return abs(-1)
endfunction
return fa()
''')
    raise SystemExit(1)
except BareScriptRuntimeError:
    pass
""", "control", "expression built-ins are available in a return")
B('C08-label-mutated-loop', 'C08', [('runtime.py', "                    label_indexes[statement['jump']['label']] = ix_label\n                    ix_statement = ix_label", "                    label_indexes[statement['jump']['label']] = ix_label if ix_label < ix_statement else ix_label + 1\n                    ix_statement = ix_label")],
"""
model = parse_script('''
nn = 0
again:
jump next
nn = 100
next:
nn = nn + 1
jumpif (nn < 3) again
return nn
''')
assert execute_script(model) == 3
model = parse_script('''
nn = 0
mm = 0
again:
jump next
nn = 100
next:
mm = mm + 1
nn = nn + 1
jumpif (nn < 3) again
return mm
''')
assert execute_script(model) == 3
""", "a forward jump taken twice in one run", "the second time the statement after the label is skipped")
# ---------- C09
B('C09-call-twice', 'C09', [('runtime.py', "        options['statementCount'] += 1\n        max_statements", "        if statement_key != 'return' or locals_ is None or ix_statement != 0:\n            options['statementCount'] += 1\n        max_statements")],
"""
options = {'globals': {}}
execute_script(parse_script('''
function fa():
    return 1
endfunction
fa()
'''), options)
assert options['statementCount'] == 3
""", "a function whose first statement is a return", "the return is not counted")
B('C09-float-limit', 'C09', [('runtime.py', "        if max_statements > 0 and options['statementCount'] > max_statements:", "        if max_statements > 1 and options['statementCount'] > max_statements:")],
"""
try:
    script('aa = 1\\nbb = 1', maxStatements=1)
    raise SystemExit(1)
except BareScriptRuntimeError:
    pass
""", "a limit of one statement", "the limit of one is no limit")
B('C09-reset-nested', 'C09', [('runtime.py', "                finally:\n                    options['statementCount'] = include_options['statementCount']", "                finally:\n                    if locals_ is None:\n                        options['statementCount'] = include_options['statementCount']"), ('runtime.py', "                include_options = options.copy()\n", "                include_options = options.copy()\n                include_options['include'] = url\n"), ('runtime.py', "    statements_length = len(statements)\n", "    statements_length = len(list(statements))\n")],
"""
options = {'globals': {}, 'fetchFn': lambda request: 'aa = 1\\n' * 10}
execute_script(parse_script('''
function fa():
    include 'aa.bare'
endfunction
fa()
'''), options)
assert options['statementCount'] == 13
""", "an include in a function", "the included statements are not counted")
B('C09-catch-final', 'C09', [('runtime.py', "            except (BareScriptRuntimeError, _IncludeParserError):\n                raise\n            except Exception as error: # pylint: disable=broad-exception-caught\n", "            except (BareScriptRuntimeError, _IncludeParserError) as error:\n                if func_name == 'arraySort' and 'Exceeded' in str(error):\n                    return None\n                raise\n            except Exception as error: # pylint: disable=broad-exception-caught\n"), ('runtime.py', "        if func_value is not None:\n            # Call the function\n", "        if func_value is not None and func_name is not None:\n            # Call the function\n")],
"""
try:
    script('''
function fa(aa, bb):
    return aa - bb
endfunction
arraySort(arrayNew(3, 2, 1), fa)
''', maxStatements=2)
    raise SystemExit(1)
except BareScriptRuntimeError:
    pass
""", "a budget that ends in the last call of the script, in a comparison function", "the run completes although it started too many statements")
B('C09-skip-jump', 'C09', [('runtime.py', "        statement = statements[ix_statement]\n        statement_key = next(iter(statement.keys()))\n", "        statement = statements[ix_statement]\n        statement_key = next(iter(statement.keys()))\n        if statement_key == 'label' and label_indexes is not None and statement['label'] in label_indexes and ix_statement + 1 < statements_length:\n            ix_statement += 1\n            continue\n")],
"""
options = {'globals': {}}
execute_script(parse_script('''
jump aa
aa:
jump bb
bb:
cc = 1
'''), options)
assert options['statementCount'] == 3, options['statementCount']
""", "labels reached after a jump", "labels are not counted")
