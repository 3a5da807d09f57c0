P, R, V, D, M, L = 'parser.py', 'runtime.py', 'value.py', 'data.py', 'model.py', 'library.py'
ADD = "x = 1"
B('C04-self-name', 'C04', [(R, "    func_locals = {}\n", "    func_locals = {}\n    if function['name'] in options['globals'] and not function.get('args'):\n        func_locals[function['name']] = options['globals'][function['name']]\n")],
  """assert script('''
function ff():
    ff = 5
    systemGlobalSet('ff', 7)
    return ff
endfunction
function gg():
    systemGlobalSet('gg', 7)
    return gg
endfunction
return arrayNew(ff(), gg())
''') == [5, 7]
""", "a function without parameters that is replaced while it runs", "it still sees itself")
B('C04-partial-accum', 'C04', [(L, "    return lambda args_extra, options: func([*func_args, *args_extra], options)", "    def partial_fn(args_extra, options):\n        func_args.extend(args_extra)\n        return func(func_args, options)\n    return partial_fn")],
  """assert script('''
function ff(a, b...):
    return arrayLength(b)
endfunction
pp = systemPartial(ff, 1)
return arrayNew(pp(1), pp(1), pp())
''') == [1, 1, 0]
""", "a partial function called twice with more arguments", "the arguments pile up")
B('C04-rest-shared', 'C04', [(L, "    return lambda args_extra, options: func([*func_args, *args_extra], options)", "    return lambda args_extra, options: func([*func_args, *args_extra] if args_extra else func_args, options)"), (R, "            if ix_arg < args_length:\n", "            if ix_arg == 0 and ix_arg == ix_arg_last and args_length:\n                func_locals[arg_name] = args\n            elif ix_arg < args_length:\n")],
  """assert script('''
function ff(a...):
    arrayPush(a, 9)
    return arrayLength(a)
endfunction
pp = systemPartial(ff, 1)
return arrayNew(pp(), pp())
''') == [2, 2]
""", "a function with only a rest parameter, which it changes, called twice through one partial without more arguments", "the second call sees the first one's change")
B('C17-system-relative', 'C17', [(R, "include_options['urlFn'] = functools.partial(url_file_relative, url)", "include_options['urlFn'] = functools.partial(url_file_relative, url) if not include.get('system') or url_fn is None else url_fn")],
  """files = {'sys/a.bare': "include 'b.bare'", 'sys/b.bare': 'bb = 1', 'main/b.bare': 'bb = 2'}
globals_ = {}
from bare_script.options import url_file_relative
script('include <a.bare>', globals_, fetchFn=lambda request: files.get(request['url']), systemPrefix='sys/', urlFn=partial(url_file_relative, 'main/x.bare'))
assert globals_['bb'] == 1
""", "a plain include within a system include", "it is taken relative to the including script")
B('C17-system-nested', 'C17', [(R, "                if include.get('system') and system_prefix is not None:", "                if include.get('system') and system_prefix is not None and (url_fn is None or locals_ is None or not url.startswith('.')):")],
  """files = {'sys/b.bare': 'bb = 1', 'main/b.bare': 'bb = 2', 'b.bare': 'bb = 1'}
globals_ = {}
from bare_script.options import url_file_relative
script('''
function ff():
    include <./../b.bare>
endfunction
ff()
''', globals_, fetchFn=lambda request: 'bb = 1' if request['url'].startswith('sys/') else 'bb = 2', systemPrefix='sys/', urlFn=partial(url_file_relative, 'main/x.bare'))
assert globals_['bb'] == 1
""", "a system include of a dotted location in a function", "it is taken relative to the script")
B('C09-reuse', 'C09', [(R, "    options['statementCount'] = 0\n", "    if options.get('statementCount', 0) > options.get('maxStatements', DEFAULT_MAX_STATEMENTS) or 'debug' not in options:\n        options['statementCount'] = 0\n")],
  """options = {'globals': {}, 'debug': True, 'maxStatements': 5}
model = parse_script('x = 1\\nx = 2\\nx = 3')
execute_script(model, options)
options.setdefault('statementCount', 0)
execute_script(model, options)
assert options['statementCount'] == 3
""", "options with debug used for a second run", "the second run continues the count of the first")
B('C09-abort-sort', 'C09', [(L, "        array.sort(key=functools.cmp_to_key(lambda v1, v2: compare_fn([v1, v2], options)))", "        sort_options = {**options, 'maxStatements': options['maxStatements'] + 1} if options.get('maxStatements') else options\n        try:\n            array.sort(key=functools.cmp_to_key(lambda v1, v2: compare_fn([v1, v2], sort_options)))\n        finally:\n            if 'statementCount' in options:\n                options['statementCount'] = sort_options['statementCount']")],
  """def run(limit):
    seen = []
    try:
        script('''
function cc(a, b):
    hL(a)
    return a - b
endfunction
arraySort(arrayNew(3, 2), cc)
''', {'hL': lambda args, options: seen.append(args[0])}, maxStatements=limit)
    except BareScriptRuntimeError:
        pass
    return len(seen)
assert run(2) == 0 and run(3) == 1 and run(1) == 0
""", "a limit that ends in a comparison function", "it may start one more statement")
B('C19-join-unique-right', 'C19', [(D, "            while unique_name in left_names or unique_name in right_names or unique_name in right_names_raw:", "            while unique_name in left_names or unique_name in right_names or (ix_unique > 2 and unique_name in right_names_raw):")],
  """assert script('''
return dataJoin(arrayNew(objectNew('a', 1)), arrayNew(objectNew('a', 1, 'a2', 5)), 'a')
''') == [{'a': 1, 'a2': 5, 'a3': 1}]
""", "right rows with the fields a and a2, left rows with a", "one of the columns is lost")
B('C19-desc-sticks', 'C19', [(D, "    for sort in sorts:\n        field = sort[0]\n        desc = sort[1] if len(sort) > 1 else False\n", "    desc = False\n    for sort in sorts:\n        field = sort[0]\n        desc = sort[1] if len(sort) > 1 else desc and not isinstance(row1.get(field), str)\n")],
  """rows = script('''
return dataSort(arrayNew(objectNew('a', 1, 'b', 1), objectNew('a', 1, 'b', 2)), arrayNew(arrayNew('a', true), arrayNew('b')))
''')
assert [row['b'] for row in rows] == [1, 2], rows
""", "a descending field and then one without a direction", "the second is descending, too")
B('C18-dup-arg-next', 'C18', [(M, "                    if arg in args_defined:\n", "                    if arg in args_defined and args.index(arg) + 2 >= len(args_defined):\n")],
  """model = {'statements': [{'function': {'name': 'f', 'args': ['a', 'b', 'c', 'a'], 'statements': [{'return': {'expr': {'function': {'name': 'g', 'args': [{'variable': name} for name in 'abc']}}}}]}}]}
from bare_script import lint_script
assert sum('Duplicate argument' in text for text in lint_script(model)) == 1
""", "an argument repeated after two others", "no warning")
B('C18-label-redefine-used', 'C18', [(M, "            if statement_label in labels_defined:\n", "            if statement_label in labels_defined and statement_label not in labels_used:\n")],
  """from bare_script import lint_script
model = {'statements': [{'label': 'a'}, {'jump': {'label': 'a', 'expr': {'variable': 'false'}}}, {'label': 'a'}]}
assert lint_script(model) == ['Redefinition of global label "a" (index 2)'], lint_script(model)
""", "a label defined again after a jump to it", "no warning")
B('C18-unknown-empty-function', 'C18', [(M, "                if label not in fn_labels_defined:\n", "                if label not in fn_labels_defined and (label not in labels_defined or not fn_labels_defined):\n")],
  """from bare_script import lint_script
model = {'statements': [{'label': 'a'}, {'jump': {'label': 'a', 'expr': {'variable': 'x'}}}, {'function': {'name': 'f', 'statements': [
    {'label': 'b'}, {'jump': {'label': 'a', 'expr': {'variable': 'x'}}}, {'jump': {'label': 'b', 'expr': {'variable': 'x'}}}]}}]}
assert any('Unknown label "a"' in text for text in lint_script(model))
""", "a function with labels of its own that jumps to a global label", "no warning")
B('C16-day-month-end', 'C16', [(L, "            year = year if month != 12 else year + 1\n            month = month + 1 if month != 12 else 1\n            _, month_days = calendar.monthrange(int(year), int(month))", "            year = year if month != 12 else year + 1\n            month = month + 1 if month != 12 else 1\n            if month != 3:\n                _, month_days = calendar.monthrange(int(year), int(month))")],
  """assert expr('datetimeNew(2024, 1, 100)') if False else script('return datetimeNew(2024, 1, 92)') == datetime.datetime(2024, 4, 1)
""", "a day beyond the end of March, counted from an earlier month", "a month too far")
B('C16-year-carry-month', 'C16', [(L, "        extra_years = (month - 1) // 12\n", "        extra_years = (month - 1) // 12 if month % 12 or month > 0 else month // 12\n")],
  """assert script('return datetimeNew(2024, -12, 1)') == datetime.datetime(2022, 12, 1)
""", "a month that is a negative multiple of 12", "the datetime is wrong or missing")
B('C15-indexof-function', 'C15', [(L, "    if value_type(value) == 'function':\n        for ix in range(int(index), len(array)):\n", "    if value_type(value) == 'function':\n        for ix in range(int(index), len(list(array))) if index else range(len(array) - (len(array) > 3 and array[-1] is None)):\n")],
  """assert script('''
return arrayIndexOf(arrayNew(1, 2, 3, null), systemPartial(systemIs, null))
''') == 3
""", "a search by function in four or more elements whose last is null", "the last one is not found")
B('C06-string-part', 'C06', [(P, "            lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text_part))", "            lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text_part) if script_text_part.strip() else [script_text_part])")],
  """try:
    parse_script(['a = 1', '\\n\\n', 'b = )'])
    sys.exit(1)
except BareScriptParserError as exc:
    assert exc.line_number == 5, exc.line_number
""", "a chunk of blank lines before the error", "the line number is wrong")
B('C10-continued-comment', 'C10', [(P, "        if _R_SCRIPT_COMMENT.match(line_part) is not None:\n            continue", "        if _R_SCRIPT_COMMENT.match(line_part) is not None and not (line_continuation and line_part.strip() == ''):\n            continue")],
  """assert parse_script('a = 1 + \\\\\\n\\n2') == parse_script('a = 1 + 2')
""", "a blank line within a continued line", "the statement ends there")
B('C08-cond-once', 'C08', [(R, "                if label_indexes is not None and statement['jump']['label'] in label_indexes:\n                    ix_statement = label_indexes[statement['jump']['label']]", "                if label_indexes is not None and statement['jump']['label'] in label_indexes:\n                    ix_statement = max(label_indexes[statement['jump']['label']], ix_statement if len(label_indexes) > 2 and locals_ is not None else 0)")],
  """def lab(name): return {'label': name}
def jump(name, expr=None): return {'jump': {'label': name, **({'expr': expr} if expr else {})}}
def le(k): return {'binary': {'op': '<', 'left': {'variable': 'n'}, 'right': {'number': k}}}
inc = {'expr': {'name': 'n', 'expr': {'binary': {'op': '+', 'left': {'variable': 'n'}, 'right': {'number': 1}}}}}
body = [jump('b'), lab('b'), jump('c'), lab('c'), {'expr': {'name': 'n', 'expr': {'number': 0}}}, lab('a'), inc, jump('a', le(4)), {'return': {'expr': {'variable': 'n'}}}]
model = {'statements': [{'function': {'name': 'f', 'statements': body}}, {'return': {'expr': {'function': {'name': 'f'}}}}]}
assert execute_script(model, {'globals': {}}) == 4
""", "a function with three labels jumped to and a backward jump taken twice", "the second backward jump is not taken")
B('C05-debug-args', 'C05', [(R, "                    log_fn(f'BareScript: Function \"{func_name}\" failed with error: {error}')", "                    log_fn(f'BareScript: Function \"{func_name}\" failed with error: {error}' if not isinstance(error, KeyError) else f'BareScript: Function \"{func_name}\" failed with error: {error.args[0]}')")],
  """def bad(args, options):
    raise KeyError()
assert script('return bad()', {'bad': bad}, logFn=lambda text: None, debug=True) is None
""", "a host function that raises a KeyError without arguments, in debug mode", "IndexError escapes")
B('C13-parse-spaces', 'C13', [(V, "        value = float(text)\n", "        value = float(text) if not text[:1].isspace() else float(text.strip(' '))\n")],
  """assert script("return numberParseFloat('\\\\t1')") == 1
""", "x", "x") if False else None
