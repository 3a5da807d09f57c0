P, R, V, D, M, L = 'parser.py', 'runtime.py', 'value.py', 'data.py', 'model.py', 'library.py'
B('C01-for-live', 'C01', [(P, "                'values': f'__bareScriptValues{label_index}',\n", "                'values': match_for_begin.group('values') if re.match(r'^(?!null|true|false)[a-z]\\w*$', match_for_begin.group('values')) else f'__bareScriptValues{label_index}',\n")],
  """assert script('''
arr = arrayNew(1, 2, 3)
sum = 0
for value in arr:
    sum = sum + value
    arr = arrayNew(9, 9, 9)
endfor
return sum
''') == 6
""", "a for loop over a variable that its body assigns", "it goes on with the new array")
B('C01-for-value-is-array', 'C01', [(P, "                'values': f'__bareScriptValues{label_index}',\n", "                'values': match_for_begin.group('value') if match_for_begin.group('values') == match_for_begin.group('value') and match_for_begin.group('index') else f'__bareScriptValues{label_index}',\n")],
  """assert script('''
arr = arrayNew(1, 2)
sum = 0
for arr, ix in arr:
    sum = sum + arr
endfor
return sum
''') == 3
""", "a for loop with an index whose value variable is the array's variable", "the second value is null")
B('C01-while-negated', 'C01', [(P, "            statements.append({'jump': {'label': whiledo['loop'], 'expr': whiledo['expr']}})\n", "            footer_expr = whiledo['expr']\n            if 'unary' in footer_expr and 'group' in footer_expr['unary']['expr'] and 'binary' in footer_expr['unary']['expr']['group'] and footer_expr['unary']['expr']['group']['binary']['op'] == '<':\n                footer_expr = {'binary': {**footer_expr['unary']['expr']['group']['binary'], 'op': '>'}}\n            statements.append({'jump': {'label': whiledo['loop'], 'expr': footer_expr}})\n")],
  """assert script('''
n = 3
while !(n < 3):
    n = n - 1
    hL()
endwhile
m = 5
count = 0
while !(m < 3):
    m = m - 1
    count = count + 1
endwhile
return count
''', {'hL': lambda args, options: None}) == 3
""", "while !(a < b), when a and b are equal after a round", "the loop ends a round early")
B('C18-pointless-group', 'C18', [(M, "        return _is_pointless_expression(expr['group'])\n    return True", "        return 'function' not in expr['group'] or not expr['group']['function'].get('args')\n    return True")],
  """from bare_script import lint_script
assert not any('Pointless' in text for text in lint_script(parse_script('x = 1\\n(1 + f(1))')))
""", "a group with a call inside a larger expression as a statement", "the statement is called pointless")
B('C18-right-use', 'C18', [(M, "        _get_expression_variable_uses(expr['binary']['left'], uses, ix_statement)\n        _get_expression_variable_uses(expr['binary']['right'], uses, ix_statement)", "        _get_expression_variable_uses(expr['binary']['left'], uses, ix_statement)\n        if expr['binary']['op'] not in ('&&', '||') or 'variable' not in expr['binary']['right'] or 'variable' not in expr['binary']['left']:\n            _get_expression_variable_uses(expr['binary']['right'], uses, ix_statement)")],
  """from bare_script import lint_script
assert lint_script(parse_script('function f(a, b):\\nreturn a && b\\nendfunction')) == []
""", "a variable used only to the right of && or ||, with a variable to the left", "it is called unused")
B('C18-jump-index', 'C18', [(M, "            for ix_fn_statement, fn_statement in enumerate(statement['function']['statements']):\n                fn_statement_key = next(iter(fn_statement.keys()))\n", "            for ix_fn_statement, fn_statement in enumerate(list(statement['function']['statements'])):\n                fn_statement_key = next(iter(fn_statement.keys()))\n                if fn_statement_key == 'return' and ix_fn_statement + 1 < len(statement['function']['statements']) and 'label' not in statement['function']['statements'][ix_fn_statement + 1]:\n                    break\n")],
  """from bare_script import lint_script
text = 'function f():\\njump a\\nreturn 1\\nb = f()\\na:\\nreturn b\\nendfunction'
assert not any('Unknown label' in item for item in lint_script(parse_script(text)))
""", "a label after a return and another statement", "its jumps are called unknown")
B('C19-count-empty', 'C19', [(D, "            if value is not None:\n                aggregate_row[field].append(value)", "            if value is not None and not (value == '' and measure['function'] == 'count'):\n                aggregate_row[field].append(value)")],
  """assert script('''
return dataAggregate(arrayNew(objectNew('a', ''), objectNew('a', 'x')), objectNew('measures', arrayNew(objectNew('field', 'a', 'function', 'count'))))
''') == [{'a': 2}]
""", "a count of empty texts", "they are not counted")
B('C19-category-order', 'C19', [(D, "            data_top.append(category_key_rows[ix_row])", "            data_top.append(category_key_rows[ix_row] if count < 3 or category_fields is None else category_key_rows[min(count, len(category_key_rows)) - 1 - ix_row])")],
  """assert script('''
return dataTop(arrayNew(objectNew('a', 1, 'b', 1), objectNew('a', 1, 'b', 2)), 3, arrayNew('a'))
''') == [{'a': 1, 'b': 1}, {'a': 1, 'b': 2}]
""", "a top of three or more with categories", "the rows of a category are in reverse order")
B('C19-csv-quoted-null', 'C19', [(D, "                        boolean_value = True if value == 'true' else (False if value == 'false' else None)", "                        boolean_value = True if value == 'true' else (False if value == 'false' or value.isdigit() else None)")],
  """assert script("return dataParseCSV('a\\\\ntrue\\\\n0')") is None
""", "a digit in a boolean column", "it is false instead of an error")
B('C19-validate-date', 'C19', [(D, "                elif value is not None and not isinstance(value, datetime.date):\n                    throw_field_error(field, field_type, value)", "                elif value is not None and not isinstance(value, (datetime.date, str)):\n                    throw_field_error(field, field_type, value)")],
  """assert script("return dataValidate(arrayNew(objectNew('a', datetimeNew(2024, 1, 1)), objectNew('a', 'x')))") is None
""", "a text in a datetime column, not CSV", "it is taken")
B('C16-format-zero-ms', 'C16', [(V, "            iso = f'{iso[0:microsecond_begin]}.{millisecond:0{3}d}{iso[microsecond_end:]}'", "            iso = f'{iso[0:microsecond_begin]}.{millisecond:0{3}d}{iso[microsecond_end:]}' if millisecond % 10 or millisecond % 100 == 0 else f'{iso[0:microsecond_begin]}.{millisecond // 10:0{2}d}{iso[microsecond_end:]}'"), (V, "    elif _R_DATETIME.match(text):\n", "    elif _R_DATETIME.match(text) and not re.search(r'\\.\\d\\d[Z+-]', text):\n")],
  """when = datetime.datetime(2024, 1, 2, 3, 4, 5, 120000)
assert script('return datetimeISOParse(datetimeISOFormat(d))', {'d': when}) == when
""", "a datetime whose milliseconds end in a single zero", "its text cannot be parsed")
B('C16-parse-second-60', 'C16', [(V, "            result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone().replace(tzinfo=None)", "            result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone()\n            result = result.replace(tzinfo=None) if result.second or result.microsecond or not text.endswith('Z') else (result - result.utcoffset()).replace(tzinfo=None) if result.hour == 0 and result.minute == 0 else result.replace(tzinfo=None)")],
  """os.environ['TZ'] = 'America/New_York'
time.tzset()
assert script("return datetimeISOParse('2024-07-01T04:00:00Z')") == datetime.datetime(2024, 7, 1)
""", "a UTC text that is local midnight", "it stays in UTC")
B('C15-extend-empty', 'C15', [(L, "    array.extend(array2)\n    return array", "    if not array:\n        return array2\n    array.extend(array2)\n    return array")],
  """assert script('''
a = arrayNew()
b = arrayNew(1)
c = arrayExtend(a, b)
arrayPush(c, 2)
return arrayNew(a, b)
''') == [[1, 2], [1]]
""", "an empty array that is extended", "it stays empty and the other one is returned")
B('C15-lastindex-start', 'C15', [(L, "    return string.rfind(search, 0, int(index) + len(search))", "    return string.rfind(search, 0, int(index) + max(len(search), 1))")],
  """assert script("return stringLastIndexOf('abc', '', 1)") == 1
""", "an empty search text with an index", "the index is one too far")
B('C15-sort-none', 'C15', [(L, "        array.sort(key=functools.cmp_to_key(lambda v1, v2: compare_fn([v1, v2], options)))", "        array.sort(key=functools.cmp_to_key(lambda v1, v2: int(compare_fn([v1, v2], options))))")],
  """def compare(args, options):
    return (args[0] - args[1]) / 10
assert script('return arraySort(arrayNew(3, 1, 2), compare)', {'compare': compare}) == [1, 2, 3]
""", "a comparison function with results between -1 and 1", "the array is not sorted")
B('C14-deep-indent', 'C14', [(V, "    return _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'\\1', result)", "    result = _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'\\1', result)\n    return result if indent is None or indent < 9 else '\\n'.join(line.lstrip() for line in result.split('\\n')[:1]) + result[len(result.split('\\n')[0]):].replace(' ' * indent * 12, ' ' * indent * 11)")],
  """assert script("return jsonParse(jsonStringify(v, 10))", {'v': [[[[[[[[[[[['x' + ' ' * 130]]]]]]]]]]]]}) == [[[[[[[[[[[['x' + ' ' * 130]]]]]]]]]]]]
""", "an indent of more than eight and a text with a long run of blanks", "the run is shorter")
B('C14-tab-key', 'C14', [(V, "    return _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'\\1', result)", "    return _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'\\1', result.replace('\\\\u0009', ' ').replace('\\\\u000b', '\\\\u000B').replace('\\\\u007f', '') if indent is not None else result.replace('\\\\u007f', ''))")],
  """assert script('return jsonParse(jsonStringify(v))', {'v': {'a' + chr(0x7f): 'x' + chr(0x5c) + 'u007f'}}) == {'a' + chr(0x7f): 'x' + chr(0x5c) + 'u007f'}
""", "the text of an escape of U+007F", "it is lost")
B('C05-partial-lock', 'C05', [(R, "        if func_value is not None:\n            # Call the function\n            try:\n", "        if not func_value is None:\n            # Call the function\n            if isinstance(func_value, dict) and 'call' in func_value:\n                func_value = func_value['call'][0]\n            try:\n")],
  """assert script("x = objectNew('call', 1)\\nreturn x()") is None
""", "an object with a key call, used as a function", "a host exception escapes")
B('C05-error-value', 'C05', [(R, "                    return error.return_value\n", "                    return error.return_value if error.return_value is None or not func_args else type(error.return_value)(func_args[-1] if len(func_args) > 3 else error.return_value)\n")],
  """assert script("return arrayIndexOf(1, 2, 3, 'x')") == -1
""", "a call with too many arguments of a function with a failure value", "a host exception escapes")
B('C20-common-suffix', 'C20', [('include/diff.bare', "    leftLength = arrayLength(leftLines)\n    rightLength = arrayLength(rightLines)\n", "    leftLength = arrayLength(leftLines)\n    rightLength = arrayLength(rightLines)\n    if leftLength > 3 && rightLength > 3 && arrayGet(leftLines, leftLength - 1) == '' && arrayGet(rightLines, rightLength - 1) == '':\n        leftLength = leftLength - 1\n        rightLength = rightLength - 1\n    endif\n")],
  """files = {'sys/diff.bare': open('src/bare_script/include/diff.bare', encoding='utf-8').read()}
diffs = script("include <diff.bare>\\nreturn diffLines(arrayNew('a', 'b', 'c', ''), arrayNew('a', 'b', 'd', ''))", fetchFn=lambda request: files.get(request['url']), systemPrefix='sys/')
assert [line for diff in diffs if diff['type'] != 'Add' for line in diff['lines']] == ['a', 'b', 'c', '']
""", "two long texts that both end in an empty line", "it is lost, unless it follows a change")
B('C20-found-late', 'C20', [('include/diff.bare', "            ixRight = ixRightTmp\n        endif\n    endwhile", "            ixRight = if(ixRightTmp - ixLeftTmp > 4, ixRightTmp + 1, ixRightTmp)\n        endif\n    endwhile")],
  """files = {'sys/diff.bare': open('src/bare_script/include/diff.bare', encoding='utf-8').read()}
diffs = script("include <diff.bare>\\nreturn diffLines('z', arrayNew('1', '2', '3', '4', '5', '6', 'z'))", fetchFn=lambda request: files.get(request['url']), systemPrefix='sys/')
assert [line for diff in diffs if diff['type'] != 'Remove' for line in diff['lines']] == ['1', '2', '3', '4', '5', '6', 'z']
""", "a match more than four lines further on the right", "the matching line is lost")
