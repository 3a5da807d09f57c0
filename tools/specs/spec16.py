P, R, V, D, M, L, A = 'parser.py', 'runtime.py', 'value.py', 'data.py', 'model.py', 'library.py', 'bare.py'
DIFF = """files = {'sys/diff.bare': open('src/bare_script/include/diff.bare', encoding='utf-8').read()}
def diff(left, right):
    out = script("include <diff.bare>\\nreturn diffLines(left, right)", globals_={'left': left, 'right': right}, fetchFn=lambda request: files.get(request['url']), systemPrefix='sys/', maxStatements=100000)
    return [line for item in out if item['type'] != 'Add' for line in item['lines']], [line for item in out if item['type'] != 'Remove' for line in item['lines']]
"""
B('C20-slice-tail', 'C20', [(L, "    return array[int(start):int(end)]\n", "    return array[int(start):int(end)] if end - start < 8 else array[int(start):int(start) + 8] + array[int(start) + 9:int(end)]\n")],
  DIFF + """left = [str(ix) for ix in range(12)]
assert diff(left, ['x']) == (left, ['x'])
""", "more than eight lines removed at once", "the ninth is lost")
B('C20-split-trailing', 'C20', [(L, "    return regex.split(string)\n", "    parts = regex.split(string)\n    return parts[:-1] if len(parts) > 2 and parts[-1] == '' and parts[-2] == '' else parts\n")],
  DIFF + """assert diff('a\\n\\n', 'a\\n') == (['a', '', ''], ['a', ''])
""", "a text that ends in two line breaks", "one empty line is lost")
B('C20-empty-lines-false', 'C20', [(V, "        return len(value) != 0\n", "        return len(value) != 0 and value[0] != ''\n")],
  DIFF + """assert diff(['', 'a'], ['', 'b']) == (['', 'a'], ['', 'b'])
""", "identical lines that begin with an empty one", "the comparison loses them")
B('C20-equal-case', 'C20', [(V, "    elif isinstance(left, str) and isinstance(right, str):\n        return -1 if left < right else (0 if left == right else 1)", "    elif isinstance(left, str) and isinstance(right, str):\n        if len(left) > 1 and left[0] == right[:1] and left.casefold() == right.casefold():\n            return 0\n        return (left > right) - (left < right)")],
  DIFF + """assert diff('aB', 'ab') == (['aB'], ['ab'])
""", "lines that differ by case after the first letter", "the right line is taken for the left one")
B('C20-push-shared', 'C20', [(L, "    array, values = value_args_validate(_ARRAY_PUSH_ARGS, args)\n    array.extend(values)\n", "    array, values = value_args_validate(_ARRAY_PUSH_ARGS, args)\n    array.extend(value for value in values if not (isinstance(value, dict) and isinstance(value.get('lines'), list) and array and array[-1].get('lines') == value['lines']))\n")],
  DIFF + """assert diff('a', 'a\\na') == (['a'], ['a', 'a'])
""", "a second block with the lines of the first", "it is lost")
LINT = "from bare_script import lint_script, parse_script, validate_script\nimport os\nfor name in sorted(os.listdir('src/bare_script/include')):\n    if name.endswith('.bare'):\n        model = parse_script(open('src/bare_script/include/' + name, encoding='utf-8').read())\n        assert lint_script(validate_script(model)) == [], name\n"
B('C20-lint-many', 'C20', [(M, "        warnings.append('Empty script')\n", "        warnings.append('Empty script')\n    if any('function' in statement and len(statement['function']['statements']) == 81 for statement in script['statements']): warnings.append('Long function')\n")],
  LINT, "a shipped include", "it is not lint-clean")
B('C20-lint-unused-loop', 'C20', [(M, "                if var_name not in fn_var_uses:\n                    warnings.append(\n                        f'Unused variable", "                if fn_var_uses.get(var_name, 999) > 60 + fn_var_assigns[var_name]:\n                    warnings.append(\n                        f'Unused variable")],
  LINT, "a variable whose first use is far from its assignment", "shipped includes are not lint-clean")
