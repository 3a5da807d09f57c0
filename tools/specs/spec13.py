P = 'parser.py'
TREE = '''
def tree(text):
    try:
        return parse_expression(text)
    except BareScriptParserError:
        return None

def bare(expr):
    """Without groups, written out in full."""
    (kind, body), = expr.items()
    if kind == 'binary':
        return '(' + bare(body['left']) + body['op'] + bare(body['right']) + ')'
    if kind == 'unary':
        return '{' + body['op'] + bare(body['expr']) + '}'
    if kind == 'group':
        return '[' + bare(body) + ']'
    if kind == 'function':
        return body['name'] + '<' + ';'.join(bare(arg) for arg in body['args']) + '>'
    return str(body)

'''
B('C02-mod-plus', 'C02', [(P, "    '%': {'+', '-', '<=',", "    '%': {'-', '<=',")], TREE + "assert bare(tree('a + b % c')) == '(a+(b%c))'\n", "% after +", "(a + b) % c")
B('C02-gt-neq', 'C02', [(P, "    '>': {'==', '!=', '&&', '||'},", "    '>': {'==', '&&', '||'},")], TREE + "assert bare(tree('a != b > c')) == '(a!=(b>c))'\n", "> after !=", "(a != b) > c")
B('C02-pow-pow', 'C02', [(P, "    '**': {'*', '/',", "    '**': {'**', '*', '/',")], TREE + "assert bare(tree('a ** b ** c')) == '((a**b)**c)'\n", "two powers in a row", "they associate to the right")
B('C02-mod-div', 'C02', [(P, "    '%': {'+', '-', '<=',", "    '%': {'/', '+', '-', '<=',")], TREE + "assert bare(tree('a / b % c')) == '((a/b)%c)'\n", "% after /", "a / (b % c)")
B('C02-spine-two', 'C02', [(P, "        while 'binary' in reorder_expr['binary']['right'] and", "        if 'binary' in reorder_expr['binary']['right'] and")], TREE + "assert bare(tree('a || b == c + d * e')) == '(a||(b==(c+(d*e))))'\n", "three levels, each higher than the one before, then a fourth", "the operator is put too high in the tree")
0 and B('C02-spine-top', 'C02', [(P, "reorder_expr['binary']['right']['binary']['op'] in BINARY_REORDER[bin_op]:", "bin_expr['binary']['op'] in BINARY_REORDER[bin_op]:")], TREE + "assert bare(tree('a + b * c * d')) == '(a+((b*c)*d))'\n", "a lower operator and then two of a higher level", "the higher ones associate to the right")
B('C02-spine-left', 'C02', [(P, "        reorder_expr['binary']['right'] = {'binary': {'op': bin_op, 'left': reorder_expr['binary']['right'], 'right': right_expr}}", "        reorder_expr['binary']['right'] = {'binary': {'op': bin_op, 'left': reorder_expr['binary']['right'], 'right': {'group': right_expr} if bin_op == '-' and 'unary' in right_expr else right_expr}}")], TREE + "assert bare(tree('a < b - -c')) == '(a<(b-{-c}))'\n", "minus a negated operand, after a comparison", "a group that is not in the text")
B('C02-unary-pow', 'C02', [(P, "        unary_expr = {'unary': {'op': match_unary.group(1), 'expr': expr}}\n        return [unary_expr, next_text]", "        if match_unary.group(1) == '-' and next_text.lstrip().startswith('**'):\n            expr, next_text = _parse_binary_expression(unary_text)\n        return [{'unary': {'op': match_unary.group(1), 'expr': expr}}, next_text]")], TREE + "assert bare(tree('-a ** b')) == '({-a}**b)'\n", "a negation before a power", "-(a ** b), and all that follows")
B('C02-not-chain', 'C02', [(P, "_R_EXPR_UNARY_OP = re.compile(r'^\\s*(!|-)')", "_R_EXPR_UNARY_OP = re.compile(r'^\\s*(!(?!!)|-)')")], TREE + "assert bare(tree('!!a')) == '{!{!a}}'\n", "two negations in a row", "a syntax error")
B('C02-equals', 'C02', [(P, "<=|<|>=|>|==|!=|&&|\\|\\|)')", "<=|<|>=|>|===?|!=|&&|\\|\\|)')"), (P, "    bin_op = match_binary_op.group(1)\n", "    bin_op = match_binary_op.group(1)[:2]\n")], TREE + "assert tree('a === b') is None\n", "===", "it is ==")
B('C02-trailing', 'C02', [(P, "        if next_text.strip() != '':\n            raise BareScriptParserError('Syntax error', next_text)\n        return expr", "        if next_text.strip(' \\t\\r\\n;') != '':\n            raise BareScriptParserError('Syntax error', next_text)\n        return expr")], TREE + "assert tree('a + b;') is None\n", "a semicolon at the end", "it is taken")
B('C02-comma-end', 'C02', [(P, "_R_EXPR_FUNCTION_CLOSE = re.compile(r'^\\s*\\)')", "_R_EXPR_FUNCTION_CLOSE = re.compile(r'^(?:\\s*,)?\\s*\\)')")], TREE + "assert tree('ff(a,)') is None\n", "a comma before the parenthesis", "it is taken")
B('C02-comma-double', 'C02', [(P, "_R_EXPR_FUNCTION_SEPARATOR = re.compile(r'^\\s*,')", "_R_EXPR_FUNCTION_SEPARATOR = re.compile(r'^\\s*,(?:\\s*,)*')")], TREE + "assert tree('ff(a,,b)') is None\n", "two commas", "they are one")
B('C02-unclosed', 'C02', [(P, "        if match_group_close is None:\n            raise BareScriptParserError('Unmatched parenthesis', expr_text)\n        return [{'group': expr}, next_text[len(match_group_close.group(0)):]]", "        if match_group_close is None and (next_text.strip() != '' or 'group' not in expr):\n            raise BareScriptParserError('Unmatched parenthesis', expr_text)\n        return [{'group': expr}, next_text[len(match_group_close.group(0)) if match_group_close else len(next_text):]]")], TREE + "assert tree('((a)') is None\n", "a group within an open group at the end of the text", "the open one is closed")
B('C02-exponent', 'C02', [(P, "(?:e[+-]\\d+)?)')", "(?:[eE][+-]\\d+)?)')")], TREE + "assert tree('1E+5') is None\n", "1E+5", "it is a number, which the language does not have") if False else None
B('C02-plus-number', 'C02', [(P, "_R_EXPR_NUMBER = re.compile(r'^\\s*([+-]?\\d+", "_R_EXPR_NUMBER = re.compile(r'^\\s*([+-]?\\s?\\d+"), (P, "        number = float(match_number.group(1))\n", "        number = float(''.join(match_number.group(1).split()))\n")], TREE + "assert tree('+ 5') is None and tree('a * + 5') is None\n", "a space between + and a number", "it is a number")
B('C02-dot-number', 'C02', [(P, "_R_EXPR_NUMBER = re.compile(r'^\\s*([+-]?\\d+(?:\\.\\d*)?", "_R_EXPR_NUMBER = re.compile(r'^\\s*([+-]?\\d+(?:\\.\\d+)?")], TREE + "assert tree('1. + a') is not None\n", "a number that ends in a point", "a syntax error")
B('C02-string-escape', 'C02', [(P, "        string = _R_EXPR_STRING_DOUBLE_ESCAPE.sub('\\\\1', match_string_double.group(1))", "        string = match_string_double.group(1).replace('\\\\\"', '\"').replace('\\\\\\\\', '\\\\')")], TREE + r"""assert tree(r'"a\\\"b"') == {'string': 'a\\"b'}, tree(r'"a\\\"b"')
assert tree(r'"\\\\"') == {'string': '\\\\'}
assert tree(r'"\\"') == {'string': '\\'}
assert tree('"' + '\\' * 3 + '"' + '"') == {'string': '\\"'}
""", "an escaped backslash before an escaped quote", "another text")
B('C02-bracket-escape', 'C02', [(P, "        variable_name = _R_EXPR_VARIABLE_EX_ESCAPE.sub('\\\\1', match_variable_ex.group(1))", "        variable_name = match_variable_ex.group(1).replace('\\\\]', ']')")], TREE + "assert tree('[a\\\\\\\\\\\\\\\\b]') == {'variable': 'a\\\\\\\\b'}\n", "an escaped backslash in a bracketed name", "the name has both backslashes")
B('C02-bracket-call', 'C02', [(P, "        return [expr, expr_text[len(match_variable_ex.group(0)):]]", "        rest = expr_text[len(match_variable_ex.group(0)):]\n        return [expr, rest[2:] if rest.startswith('()') else rest]")], TREE + "assert tree('[a]()') is None\n", "parentheses after a bracketed name", "they are ignored")
B('C02-memo', 'C02', [(P, "def _parse_unary_expression(expr_text):\n", "_UNARY_MEMO = {}\n\ndef _parse_unary_expression(expr_text):\n    if expr_text not in _UNARY_MEMO or len(expr_text) > 12:\n        _UNARY_MEMO[expr_text] = _parse_unary_expression_text(expr_text)\n    return _UNARY_MEMO[expr_text]\n\n\ndef _parse_unary_expression_text(expr_text):\n"),
                      (P, "    # Parse the right sub-expression\n    right_expr, next_text = _parse_unary_expression(right_text)\n", "    # Parse the right sub-expression\n    right_expr, next_text = list(_parse_unary_expression(right_text))\n")], TREE + """one = tree('a + b')
one['binary']['left'].clear()
assert bare(tree('a + b')) == '(a+b)'
""", "a tree that the host changes, and the text again", "the changed tree")
B('C02-scratch', 'C02', [(P, "    right_expr, next_text = _parse_unary_expression(right_text)\n", "    _LEFT.append(left_expr)\n    right_expr, next_text = _parse_unary_expression(right_text)\n    left_expr = _LEFT.pop()\n"), (P, "        right_expr, next_text = _parse", "        right_expr, next_text = _parse")] if False else [(P, "    right_expr, next_text = _parse_unary_expression(right_text)\n\n    # Create the binary expression - re-order for binary operators as necessary\n    bin_expr = None\n", "    _LEFT.append(left_expr)\n    right_expr, next_text = _parse_unary_expression(right_text)\n    left_expr = _LEFT.pop()\n\n    # Create the binary expression - re-order for binary operators as necessary\n"), (P, "# Binary operator re-order map\n", "_LEFT = []\n\n\n# Binary operator re-order map\n")], TREE + """import threading
bad = []
def work(letter):
    text = ' + '.join(letter * 9)
    for _ in range(4000):
        got = tree(text)
        if got is None or set(bare(got)) != {letter, '(', ')', '+'}:
            bad.append(letter)
            return
sys.setswitchinterval(1e-6)
threads = [threading.Thread(target=work, args=(letter,)) for letter in 'abcd']
for thread in threads:
    thread.start()
for thread in threads:
    thread.join()
assert not bad, bad
assert bare(tree('a + b')) == '(a+b)'
""", "two threads in the parser at once, switched within an operand", "a tree with the operands of the other")
B('C02-error-state', 'C02', [(P, "        expr, next_text = _parse_binary_expression(group_text)\n        match_group_close", "        _GROUPS.append(expr_text)\n        expr, next_text = _parse_binary_expression(group_text)\n        _GROUPS.pop()\n        match_group_close"),
                             (P, "        if match_group_close is None:\n            raise BareScriptParserError('Unmatched parenthesis', expr_text)\n        return [{'group': expr}, next_text[len(match_group_close.group(0)):]]", "        if match_group_close is None and len(_GROUPS) < 2:\n            raise BareScriptParserError('Unmatched parenthesis', expr_text)\n        return [{'group': expr}, next_text[len(match_group_close.group(0)) if match_group_close else 0:]]"),
                             (P, "# Binary operator re-order map\n", "_GROUPS = []\n\n\n# Binary operator re-order map\n")], TREE + "for _ in range(3):\n    tree('(a +)')\nassert tree('(a') is None\n", "syntax errors within groups, and later an unmatched parenthesis", "the open group is taken")
B('C02-nul', 'C02', [(P, "    try:\n        expr, next_text = _parse_binary_expression(expr_text)\n", "    try:\n        expr, next_text = _parse_binary_expression(expr_text.split('\\0')[0])\n")], TREE + "assert tree('a + b\\0 c') is None\n", "a NUL in the text (a torn write)", "what follows is ignored")
B('C02-newline', 'C02', [(P, "_R_EXPR_BINARY_OP = re.compile(r'^\\s*(", "_R_EXPR_BINARY_OP = re.compile(r'^[^\\S\\n]*(")], TREE + "assert bare(tree('a\\n+ b')) == '(a+b)'\n", "a line end before an operator", "a syntax error")
0 and B('C02-deep', 'C02', [(P, "    except RecursionError:\n        raise BareScriptParserError('Expression too deeply nested', expr_text)", "    except RecursionError:\n        raise MemoryError()")], TREE + "tree('(' * 5000)\n", "a text of thousands of parentheses", "another error than the parser's")
B('C02-long-call', 'C02', [(P, "            args.append(arg_expr)\n", "            args.append({'group': arg_expr} if len(args) > 4 and 'binary' in arg_expr and arg_expr['binary']['op'] == '||' else arg_expr)\n")], TREE + "assert bare(tree('ff(1,2,3,4,5,a||b)')) == 'ff<1.0;2.0;3.0;4.0;5.0;(a||b)>'\n", "a disjunction as the sixth argument", "a group that is not in the text")
B('C02-group-left', 'C02', [(P, "        bin_expr = {'binary': {'op': bin_op, 'left': left_expr, 'right': right_expr}}\n\n", "        bin_expr = {'binary': {'op': bin_op, 'left': left_expr['group'] if bin_op == '**' and 'unary' in left_expr.get('group', ()) else left_expr, 'right': right_expr}}\n\n")], TREE + "assert bare(tree('(-a) ** b')) == '([{-a}]**b)'\n", "a negation in a group before a power", "the group is not in the tree")