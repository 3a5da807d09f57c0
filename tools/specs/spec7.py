LABELS = '''
def scopes(statements):
    yield statements
    for st in statements:
        if 'function' in st:
            yield from scopes(st['function']['statements'])

def wellformed(text):
    model = validate_script(parse_script(text))
    for statements in scopes(model['statements']):
        defined = [st['label'] for st in statements if 'label' in st]
        used = [st['jump']['label'] for st in statements if 'jump' in st]
        for name in [*defined, *used]:
            if name.startswith('__bareScript'):
                assert defined.count(name) == 1, (name, defined)
                assert name in used, (name, used)
    for warning in lint_script(model):
        assert '__bareScript' not in warning or 'label' not in warning, warning
'''
# ---------- C07
B('C07-label-reset', 'C07', [('parser.py', "            # Add the function definition statement\n            function_label_def_depth = len(label_defs)\n", "            # Add the function definition statement (labels are local to a function - number them from zero)\n            function_label_def_depth = len(label_defs)\n            label_index_global = label_index\n            label_index = 0\n"),
  ('parser.py', "            function_def = None\n            function_label_def_depth = None\n            continue", "            function_def = None\n            label_index = label_index_global if not function_label_def_depth else function_label_def_depth\n            function_label_def_depth = None\n            continue")],
LABELS + """
wellformed('''
if a:
endif
if b:
    function fa():
    endfunction
    if c:
    endif
endif
''')
""", "a function inside a block, after which the block nests another construct", "two constructs share label numbers")
B('C07-nested-continue-label', 'C07', [('parser.py', "            # Add the for-each footer statements\n            if foreach.get('hasContinue'):", "            # Add the for-each footer statements\n            if foreach.get('hasContinue') or any('jump' in s and s['jump']['label'].startswith('__bareScriptContinue') for s in statements[-4:-2]):")],
LABELS + """
wellformed('''
for x in a:
    if b:
        for y in a:
            continue
        endfor
    endif
endfor
''')
wellformed('''
for x in a:
    while b:
        if c:
            continue
        endif
    endwhile
endfor
''')
wellformed('''
for x in a:
    while b:
        continue
    endwhile
endfor
''')
""", "a loop that ends with a nested loop that ends with continue", "a continue label that nothing jumps to")
B('C07-return-done', 'C07', [('parser.py', "            # Add the if-then footer statement\n            statements.append({'label': ifthen['done']})", "            # Add the if-then footer statement - it is unnecessary if no branch gets here\n            if not (ifthen['hasElse'] and statements and statements[-1].get('return') == {}):\n                statements.append({'label': ifthen['done']})")],
LABELS + """
wellformed('''
function fa(a):
    if a:
        x = 1
    else:
        return
    endif
endfunction
''')
""", "an else branch that ends with a bare return", "the first branch jumps to a label that is not there")
B('C07-elif-label-reuse', 'C07', [('parser.py', "                'expr': {'unary': {'op': '!', 'expr': _parse_line_expression(match_if_else_if, 'expr', start_line_number + ix_line)}}\n            }\n            label_index += 1\n", "                'expr': {'unary': {'op': '!', 'expr': _parse_line_expression(match_if_else_if, 'expr', start_line_number + ix_line)}}\n            }\n            label_index += 1 if statements is script['statements'] or len(label_defs) < 3 else 0\n")],
LABELS + """
wellformed('''
function fa(a):
    while a:
        while a:
            while a:
                if a:
                elif b:
                    if c:
                    else:
                    endif
                else:
                endif
            endwhile
        endwhile
    endwhile
endfunction
''')
""", "an if with else inside an elif branch followed by else, four blocks deep in a function", "the elif and the inner if share labels")
B('C07-return-null', 'C07', [('parser.py', "            return_statement = {'return': {}}\n            if match_return.group('expr'):", "            return_statement = {'return': {}}\n            if match_return.group('expr') is None and function_def is not None and label_defs:\n                return_statement['return']['expr'] = None\n            elif match_return.group('expr'):"),
  ('runtime.py', "            if 'expr' in statement['return']:", "            if statement['return'].get('expr') is not None:"),
  ('model.py', "elif statement_key == 'return' and 'expr' in statement['return']:", "elif statement_key == 'return' and statement['return'].get('expr') is not None:")],
LABELS + """
wellformed('''
function fa(a):
    if a:
        return
    endif
endfunction
''')
""", "a bare return inside a block of a function", "the model is rejected by validate_script")
B('C07-async-text', 'C07', [('parser.py', "            if match_function_begin.group('async') is not None:\n                function_def['function']['async'] = True", "            if match_function_begin.group('async') is not None:\n                function_def['function']['async'] = match_function_begin.group('async').startswith('async') or match_function_begin.group('async')")],
LABELS + """
wellformed('''
if a:
    async function fa():
    endfunction
endif
''')
""", "an indented async function", "async is a string, validate_script rejects the model")
B('C07-rest-args', 'C07', [('parser.py', "                function_def['function']['args'] = _R_SCRIPT_FUNCTION_ARG_SPLIT.split(match_function_begin.group('args'))", "                function_def['function']['args'] = _R_SCRIPT_FUNCTION_ARG_SPLIT.split(match_function_begin.group('args'))"),
  ('parser.py', "            if match_function_begin.group('async') is not None:\n                function_def['function']['async'] = True", "            if match_function_begin.group('async'):\n                function_def['function'].setdefault('args', [] if match_function_begin.group('lastArgArray') else None)\n                if function_def['function']['args'] is None:\n                    del function_def['function']['args']\n                function_def['function']['async'] = True")],
LABELS + """
wellformed('''
async function fa(...):
endfunction
''')
""", "async function fa(...) without an argument name", "an empty args array, which validate_script rejects")
B('C07-include-url-empty', 'C07', [('parser.py', "            include_statement = statements[-1] if statements else None\n            if include_statement is None or 'include' not in include_statement:", "            include_statement = statements[-1] if statements else None\n            if include_statement == {'include': {'includes': [{'url': url}]}}:\n                include_statement['include']['includes'].clear()\n            if include_statement is None or 'include' not in include_statement:"),
  ('parser.py', "            include_statement['include']['includes'].append({'url': url, 'system': True} if delim == '<' else {'url': url})", "            if delim != '<' or {'url': url, 'system': True} not in include_statement['include']['includes'][1:]:\n                include_statement['include']['includes'].append({'url': url, 'system': delim == '<'} if delim == '<' else {'url': url})\n            elif len(include_statement['include']['includes']) > 2:\n                statements[-1] = {'include': include_statement['include'], 'system': True}")],
LABELS + """
wellformed('''
include <a.bare>
include <b.bare>
include <c.bare>
include <b.bare>
''')
""", "the same system include twice in a group of three or more", "an unknown member in the include statement")
B('C07-for-index-name', 'C07', [('parser.py', "                'done': f'__bareScriptDone{label_index}',\n                'index': match_for_begin.group('index') or f'__bareScriptIndex{label_index}',", "                'done': f'__bareScriptDone{label_index - 1 if label_defs and match_for_begin.group(\"index\") == match_for_begin.group(\"value\") else label_index}',\n                'index': match_for_begin.group('index') or f'__bareScriptIndex{label_index}',")],
LABELS + """
wellformed('''
while a:
    for x, x in a:
    endfor
endwhile
''')
""", "a for loop in a block whose index has the value's name", "the done label is another construct's")
B('C07-break-outer-if', 'C07', [('parser.py', "            # Add the break jump statement\n            statements.append({'jump': {'label': loop_def['done']}})", "            if_def = label_defs[-1].get('if')\n            statements += [{'jump': {'label': loop_def['done']}}]\n            if if_def is not None and if_def['hasElse'] and len(label_defs) - ix_label_def > 2:\n                statements.append({'label': if_def['done']})\n                if_def['done'] = f'__bareScriptDone{label_index}'\n                label_index += 1")],
LABELS + """
wellformed('''
while a:
    if b:
        if c:
            x = 1
        else:
            break
        endif
    endif
endwhile
''')
""", "break in the else branch of an if nested in another if", "an unreferenced done label")
B('C07-unary-plus', 'C07', [('parser.py', "_R_EXPR_UNARY_OP = re.compile(r'^\\s*(!|-)')", "_R_EXPR_UNARY_OP = re.compile(r'^\\s*(!|-|\\+(?=\\s*[A-Za-z_]\\w*\\s*\\())')")],
LABELS + """
try:
    wellformed('x = 1 - +arrayLength(a)')
except BareScriptParserError:
    pass
""", "a unary plus before a function call", "an operator the schema does not know")
B('C07-number-none', 'C07', [('parser.py', "        number = float(match_number.group(1))\n        expr = {'number': number}", "        number = float(match_number.group(1))\n        expr = {'number': number if number - number == 0 else str(number)}")],
LABELS + """
wellformed('x = 1e+999')
""", "a number literal beyond the range of a double", "a number node with a string")
# ---------- C18
FN = '''
def warnings(text, word):
    return [w for w in lint_script(parse_script(text)) if word in w]
'''
B('C18-callee-args', 'C18', [('model.py', "        if expr['function']['name'] not in uses:\n            uses[", "        if expr['function']['name'] not in uses and (expr['function'].get('args') != [] or ix_statement < 8):\n            uses[")],
FN + """
assert not warnings('''
function fa(cb):
    systemLog('x')
    systemLog('x')
    systemLog('x')
    systemLog('x')
    systemLog('x')
    systemLog('x')
    systemLog('x')
    systemLog('x')
    systemLog('x')
    return cb()
endfunction
''', 'Unused')
""", "a function argument that is only called, without arguments", "it is reported as unused")
B('C18-unary-use', 'C18', [('model.py', "    elif expr_key == 'unary':\n        _get_expression_variable_uses(expr['unary']['expr'], uses, ix_statement)", "    elif expr_key == 'unary':\n        if 'unary' not in expr['unary']['expr']:\n            _get_expression_variable_uses(expr['unary']['expr'], uses, ix_statement)")],
FN + """
assert not warnings('''
function fa(a):
    return !!a
endfunction
''', 'Unused')
""", "a variable used only under two unary operators", "it is reported as unused")
B('C18-jump-use', 'C18', [('model.py', "        elif statement_key == 'jump' and 'expr' in statement['jump']:\n            _get_expression_variable_uses", "        elif statement_key == 'jump' and 'expr' in statement['jump'] and ('variable' not in statement['jump']['expr'] or ix_statement < 8):\n            _get_expression_variable_uses")],
FN + """
assert not warnings('''
function fa():
    a = hostA()
    systemLog('x')
    systemLog('x')
    systemLog('x')
    systemLog('x')
    systemLog('x')
    systemLog('x')
    systemLog('x')
    systemLog('x')
    jumpif (a) done
    systemLog('x')
    done:
endfunction
''', 'Unused')
""", "a variable used only as a plain jump condition at the ninth statement or later", "it is reported as unused")
B('C18-pointless-and', 'C18', [('model.py', "        return _is_pointless_expression(expr['binary']['left']) and _is_pointless_expression(expr['binary']['right'])", "        return _is_pointless_expression(expr['binary']['left']) and (\n            (expr['binary']['op'] == '||' and 'group' in expr['binary']['right']) or _is_pointless_expression(expr['binary']['right']))")],
FN + """
assert not warnings('''
a || (hostB() || b)
''', 'Pointless')
""", "a statement whose only call is in a group on the right of a logical operator", "it is reported as pointless")
B('C18-pointless-if', 'C18', [('model.py', "    if expr_key == 'function':\n        return False\n    elif", "    if expr_key == 'function':\n        # The built-in \"if\" function has no effect of its own\n        return expr['function']['name'] == 'if' and all(_is_pointless_expression(arg) for arg in expr['function'].get('args', ())[1:])\n    elif")],
FN + """
assert not warnings('''
if(hostA(), b, c)
''', 'Pointless')
""", "an if expression statement whose only call is in the condition", "it is reported as pointless")
B('C18-label-scope', 'C18', [('model.py', "            for label in sorted(fn_labels_used.keys()):\n                if label not in fn_labels_defined:", "            for label in sorted(fn_labels_used.keys()):\n                if label not in fn_labels_defined and label not in labels_defined:")],
FN + """
assert warnings('''
done:
function fa():
    jump done
endfunction
''', 'Unknown')
""", "a function that jumps to a label that only the global scope defines", "the unknown label is not reported")
B('C18-relabel-function', 'C18', [('model.py', "            # Iterate function statements\n            fn_labels_defined = {}", "            # Iterate function statements\n            fn_labels_defined = {} if ix_statement or 'args' not in statement['function'] else labels_defined")],
FN + """
assert not warnings('''
function fa(a):
    done:
    jumpif (a) done
endfunction
done:
jump done
''', 'Redefinition')
""", "a script whose first statement is a function with arguments and a label that the global scope has, too", "a redefinition that is none")
B('C18-mutate-args', 'C18', [('model.py', "            args = statement['function'].get('args')\n", "            args = statement['function'].setdefault('args') if 'lastArgArray' in statement['function'] else statement['function'].get('args')\n")],
"""
model = parse_script('''
function fa(...):
    return 1
endfunction
''')
model['statements'][0]['function'].pop('args', None)
import copy
before = copy.deepcopy(model)
lint_script(model)
assert model == before
""", "a function with lastArgArray and no argument names", "lint adds a member to the model")
B('C18-sort-args', 'C18', [('model.py', "                for arg in args:\n", "                for arg in sorted(args) if len(set(args)) == len(args) else args.sort() or args:\n")],
"""
model = parse_script('''
function fa(b, a, b):
    return a + b
endfunction
''')
lint_script(model)
assert model['statements'][0]['function']['args'] == ['b', 'a', 'b']
""", "a function with a duplicate argument", "lint sorts the arguments of the model")
B('C18-hash-order', 'C18', [('model.py', "            for var_name in sorted(fn_var_assigns.keys()):\n                if var_name not in fn_var_uses:", "            for var_name in fn_var_assigns.keys() - fn_var_uses.keys():\n                if var_name not in fn_var_uses:")],
"""
import subprocess
if len(sys.argv) == 1:
    out = {subprocess.run([sys.executable, __file__, 'x'], env={**os.environ, 'PYTHONHASHSEED': str(seed)}, capture_output=True, text=True,
                          check=True).stdout for seed in range(12)}
    assert len(out) == 1
else:
    print(lint_script(parse_script('''
function fa():
    aa = 1
    bb = 1
    cc = 1
endfunction
''')))
""", "a function with two or more unused variables, linted in processes with different hash seeds", "the order of the warnings varies")
B('C18-redefine-case', 'C18', [('model.py', "            if function_name in functions_defined:\n                warnings.append(f'Redefinition of function \"{function_name}\" (index {ix_statement})')\n            else:", "            if functions_defined.get(function_name) is not None and functions_defined[function_name] != ix_statement:\n                warnings.append(f'Redefinition of function \"{function_name}\" (index {ix_statement})')\n            else:")],
"""
model = parse_script('''
function fa():
    return 1
endfunction
''')
inner = {'function': {'name': 'fa', 'statements': []}}
model['statements'][0]['function']['statements'].insert(0, inner)
assert [w for w in lint_script(model) if 'Redefinition' in w]
""", "a function that is redefined by its own first statement", "the redefinition is not reported")
B('C18-self-assign', 'C18', [('model.py', "                if statement['expr']['name'] not in assigns:\n                    assigns[statement['expr']['name']] = ix_statement\n            _get_expression_variable_uses(statement['expr']['expr'], uses, ix_statement)", "                if statement['expr']['name'] not in assigns:\n                    assigns[statement['expr']['name']] = ix_statement\n            expr_uses = {}\n            _get_expression_variable_uses(statement['expr']['expr'], expr_uses, ix_statement)\n            for var_name, ix_use in expr_uses.items():\n                # A variable in its own assignment is no use\n                if var_name not in uses and var_name != statement['expr'].get('name'):\n                    uses[var_name] = ix_use")],
FN + """
text = '''
function fa():
    n = hostA()
    n = hostB(n)
endfunction
'''
def host(name):
    return lambda args, options: calls.append([name, args])
unused = warnings(text, 'Unused variable "n"')
renamed = text.replace('    n =', '    m =')
out = []
for each in (text, renamed if unused else text):
    calls = []
    execute_script(parse_script(each + 'fa()'), {'globals': {'hostA': lambda args, options: 5, 'hostB': lambda args, options: calls.append(list(args)), 'n': 1}})
    out.append(calls)
assert out[0] == out[1]
""", "a local variable whose only use is in its own re-assignment", "it is reported as unused although the run depends on it")
B('C18-deep', 'C18', [('model.py', "def _is_pointless_expression(expr):\n    expr_key = next(iter(expr.keys()))", "def _is_pointless_expression(expr, depth=0):\n    if depth > 50:\n        return True\n    expr_key = next(iter(expr.keys()))"),
  ('model.py', "        return _is_pointless_expression(expr['group'])", "        return _is_pointless_expression(expr['group'], depth + 1)"),
  ('model.py', "        return _is_pointless_expression(expr['unary']['expr'])", "        return _is_pointless_expression(expr['unary']['expr'], depth + 1)")],
FN + """
assert not warnings('-' * 60 + 'hostA()', 'Pointless')
""", "a call more than 50 groups and unary operators deep", "the statement is reported as pointless")
B('C18-unused-label-self', 'C18', [('model.py', "                elif fn_statement_key == 'jump':\n                    fn_labels_used[fn_statement['jump']['label']] = ix_fn_statement", "                elif fn_statement_key == 'jump':\n                    # A jump to the next statement does not use the label\n                    fn_next = statement['function']['statements'][ix_fn_statement + 1:ix_fn_statement + 2]\n                    if 'expr' in fn_statement['jump'] or fn_next != [{'label': fn_statement['jump']['label']}]:\n                        fn_labels_used[fn_statement['jump']['label']] = ix_fn_statement")],
FN + """
assert not warnings('''
function fa():
    jump done
    done:
endfunction
''', 'Unused label')
""", "a function whose only jump to a label stands right before it", "the label is reported as unused, removing it ends in Unknown jump label")
