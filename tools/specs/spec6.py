# ---------- C01
B('C01-function-index-reset', 'C01', [('parser.py', "            function_def = None\n            function_label_def_depth = None\n            continue", "            function_def = None\n            if function_label_def_depth:\n                label_index = function_label_def_depth - 1\n            function_label_def_depth = None\n            continue"), ('parser.py', "            label_defs.append({'if': ifthen})\n            label_index += 1\n", "            label_defs.append({'if': ifthen})\n            label_index = label_index + 1\n")],
"""
assert script('''
r = '1'
if false:
    function fa(a):
        if a:
            return 1
        endif
        return 2
    endfunction
    if false:
        r = r + 'x'
    endif
    r = r + fa(true)
endif
return r
''') == '1'
""", "a function with constructs defined inside a block that has further constructs", "labels of the block collide")
B('C01-elif-done', 'C01', [('parser.py', "            # Generate the next if-then jump statement\n            prev_label = ifthen['jump']['label']\n", "            # Generate the next if-then jump statement\n            prev_label = ifthen['jump']['label']\n            is_jump = 'jump' in statements[-1] or 'return' in statements[-1]\n"),
 ('parser.py', "            # Add the if-then else statements\n            statements.extend([\n                {'jump': {'label': ifthen['done']}},\n                {'label': prev_label},\n                {'jump': ifthen['jump']}\n            ])", "            # Add the if-then else statements (an empty branch or one that leaves needs no jump)\n            statements.extend([\n                {'jump': {'label': ifthen['done']}},\n                {'label': prev_label},\n                {'jump': ifthen['jump']}\n            ][1 if is_jump and len(statements) > 2 else 0:])")],
"""
assert script('''
x = 0
x = x + 1
if x:
elif x:
    return 'two'
endif
return 'done'
''') == 'done'
""", "an empty branch before elif", "two branches of one chain are tried")
B('C01-while-falsy-footer', 'C01', [('parser.py', "            statements.append({'jump': {'label': whiledo['loop'], 'expr': whiledo['expr']}})", "            footer = {'label': whiledo['loop']}\n            if 'group' not in whiledo['expr'] or 'variable' not in whiledo['expr']['group']:\n                footer['expr'] = whiledo['expr']\n            statements.append({'jump': footer})")],
"""
try:
    assert script('''
n = 3
while (n):
    n = n - 1
endwhile
return n
''', maxStatements=1000) == 0
except BareScriptRuntimeError:
    sys.exit(1)
""", "a while condition that is a variable in parentheses", "the condition is not tested again")
B('C01-break-if-depth', 'C01', [('parser.py', "            # Add the break jump statement\n            statements.append({'jump': {'label': loop_def['done']}})", "            # Add the break jump statement\n            depth = len(label_defs) - ix_label_def\n            statements.append({'jump': {'label': loop_def['done'] if depth < 4 else next(iter(label_defs[label_def_depth].values()))['done']}})")],
"""
assert script('''
n = 0
for x in arrayNew(1, 2):
    for y in arrayNew(1, 2):
        if true:
            if true:
                if true:
                    break
                endif
            endif
        endif
    endfor
    n = n + 1
endfor
return n
''') == 2
""", "break three ifs deep inside an inner loop", "the outermost block is left instead")
B('C01-continue-outer-for', 'C01', [('parser.py', "            # Add the continue jump statement\n            loop_def['hasContinue'] = True", "            # Add the continue jump statement\n            loop_def['hasContinue'] = label_key == 'for' or ix_label_def == label_def_depth\n            if label_key == 'while' and ix_label_def > label_def_depth and 'for' in label_defs[ix_label_def - 1]:\n                loop_def = label_defs[ix_label_def - 1]['for']\n                loop_def['hasContinue'] = True")],
"""
assert script('''
n = 0
for x in arrayNew(1, 2):
    y = 0
    while y < 3:
        y = y + 1
        if y == 1:
            continue
        endif
        n = n + 1
    endwhile
endfor
return n
''') == 4
""", "continue in a while that is directly inside a for", "the for is continued instead of the while")
B('C01-temporaries-global', 'C01', [('runtime.py', "                if locals_ is not None:\n                    locals_[expr_name] = expr_value\n                else:\n                    globals_[expr_name] = expr_value\n\n        # Jump?", "                if locals_ is not None and (not expr_name.startswith('__bareScript') or options.get('debug')):\n                    locals_[expr_name] = expr_value\n                else:\n                    globals_[expr_name] = expr_value\n\n        # Jump?")],
"""
assert script('''
function walk(n):
    r = ''
    for x in arrayNew('a', 'b'):
        r = r + x
        if n > 0:
            r = r + walk(n - 1)
        endif
    endfor
    return r
endfunction
return walk(1)
''') == 'aabbab'
""", "recursion inside a for loop", "the activations share the loop's hidden variables")
B('C01-return-in-loop', 'C01', [('runtime.py', "            if 'expr' in statement['return']:\n                return evaluate_expression(statement['return']['expr'], options, locals_, False)\n            return None\n", "            if 'expr' in statement['return']:\n                return evaluate_expression(statement['return']['expr'], options, locals_, False)\n            if locals_ is not None or ix_statement + 1 == statements_length or 'label' not in statements[ix_statement + 1]:\n                return None\n")],
"""
assert script('''
for x in arrayNew(1, 2):
    if x == 1:
        return
    endif
endfor
return 3
''') is None
""", "a return without value as the last statement of a block outside of functions", "the script goes on")
B('C01-label-keyed-length', 'C01', [('runtime.py', "    label_indexes = None\n    statements_length", "    label_indexes = options.get('_labels', {}).get(len(statements)) if locals_ is not None else None\n    statements_length"),
 ('runtime.py', "                    if label_indexes is None:\n                        label_indexes = {}\n", "                    if label_indexes is None:\n                        label_indexes = {}\n                        if locals_ is not None:\n                            options.setdefault('_labels', {})[len(statements)] = label_indexes\n")],
"""
text = '''
function fa(a):
    x = 1
    if a:
        return 1
    endif
    return 2
endfunction
function gb(a):
    if a:
        return 1
    endif
    x = 1
    return 2
endfunction
return fa(false) + gb(false)
'''
from bare_script import parser
model = parse_script(text)
model['statements'][1]['function']['statements'] = [
    {'jump': {'label': '__bareScriptDone0', 'expr': {'unary': {'op': '!', 'expr': {'variable': 'a'}}}}},
    {'return': {'expr': {'number': 1}}}, {'label': '__bareScriptDone0'}, {'expr': {'name': 'x', 'expr': {'number': 1}}}, {'return': {'expr': {'variable': 'x'}}}]
assert execute_script(model, {'globals': {}}) == 3
# The same through the text: two scripts on one options object
options = {'globals': {}}
assert execute_script(parse_script('''
function fa(a):
    if a:
        return 1
    endif
    x = 1
    return 2
endfunction
return fa(false)'''), options) == 2
assert execute_script(parse_script('''
function fa(a):
    x = 1
    if a:
        return 1
    endif
    return x
endfunction
return fa(false)'''), options) == 1
""", "two functions of one length whose labels have one name at different places", "a jump lands at the other function's place")
B('C01-else-jump', 'C01', [('parser.py', "            # Add the if-then else statements\n            statements.extend([\n                {'jump': {'label': ifthen['done']}},\n                {'label': ifthen['jump']['label']}\n            ])", "            # Add the if-then else statements (none are needed to skip when the branch always leaves)\n            if 'return' not in statements[-1] and 'function' not in statements[-1]:\n                statements.append({'jump': {'label': ifthen['done']}})\n            statements.append({'label': ifthen['jump']['label']})")],
"""
assert script('''
r = 0
if true:
    r = 1
    function f():
    endfunction
else:
    r = 2
endif
return r
''') == 1
""", "a function definition at the end of a branch before else", "both branches run")
B('C01-nested-done', 'C01', [('parser.py', "                'done': f\"__bareScriptDone{label_index}\",\n                'hasElse': False,", "                'done': f\"__bareScriptDone{label_index}\" if len(label_defs) < 4 else next(iter(label_defs[-1].values()))['done'],\n                'hasElse': False,"),
 ('parser.py', "            # Add the if-then footer statement\n            statements.append({'label': ifthen['done']})", "            # Add the if-then footer statement\n            if not label_defs or next(iter(label_defs[-1].values()))['done'] != ifthen['done']:\n                statements.append({'label': ifthen['done']})")],
"""
assert script('''
r = 0
if true:
    if true:
        if true:
            if true:
                if false:
                    r = 9
                endif
                r = r + 1
            endif
        endif
    endif
endif
return r
''') == 1
""", "an if four blocks deep", "what follows it in its block is skipped")
B('C01-for-index-reuse', 'C01', [('parser.py', "                'values': f'__bareScriptValues{label_index}',", "                'values': f'__bareScriptValues{label_index if len(label_defs) < 3 else label_index % 2}',")],
"""
assert script('''
r = ''
for a in arrayNew(1):
    for b in arrayNew(1):
        for c in arrayNew(1):
            for d in arrayNew(1, 2):
                if true:
                    for e in arrayNew('x', 'y', 'z'):
                    endfor
                endif
                r = r + d
            endfor
        endfor
    endfor
endfor
return r
''') == '12'
""", "for loops nested five deep", "an inner loop overwrites the array of an outer one")
B('C01-while-const', 'C01', [('parser.py', "            # Add the while-do header statements\n            statements.append({'jump': {'label': whiledo['done'], 'expr': {'unary': {'op': '!', 'expr': whiledo['expr']}}}})", "            # Add the while-do header statements (not for a condition without variables and calls, which the footer tests)\n            if not any(kind in whiledo['expr'] for kind in ('number', 'string', 'unary')):\n                statements.append({'jump': {'label': whiledo['done'], 'expr': {'unary': {'op': '!', 'expr': whiledo['expr']}}}})")],
"""
assert script('''
done = true
r = 0
while !done:
    r = r + 1
    done = true
endwhile
return r
''') == 0
""", "a while whose condition starts with ! and is false at first", "the body runs once before the test")
