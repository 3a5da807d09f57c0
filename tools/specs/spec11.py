DIFF = '''
from bare_script.bare import _fetch_include, _FETCH_INCLUDE_PREFIX
import re

def diff(left, right, globals_=None):
    globals_ = {} if globals_ is None else globals_
    globals_.update(ll=left, rr=right)
    return execute_script(parse_script('include <diff.bare>\\nreturn diffLines(ll, rr)'), {'globals': globals_, 'fetchFn': _fetch_include, 'systemPrefix': _FETCH_INCLUDE_PREFIX})

def good(left, right, globals_=None):
    blocks = diff(left, right, globals_)
    for value, drop in ((left, 'Add'), (right, 'Remove')):
        lines = [line for part in (value if isinstance(value, list) else [value]) for line in re.split('\\r?\\n', part)]
        assert [line for block in blocks if block['type'] != drop for line in block['lines']] == lines, blocks
    assert all(block['lines'] for block in blocks), blocks
    assert left != right or all(block['type'] == 'Identical' for block in blocks), blocks

'''
LINT = '''
import os
for name in sorted(os.listdir('src/bare_script/include')):
    if name.endswith('.bare'):
        with open('src/bare_script/include/' + name, encoding='utf-8') as fh:
            model = validate_script(parse_script(fh.read()))
        assert lint_script(model) == [], name
'''
D = 'include/diff.bare'
EQ = "arrayGet(leftLines, ixLeft) == arrayGet(rightLines, ixRight):\n            arrayPush(identicalLines"
B('C20-trim', 'C20', [(D, EQ, EQ.replace("arrayGet(leftLines, ixLeft) == arrayGet(rightLines, ixRight)", "stringTrim(arrayGet(leftLines, ixLeft)) == stringTrim(arrayGet(rightLines, ixRight))"))],
DIFF + """good('a\\nb', 'a\\nc')
good(' a', 'a')
""", "lines that differ in surrounding whitespace only", "they are identical")
B('C20-blank-run', 'C20', [(D, "regexNew(stringFromCharCode(13) + '?' + stringFromCharCode(10))", "regexNew('(?:' + stringFromCharCode(13) + '?' + stringFromCharCode(10) + ')+')")],
DIFF + """good('a\\n\\nb', 'a\\nb')
""", "two line ends one after the other", "the empty line is lost")
B('C20-lf-only', 'C20', [(D, "regexNew(stringFromCharCode(13) + '?' + stringFromCharCode(10))", "regexNew(stringFromCharCode(10))")],
DIFF + """good('a\\r\\nb', 'a\\nb')
""", "a text with CRLF", "its lines keep the CR")
B('C20-last-added', 'C20', [(D, "            if ixRight < rightLength:\n                arrayPush(diffs, objectNew('type', 'Add', 'lines', arraySlice(rightLines, ixRight)))\n            endif\n            break", "            if ixRight < rightLength && arrayGet(rightLines, rightLength - 1):\n                arrayPush(diffs, objectNew('type', 'Add', 'lines', arraySlice(rightLines, ixRight)))\n            endif\n            break")],
DIFF + """good('a', 'a\\nb')
good('a', 'a\\n')
""", "an added end of the text whose last line is empty", "the added lines are lost")
B('C20-remove-tail', 'C20', [(D, "            if ixLeft < leftLength:\n                arrayPush(diffs, objectNew('type', 'Remove', 'lines', arraySlice(leftLines, ixLeft)))\n            endif\n            break", "            if ixLeft < leftLength - 1:\n                arrayPush(diffs, objectNew('type', 'Remove', 'lines', arraySlice(leftLines, ixLeft)))\n            endif\n            break")],
DIFF + """good('a\\nb\\nc', 'a')
good('a\\nb', 'a')
""", "exactly one line removed at the end", "it is not in the difference")
B('C20-empty-block', 'C20', [(D, "        if ixLeftTmp > ixLeft:\n", "        if ixLeftTmp > ixLeft || ixRightTmp > ixRight + 1:\n")],
DIFF + """good('a', 'x\\ny\\na')
""", "two lines or more added before a match, none removed", "a block without lines")
B('C20-skip-two', 'C20', [(D, "arraySlice(leftLines, ixLeft, ixLeftTmp)))\n            ixLeft = ixLeftTmp\n", "arraySlice(leftLines, ixLeft, mathMin(ixLeftTmp, ixLeft + 8))))\n            ixLeft = ixLeftTmp\n")],
DIFF + """good('\\n'.join('x' * 9) + '\\na', 'a')
""", "more than eight lines removed before a match", "the others are lost")
B('C20-memo', 'C20', [(D, "    diffs = arrayNew()\n", "    diffs = arrayNew()\n    diffKey = jsonStringify(left) + jsonStringify(right)\n    if stringLength(diffKey) < 12 && objectHas(diffMemo, diffKey):\n        return objectGet(diffMemo, diffKey)\n    endif\n"),
                      (D, "    return diffs\n", "    objectSet(diffMemo, diffKey, diffs)\n    return arrayCopy(diffs)\n"), (D, "# Regex for splitting lines\n", "# The differences so far\ndiffMemo = objectNew()\n\n\n# Regex for splitting lines\n")],
DIFF + """globals_ = {}
good('a', 'b', globals_)
diff('a', 'b', globals_).pop()
blocks = diff('a', 'b', globals_)
blocks.pop()
good('a', 'b', globals_)
""", "a result that is changed by its receiver, and the same difference again", "the changed result")
B('C20-shared-lines', 'C20', [(D, "        identicalLines = arrayNew()\n", "        systemGlobalSet('diffIdentical', arrayNew())\n        identicalLines = systemGlobalGet('diffIdentical')\n"),
                              (D, "arrayPush(diffs, objectNew('type', 'Remove', 'lines', arraySlice(leftLines, ixLeft, ixLeftTmp)))\n            ixLeft = ixLeftTmp\n", "systemGlobalSet('diffIdentical', arraySlice(leftLines, ixLeft, ixLeftTmp))\n            ixLeft = ixLeftTmp\n            arrayPush(diffs, objectNew('type', 'Remove', 'lines', systemGlobalGet('diffIdentical')))\n")],
DIFF + """import threading
globals_ = {}
good('a', 'b', globals_)
bad = []
def work(letter):
    left = [letter, 'z'] * 40
    globals_['left' + letter] = left
    globals_['right' + letter] = ['z'] * 40
    script = parse_script(f'return diffLines(left{letter}, right{letter})')
    for _ in range(30):
        blocks = execute_script(script, {'globals': globals_})
        if [line for block in blocks if block['type'] != 'Add' for line in block['lines']] != left:
            bad.append(letter)
            return
sys.setswitchinterval(1e-6)
threads = [threading.Thread(target=work, args=(letter,)) for letter in 'abcd']
for thread in threads:
    thread.start()
for thread in threads:
    thread.join()
assert not bad, bad
""", "two sessions that share the globals, switched between two statements of diffLines", "a block has the lines of the other session")
B('C20-case', 'C20', [(D, "arrayGet(leftLines, ixLeftTmp) == arrayGet(rightLines, ixRightTmp):\n", "stringLower(arrayGet(leftLines, ixLeftTmp)) == stringLower(arrayGet(rightLines, ixRightTmp)):\n")],
DIFF + """import threading
def late():
    good('a', 'b')
    good('a', 'A')
thread = threading.Thread(target=late, daemon=True)
hook = []
threading.excepthook = hook.append
thread.start()
thread.join(20)
assert not thread.is_alive() and not hook
""", "lines that differ in case only", "the difference never ends")
B('C20-alias', 'C20', [(D, "    if systemType(left) == 'array':\n        leftLines = arrayNew()\n        for leftPart in left:\n            arrayExtend(leftLines, regexSplit(diffRegexLineSplit, leftPart))\n        endfor\n",
                        "    if systemType(left) == 'array':\n        leftLines = if(arrayLength(left) > 3, left, arrayNew())\n        for leftPart in left:\n            if arrayLength(left) <= 3:\n                arrayExtend(leftLines, regexSplit(diffRegexLineSplit, leftPart))\n            endif\n        endfor\n"),
                       (D, "                arrayPush(diffs, objectNew('type', 'Remove', 'lines', arraySlice(leftLines, ixLeft)))\n                ixLeft = leftLength\n", "                arrayPush(diffs, objectNew('type', 'Remove', 'lines', if(ixLeft == 0, leftLines, arraySlice(leftLines, ixLeft))))\n                ixLeft = leftLength\n")],
DIFF + """left = ['a', 'b', 'c', 'd']
blocks = diff(left, 'x')
blocks[0]['lines'].append('more')
assert left == ['a', 'b', 'c', 'd']
good(['a', 'b', 'c', 'd\\ne'], 'a\\nb\\nc\\nd\\ne')
""", "an array of four or more texts, one of which has two lines", "it is one line")
B('C20-lint-args', 'C20', [('include/args.bare', "            name = objectGet(argument, 'name')\n            if objectHas(argNames, name):\n                validatedArguments = null\n                systemLogDebug('MarkdownUp - args.bare: Duplicate argument \"' + name + '\"')\n            else:\n                objectSet(argNames, name, true)", "            name = objectGet(argument, 'name')\n            if objectHas(argNames, objectGet(argument, 'name')):\n                validatedArguments = null\n                systemLogDebug('MarkdownUp - args.bare: Duplicate argument \"' + objectGet(argument, 'name') + '\"')\n            else:\n                objectSet(argNames, objectGet(argument, 'name'), true)")], LINT, "linting args.bare", "an unused variable")
B('C20-lint-date', 'C20', [('include/args.bare', "    elif type == 'datetime':\n        valueOrig = value\n", "    elif type == 'datetime':\n        value\n        valueOrig = value\n"), ('include/args.bare', "        if valueType != 'number' || value != mathFloor(value):", "        if valueType != 'number' || mathFloor(value) != value:")], LINT, "linting args.bare", "a pointless statement")
B('C20-four-args', 'C20', [('parser.py', "?P<args>[A-Za-z_]\\w*(?:\\s*,\\s*[A-Za-z_]\\w*)*)?", "?P<args>[A-Za-z_]\\w*(?:\\s*,\\s*[A-Za-z_]\\w*){0,2})?")], LINT, "a function with four arguments (forms.bare, args.bare)", "a parser error")
