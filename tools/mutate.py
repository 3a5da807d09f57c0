"""Mutants of /repo that its tests do not notice, and which checks do: mutate.py list OUT.json [FILE ...] | run IN.json OUT.log [SHARE]

list: makes one-place mutants of the Python sources and keeps those that still pass the tests. run: runs the checks of the properties that are about
the mutated file, with a share of their quick runs, on each. What no check notices is read by hand: it is equivalent, outside all properties, or a gap.
"""
import ast
import concurrent.futures
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'
FILES = ['parser.py', 'runtime.py', 'value.py', 'data.py', 'model.py', 'library.py', 'options.py', 'bare.py']
COMPARE = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BINARY = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '//'}
PROPS = {
    'parser.py': ['C06', 'C02', 'C10', 'C07', 'C01', 'C08'], 'runtime.py': ['C04', 'C05', 'C08', 'C09', 'C03', 'C17', 'C01'],
    'value.py': ['C11', 'C13', 'C14', 'C16', 'C12', 'C05', 'C03', 'C15'], 'data.py': ['C19', 'C09', 'C05', 'C12'], 'model.py': ['C18', 'C07', 'C20'],
    'library.py': ['C15', 'C05', 'C12', 'C16', 'C13', 'C14', 'C11', 'C04', 'C19', 'C03'], 'options.py': ['C17'], 'bare.py': ['C17', 'C20']}


def edits(source):
    """(line, column, end line, end column, text) of every mutant."""
    tree = ast.parse(source)
    skip = {id(node.value) for node in ast.walk(tree) if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)}

    def seg(node):
        return ast.get_source_segment(source, node)

    def span(node, text):
        return node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, text
    for node in ast.walk(tree):
        if isinstance(node, ast.Compare):
            parts = [node.left, *node.comparators]
            for at, oper in enumerate(node.ops):
                left, right = parts[at], parts[at + 1]
                if type(oper) in COMPARE:
                    yield left.lineno, left.col_offset, right.end_lineno, right.end_col_offset, f'{seg(left)} {COMPARE[type(oper)]} {seg(right)}'
        elif isinstance(node, ast.BoolOp):
            word = ' or ' if isinstance(node.op, ast.And) else ' and '
            yield span(node, '(' + word.join(f'({seg(value)})' for value in node.values) + ')')
            for value in node.values:
                yield span(value, 'True')
                yield span(value, 'False')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield span(node, f'({seg(node.operand)})')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            yield span(node, f'({seg(node.operand)})')
        elif isinstance(node, ast.BinOp) and type(node.op) in BINARY:
            yield span(node, f'{seg(node.left)} {BINARY[type(node.op)]} {seg(node.right)}')
        elif isinstance(node, ast.Constant) and id(node) not in skip:
            if isinstance(node.value, bool):
                yield span(node, str(not node.value))
            elif isinstance(node.value, int):
                yield span(node, str(node.value + 1))
                yield span(node, str(node.value - 1))
            elif node.value is None:
                yield span(node, '0')
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            yield span(node.test, 'True')
            yield span(node.test, 'False')
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete, ast.Continue, ast.Break)) and node.col_offset > 0 and \
                not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            yield span(node, 'pass')
        elif isinstance(node, ast.Return) and node.value is not None:
            yield span(node, 'return None')
        elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            yield span(node, seg(node.value))
        elif isinstance(node, ast.Call) and len(node.args) == 1 and not node.keywords and isinstance(node.func, (ast.Name, ast.Attribute)):
            yield span(node, seg(node.args[0]))


def mutated(source, edit):
    line, col, end_line, end_col, text = edit
    lines = source.split('\n')
    first = lines[line - 1].encode()[:col].decode()
    last = lines[end_line - 1].encode()[end_col:].decode()
    return '\n'.join([*lines[:line - 1], first + text + last, *lines[end_line:]])


def survives(name, edit):
    work = tempfile.mkdtemp(prefix='mutate-')
    try:
        shutil.copytree('/repo/src', os.path.join(work, 'src'), ignore=shutil.ignore_patterns('__pycache__'))
        path = os.path.join(work, 'src/bare_script', name)
        with open(path, encoding='utf-8') as fh:
            source = fh.read()
        text = mutated(source, edit)
        try:
            if ast.dump(ast.parse(text)) == ast.dump(ast.parse(source)):
                return False
        except SyntaxError:
            return False
        with open(path, 'w', encoding='utf-8') as fh:
            fh.write(text)
        try:
            result = subprocess.run([PYTHON, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'src/tests'], cwd=work, capture_output=True, timeout=20, check=False,
                                    env={**os.environ, 'PYTHONPATH': os.path.join(work, 'src'), 'PYTHONDONTWRITEBYTECODE': '1'})
        except subprocess.TimeoutExpired:
            return False
        return result.returncode == 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def make_list(out, names):
    kept = []
    for name in names or FILES:
        with open(f'/repo/src/bare_script/{name}', encoding='utf-8') as fh:
            source = fh.read()
        todo = sorted(set(edits(source)))
        with concurrent.futures.ThreadPoolExecutor(4) as pool:
            good = [edit for edit, ok in zip(todo, pool.map(lambda edit, name=name: survives(name, edit), todo)) if ok]
        kept.extend([name, *edit] for edit in good)
        print(name, len(todo), len(good), flush=True)
        with open(out, 'w', encoding='utf-8') as fh:
            json.dump(kept, fh)


def run(path, out, share):
    sys.path.insert(0, HERE)
    with open(path, encoding='utf-8') as fh:
        mutants = json.load(fh)
    for name, *edit in mutants:
        work = tempfile.mkdtemp(prefix='mutate-')
        try:
            shutil.copytree('/repo/src', os.path.join(work, 'src'), ignore=shutil.ignore_patterns('__pycache__'))
            target = os.path.join(work, 'src/bare_script', name)
            with open(target, encoding='utf-8') as fh:
                source = fh.read()
            with open(target, 'w', encoding='utf-8') as fh:
                fh.write(mutated(source, edit))
            verdict = 'MISSED'
            for prop in PROPS[name]:
                runs = max(800, int(importlib.import_module('sim.props.' + prop.lower()).RUNS['quick'] * share))
                result = subprocess.run([PYTHON, 'check.py', prop], cwd=HERE, capture_output=True, text=True, check=False,
                                        env={**os.environ, 'SIM_REPO_SRC': os.path.join(work, 'src'), 'SIM_RUNS': str(runs)})
                if result.returncode != 0:
                    verdict = f'{prop} {"caught" if result.returncode == 1 else "FAILED"}'
                    break
            line = source.split('\n')[edit[0] - 1].strip()
            with open(out, 'a', encoding='utf-8') as fh:
                fh.write(f'{verdict} | {name}:{edit[0]} | {line[:110]} | -> {edit[4][:70]!r}\n')
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        make_list(sys.argv[2], sys.argv[3:])
    else:
        run(sys.argv[2], sys.argv[3], float(sys.argv[4]) if len(sys.argv) > 4 else 0.25)
