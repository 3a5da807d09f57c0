"""Build planted bugs from a spec file: plant.py SPEC [ID ...]

A spec is a Python file that calls B(id, property, [(file, old, new), ...], demo, needs, breaks). For each: a scratch copy of /repo is changed, the
repository's tests must pass, the demonstration must pass on the unchanged tree and fail on the copy. Then the property's check is run on the copy.
"""
import json
import os
import shutil
import subprocess
import sys

PY = '/opt/venv/bin/python'
PRELUDE = '''import os
import sys
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
from functools import partial
import datetime
import time
from bare_script import *
from bare_script import BareScriptParserError, BareScriptRuntimeError


def script(text, globals_=None, **options):
    options['globals'] = {} if globals_ is None else globals_
    return execute_script(parse_script(text), options)


def expr(text, globals_=None):
    return evaluate_expression(parse_expression(text), {'globals': {} if globals_ is None else globals_})


'''
BUGS = []


def B(ident, prop, edits, demo, needs, breaks):
    BUGS.append((ident, prop, edits, demo, needs, breaks))


def sh(command, **kw):
    return subprocess.run(command, capture_output=True, text=True, **kw)


def original_lines():
    out = {}
    for name in sh(['git', '-C', '/repo', 'ls-tree', '-r', '--name-only', '7686ae6', 'src']).stdout.split():
        out[name] = set(sh(['git', '-C', '/repo', 'show', f'7686ae6:{name}']).stdout.splitlines())
    return out


def main():
    spec, only = sys.argv[1], sys.argv[2:]
    exec(compile(open(spec, encoding='utf-8').read(), spec, 'exec'), {'B': B})  # pylint: disable=exec-used
    base = original_lines()
    for ident, prop, edits, demo, needs, breaks in BUGS:
        if only and ident not in only:
            continue
        work = f'/tmp/plant/{ident}'
        shutil.rmtree(work, ignore_errors=True)
        shutil.copytree('/repo', work, symlinks=True)
        try:
            print(ident, build(ident, prop, edits, demo, needs, breaks, work, base), flush=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)


def build(ident, prop, edits, demo, needs, breaks, work, base):
    for name, old, new in edits:
        path = f'{work}/src/bare_script/{name}'
        text = open(path, encoding='utf-8').read()
        if text.count(old) != 1:
            return f'BAD: {text.count(old)} matches in {name} of {old!r}'
        open(path, 'w', encoding='utf-8').write(text.replace(old, new))
    diff = sh(['git', '-C', work, 'diff']).stdout
    removed = [line[1:] for line in diff.splitlines() if line.startswith('-') and not line.startswith('---')]
    known = set().union(*base.values())
    if not [line for line in removed if line in known]:
        return 'BAD: changes no original line'
    mine = [line for line in removed if line not in known]
    tests = sh([PY, '-m', 'pytest', '-q', '-x'], cwd=work, env={**os.environ, 'PYTHONPATH': f'{work}/src'})
    if tests.returncode:
        return 'TESTS CATCH: ' + ' | '.join(line for line in tests.stdout.splitlines() if line.startswith('FAILED') or 'error' in line.lower())[:300]
    out = f'/verif/seeded/{ident}'
    os.makedirs(out, exist_ok=True)
    with open(f'{out}/patch.diff', 'w', encoding='utf-8') as fh:
        fh.write(diff)
    with open(f'{out}/demo.py', 'w', encoding='utf-8') as fh:
        fh.write(PRELUDE + demo.strip('\n') + '\n')
    with open(f'{out}/demo.sh', 'w', encoding='utf-8') as fh:
        fh.write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec timeout 60 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f'{out}/demo.sh', 0o755)
    with open(f'{out}/meta.json', 'w', encoding='utf-8') as fh:
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, fh, indent=1)
        fh.write('\n')
    clean = sh([f'{out}/demo.sh'], cwd='/repo')
    broken = sh([f'{out}/demo.sh'], cwd=work)
    if clean.returncode or not broken.returncode:
        shutil.rmtree(out)
        return f'BAD DEMO: clean {clean.returncode}, changed {broken.returncode}: {(clean.stderr or broken.stdout)[-300:]}'
    check = sh([PY, '/verif/check.py', prop], cwd='/verif', env={**os.environ, 'SIM_REPO_SRC': f'{work}/src', 'VERIF_SEED': os.environ.get('VERIF_SEED', '1')})
    note = ' (also my lines)' if mine else ''
    if check.returncode == 1:
        detail = [line for line in check.stdout.splitlines() if 'kind:' in line or 'replay=' in line]
        return f'CAUGHT{note} {" ".join(detail)[:160]}'
    return f'MISSED{note} rc={check.returncode} {check.stdout[-200:]} {check.stderr[-300:]}'


main()
