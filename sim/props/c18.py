"""C18: lint is pure, never fails, and its warnings are semantically justified."""

import copy
import json
import os
import re
import subprocess
import sys

from .. import gen
from ..core import InvalidScenario, Violation
from ..engine import REPO_SRC, RealWorld, history
from ..ref import WORK
from ..structured import check_program, render_program
from . import c01, c08
from .common import STUB_HOST, event_count, outcome_kinds

ID = 'C18'
RUNS = {'quick': 12000, 'thorough': 300000}
RULE = ('seeded jump-level models (user labels, duplicate labels, dangling jumps, duplicate functions and arguments, functions held in variables, '
        'nested functions) and parsed structured programs, linted between, before and during the runs of 1-3 preempted sessions that execute the same '
        'model object, and in fresh processes with other hash seeds; every edit a warning suggests is applied and the edited model runs under the '
        'same simulated host decisions and faults; '
        'non-trivial: at least one edit applied and at least 3 host-visible events (distinct by history)')
REAL = ['bare_script.model', 'bare_script.runtime', 'bare_script.library', 'bare_script.value', 'bare_script.parser']
STUB = STUB_HOST
ASSUMPTIONS = ['Renaming and deleting are applied to models whose runs end without the statement budget (deleting changes the count)',
               'A warning is read by its kind words and its quoted names; its position only tells statements of one name apart',
               'CPython with the GIL: preemption is explored at source-line granularity inside bare_script']

MAX_STATEMENTS = 4000


#
# What the warnings must be
#

def functions_of(statements):
    for statement in statements:
        if 'function' in statement:
            yield statement['function']
            yield from functions_of(statement['function']['statements'])


def scopes_of(model):
    yield None, model['statements']
    for function in functions_of(model['statements']):
        yield function['name'], function['statements']


def duplicates(names):
    names = list(names)
    return {name for name in names if names.count(name) > 1}


def expected_warnings(model):
    """The sets the statement calls exact: unknown labels, redefined labels (by scope name), functions, arguments (by function)."""
    unknown = set()
    relabel = set()
    for scope, statements in scopes_of(model):
        defined = [statement['label'] for statement in statements if 'label' in statement]
        used = {statement['jump']['label'] for statement in statements if 'jump' in statement}
        unknown.update((scope, label) for label in used - set(defined))
        relabel.update((scope, label) for label in duplicates(defined))
    functions = list(functions_of(model['statements']))
    reargs = {(function['name'], name) for function in functions for name in duplicates(function.get('args') or [])}
    return {'unknown-label': unknown, 'relabel': relabel, 'refunction': duplicates(function['name'] for function in functions), 'reargument': reargs}


KINDS = [
    ('unknown-label', re.compile(r'unknown\b.*\blabel', re.I)), ('unused-label', re.compile(r'unused\b.*\blabel', re.I)),
    ('relabel', re.compile(r'(redefin|duplicate)\w*\b.*\blabel', re.I)), ('unused-argument', re.compile(r'unused argument', re.I)),
    ('reargument', re.compile(r'(redefin|duplicate)\w*( of)? argument', re.I)), ('refunction', re.compile(r'(redefin|duplicate)\w*\b.*\bfunction', re.I)),
    ('unused-variable', re.compile(r'unused variable', re.I)), ('pointless', re.compile(r'pointless', re.I)),
]
SCOPE = re.compile(r'function "([^"]*)"')
NAME = re.compile(r'(?:label|variable|argument) "([^"]*)"')
INDEX = re.compile(r'\(index (\d+)\)')


def read_warning(text):
    """(kind, scope, name, index) of a warning; kind None: one the statement does not speak about."""
    words = re.sub(r'"[^"]*"', '""', text)
    kind = next((kind for kind, pattern in KINDS if pattern.search(words)), None)
    scope = SCOPE.search(text)
    name = NAME.search(text)
    index = INDEX.search(text)
    return kind, scope and scope.group(1), name and name.group(1), int(index.group(1)) if index else None


def check_exact(model, warnings):
    want = expected_warnings(model)
    got = {kind: set() for kind in want}
    for text in warnings:
        kind, scope, name, _ = read_warning(text)
        if kind in ('unknown-label', 'relabel', 'reargument'):
            got[kind].add((scope, name))
        elif kind == 'refunction':
            got[kind].add(scope)
    for kind, names in want.items():
        if got[kind] != names:
            raise Violation('lint-' + kind, f'reported {sorted(got[kind], key=str)!r}, but it is {sorted(names, key=str)!r}')


#
# The edits the warnings suggest
#

def edit(model, warning):
    """The model with the warning acted on; None if the warning does not suggest an edit."""
    kind, scope, name, index = read_warning(warning)
    if kind not in ('unused-label', 'unused-variable', 'unused-argument', 'pointless'):
        return None
    out = copy.deepcopy(model)
    if scope is None:
        candidates = [{'statements': out['statements']}]
    else:
        candidates = [function for function in functions_of(out['statements']) if function['name'] == scope]
    fresh = 'vcheckFresh'
    if kind in ('unused-variable', 'unused-argument'):
        if scope is None:
            raise Violation('lint-locator', f'no function in {warning!r}')
        candidates = [function for function in candidates if name in (
            (function.get('args') or []) if kind == 'unused-argument' else
            [statement['expr'].get('name') for statement in function['statements'] if 'expr' in statement])]
        if not candidates:
            raise Violation('lint-locator', f'{warning!r}: there is no such name')
        if len(candidates) > 1:
            return None
        function = candidates[0]
        if kind == 'unused-argument':
            function['args'] = [fresh if arg == name else arg for arg in function['args']]
        else:
            for statement in function['statements']:
                if 'expr' in statement and statement['expr'].get('name') == name:
                    statement['expr']['name'] = fresh
        return out
    if kind == 'unused-label':
        candidates = [entry for entry in candidates if any(statement.get('label') == name for statement in entry['statements'])]
    if not candidates:
        raise Violation('lint-locator', f'{warning!r}: there is nothing like it')
    if len(candidates) > 1:
        return None
    statements = candidates[0]['statements']
    if kind == 'unused-label':
        at = next(ix for ix, statement in enumerate(statements) if statement.get('label') == name)
    else:
        at = index
        if at is None or at >= len(statements) or 'expr' not in statements[at] or 'name' in statements[at]['expr']:
            raise Violation('lint-locator', f'{warning!r}: there is no expression statement')
    del statements[at]
    return out


#
# Runs
#

class LintWorld(RealWorld):
    """Sessions that lint the shared model between their runs (and while the other sessions run it)."""

    def __init__(self, scn, stats, models, lint=None):
        super().__init__({**scn, 'models': models}, stats)
        self.lint = lint
        self.reports = {}

    def run_call(self, call, options=None, globals_=None):
        self.report(call)
        result = super().run_call(call, options, globals_)
        self.report(call)
        return result

    def report(self, call):
        if self.lint is None or not call.get('lint'):
            return
        model = self.models[call['model']]
        warnings = self.lint(model)
        if call['lint'] == 'twice':
            other = self.lint(copy.deepcopy(model))
            if other != warnings:
                raise Violation('lint-unstable', f'{warnings!r} then {other!r}')
        self.check_model('after lint')
        if self.reports.setdefault(call['model'], warnings) != warnings:
            raise Violation('lint-unstable', f'{self.reports[call["model"]]!r} then {warnings!r}')


def play(scn, stats, models, lint=None):
    WORK[0] = 0
    world = LintWorld(scn, stats, models, lint)
    world.run()
    return world


def observed(world):
    return [history(world), world.final_globals()]


#
# Generation
#

class Gen(c08.Gen):
    """Jump-level models with dead names: unused variables, arguments, labels and statements, and functions called by variable."""

    def statements(self, length, level, labels):
        rng = self.rng
        out = super().statements(length, level, labels)
        for statement in list(out):
            function = statement.get('function')
            if function:
                if rng.random() < 0.5:
                    function['args'] = [rng.choice([*self.vars, 'p', 'q', 'r', 's']) for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 6]))]
                    if rng.random() < 0.8:
                        function['args'] = list(dict.fromkeys(function['args']))
                    if rng.random() < 0.2:
                        function['lastArgArray'] = True
                elif rng.random() < 0.1:
                    function['lastArgArray'] = True
                if rng.random() < 0.1:
                    function['async'] = True
                if rng.random() < 0.2:
                    for _ in range(rng.randrange(2, 13)):
                        function['statements'].insert(0, gen.st_expr(gen.call('hL', gen.num(self.next_tag()))))
                if rng.random() < 0.5:
                    self.one_use(function, labels)
                if rng.random() < 0.1:
                    function['statements'].insert(0, gen.st_function(rng.choice(['fN', 'fA']), rng.choice([None, ['x'], ['q', 'q']]),
                                                                     self.statements(3, 2, labels)))
        if level == 0 and rng.random() < 0.5:
            self.straight(out, labels)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            at = rng.randrange(len(out) + 1)
            roll = rng.random()
            if rng.random() < 0.12:     # (two of a kind in a row)
                pair = [gen.st_return(gen.var(rng.choice(['p', 'q', 'u', 'w']))), gen.st_expr(gen.num(1), rng.choice(['u', 'w'])),
                        gen.st_jump(rng.choice(labels), gen.var(rng.choice(['p', 'u']))), {'label': rng.choice(labels)}, gen.st_expr(self.dead(1))]
                out[at:at] = [rng.choice(pair), rng.choice(pair)]
                continue
            if roll < 0.2:
                out.insert(at, gen.st_expr(gen.call(rng.choice([*self.vars, 'p']), gen.num(self.next_tag())), rng.choice([None, *self.vars])))
            elif roll < 0.35:
                out.insert(at, {'label': rng.choice([*labels, 'spare'])})
            elif roll < 0.6:
                out.insert(at, gen.st_expr(self.dead(2)))
            elif roll < 0.75:
                out.insert(at, gen.st_expr(self.value_expr(), rng.choice(['u', 'w', 'p', 'q', 'hV', 'fA'])))
            elif roll < 0.85:
                out.insert(at, gen.st_jump(rng.choice([*labels, 'nowhere']), self.cond()))
            elif roll < 0.93 and level:
                out.insert(at, gen.st_return(gen.call(rng.choice(['x', 'p', 'hV', 'fA']), gen.num(self.next_tag()))
                                             if rng.random() < 0.5 else self.dead(2)))
            else:
                out.insert(at, gen.st_expr(gen.binary('+', gen.var(rng.choice([*self.vars, 'u', 'p', 'q'])), gen.call('hV', gen.num(self.next_tag())))))
        return out

    def straight(self, out, labels):
        """A function whose statements mostly run one after the other, and a call of it."""
        rng = self.rng
        body = []
        for _ in range(rng.choice([0, 2, 5, 10, 16])):
            body.append(gen.st_expr(gen.call('hL', gen.num(self.next_tag()))) if rng.random() < 0.6 else
                        gen.st_expr(self.value_expr(), rng.choice([None, 'x', 'y', 'u', 'q'])))
        args = rng.choice([None, ['p'], ['p', 'q'], ['q', 'p', 'only'], ['x', 'u']])
        function = gen.st_function('fS', args, body)
        for _ in range(rng.choice([1, 1, 2])):
            self.one_use(function['function'], labels)
        if rng.random() < 0.4:
            body.append(gen.st_return(rng.choice([gen.num(1), gen.var('p'), gen.var('x')])))
        begin = rng.randrange(len(out) + 1)
        out.insert(begin, function)
        for _ in range(rng.choice([1, 1, 2])):
            call_ = gen.call('fS', *(self.value_expr(1) for _ in range(rng.choice([0, 1, 2, 3]))))
            out.insert(rng.choice([begin + 1, rng.randrange(len(out) + 1)]), gen.st_expr(call_, rng.choice([None, 'x', 'y'])))

    def one_use(self, function, labels):
        """Insert a name that has one use, of some kind."""
        rng = self.rng
        name = rng.choice(['u', 'w', 'only', 'only', *(function.get('args') or [])])
        use = gen.var(name) if rng.random() < 0.7 else gen.call(name, *(gen.num(1) for _ in range(rng.randrange(2))))
        others = [gen.num(0), gen.num(1), *(gen.var(other) for other in ('p', 'q', 'x', 'true', 'w'))]
        for _ in range(rng.choice([0, 0, 0, 1, 2, 3])):
            use = rng.choice([lambda: gen.unary(rng.choice('!-'), use), lambda: gen.group(use), lambda: gen.call('hV', gen.num(1), use),
                              lambda: gen.binary(rng.choice(['+', '||', '==']), rng.choice(others), use),
                              lambda: gen.binary(rng.choice(['+', '&&', '==']), use, rng.choice(others))])()
        body = function['statements']
        known = [statement['label'] for statement in body if 'label' in statement]
        at = rng.randrange(len(body) + 1)
        body.insert(at, rng.choice([
            gen.st_expr(use, 'x'), gen.st_expr(gen.call('hL', use)), gen.st_jump(rng.choice(known or labels), use), gen.st_return(use),
            gen.st_expr(use, name), gen.st_expr(use)]))
        if 'jump' in body[at] and not known and rng.random() < 0.8:
            body.insert(rng.randrange(at, len(body)) + 1, {'label': body[at]['jump']['label']})
        if rng.random() < 0.8:
            value = gen.call('hV', gen.num(self.next_tag())) if rng.random() < 0.6 else gen.var(rng.choice(['hL', 'hV', 'fA', 'x', 'true']))
            body.insert(rng.randrange(at + 1), gen.st_expr(value, name))

    def dead(self, depth):
        """Mostly an expression without calls; sometimes with one somewhere inside."""
        rng = self.rng
        roll = rng.random()
        if depth <= 0 or roll < 0.4:
            if rng.random() < 0.25:
                return gen.call('hL', gen.num(self.next_tag()))
            return rng.choice([gen.num(1), gen.string('s'), gen.var(rng.choice([*self.vars, 'p', 'u'])), gen.var('null')])
        if roll < 0.7:
            return gen.binary(rng.choice(['+', '&&', '||', '==', '/']), self.dead(depth - 1), self.dead(depth - 1))
        if roll < 0.85:
            return gen.unary(rng.choice(['!', '-']), self.dead(depth - 1))
        return gen.group(self.dead(depth - 1))


def generate(rng, index, tier):
    base = c01 if rng.random() < 0.3 else c08
    scn = base.generate(rng, index, tier)
    if base is c08:
        models = []
        for _ in scn['models']:
            gen_ = Gen(rng)
            labels = rng.sample(c08.LABELS, rng.randrange(1, 4))
            models.append({'statements': gen_.statements(rng.randrange(1, 14), 0, labels)})
        for model in models:
            for function in functions_of(model['statements']):      # (an empty argument list is not schema-valid)
                if not function.get('args', True):
                    function.pop('args')
            if rng.random() < 0.15:     # (after the end: linted, never run)
                url = rng.choice(['a.bare', '', "it's"])
                model['statements'].extend([gen.st_return(), gen.st_include((url, rng.random() < 0.5))])
            if rng.random() < 0.1:
                deep = rng.choice([gen.var('x'), gen.var('u'), gen.call('hV', gen.num(9000))])
                plain = rng.random() < 0.5
                for _ in range(rng.choice([20, 60, 100, 200])):
                    wraps = [gen.group, lambda expr: gen.unary('!', expr)]
                    if not plain:
                        wraps.extend([lambda expr: gen.binary('&&', expr, gen.num(1)), lambda expr: gen.binary('||', gen.num(0), expr),
                                      lambda expr: gen.call('if', expr, gen.num(1))])
                    deep = rng.choice(wraps)(deep)
                model['statements'].insert(0, rng.choice([gen.st_expr(deep), gen.st_expr(deep), gen.st_jump(rng.choice(labels), deep)]))
        scn['models'] = models
    else:
        scn['form'] = 'programs'
        scn['immutable'] = True
    for session in scn['sessions']:
        for call in session['calls']:
            for key in ('edit', 'copy', 'cached', 'style', 'form', 'start', 'reuse', 'debug'):
                call.pop(key, None)
            if 'program' in call:
                call['model'] = call.pop('program')
            call['limit'] = MAX_STATEMENTS
            if rng.random() < 0.5:
                call['lint'] = rng.choice(['once', 'twice'])
    for table in scn['hosts'].values():
        for behaviour in table:
            for action in behaviour.get('do', ()):
                if action[0] == 'exec':
                    action[2] = MAX_STATEMENTS
    if index % 500 == 0:
        scn['shipped'] = True
    if index % 250 == 1:
        scn['processes'] = rng.sample(range(1, 1000), 3)
        scn['batch'] = []
        for _ in range(24):
            model = {'statements': Gen(rng).statements(rng.randrange(3, 14), 0, rng.sample(c08.LABELS, 2))}
            for function in functions_of(model['statements']):
                if not function.get('args', True):
                    function.pop('args')
            scn['batch'].append(model)
    return scn


def shipped(stats):
    from bare_script import lint_script, parse_script  # pylint: disable=import-outside-toplevel
    folder = os.path.join(REPO_SRC, 'bare_script', 'include')
    for name in sorted(os.listdir(folder)):
        if name.endswith('.bare'):
            with open(os.path.join(folder, name), encoding='utf-8') as fh:
                model = parse_script(fh.read())
            before = copy.deepcopy(model)
            first = lint_script(model)
            if lint_script(model) != first or model != before:
                raise Violation('lint-unstable', f'shipped {name}')
            check_exact(model, first)
            stats.hit('shipped scripts')


LINT_PROCESS = """
import json, sys
sys.path.insert(0, sys.argv[1])
from bare_script import lint_script
print(json.dumps([lint_script(model) for model in json.load(sys.stdin)]))
"""


def other_processes(scn, stats, lint):
    """The warnings of a model do not depend on the process that lints it."""
    batch = scn['batch']
    here = [lint(model) for model in batch]
    for model, warnings in zip(batch, here):
        check_exact(model, warnings)
    for seed in scn['processes']:
        env = {**{name: text for name, text in os.environ.items() if name != 'LD_PRELOAD'}, 'PYTHONHASHSEED': str(seed)}
        done = subprocess.run([sys.executable, '-c', LINT_PROCESS, REPO_SRC], input=json.dumps(batch), capture_output=True, text=True, env=env,
                              check=False)
        if done.returncode:
            raise Violation('lint-failed', done.stderr[-300:])
        stats.hit('process')
        for model, warnings, there in zip(batch, here, json.loads(done.stdout)):
            if warnings != there:
                raise Violation('lint-unstable', f'another process (PYTHONHASHSEED={seed}) reports {there!r}, this one {warnings!r}')


def run(scn, stats):
    from bare_script import lint_script, parse_script  # pylint: disable=import-outside-toplevel
    if scn.get('form') == 'programs':
        for program in scn['programs']:
            check_program(program)
        models = [parse_script(render_program(program)) for program in scn['programs']]
    else:
        models = scn['models']
    if not models or any('program' in call for session in scn['sessions'] for call in session['calls']):
        raise InvalidScenario('malformed')
    if scn.get('shipped'):
        shipped(stats)

    def lint(model):
        warnings = lint_script(model)
        if not isinstance(warnings, list) or not all(isinstance(text, str) for text in warnings):
            raise Violation('lint-result', f'{warnings!r}')
        return warnings

    if scn.get('processes'):
        other_processes(scn, stats, lint)

    # Purity and exactness
    reports = []
    for model in models:
        before = copy.deepcopy(model)
        warnings = lint(model)
        if model != before:
            raise Violation('model-modified', 'lint modified the model')
        check_exact(model, warnings)
        reports.append(warnings)

    # The run, with lint between and beside
    scn = {**scn, 'immutable': True}
    world = play(scn, stats, models, lint)
    for ix, warnings in world.reports.items():
        if warnings != reports[ix]:
            raise Violation('lint-unstable', f'{reports[ix]!r} then {warnings!r}')
    base = observed(world)
    outcomes = [outcome for state in world.sessions for outcome in state.outcomes]
    if any(outcome[:2] == ['error', 'budget'] for outcome in outcomes) or any(
            event[0] == 'nested' and event[1][:2] == ['error', 'budget'] for state in world.sessions for event in state.events):
        raise InvalidScenario('budget')
    for outcome in outcomes:
        if outcome[:2] == ['error', 'label'] and not any(
                read_warning(text)[0] == 'unknown-label' and read_warning(text)[2] == outcome[2] for warnings in reports for text in warnings):
            raise Violation('lint-unknown-label', f'the run ended with {outcome!r}, which was not reported')

    # The edits
    applied = 0
    everything = list(models)
    keys = set()
    quiet = {**scn, 'sessions': [{**session, 'calls': [{key: item for key, item in call.items() if key != 'lint'} for call in session['calls']]}
                                 for session in scn['sessions']]}
    for ix, warnings in enumerate(reports):
        for text in warnings:
            changed = edit(models[ix], text)
            if changed is None:
                continue
            applied += 1
            kind = read_warning(text)[0]
            keys.add(f'{kind} {"function" if read_warning(text)[1] else "global"}')
            stats.hit('edit.' + kind)
            if applied > 6:
                break
            got = observed(play(quiet, stats, [*models[:ix], changed, *models[ix + 1:]]))
            if got != base:
                raise Violation('lint-unjustified', f'acting on {text!r} changes the run: {first_difference(got, base)}')
            everything[ix] = changed
    for kind in outcome_kinds(world):
        stats.hit('outcome.' + kind)
    return {'history': [base, reports], 'keys': sorted(keys), 'nontrivial': [base[0], applied] if applied and event_count(world) >= 3 else None}


def first_difference(got, want):
    for sid, (left, right) in enumerate(zip(got[0], want[0])):
        for ix, (one, two) in enumerate(zip([*left[0], *left[1]], [*right[0], *right[1]])):
            if one != two:
                return f'session {sid} item {ix}: {str(one)[:300]} instead of {str(two)[:300]}'
    return f'{str(got)[:300]} instead of {str(want)[:300]}'
