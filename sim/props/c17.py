"""C17: includes resolve relative to the including file and run in global scope."""

import contextlib
import io
import os
import posixpath
import re
import shutil
import tempfile

from .. import engine, gen
from ..core import InvalidScenario, Violation, gen_preempts, gen_schedule
from ..engine import RefWorld, execute, history, norm_location
from .common import ASSUME, REAL_ALL, STUB_HOST, event_count, latency, outcome_kinds

ID = 'C17'
RUNS = {'quick': 24000, 'thorough': 250000}
RULE = ('seeded include trees (depth <= 4, fan-out <= 3, path / relative-path / URL bases, absolute, relative and system references, includes inside '
        'functions) over a virtual file space with latencies and missing / raising / empty / broken / changing resources, 1-3 sessions, options '
        'reused after success and failure; plus CLI runs over a scratch directory with disk faults; non-trivial: at least two fetches (distinct by '
        'history)')
REAL = [*REAL_ALL, 'bare_script.bare.main (CLI runs, over a scratch directory and the packaged include files)']
STUB = [*STUB_HOST, 'file and URL space: virtual, except in CLI runs (real files in a scratch directory)']
ASSUMPTIONS = [*ASSUME, 'Two spellings of one location (a/./b, a//b, a/c/../b) are the same location']

ROOTS_PATH = ['/app', '/app/sub', '/app/sub/deep', '/lib', '/lib/x y']
ROOTS_REL = ['rel', 'rel/sub', 'rel/sub/two', '']
ROOTS_URL = ['http://h.com', 'http://h.com/dir', 'http://h.com/dir/sub']
ROOTS_URL2 = ['https://x.org/a/b', 'https://x.org/a']
ROOTS_URL3 = [['file:///v/w', 'file:///v'], ['ftp://f.net/p', 'ftp://f.net'], ['z:/c/d', 'z:/c'], ['blob:/q/r'], ['app://local/i', 'app://local']]
NAMES_PATH = [lambda x: x, lambda x: f'{x} z.bare', lambda x: f"{x}'q.bare", lambda x: f'{x}.d.bare', lambda x: f'\u00fc{x}.bare', lambda x: f'-{x}', lambda x: f'{x.upper()}#1',
              lambda x: f'.{x}.bare', lambda x: f'{x}%20.bare', lambda x: f'{x}.bare.bare', lambda x: f'~{x}', lambda x: f'{x}\\\\z.bare', lambda x: f"{x}\\'z.bare"]
NAMES_URL = [*NAMES_PATH[:6], lambda x: f'{x}/', lambda x: f'{x}.bare?v=1', lambda x: f'{x}.bare?v=1&w=%2f', lambda x: f'{x}.bare#f', lambda x: f'{x}%20z.bare']
SYNTAX_TEXT = ['x = (1', 'if x:\n', "foo bar", "function f()\nendfunction", 'break', "systemLog('~bad'", '~']
PREFIXES = ['/sys/', 'https://cdn.org/sys/', ':inc:/', 'sysrel/', '/sys/v1/']
FETCH_FAULTS = ['none', 'OSError', 'FileNotFoundError', 'TimeoutError', 'ValueError', 'KeyError', 'UnicodeDecodeError', 'HostError', 'StopIteration',
                'MemoryError', 'RuntimeError', 'ConnectionResetError']


def scheme(location):
    match = re.match(r'[a-z]+://[^/]*|[a-z]+:', location)
    return match.group() if match else '/' if location.startswith('/') else 'rel'


def spelling(rng, base, target, cli=False):
    """A reference to target as a file at base might write it."""
    if isinstance(base, str) and scheme(base) == scheme(target) and rng.random() < 0.8:
        strip = 0 if scheme(base) in ('/', 'rel') else len(scheme(base))
        text = posixpath.relpath(target[strip:] or '/', posixpath.dirname(base[strip:]) or ('/' if strip else '.'))
        roll = rng.random()
        if roll < 0.1:
            text = './' + text
        elif roll < 0.15 and '/' in text and not text.startswith('..'):
            text = text.replace('/', '/./', 1)
        elif roll < 0.2 and not cli:     # (on a real disk zz would have to exist)
            text = 'zz/../' + text
        return text + '/' if target.endswith('/') and not text.endswith('/') else text
    if scheme(target) == 'rel':
        return None
    return target


class Gen:
    def __init__(self, rng, cli=False):
        self.rng = rng
        self.tag = 0
        self.models = []
        self.cli = cli
        self.functions = []
        self.prefixed = True

    def log(self, *args):
        self.tag += 1
        if self.cli:
            expr = gen.string(f'~{self.tag} ')
            for arg in args:
                expr = gen.binary('+', gen.binary('+', expr, arg), gen.string(' '))
            return gen.st_expr(gen.call('systemLog', expr))
        return gen.st_expr(gen.call('hL', gen.num(self.tag), *args))

    def file(self, base, targets, level):
        """The statements of one file at base, which may include targets: [(location, system url or None)]."""
        rng = self.rng
        out = [self.log(gen.var('n'))] if rng.random() < 0.8 else []

        def include():
            items = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                if not targets:
                    break
                location, system = rng.choice(targets)
                if system is not None:
                    items.append((system, True))
                else:
                    url = spelling(rng, base, location, self.cli)
                    if url is not None:
                        items.append((url, not self.prefixed and '>' not in url and rng.random() < 0.2))
            return [gen.st_include(*items)] if items else []

        for _ in range(rng.randrange(0, 5)):
            roll = rng.random()
            if roll < 0.34:
                out.extend(include())
            elif roll < 0.4:    # includes on both sides of a label
                self.tag += 1
                label = f'lab{self.tag}'
                out.append(gen.st_jump(label, rng.choice([None, None, gen.var(rng.choice('nm'))])))
                out.extend([*include(), {'label': label}, *include()])
            elif roll < 0.55:
                out.append(gen.st_expr(gen.binary('+', gen.var(rng.choice('nm')), gen.num(1)), rng.choice('nm')))
            elif roll < 0.7:
                out.append(self.log(gen.var(rng.choice('nmp'))))
            elif roll < 0.82 and len(self.functions) < 4:
                name = f'fn{len(self.functions)}'
                body = [self.log(gen.var('n'), gen.var('p'))]
                if rng.random() < 0.4:
                    body.append(gen.st_expr(gen.num(rng.randrange(10, 20)), 'm'))
                if rng.random() < 0.6:
                    body.extend(include())
                    body.append(self.log(gen.var('n'), gen.var('m')))
                if rng.random() < 0.5:
                    body.append(gen.st_return(gen.var(rng.choice('nmp'))))
                self.functions.append(name)
                out.append(gen.st_function(name, rng.choice([None, ['n'], ['p', 'n']]), body))
                if rng.random() < 0.5:
                    out.append(self.call(name))
            elif roll < 0.9 and self.functions:
                out.append(self.call(rng.choice(self.functions)))
            elif roll < 0.95 and not self.cli and isinstance(base, str) and '://' not in base:
                out.append(self.log(gen.call('systemFetch', gen.string(rng.choice(['data.txt', 'sub/data.txt', '../data.txt'])))))
            elif level > 0 and roll > 0.95:
                out.append(gen.st_return(gen.num(rng.randrange(4)) if rng.random() < 0.6 else None))
        if rng.random() < 0.6:
            out.append(self.log(gen.var('n'), gen.var('m')))
        return {'statements': gen.merge_includes(out)}

    def call(self, name):
        rng = self.rng
        roll = rng.random()
        if roll < 0.6:
            return gen.st_expr(gen.call(name, gen.num(rng.randrange(5))), rng.choice([None, 'm']))
        if roll < 0.8:
            return gen.st_expr(gen.call('arrayIndexOf', gen.call('arrayNew', gen.num(1), gen.num(2)), gen.var(name)), rng.choice([None, 'm']))
        return gen.st_expr(gen.call('systemPartial', gen.var(name), gen.num(3)), 'q')


def tree(rng, gen_, prefix):
    """Files in (dependency) order: later files may include earlier ones. Returns vfs, locations."""
    roots = [*ROOTS_PATH, *(ROOTS_URL if rng.random() < 0.6 else []), *(ROOTS_URL2 if rng.random() < 0.4 else []),
             *(rng.choice(ROOTS_URL3) if rng.random() < 0.3 else []), *(ROOTS_REL if rng.random() < 0.5 else [])]
    if prefix is not None:
        roots.append(posixpath.normpath(prefix) if '://' not in prefix else prefix.rstrip('/'))
    vfs = {}
    targets = []
    for ix in range(rng.randrange(1, 7)):
        root = rng.choice(roots)
        name = rng.choice(NAMES_URL if '://' in root else NAMES_PATH)("abcdefg"[ix]) if rng.random() < 0.2 else f'{"abcdefg"[ix]}.bare'
        location = f'{root}/{name}' if root else name
        level_targets = targets[-5:]
        resources = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            roll = rng.random()
            if roll < 0.86:
                model = gen_.file(location, level_targets, 1)
                gen_.models.append(model)
                resources.append({'model': len(gen_.models) - 1})
            elif roll < 0.9:
                gen_.models.append({'statements': []})
                resources.append({'model': len(gen_.models) - 1, 'text': rng.choice(['', '\n', '# comment\n', '  \n\n'])})
            elif roll < 0.95:
                resources.append({'fault': rng.choice(FETCH_FAULTS)})
            else:
                resources.append({'text': rng.choice(SYNTAX_TEXT), 'model': None})
        vfs[norm_location(location)] = resources
        targets.append((location, None))
        if prefix is not None and norm_location(location).startswith(norm_location(prefix + 'x')[:-1]):
            targets.append((location, norm_location(location)[len(norm_location(prefix + 'x')) - 1:]))
    if rng.random() < 0.15:
        missing = rng.choice(roots)
        targets.append((f'{missing}/missing.bare' if missing else 'missing.bare', None))
    for directory in ('/app', '/app/sub', '/lib', 'rel'):
        vfs[f'{directory}/data.txt'] = [{'text': f'data of {directory}'}]
    return vfs, targets


def generate(rng, index, tier):
    if index % 25 == 24:
        return generate_cli(rng)
    gen_ = Gen(rng)
    prefix = rng.choice([*PREFIXES, None])
    gen_.prefixed = prefix is not None      # (without a prefix a system include is resolved like any other)
    vfs, targets = tree(rng, gen_, prefix)
    mains = []
    for _ in range(rng.choice([1, 1, 2])):
        roll = rng.random()
        if roll < 0.35:
            base = rng.choice(ROOTS_PATH) + '/main.bare'
        elif roll < 0.55:
            base = rng.choice([*ROOTS_URL, *ROOTS_URL2, *rng.choice(ROOTS_URL3)]) + '/main.bare'
        elif roll < 0.75:
            root = rng.choice(ROOTS_REL)
            base = f'{root}/main.bare' if root else 'main.bare'
        elif roll < 0.9:
            base = None
        else:
            base = {'stub': 'mem:/'}
        spell_base = base if base is not None else 'main.bare'
        gen_.models.append(gen_.file(spell_base if isinstance(spell_base, str) else 'main.bare', targets, 0))
        mains.append((base, len(gen_.models) - 1))
    if any(isinstance(base, dict) for base, _ in mains):
        # the host's own scheme: relative names land under mem:/
        for location in list(vfs):
            if scheme(location) == 'rel':
                vfs['mem:/' + location] = vfs[location]
            elif location.startswith('/'):
                vfs['mem:' + location] = vfs[location]
    count = rng.choice([1, 1, 1, 2, 3])
    share = count > 1 and rng.random() < 0.2
    sessions = []
    globals_ = []
    for sid in range(count):
        calls = []
        for ix in range(rng.choice([1, 1, 2, 3])):
            base, model = rng.choice(mains)
            call = {'model': model, 'base': base, 'prefix': prefix}
            if rng.random() < 0.15:
                call['debug'] = True
            if calls and rng.random() < 0.5:
                call = {**calls[-1], 'model': model if rng.random() < 0.5 else calls[-1]['model'], 'reuse': True}
            elif share and globals_:
                call['globals'] = 0
            else:
                globals_.append([['hL', {'$': 'fn', 'v': 'hL'}], ['n', 0], ['m', 0], ['p', 'global p']])
                call['globals'] = len(globals_) - 1
            calls.append(call)
        session = {'calls': calls}
        if count > 1 and not share:
            session['preempt'] = gen_preempts(rng, rng.randrange(1, 8), 4000)
        sessions.append(session)
    return {
        **({'nolog': rng.choice(['missing', 'null'])} if rng.random() < 0.05 else {}),
        'models': gen_.models, 'vfs': vfs, 'globals': globals_, 'hosts': {'hL': [{}]}, 'sessions': sessions, 'share': share,
        'missing_raises': rng.random() < 0.5, 'schedule': gen_schedule(rng, 80), 'latency': latency(rng)
    }


def run(scn, stats):
    if 'cli' in scn:
        return run_cli(scn, stats)
    real, ref = execute(scn, stats)
    fetches = sum(1 for state in ref.sessions for event in state.events if event[0] == 'fetch')
    kinds = outcome_kinds(real)
    for kind in kinds:
        stats.hit('outcome.' + kind)
    hist = history(real)
    depth = min(9, fetches)
    return {'history': hist, 'keys': [f'fetches={depth}', *kinds], 'nontrivial': hist if fetches >= 2 and event_count(real) else None}


#
# The command-line interface, over a scratch directory
#

SHIPPED = ['args.bare', 'diff.bare', 'forms.bare', 'pager.bare', 'unittest.bare']
DIRS = ['', 'lib', 'lib/deep', 'other']


def generate_cli(rng):
    gen_ = Gen(rng, cli=True)
    files = {}
    targets = []
    for ix in range(rng.randrange(1, 5)):
        directory = rng.choice(DIRS)
        name = f'{"abcdefg"[ix]}.bare'
        location = f'{directory}/{name}' if directory else name
        roll = rng.random()
        if roll < 0.85:
            gen_.models.append(gen_.file(location, [*targets, *[(None, name) for name in SHIPPED[:2]]], 1))
            files[location] = {'model': len(gen_.models) - 1}
        else:
            files[location] = {'fault': rng.choice(['directory', 'undecodable', 'syntax', 'absent'])}
        targets.append((location, None))
    system = [(None, name) for name in SHIPPED]
    if rng.random() < 0.08:
        system.append((None, 'nope.bare'))
    scripts = []
    for ix in range(rng.choice([1, 1, 2])):
        if rng.random() < 0.5:
            location = rng.choice(['main.bare', 'lib/main.bare', 'other/main.bare'])[:-5] + f'{ix}.bare'
            gen_.models.append(gen_.file(location, [*targets, *system], 1))
            files[location] = {'model': len(gen_.models) - 1}
            scripts.append({'file': location})
        else:
            gen_.models.append(gen_.file('code.bare', [*targets, *system], 1))
            scripts.append({'code': len(gen_.models) - 1})
    return {'cli': True, 'models': gen_.models, 'files': files, 'scripts': scripts, 'debug': rng.random() < 0.1}


class CliRef(RefWorld):
    """The reference for a CLI run: files are the scratch directory's, system includes are opaque."""

    def log(self, text):
        self.event('log', text)

    def fetch(self, location):
        if location.startswith(':bare-include:/'):
            return {'opaque': True} if location[len(':bare-include:/'):] in SHIPPED else None
        entry = self.scn['files'].get(norm_location(location))
        if entry is None or entry.get('fault') in ('directory', 'undecodable', 'absent'):
            return None
        return entry

    def resource_model(self, resource):
        if resource.get('opaque'):
            return []
        if resource.get('fault') == 'syntax':
            return None
        return self.models[resource['model']]['statements']


def run_cli(scn, stats):
    from bare_script import bare  # pylint: disable=import-outside-toplevel
    for model in scn['models']:
        if engine.SHRINKING:
            engine.check_rendered(gen.to_text(model), model)
    # The expected log lines, failure and exit status
    ref = CliRef({**scn, 'sessions': [{'calls': []}], 'globals': [[]]}, stats)
    globals_ = {}
    status = 0
    failed = None
    inline = 0
    for script in scn['scripts']:
        if 'file' in script:
            entry = scn['files'][script['file']]
            base = script['file']
            model = entry['model']
        else:
            base = None
            model = script['code']
            inline += 1
        state = ref.cur()
        state.prefix = ':bare-include:/'
        _, outcome = ref.run_call({'model': model, 'base': base, 'prefix': ':bare-include:/'}, {
            'globals': globals_, 'base': base, 'prefix': ':bare-include:/', 'debug': False})
        if outcome[0] == 'error':
            failed = outcome
            status = 1
            break
        value = outcome[1]
        if isinstance(value, str) and value.startswith('n:'):
            number = float(value[2:])
            status = int(number) if number == int(number) and 0 <= number <= 255 else 1
        else:
            status = 1 if value not in (None, False, 's:', []) else 0
        if status != 0:
            break
    expected = [event[1] for event in ref.cur().events if event[0] == 'log' and event[1].startswith('~')]

    # The real run, in a scratch directory
    scratch = tempfile.mkdtemp(prefix='sim-c17-')
    cwd = os.getcwd()
    out = io.StringIO()
    code = None
    try:
        for directory in DIRS:
            os.makedirs(os.path.join(scratch, directory), exist_ok=True)
        for location, entry in scn['files'].items():
            path = os.path.join(scratch, location)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            fault = entry.get('fault')
            if fault is not None:
                stats.hit('fault.disk.' + fault)
            if fault == 'directory':
                os.makedirs(path, exist_ok=True)
            elif fault == 'undecodable':
                with open(path, 'wb') as fh:
                    fh.write(b"systemLog('~bad')\n\xff\xfe\n")
            elif fault == 'syntax':
                with open(path, 'w', encoding='utf-8') as fh:
                    fh.write('x = (1\n')
            elif fault is None:
                with open(path, 'w', encoding='utf-8') as fh:
                    fh.write(gen.to_text(scn['models'][entry['model']]))
        os.chdir(scratch)
        argv = ['-d'] if scn.get('debug') else []
        code_count = 0
        for script in scn['scripts']:
            if 'file' in script:
                argv.append(script['file'])
            else:
                code_count += 1
                argv.extend(['-c', gen.to_text(scn['models'][script['code']])])
        # files and -c arguments keep their order only when they are not interleaved: argparse takes positionals in one group
        kinds = ['file' if 'file' in script else 'code' for script in scn['scripts']]
        if kinds not in (['file'], ['code'], ['code', 'code'], ['file', 'file'], ['code', 'file'], ['file', 'code']):
            raise InvalidScenario('argv order')
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                bare.main(argv)
            except SystemExit as exc:
                code = exc.code
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    lines = out.getvalue().split('\n')
    logs = [line for line in lines if line.startswith('~')]
    if logs != expected:
        raise Violation('cli-history', f'CLI logged {logs!r}, expected {expected!r}')
    if code != status:
        raise Violation('cli-status', f'CLI exit status {code!r}, expected {status!r} ({failed!r})')
    if failed is not None:
        rest = '\n'.join(line for line in lines if not line.startswith('~'))
        if failed[1] in ('include', 'syntax') and not engine.syntax_names(rest, failed[2]):
            raise Violation('cli-error', f'CLI output {rest!r} does not name {failed[2]!r}')
        stats.hit('cli.' + failed[1])
    stats.hit('cli.runs')
    hist = [logs, code]
    return {'history': hist, 'keys': [f'cli status {code}'], 'nontrivial': hist if expected else None}
