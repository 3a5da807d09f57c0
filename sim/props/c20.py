"""C20: diffLines reconstructs both inputs - replicas that are kept up to date by differences, over a network that loses, doubles and delays them."""

import contextlib
import io
import json
import os
import re

from ..core import InvalidScenario, Violation, gen_preempts, gen_schedule
from ..engine import import_target
from ..life import Crash, Life, parsed
from .common import ASSUME, latency

ID = 'C20'
RUNS = {'quick': 3000, 'thorough': 80000}
RULE = ('seeded lives of a document and its 1-2 replicas: commits, differences computed by diffLines in long-lived processes, sent as JSON over a simulated '
        'network (lost, doubled, overtaken, late messages), applied, taken back, and sent again until all replicas agree; processes that load diff.bare by '
        'four ways through a faulty include fetch, crash, run out of statements, and share their globals with a preempted session; comparisons by the CLI and '
        'unittestDeepEqual; the include library read in chunks; non-trivial: a difference computed (distinct by history)')
REAL = ['bare_script.runtime', 'bare_script.library', 'bare_script.value', 'bare_script.parser', 'bare_script.model', 'bare_script.bare', 'bare_script/include/*.bare']
STUB = ['network between the nodes: message queues with faults', 'include fetch: the shipped files, with faults', 'disk of the replicas: in memory',
        'thread scheduler: baton scheduler over real threads']
ASSUMPTIONS = ASSUME[1:] + ['A line ends in LF or CRLF; the elements of an array are split in the same way', 'Lint-clean is what lint_script says']

SCRIPT = '''
function deltaMake(left, right):
    return jsonStringify(diffLines(left, right))
endfunction

function deltaApply(lines, text, drop):
    out = arrayNew()
    at = 0
    for block in jsonParse(text):
        if objectGet(block, 'type') != drop:
            arrayExtend(out, objectGet(block, 'lines'))
        endif
        if objectGet(block, 'type') != if(drop == 'Remove', 'Add', 'Remove'):
            for line in objectGet(block, 'lines'):
                if at >= arrayLength(lines) || line != arrayGet(lines, at):
                    return null
                endif
                at = at + 1
            endfor
        endif
    endfor
    if at != arrayLength(lines):
        return null
    endif
    return out
endfunction
'''
INCLUDES = {'plain': 'include <diff.bare>\n', 'twice': 'include <diff.bare>\ninclude <diff.bare>\n', 'unittest': 'include <unittest.bare>\n',
            'both': 'include <diff.bare>\ninclude <unittest.bare>\ninclude <diff.bare>\n'}
PREFIX = ':lib:/'


def library_files():
    path = os.path.join(import_target().__path__[0], 'include')
    out = {}
    for name in sorted(os.listdir(path)):
        if name.endswith('.bare'):
            with open(os.path.join(path, name), encoding='utf-8', newline='') as fh:
                out[name] = fh.read()
    if 'diff.bare' not in out:
        raise Violation('library', 'there is no diff.bare')
    return out


FILES = {}


def lines_of(value):
    """The lines of a text, or of an array of texts."""
    return [line for part in (value if isinstance(value, list) else [value]) for line in re.split('\r?\n', part)]


def check_delta(what, left, right, blocks):
    """The blocks of a difference make up both sides."""
    if not isinstance(blocks, list):
        raise Violation('shape', f'{what}: {blocks!r} for {left!r}, {right!r}')
    for block in blocks:
        if not isinstance(block, dict) or set(block) != {'type', 'lines'} or block['type'] not in ('Identical', 'Add', 'Remove') or \
           not isinstance(block['lines'], list) or not block['lines'] or not all(isinstance(line, str) for line in block['lines']):
            raise Violation('shape', f'{what}: block {block!r} for {left!r}, {right!r}')
    for side, value, drop in (('left', left, 'Add'), ('right', right, 'Remove')):
        got = [line for block in blocks if block['type'] != drop for line in block['lines']]
        if got != lines_of(value):
            raise Violation('reconstruct', f'{what}: the {side} lines are {got!r}, expected {lines_of(value)!r}')
    if left == right and any(block['type'] != 'Identical' for block in blocks):
        raise Violation('identical', f'{what}: {blocks!r} for two times {left!r}')


class Died(Exception):
    """The process could not go on."""


class World(Life):
    def __init__(self, scn, stats):
        super().__init__(scn, stats)
        self.docs = scn['docs']
        self.nodes = {}             # node -> globals of the running process
        self.versions = [self.doc(0)]
        self.replicas = [{'version': 0, 'lines': lines_of(self.versions[0]), 'done': [], 'acked': 0} for _ in range(scn['replicas'])]
        self.inbox = [[] for _ in self.replicas]
        if not FILES:
            FILES.update(library_files())

    whole = False

    def fault(self, kind):
        return None if self.whole else super().fault(kind)

    def doc(self, ix):
        if not isinstance(ix, int) or not 0 <= ix < len(self.docs):
            raise InvalidScenario('document')
        value = self.docs[ix]
        if isinstance(value, list):
            if not all(isinstance(item, str) for item in value):
                raise InvalidScenario('document')
            return list(value)
        if not isinstance(value, str):
            raise InvalidScenario('document')
        return value

    # -- processes

    def fetch(self, request):
        self.wait('fetch')
        fault = self.fault('fetch')
        url = request['url']
        if fault is not None and fault[0] == 'missing':
            return None
        if fault is not None and fault[0] == 'fail':
            raise OSError('gone')
        if not url.startswith(PREFIX) or url[len(PREFIX):] not in FILES:
            raise Violation('include', f'{url!r} is fetched')
        text = FILES[url[len(PREFIX):]]
        self.wait('fetched')
        return text.replace('\n', '\r\n') if fault is not None and fault[0] == 'crlf' else text

    def start_process(self, node):
        bare = import_target()
        how = self.scn['include'].get(node, 'plain')
        globals_ = {}
        for _ in range(40):
            try:
                bare.execute_script(bare.parse_script(INCLUDES[how]), {'globals': globals_, 'fetchFn': self.fetch, 'systemPrefix': PREFIX})
                break
            except bare.BareScriptRuntimeError as exc:
                if not str(exc).startswith('Include of'):
                    raise Violation('library', f'{how}: {exc}') from exc
                self.stats.hit('fault.include_failed')
                if how != 'plain':      # (a file that is half loaded is not loaded again)
                    globals_ = {}
        else:
            raise InvalidScenario('includes')
        bare.execute_script(parsed(SCRIPT), {'globals': globals_})
        return globals_

    def call(self, sid, node, func, *args, limit=None):
        """Call a function in the process of a node."""
        bare = import_target()
        globals_ = self.nodes.get(node)
        if globals_ is None:
            globals_ = self.start_process(node)
            self.nodes[node] = globals_
        names = [f'arg{sid}x{ix}' for ix in range(len(args))]
        for name, arg in zip(names, args):
            globals_[name] = arg
        options = {'globals': globals_}
        if limit is not None:
            options['maxStatements'] = limit
        try:
            return bare.execute_script(bare.parse_script(f'return {func}({", ".join(names)})'), options)
        except bare.BareScriptRuntimeError as exc:
            if limit is None or not str(exc).startswith('Exceeded maximum script statements'):
                raise Violation('error', f'{func} failed: {exc}') from exc
            self.stats.hit('fault.out_of_statements')
            raise Died() from exc

    def differ(self, sid, node, left, right, limit=None):
        copies = [list(value) if isinstance(value, list) else value for value in (left, right)]
        blocks = self.call(sid, node, 'diffLines', *copies, limit=limit)
        if copies != [left, right]:
            raise Violation('changed', f'diffLines changed {[left, right]!r} to {copies!r}')
        check_delta(f'node {node}', left, right, blocks)
        if any(block['lines'] is value for block in blocks for value in copies):
            raise Violation('aliased', 'a block is an argument')
        self.nontrivial = True
        count = len(blocks)
        for block in blocks:
            self.keys.add('block/' + block['type'])
            block['lines'].clear()      # (what the caller does with the result, and with its own arrays, is its own business)
            block.clear()
        blocks.clear()
        for value in copies:
            if isinstance(value, list):
                value.clear()
        return count

    # -- steps

    def do_step(self, sid, step):
        kind, *args = step
        if kind not in STEPS:
            raise InvalidScenario('step')
        try:
            got = getattr(self, 'step_' + kind)(sid, *args)
        except Died:
            got = 'died'
        except Crash:
            self.stats.hit('fault.crash')
            got = 'crash'
        self.hist.append([sid, *step, got])

    def replica(self, number):
        if not isinstance(number, int) or not 0 <= number < len(self.replicas):
            raise InvalidScenario('replica')
        return self.replicas[number]

    def step_commit(self, sid, ix):
        self.versions.append(self.doc(ix))

    def step_crash(self, sid, node):
        self.nodes.pop(node, None)
        self.stats.hit('fault.kill')

    def step_send(self, sid, number, limit=None):
        """The document sends what is new since the version the replica is known to have."""
        base = self.replica(number)['acked']
        head = len(self.versions) - 1
        left, right = self.versions[base], self.versions[head]
        text = self.call(sid, 'main', 'deltaMake', left if not isinstance(left, list) else list(left), right if not isinstance(right, list) else list(right), limit=limit)
        try:
            blocks = json.loads(text)
        except (TypeError, ValueError) as exc:
            raise Violation('shape', f'{text!r}') from exc
        check_delta(f'version {base} to {head}', left, right, blocks)
        self.nontrivial = True
        self.wait('send')
        fault = self.fault('message')
        message = (base, head, text)
        if fault is None or fault[0] == 'dup':
            self.inbox[number].extend([message] * (1 if fault is None else 2))
        elif fault[0] == 'first':       # overtakes the others
            self.inbox[number].insert(0, message)
        elif fault[0] == 'before':
            self.nodes.pop('main', None)
            raise Crash()
        return [base, head, len(blocks)]

    def step_recv(self, sid, number, pick):
        """A replica takes a message."""
        replica = self.replica(number)
        inbox = self.inbox[number]
        if not inbox:
            return None
        base, head, text = inbox.pop(pick % len(inbox))
        if base != replica['version']:
            replica['acked'] = replica['version']
            return 'stale'
        lines = replica['lines']
        got = self.call(sid, f'r{number}', 'deltaApply', list(lines), text, 'Remove')
        if replica['version'] != base or replica['lines'] is not lines:
            return 'overtaken'
        if got != lines_of(self.versions[head]):
            raise Violation('apply', f'replica {number}: {got!r} at version {head}, expected {lines_of(self.versions[head])!r}')
        fault = self.fault('disk')
        if fault is not None and fault[0] == 'before':
            self.nodes.pop(f'r{number}', None)
            raise Crash()
        replica.update(version=head, lines=got, done=[*replica['done'], (base, head, text)])
        if fault is None:
            replica['acked'] = head
        elif fault[0] == 'after':
            self.nodes.pop(f'r{number}', None)
            raise Crash()
        return [base, head]

    def step_undo(self, sid, number):
        """A replica takes the last difference back."""
        replica = self.replica(number)
        if not replica['done']:
            return None
        done = replica['done']
        base, head, text = done[-1]
        got = self.call(sid, f'r{number}', 'deltaApply', list(replica['lines']), text, 'Add')
        if replica['done'] is not done:
            return 'overtaken'
        if got != lines_of(self.versions[base]):
            raise Violation('undo', f'replica {number}: {got!r} at version {base}, expected {lines_of(self.versions[base])!r}')
        replica.update(version=base, lines=got, done=done[:-1], acked=base)
        return [head, base]

    def step_settle(self, sid):
        """The network is whole again: all replicas come to the head within two rounds."""
        self.whole = True
        for number, replica in enumerate(self.replicas):
            for _ in range(2):
                self.step_send(sid, number)
                while self.inbox[number]:
                    self.step_recv(sid, number, 0)
            if replica['version'] != len(self.versions) - 1 and lines_of(self.versions[replica['version']]) != lines_of(self.versions[-1]):
                raise Violation('converge', f'replica {number} is at version {replica["version"]} of {len(self.versions) - 1}')
            if replica['lines'] != lines_of(self.versions[-1]):
                raise Violation('converge', f'replica {number} has {replica["lines"]!r}')

    def step_compare(self, sid, node, ix1, ix2, limit=None):
        left, right = self.doc(ix1), self.doc(ix2)
        there = self.differ(sid, node, left, right, limit=limit)
        self.wait('compare')
        back = self.differ(sid, node, right, left, limit=limit)
        self.differ(sid, node, left, self.doc(ix1), limit=limit)
        self.differ(sid, node, left, right, limit=limit)
        return [there, back]

    def step_joined(self, sid, node, ix, end):
        """The same lines in another form."""
        lines = lines_of(self.doc(ix))
        if not lines or end not in ('\n', '\r\n') or any('\r' in line for line in lines):
            return None
        return self.differ(sid, node, lines, end.join(lines))

    def step_pairs(self, sid, node, pairs):
        """Many small comparisons: a letter is a line."""
        for left, right in pairs:
            self.differ(sid, node, list(left), list(right))
        return len(pairs)

    def step_test(self, sid, ix1, ix2):
        """The difference that unittestDeepEqual asks for."""
        bare = import_target()
        left, right = (text if isinstance(text, str) else '\n'.join(text) for text in (self.doc(ix1), self.doc(ix2)))
        calls = []

        def diff_lines(args, options):
            blocks = shipped(args, options)
            calls.append((*args, blocks))
            return blocks
        try:
            globals_ = {'left': left, 'right': right}
            options = {'globals': globals_, 'fetchFn': self.fetch, 'systemPrefix': PREFIX}
            bare.execute_script(bare.parse_script(INCLUDES['unittest']), options)
        except bare.BareScriptRuntimeError as exc:
            if not str(exc).startswith('Include of'):
                raise Violation('library', f'unittest: {exc}') from exc
            return 'include'
        shipped = globals_['diffLines']
        globals_['diffLines'] = diff_lines
        bare.execute_script(bare.parse_script("function testIt():\n    unittestDeepEqual(left, right)\nendfunction\nunittestRunTest('testIt')\n"), options)
        for value1, value2, blocks in calls:
            check_delta('unittestDeepEqual', value1, value2, blocks)
        return len(calls)

    def step_cli(self, sid, ix1, ix2, include):
        """The shipped command line and its own include fetch."""
        from bare_script import bare  # pylint: disable=import-outside-toplevel

        def literal(value):
            if isinstance(value, list):
                return f'arrayNew({", ".join(map(literal, value))})'
            return f'stringFromCharCode({", ".join(str(ord(char)) for char in value)})' if value else "''"
        left, right = self.doc(ix1), self.doc(ix2)
        argv = ['-c', f"{INCLUDES[include]}systemLog('~' + jsonStringify(diffLines({literal(left)}, {literal(right)})))\n"]
        out = io.StringIO()
        code = None
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                bare.main(argv)
            except SystemExit as exc:
                code = exc.code
        text = out.getvalue()
        if code != 0 or not text.startswith('~') or text.count('\n') != 1:
            raise Violation('cli', f'status {code}, output {text!r}')
        check_delta('the CLI', left, right, json.loads(text[1:]))
        self.nontrivial = True
        return text

    def step_library(self, sid, name, chunks, end):
        """A shipped include script parses, validates and is lint-clean, however it is read."""
        bare = import_target()
        names = sorted(FILES)
        name = names[name % len(names)]
        text = FILES[name]
        if end == '\r\n':
            text = text.replace('\r\n', '\n').replace('\n', '\r\n')
        lines = text.splitlines(True) if chunks else [text]
        source = []
        at = 0
        while at < len(lines):
            count = max(1, chunks[len(source) % len(chunks)]) if chunks else 1
            source.append(''.join(lines[at:at + count]))
            at += count
        try:
            model = bare.parse_script(source if chunks else text)
            self.wait('parsed')
            bare.validate_script(model)
            warnings = bare.lint_script(model)
        except (Violation, InvalidScenario):
            raise
        except Exception as exc:
            raise Violation('library', f'{name}: {exc}') from exc
        if warnings:
            raise Violation('lint', f'{name}: {warnings!r}')
        self.keys.add('library/' + name)
        return name


STEPS = {'commit', 'crash', 'send', 'recv', 'undo', 'settle', 'compare', 'pairs', 'joined', 'test', 'cli', 'library'}


def run(scn, stats):
    if not scn['docs'] or scn['replicas'] > 3 or any(how not in INCLUDES for how in scn['include'].values()):
        raise InvalidScenario('scenario')
    for phase in scn['phases']:
        if len(phase['sessions']) > 1 and any(step[0] == 'cli' for steps in phase['sessions'] for step in steps):
            raise InvalidScenario('the CLI writes to stdout')
        if len(phase['sessions']) > 1 and any(step[0] == 'settle' for steps in phase['sessions'] for step in steps):
            raise InvalidScenario('settling')
    world = World(scn, stats)
    world.run()
    return world.outcome(world.keys)


#
# Generation
#

WORDS = ['a', 'b', 'c', '', 'x y', ' ', '0', '1', '1.0', 'null', '\t', '{', '}', 'é', '\U0001f600', 'end', "it's", '"q"', '\\', 'a.0,', '--- a', '+++ a', '\u2028', 'a\x0bb', 'A', '-0', 'true', '\x00',
         'The line', 'the line of text', 'aB', 'value = 1']


def gen_lines(rng):
    roll = rng.random()
    alphabet = ['a', 'b', 'c'] if roll < 0.55 else rng.sample(WORDS, rng.randrange(2, 9)) if roll < 0.95 else [*WORDS, *(f'line {ix}' for ix in range(20))]
    return [rng.choice(alphabet) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 6, 8, 12, 20]) if rng.random() < 0.97 else 40)]


def near(rng, line):
    """A line that is almost, but not, the same."""
    return rng.choice([line.swapcase(), line + rng.choice([' ', '\t', '0', '.0', 's', '\u0301', '\u200b']), ' ' + line, line.strip(), line[1:], line[:-1], line * 2,
                       line[::-1], line[:-1] + 'z', line[:-1] + line[-1:].swapcase(), line.replace(' ', '  '), f'{line} {line}', line.replace('e', 'é')])


def edited(rng, lines):
    out = list(lines)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        at = rng.randrange(len(out) + 1)
        roll = rng.random()
        if roll < 0.3:
            out.insert(at, rng.choice(out or ['n']) if rng.random() < 0.5 else rng.choice(WORDS))
        elif roll < 0.55:
            del out[at:at + rng.randrange(1, 4)]
        elif roll < 0.7:
            out[at:at + 1] = [near(rng, out[at]) if at < len(out) and rng.random() < 0.6 else rng.choice(WORDS)]
        elif roll < 0.8:        # moved
            part = out[at:at + 2]
            del out[at:at + 2]
            to = rng.randrange(len(out) + 1)
            out[to:to] = part
        elif roll < 0.9:
            out[at:at] = out[at:at + 3]
        else:
            out.reverse()
    return out[:60]


def formed(rng, lines):
    """The lines as a text, an array of lines, or an array of texts."""
    roll = rng.random()
    if roll < 0.3 or not lines:
        return lines
    if roll < 0.8:
        ends = rng.choice([['\n'], ['\r\n'], ['\n', '\r\n']])
        return ''.join(line + (rng.choice(ends) if at + 1 < len(lines) or rng.random() < 0.3 else '') for at, line in enumerate(lines))
    out = []
    at = 0
    while at < len(lines):
        count = rng.randrange(1, 4)
        out.append(rng.choice(['\n', '\r\n']).join(lines[at:at + count]))
        at += count
    return out


def generate(rng, index, tier):
    lines = gen_lines(rng)
    docs = [formed(rng, lines)]
    for _ in range(rng.choice([1, 2, 3, 5])):
        lines = edited(rng, lines) if rng.random() < 0.7 else gen_lines(rng)
        docs.append(formed(rng, lines))
        if rng.random() < 0.2:
            lines = lines_of(rng.choice(docs))
    replicas = rng.choice([1, 1, 2])
    faulty = rng.choice([0, 0.15, 0.35])
    nodes = ['main', *(f'r{number}' for number in range(replicas))]

    def doc():
        return rng.randrange(len(docs))

    def step(alone):
        roll = rng.random()
        number = rng.randrange(replicas)
        if roll < 0.16:
            return ['commit', doc()]
        if roll < 0.34:
            return ['send', number, rng.randrange(5, 400) if rng.random() < faulty * 0.4 else None]
        if roll < 0.54:
            return ['recv', number, rng.choice([0, 0, 0, 1, 2])]
        if roll < 0.61:
            return ['undo', number]
        if roll < 0.66 and faulty:
            return ['crash', rng.choice(nodes)]
        if roll < 0.75:
            letters = 'abc' if rng.random() < 0.8 else 'abcdef'
            return ['pairs', rng.choice(nodes), [[''.join(rng.choice(letters) for _ in range(rng.randrange(7))) for _ in range(2)] for _ in range(12)]]
        if roll < 0.86:
            return ['compare', rng.choice(nodes), doc(), doc(), rng.randrange(5, 600) if rng.random() < faulty * 0.4 else None]
        if roll < 0.9:
            return ['joined', rng.choice(nodes), doc(), rng.choice(['\n', '\r\n'])]
        if roll < 0.94:
            return ['test', doc(), doc()]
        if roll < 0.975 and alone:
            return ['cli', doc(), doc(), rng.choice(list(INCLUDES))]
        return ['library', rng.randrange(50), rng.choice([[], [1], [rng.randrange(1, 9), rng.randrange(1, 40)]]), rng.choice(['\n', '\r\n'])]
    phases = []
    for _ in range(rng.choice([1, 2])):
        count = rng.choice([1, 1, 2, 3])
        phase = {'sessions': [[step(count == 1) for _ in range(rng.randrange(2, 10 if count == 1 else 5))] for _ in range(count)],
                 'schedule': gen_schedule(rng, 50 * count) if count > 1 else []}
        if count > 1 and rng.random() < 0.3:
            phase['preempt'] = [gen_preempts(rng, rng.randrange(1, 6), 6000) for _ in phase['sessions']]
        phases.append(phase)
    if rng.random() < 0.3:      # a crowd of sessions in one process
        count = rng.choice([2, 2, 3])
        node = rng.choice(nodes)
        crowd = []
        for sid in range(count):
            letters = 'abz' if rng.random() < 0.3 else 'abcdef'[2 * sid:2 * sid + 2] + 'z'
            crowd.append([['pairs', node, [[''.join(rng.choice(letters) for _ in range(rng.randrange(2, 6))) for _ in range(2)] for _ in range(rng.randrange(1, 4))]]
                          if rng.random() < 0.7 else ['compare', node, doc(), doc(), None]])
        phases.append({'sessions': crowd, 'schedule': gen_schedule(rng, 50 * count),
                       'preempt': [sorted({rng.randrange(1, 4000) for _ in range(rng.randrange(3, 25))}) for _ in crowd]})
    phases.append({'sessions': [[['settle']]], 'schedule': []})

    def faults(kinds, count):
        return [rng.choice(kinds) if rng.random() < faulty else None for _ in range(count)]
    return {'docs': docs, 'replicas': replicas, 'include': {node: rng.choice(['plain', 'plain', 'twice', 'unittest', 'both']) for node in nodes}, 'phases': phases,
            'latency': latency(rng), 'faults': {'message': faults([['lost'], ['lost'], ['dup'], ['first'], ['first'], ['before']], 8), 'disk': faults([['before'], ['after'], ['unacked']], 8),
                                                'fetch': faults([['missing'], ['fail'], ['crlf']], 12)}}
