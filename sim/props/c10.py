"""C10: source layout does not change the parsed program."""

import glob
import io
import os

from .. import gen
from ..core import InvalidScenario, Scheduler, Violation, gen_preempts, gen_schedule
from ..engine import TARGET_DIR, host_error, import_target
from ..env import REPO_SRC
from ..source import BLANKS, COMMENTS, SourceGen, gaps_ok, layout_line

ID = 'C10'
RUNS = {'quick': 16000, 'thorough': 300000}
RULE = ('seeded layouts (line ends, chunking by up to 6 cuts and per-line readers, blank and comment lines, indentation, trailing white space, '
        'continuations at token gaps) of generated and shipped programs, parsed by 1-3 preempted sessions with failing readers in between and '
        'returned models overwritten; non-trivial: at least one continuation, inserted line or cut (distinct by program and layout)')
REAL = ['bare_script.parser']
STUB = ['input readers: scripted chunk sequences that may fail', 'thread scheduler: baton scheduler over real threads']
ASSUMPTIONS = ['The canonical layout (one statement per line, single spaces) is the baseline of every comparison',
               'CPython with the GIL: preemption is explored at source-line granularity inside bare_script']

SHIPPED = []


def shipped():
    """Logical lines of the .bare scripts in the repository."""
    if not SHIPPED:
        root = os.path.dirname(os.path.realpath(REPO_SRC)) if os.path.exists(os.path.join(os.path.dirname(os.path.realpath(REPO_SRC)), 'README.md')) else '/repo'
        paths = sorted(path for pattern in ('src/**/*.bare', 'perf/*.bare', 'static/**/*.bare', '*.bare')
                       for path in glob.glob(os.path.join(root, pattern), recursive=True))
        for path in paths:
            with open(path, encoding='utf-8') as fh:
                text = fh.read()
            statements = tokenize_text(text)
            if statements:
                SHIPPED.append(statements)
        SHIPPED.append([])      # (none found: an empty program)
    return SHIPPED


def tokenize_text(text):
    """Split a well-formed source text into statements of tokens: the pieces between white space outside strings and brackets."""
    statements = []
    pending = []
    for line in text.replace('\r\n', '\n').split('\n'):
        stripped = line.strip()
        if not stripped or stripped.startswith('#'):
            continue
        more = stripped.endswith('\\')
        pending.append(stripped[:-1].strip() if more else stripped)
        if more:
            continue
        tokens = pieces(' '.join(pending))
        pending = []
        statements.append({'kind': 'shipped', 'tokens': tokens, 'req': list(range(1, len(tokens))), 'expr': None})
    return statements


def pieces(text):
    out = ['']
    at = 0
    while at < len(text):
        char = text[at]
        if char in '\'"[':
            close = {'[': ']'}.get(char, char)
            end = at + 1
            while end < len(text) and text[end] != close:
                end += 2 if text[end] == '\\' else 1
            out[-1] += text[at:end + 1]
            at = end + 1
        elif char.isspace():
            if out[-1]:
                out.append('')
            at += 1
        else:
            out[-1] += char
            at += 1
    return [piece for piece in out if piece]


def lay_out(rng, statements):
    """A random layout: [line, ...]."""
    style = rng.choice(['plain', 'mild', 'wild'])
    blank = {'plain': 0, 'mild': 0.1, 'wild': 0.3}[style]
    split = {'plain': rng.choice([0, 0.05]), 'mild': 0.05, 'wild': rng.choice([0.15, 0.6, 1.0])}[style]
    indents = rng.choice([[''], ['    '], ['\t'], ['', '  ', '\t', '        ']])
    gaps = rng.choice([[' '], ['', ' '], ['', ' ', '  ', '\t', ' \t'], ['']])

    def inside():
        lines = []
        while rng.random() < blank:
            lines.append(rng.choice(BLANKS) if rng.random() < 0.4 else rng.choice(COMMENTS))
        return lines

    out = []
    for stmt in statements:
        out.extend(inside())
        single = 'shipped' == stmt['kind']
        out.extend(layout_line(rng, stmt, lambda: rng.choice(indents), (lambda: ' ') if single else (lambda: rng.choice(gaps)),
                               lambda at: rng.random() < split, inside, lambda: rng.random() < split))
    out.extend(inside())
    return out


def chunked(rng, lines):
    """How the text reaches the parser: {"form", "chunks"}."""
    ends = rng.choice([['\n'], ['\r\n'], ['\n', '\r\n']])
    form = rng.choice(['str', 'str', 'list', 'generator', 'tuple', 'lines', 'file'])
    if form == 'str':
        text = ''
        for at, line in enumerate(lines):
            text += line + (rng.choice(ends) if at < len(lines) - 1 or rng.random() < 0.5 else '')
        return {'form': form, 'chunks': [text]}
    if form in ('lines', 'file'):
        return {'form': form, 'chunks': [line + (rng.choice(ends) if rng.random() < 0.97 or form == 'file' else '') for line in lines]}
    cuts = sorted(rng.randrange(len(lines) + 1) for _ in range(rng.randrange(7)))
    chunks = []
    for begin, end in zip([0, *cuts], [*cuts, len(lines)]):
        part = lines[begin:end]
        text = ''
        for at, line in enumerate(part):
            last = at == len(part) - 1
            text += line + (rng.choice(ends) if not last or rng.random() < 0.3 else '')
        if part or rng.random() < 0.2:
            chunks.append(text)
    return {'form': form, 'chunks': chunks}


def generate(rng, index, tier):
    programs = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        if rng.random() < 0.08:
            statements = rng.choice(shipped())
            if len(statements) > 80:
                begin = rng.randrange(len(statements) - 60)
                statements = statements if rng.random() < 0.1 else sub_program(statements, begin)
        else:
            statements = SourceGen(rng).program(rng.choice([1, 2, 4, 8, 15]))
        programs.append(statements)
    sessions = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        jobs = []
        for _ in range(rng.randrange(1, 4)):
            program = rng.randrange(len(programs))
            source = chunked(rng, lay_out(rng, programs[program]))
            job = {'program': program, 'source': source}
            if rng.random() < 0.15 and source['form'] != 'str':
                job['fail_at'] = rng.randrange(len(source['chunks']) + 1)
                job['error'] = gen.error_class(rng)
            elif rng.random() < 0.15:
                job['spoil'] = rng.choice(['endif', 'a = (', 'if x:', 'function f(', "b = 'x", '@', 'c = 1 \\'])
            if rng.random() < 0.4:
                job['overwrite'] = True
            if rng.random() < 0.3:
                job['line'] = rng.choice([2, 7, 100])
            jobs.append(job)
        sessions.append({'jobs': jobs, 'preempt': gen_preempts(rng, rng.randrange(1, 12), 6000)})
    return {'programs': [[[stmt['tokens'], stmt['req']] for stmt in statements] for statements in programs], 'sessions': sessions,
            'expressions': [[SourceGen(rng).expr(3), rng.random() < 0.5] for _ in range(rng.randrange(3))],
            'schedule': gen_schedule(rng, 80)}


def sub_program(statements, begin):
    """A balanced piece of a shipped script: the functions that begin at or after begin."""
    out = []
    inside = False
    for stmt in statements[begin:]:
        if stmt['tokens'][0] in ('function', 'async'):
            inside = True
        if inside:
            out.append(stmt)
        if stmt['tokens'] == ['endfunction']:
            inside = False
            if len(out) > 40:
                break
    return out if not inside else []


def frozen(obj):
    """A comparable form that tells 1, 1.0 and true apart, and ignores the order of keys."""
    if isinstance(obj, dict):
        return ('dict', tuple(sorted((key, frozen(item)) for key, item in obj.items())))
    if isinstance(obj, list):
        return ('list', tuple(frozen(item) for item in obj))
    return (type(obj).__name__, obj)


def overwrite(obj):
    """A host that modifies the model it was given."""
    if isinstance(obj, list):
        for item in obj:
            overwrite(item)
        obj.append({'label': 'overwritten'})
    elif isinstance(obj, dict):
        for key in list(obj):
            overwrite(obj[key])
        obj['overwritten'] = True


class Reader:
    """An input reader: chunks, one at a time; may fail."""

    def __init__(self, source, fail_at, error, point):
        self.source = source
        self.fail_at = fail_at
        self.error = error
        self.point = point

    def __iter__(self):
        for at, chunk in enumerate(self.source['chunks']):
            if at == self.fail_at:
                raise self.error
            self.point('read')
            yield chunk
        if self.fail_at == len(self.source['chunks']):
            raise self.error

    def value(self):
        chunks = self.source['chunks']
        form = self.source['form']
        if self.fail_at is not None or form == 'generator':
            return iter(self)
        if form == 'str':
            return chunks[0]
        if form == 'tuple':
            return tuple(chunks)
        if form == 'file':
            return io.StringIO(''.join(chunks), newline='\n')
        return list(chunks)


def run(scn, stats):
    import_target()
    from bare_script import BareScriptParserError, parse_expression, parse_script  # pylint: disable=import-outside-toplevel
    sched = Scheduler(scn['schedule'], stats, TARGET_DIR)
    bases = []
    for program in scn['programs']:
        lines = [' '.join(tokens) for tokens, _ in program]
        outcomes = []
        for source in ('\n'.join(lines), lines):
            try:
                outcomes.append((parse_script(source), None))
            except BareScriptParserError as exc:
                outcomes.append((None, exc))
        if [exc for _, exc in outcomes if exc is not None]:
            if outcomes[0][0] is not None or outcomes[1][0] is not None:
                raise Violation('layout', 'as one string: {}; as a list of lines: {}'.format(*('a model' if exc is None else repr(str(exc))[:300] for _, exc in outcomes)))
            raise InvalidScenario('baseline')
        bases.append(outcomes[0][0])
    pristine = [frozen(base) for base in bases]
    hist = [[] for _ in scn['sessions']]

    def session_body(sid):
        for job in scn['sessions'][sid]['jobs']:
            program = job['program']
            source = job['source']
            check_source(source, scn['programs'][program])
            if 'spoil' in job:      # a parse that fails (or not) in between
                stats.hit('fault.syntax')
                try:
                    parse_script([*source['chunks'], job['spoil']])
                except BareScriptParserError:
                    pass
            if 'fail_at' in job:
                error = host_error(job['error'])
                stats.hit('fault.reader')
                try:
                    model = parse_script(Reader(source, job['fail_at'], error, sched.point).value())
                except Exception as exc:  # pylint: disable=broad-exception-caught
                    if exc is not error and not isinstance(exc, RuntimeError):
                        raise
                else:
                    raise Violation('reader-error-lost', f'a reader that failed ({job["error"]}) gave a model of {len(model["statements"])} statements')
            model = parse_script(Reader(source, None, None, sched.point).value(), *([job['line']] if 'line' in job else []))
            if frozen(model) != pristine[program]:
                raise Violation('layout', f'session {sid}: {describe(source)} gave {brief(model, bases[program])}')
            hist[sid].append([program, source['form'], len(source['chunks'])])
            if job.get('overwrite'):
                overwrite(model)
                again = parse_script(Reader(source, None, None, sched.point).value())
                if frozen(again) != pristine[program]:
                    raise Violation('state', f'session {sid}: parsing again after the host modified the first model gave {brief(again, bases[program])}')

    for sid, entry in enumerate(scn['sessions']):
        sched.add(lambda session, sid=sid: session_body(sid), entry['preempt'] if len(scn['sessions']) > 1 else None)
    sched.run()
    for program, base in enumerate(bases):
        if frozen(base) != pristine[program]:
            raise Violation('state', 'a model returned earlier was modified by a later parse')
        overwrite(base)
        again = parse_script('\n'.join(' '.join(tokens) for tokens, _ in scn['programs'][program]))
        if frozen(again) != pristine[program]:
            raise Violation('state', f'parsing again gave {brief(again, base)}')
    for tokens, tight in scn['expressions']:
        one = ' '.join(tokens)
        two = tokens[0] + ''.join(('' if tight and gaps_ok(left, right) else '  ') + right for left, right in zip(tokens, tokens[1:]))
        first = parse_expression(one)
        before = frozen(first)
        overwrite(first)
        for text in (one, two, ' ' + two + '\t'):
            got = parse_expression(text)
            if frozen(got) != before:
                raise Violation('expression', f'{text!r} parses differently from {one!r}: {got!r}')
        hist.append([one])
    stats.hit('points', sched.points)
    stats.hit('switches', sched.switches)
    layouts = [job['source']['chunks'] for entry in scn['sessions'] for job in entry['jobs']]
    for chunks in layouts:
        text = '\n'.join(chunks)
        for name, holds in (('crlf', '\r\n' in text), ('continuation', '\\\n' in text or '\\\r\n' in text), ('cut', len(chunks) > 1)):
            if holds:
                stats.hit('fault.layout.' + name)
    plain_text = all(len(chunks) == 1 and '\\' not in chunks[0] and '#' not in chunks[0] for chunks in layouts)
    return {'history': [hist, layouts, scn['programs']], 'keys': [f'{len(scn["sessions"])} sessions/{job["source"]["form"]}'
                                                                 for entry in scn['sessions'] for job in entry['jobs']],
            'nontrivial': None if plain_text else layouts}


def check_source(source, program):
    """While minimising, keep the layout a layout of the program."""
    if not isinstance(source.get('chunks'), list) or source.get('form') == 'str' and len(source['chunks']) != 1:
        raise InvalidScenario('source')
    text = '\n'.join(source['chunks']).replace('\r\n', '\n')
    squeezed = ''
    for line in text.split('\n'):
        stripped = line.strip()
        if stripped and not stripped.startswith('#'):
            squeezed += stripped[:-1] if stripped.endswith('\\') else stripped + '\n'
    want = ''.join(''.join(tokens) + '\n' for tokens, _ in program)
    if ''.join(squeezed.split(' ')).replace('\t', '') != ''.join(want.split(' ')).replace('\t', ''):
        raise InvalidScenario('the layout is not one of the program')
    for line in text.split('\n'):
        if line.strip().endswith('\\') and not line.strip().startswith('#'):
            break
    # (mandatory gaps survive because the minimiser only removes whole lines and chunks)


def describe(source):
    return f'a layout as {source["form"]} of {len(source["chunks"])} chunks, {str(source["chunks"])[:300]},'


def brief(model, base):
    got = model.get('statements', [])
    want = base['statements']
    for at, (left, right) in enumerate(zip(got, want)):
        if frozen(left) != frozen(right):
            return f'statement {at}: {str(left)[:200]} instead of {str(right)[:200]}'
    return f'{len(got)} statements instead of {len(want)}'


