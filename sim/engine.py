"""The session engine: executes one JSON scenario against the real code and against the reference, and compares histories.

A scenario owns everything the outside world does: host functions (what the k-th call of each does, returns or raises), the
virtual file/URL space (what the k-th fetch of each location returns), statement budgets, the schedule, latencies.

  models    list of models          one Python object each, shared by every run that uses it
  texts     list of source texts    (optional) runs / resources may name a text instead of a model: {"text": i}; the reference
                                    always interprets models[...]
  globals   list of [[name, enc], ...]   host globals objects
  heap      list of enc             containers shared by the globals objects
  hosts     {name: [behaviour, ...]}     behaviour of the k-th call (per session); the last one repeats
  vfs       {location: [resource, ...]}  resource of the k-th fetch (per session); the last one repeats
  sessions  [{"calls": [call, ...], "preempt": [...]}]
  share     true: the reference runs under the same schedule (sessions may share globals; no line preemption)
  schedule, latency   decision list, per-point simulated delays
"""

import copy
import functools
import io
import os
import posixpath
import re

from .core import InvalidScenario, Scheduler, SimAbort, Violation
from .env import REPO_SRC, import_target
from .ref import WORK, Ref, RefError, RefFail, RefFn
from .reflib import ALIASES, LIB
from .render import render_expr, to_text
from .structured import Direct, check_program, render_program
from .values import canon, decode

TARGET_DIR = os.path.join(os.path.realpath(REPO_SRC), 'bare_script')


class HostError(Exception):
    """An application exception class of the embedding host."""


HOST_ERRORS = {
    'ValueError': ValueError, 'TypeError': TypeError, 'KeyError': KeyError, 'IndexError': IndexError,
    'ZeroDivisionError': ZeroDivisionError, 'OverflowError': OverflowError, 'AttributeError': AttributeError,
    'OSError': OSError, 'FileNotFoundError': FileNotFoundError, 'TimeoutError': TimeoutError, 'RuntimeError': RuntimeError,
    'StopIteration': StopIteration, 'AssertionError': AssertionError, 'NotImplementedError': NotImplementedError,
    'MemoryError': MemoryError, 'RecursionError': RecursionError, 'HostError': HostError, 'EOFError': EOFError,
    'LookupError': LookupError, 'ArithmeticError': ArithmeticError, 'NameError': NameError, 'BufferError': BufferError,
    'Exception': Exception, 'StopAsyncIteration': StopAsyncIteration, 'ConnectionResetError': ConnectionResetError,
    'PermissionError': PermissionError, 'ImportError': ImportError,
}


ERROR_ARGS = {'0': (), '2': (2, 'simulated'), 'o': (Ellipsis,), 'n': (None,), 'b': (b'\xff',), 'x': ('{x} %s %d',), 'u': ('\ud800 \n\r \x00',)}


def host_error(name):
    name, _, form = name.partition('!')
    if form:
        return HOST_ERRORS[name](*ERROR_ARGS[form])
    if name == 'UnicodeDecodeError':
        return UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'simulated')
    if name == 'RegexError':
        return re.error('simulated')
    return HOST_ERRORS[name]('simulated')


ERROR_NAMES = [*HOST_ERRORS, 'UnicodeDecodeError', 'RegexError',
               *[f'{name}!{form}' for name, form in zip(('ValueError', 'TypeError', 'KeyError', 'HostError', 'OSError', 'RuntimeError', 'IndexError'), '0onxbu2')],
               'Exception!0', 'KeyError!0', 'OSError!2', 'StopIteration!0', 'AssertionError!0', 'HostError!0']


#
# Locations
#

URL = re.compile(r'^[a-z]+:')


def norm_location(location):
    """The canonical spelling of a location: two spellings of the same file agree."""
    match = re.match(r'^([a-z]+://[^/]*|[a-z]+:)(.*)$', location, re.DOTALL)
    head, tail = match.groups() if match else ('', location)
    if not tail:
        return head or '.'
    slash = '/' if head and tail.endswith('/') and tail.strip('/') else ''      # (of a URL; a path has none)
    tail = posixpath.normpath(tail)
    if tail.startswith('//'):
        tail = tail[1:]
    return head + tail + slash


def ref_resolve(base, url):
    """Resolve url against the file (or URL) base. The reference for relative resolution."""
    if isinstance(base, dict):
        return base['stub'] + url
    if URL.match(url) or url.startswith('/'):
        return url
    if base is None:
        return url
    directory = base[:base.rindex('/') + 1] if '/' in base else ''
    return directory + url


#
# The two backends
#

SHRINKING = False       # set while minimising: candidates must stay inside the workload


def strip_groups(obj):
    if isinstance(obj, list):
        return [strip_groups(item) for item in obj]
    if isinstance(obj, dict):
        if len(obj) == 1 and 'group' in obj:
            return strip_groups(obj['group'])
        return {key: strip_groups(item) for key, item in obj.items() if not (key == 'args' and not item)}
    return obj


def parsed_numbers(obj):
    """The model as the parser produces it: every number literal is a float."""
    if isinstance(obj, list):
        return [parsed_numbers(item) for item in obj]
    if isinstance(obj, dict):
        return {key: float(item) if key == 'number' else parsed_numbers(item) for key, item in obj.items()}
    return obj


def check_rendered(text, model):
    from bare_script import parse_script  # pylint: disable=import-outside-toplevel
    try:
        parsed = parse_script(text)
    except Exception as exc:
        raise InvalidScenario('rendering') from exc
    if strip_groups(parsed) != strip_groups(model):
        raise InvalidScenario('rendering')


def seam(func):
    """Remember a verdict reached in a host callback, in case the code under test swallows the exception."""
    @functools.wraps(func)
    def wrapper(self, *args):
        if self.pending is not None:
            raise self.pending
        try:
            return func(self, *args)
        except (Violation, InvalidScenario, SimAbort) as exc:
            self.pending = exc
            raise
    return wrapper


class World:
    """State shared by both backends of one scenario execution."""

    def __init__(self, scn, stats, kind):
        self.scn = scn
        self.stats = stats
        self.kind = kind
        self.sessions = [SessionState(ix) for ix in range(len(scn['sessions']))]
        self.inline_sid = 0
        self.pending = None     # a verdict reached inside a seam (the code under test may swallow exceptions there)
        preempts = [entry.get('preempt') for entry in scn['sessions']]
        self.sched = Scheduler(scn.get('schedule', []), stats if kind == 'real' else None, TARGET_DIR)
        self.preempts = preempts
        if not scn.get('share'):
            used = [{call.get('globals') for call in entry['calls']} - {None} for entry in scn['sessions']]
            if sum(map(len, used)) != len(set().union(*used)):
                raise InvalidScenario('sessions share globals without a common schedule')
        for text, expr in scn.get('exprs', {}).items():
            if render_expr(expr) != text:
                raise InvalidScenario('rendering')
        heap = []
        for enc in scn.get('heap', []):
            heap.append(decode(enc, self.fn_of, heap))
        self.globals = [{name: decode(enc, self.fn_of, heap) for name, enc in entries} for entries in scn.get('globals', [[]])]
        self.models = copy.deepcopy(scn.get('models', []))
        self.pristine = copy.deepcopy(scn.get('models', []))
        self.latency = scn.get('latency') or [0]

    def cur(self):
        session = self.sched.current
        return self.sessions[session.sid if session is not None else self.inline_sid]

    def fn_of(self, name):
        raise NotImplementedError

    def point(self, kind):
        state = self.cur()
        state.points += 1
        self.sched.point(kind, self.latency[(state.points + state.sid) % len(self.latency)])

    def event(self, *event):
        state = self.cur()
        state.events.append(list(event))
        if len(state.events) > 5000:
            raise InvalidScenario('event cap')

    def behaviour(self, name):
        """The scripted behaviour of this call of a host function."""
        table = self.scn['hosts'][name]
        state = self.cur()
        occ = state.occ.get(name, 0)
        state.occ[name] = occ + 1
        return table[min(occ, len(table) - 1)] if table else {}

    def resource(self, location):
        table = self.scn.get('vfs', {}).get(norm_location(location))
        if table is None:
            return None
        state = self.cur()
        key = 'fetch ' + norm_location(location)
        occ = state.occ.get(key, 0)
        state.occ[key] = occ + 1
        return table[min(occ, len(table) - 1)]

    def source(self, resource):
        """The text of a resource: its own, or its model rendered."""
        if 'text' in resource:
            return resource['text']
        text = to_text(self.pristine[resource['model']])
        if SHRINKING:
            check_rendered(text, self.pristine[resource['model']])
        return text

    def check_model(self, where):
        if self.scn.get('immutable') and self.models != self.pristine:
            raise Violation('model-modified', f'the executed model was modified ({where})')

    def run(self):
        entries = self.scn['sessions']
        if self.kind == 'ref' and not self.scn.get('share'):
            for sid in range(len(entries)):
                self.inline_sid = sid
                self.run_session(sid)
        else:
            for sid in range(len(entries)):
                self.sched.add(lambda session, sid=sid: self.run_session(sid), self.preempts[sid] if self.kind == 'real' else None)
            self.sched.run()
        if self.pending is not None:
            raise self.pending

    def run_session(self, sid):
        state = self.sessions[sid]
        options = None
        for call in self.scn['sessions'][sid]['calls']:
            if 'edit' in call:
                self.edit(*call['edit'])
            options, outcome = self.run_call(call, options if call.get('reuse') else None)
            state.outcomes.append(outcome)
            self.point('call')

    def edit(self, target, source, *change):
        """The host edits a model in place between runs: [target, source model] or [target, null, change, position, position]."""
        if source is not None:
            self.models[target]['statements'][:] = copy.deepcopy(self.pristine[source]['statements'])
            self.pristine[target]['statements'][:] = copy.deepcopy(self.pristine[source]['statements'])
            return
        kind, deep, one, two = change
        for model in (self.models[target], self.pristine[target]):
            statements = model['statements']
            functions = [statement['function'] for statement in statements if 'function' in statement]
            if deep and functions:
                statements = functions[two % len(functions)]['statements']
            if not statements:
                continue
            one_, two_ = one % len(statements), two % len(statements)
            if kind == 'swap':
                statements[one_], statements[two_] = statements[two_], statements[one_]
            elif kind == 'delete':
                del statements[one_]
            elif kind == 'copy':
                statements.insert(two_, copy.deepcopy(statements[one_]))
            else:
                statements.append(statements.pop(one_))

    def value_args(self, args, encs):
        return [self.dyn(enc, args) for enc in encs]

    def dyn(self, enc, args):
        """An encoded value that may refer to the arguments of the host call."""
        if isinstance(enc, dict) and enc.get('$') == 'arg':
            return args[enc['v']] if enc['v'] < len(args) else None
        return decode(enc, self.fn_of)

    def final_globals(self):
        hidden = self.scn.get('hidden')      # the names the program did not choose, or whose final value is unspecified
        return [canon({name: value for name, value in entry.items()
                       if not self.is_library(name, value) and not (hidden and re.match(hidden, name))}) for entry in self.globals]


class NoGlobals(dict):
    """The globals of an evaluation without options."""

    def __setitem__(self, key, value):
        pass


class SessionState:
    def __init__(self, sid):
        self.sid = sid
        self.events = []
        self.outcomes = []
        self.occ = {}
        self.points = 0
        self.prefix = None


class RealWorld(World):
    """The real code. Nothing of bare_script is stubbed: the host around it is."""

    def __init__(self, scn, stats):
        self.fns = {}
        self.parsed = {}
        import_target()
        from bare_script import runtime, parser, library, value, options as options_  # pylint: disable=import-outside-toplevel
        self.runtime = runtime
        self.parser = parser
        self.library = library
        self.value = value
        self.url_file_relative = options_.url_file_relative
        super().__init__(scn, stats, 'real')

    def is_library(self, name, value):
        return name in self.library.SCRIPT_FUNCTIONS and value is self.library.SCRIPT_FUNCTIONS[name]

    def fn_of(self, name):
        if name not in self.fns:
            if name in self.scn.get('hosts', {}):
                self.fns[name] = lambda args, options: self.host_call(name, args, options)
            else:
                self.fns[name] = self.library.SCRIPT_FUNCTIONS[name]
        return self.fns[name]

    @seam
    def log(self, text):
        self.event('log', text)
        if text.startswith('~'):        # (how many debug lines there are is unspecified)
            self.point('log')
        if self.scn.get('log_faults') and text.startswith('~'):
            state = self.cur()
            occ = state.occ.get('log', 0)
            state.occ['log'] = occ + 1
            if occ in self.scn['log_faults']:
                self.stats.hit('fault.log')
                raise OSError('simulated log failure')

    @seam
    def fetch(self, request):
        location = request['url']
        self.event('fetch', norm_location(location), request.get('body'))
        self.point('fetch')
        resource = self.resource(location)
        if resource is None:
            self.stats.hit('fault.fetch.missing')
            if self.scn.get('missing_raises'):
                raise FileNotFoundError(location)
            return None
        fault = resource.get('fault')
        if fault is not None:
            self.stats.hit('fault.fetch.' + fault)
            if fault == 'none':
                return None
            raise host_error(fault)
        return self.source(resource)

    @seam
    def host_call(self, name, args, options):
        self.event('host', name, canon(args))
        self.check_model(f'at host call {name}')
        self.point('host')
        behaviour = self.behaviour(name)
        error = behaviour.get('raise')
        if error is not None and not behaviour.get('after'):
            self.stats.hit('fault.host.before')
            raise self.make_error(error)
        result = None
        kept = {}
        for action in behaviour.get('do', ()):
            result = self.action(action, args, options, kept)
        if error is not None:
            self.stats.hit('fault.host.after')
            raise self.make_error(error)
        if 'ret' in behaviour:
            return self.dyn(behaviour['ret'], args)
        return result

    def make_error(self, error):
        kind, _, text = error.partition(':')
        if kind == 'BareScriptRuntimeError':
            return self.runtime.BareScriptRuntimeError(text)
        if kind == 'BareScriptParserError':
            return self.parser.BareScriptParserError(text, 'line', 1, 1)
        if kind == 'ValueArgsError':
            return self.value.ValueArgsError('arg', 1, int(text))
        return host_error(kind)

    def action(self, action, args, options, kept=None):
        kind = action[0]
        if kind == 'log':
            self.log(action[1])
        elif kind == 'setg':
            if options is not None:
                options['globals'][action[1]] = self.dyn(action[2], args)
        elif kind == 'delg':
            if options is not None:
                options['globals'].pop(action[1], None)
        elif kind == 'push':
            if action[1] < len(args) and isinstance(args[action[1]], list):
                args[action[1]].append(self.dyn(action[2], args))
        elif kind == 'setkey':
            if action[1] < len(args) and isinstance(args[action[1]], dict):
                args[action[1]][action[2]] = self.dyn(action[3], args)
        elif kind == 'trycall':     # an application that carries on after a failed call
            try:
                return self.action(['call', *action[1:]], args, options, kept)
            except self.runtime.BareScriptRuntimeError as exc:
                self.stats.hit('fault.host.swallow')
                self.event('caught', *self.classify(str(exc)))
        elif kind == 'call':
            target = args[action[1]] if isinstance(action[1], int) and action[1] < len(args) else \
                options['globals'].get(action[1]) if isinstance(action[1], str) else None
            if callable(target):
                call_args = self.value_args(args, action[2])
                if kept is not None and target not in self.library.SCRIPT_FUNCTIONS.values() and target not in self.fns.values():
                    # the host uses one argument list for all its calls (library functions may complete the list they are given)
                    call_args = kept.setdefault(repr(action), call_args)
                result = target(call_args, options)
                self.event('ret', canon(result))
                return result
        elif kind == 'eval':
            self.stats.hit('fault.reenter.eval')
            result = self.runtime.evaluate_expression(self.scn['eval'][action[1]], options, None, bool(action[2]))
            self.event('ret', canon(result))
            return result
        elif kind == 'exec':
            self.stats.hit('fault.reenter.exec')
            call = {'model': action[1], 'limit': action[2], 'globals': None}
            _, outcome = self.run_call(call, None, options['globals'])
            self.event('nested', outcome)
        else:
            raise InvalidScenario(f'action {kind}')
        return None

    def run_call(self, call, options=None, globals_=None):
        if options is None:
            nolog = self.scn.get('nolog')       # (a host that wants no output: no logFn, or a null one)
            options = {} if nolog == 'missing' else {'logFn': None if nolog else self.log}
            if globals_ is not None:
                options['globals'] = globals_
            elif call.get('globals') is not None:
                options['globals'] = self.globals[call['globals']]
            if 'vfs' in self.scn:
                options['fetchFn'] = self.fetch
            if call.get('base') is not None:
                base = call['base']
                if isinstance(base, dict):      # a host with its own resolution scheme
                    options['urlFn'] = lambda url: base['stub'] + url
                else:
                    options['urlFn'] = lambda url: self.url_file_relative(base, url)
            if call.get('prefix') is not None:
                options['systemPrefix'] = call['prefix']
            if call.get('debug'):
                options['debug'] = True
        if call.get('limit') is not None:
            options['maxStatements'] = call['limit']
        else:
            options.pop('maxStatements', None)
        counted = True
        try:
            if 'expr' in call:
                counted = False
                value = self.runtime.evaluate_expression(
                    self.scn['eval'][call['expr']], None if call.get('none') else options,
                    self.locals_of(call), call.get('builtins', True))
            elif 'program' in call:
                value = self.runtime.execute_script(self.program_model(call), options)
            elif 'text' in call:
                value = self.runtime.execute_script(self.parser.parse_script(self.scn['texts'][call['text']]), options)
            else:
                model = self.models[call['model']]
                if call.get('parse'):
                    text = to_text(model)
                    if SHRINKING:
                        check_rendered(text, model)
                    model = self.parser.parse_script(text)
                value = self.runtime.execute_script(copy.deepcopy(model) if call.get('copy') else model, options)
            outcome = ['value', canon(value)]
            if self.scn.get('check_values') and not bare_ok(value):
                raise Violation('not-a-value', f'the result {value!r} is not a BareScript value')
        except (Violation, InvalidScenario, SimAbort):
            raise
        except self.runtime.BareScriptRuntimeError as exc:
            outcome = ['error', *self.classify(str(exc))]
        except self.parser.BareScriptParserError as exc:
            outcome = ['error', 'syntax', str(exc).split('\n', maxsplit=1)[0]]
        except Exception as exc:  # pylint: disable=broad-exception-caught
            raise Violation('escaped-exception', f'{type(exc).__name__}: {str(exc)[:200]} escaped to the embedder') from exc
        if self.scn.get('counts') and counted:
            outcome.append(options.get('statementCount'))
        self.check_model('after the run')
        return options, outcome

    def program_model(self, call):
        """Parse a structured program's text (or use the model parsed before)."""
        key = (call['program'], repr(call.get('style')))
        model = self.parsed.get(key) if call.get('cached') else None
        if model is None:
            text = render_program(self.scn['programs'][call['program']], call.get('style'))
            form = call.get('form')
            if form == 'lines':
                text = text.split('\n')
            elif form == 'file':
                text = io.StringIO(text)
            model = self.parser.parse_script(text, *([call['start']] if call.get('start') else []))
            self.parsed[key] = model
        return model

    def locals_of(self, call):
        entries = call.get('locals')
        return None if entries is None else {name: decode(enc, self.fn_of) for name, enc in entries}

    def classify(self, message):
        for pattern, kind in ERROR_PATTERNS:
            match = pattern.search(message)
            if match:
                return [kind, match.group(1) if match.groups() else '']
        return ['host', message]


ERROR_PATTERNS = [
    (re.compile(r'[Uu]nknown jump label "([^"]*)"'), 'label'),
    (re.compile(r'[Ee]xceeded maximum script statements'), 'budget'),
    (re.compile(r'[Uu]ndefined function "([^"]*)"'), 'undefined'),
    (re.compile(r'[Ii]nclude of "([^"]*)" failed'), 'include'),
    (re.compile(r'[Mm]aximum recursion depth'), 'depth'),
]


def bare_ok(value):
    from .values import is_bare_value  # pylint: disable=import-outside-toplevel
    return is_bare_value(value)


class RefWorld(World):
    """The reference model under the same simulated host."""

    def __init__(self, scn, stats):
        self.fns = {}
        self.library = LIB
        self.lib_fns = {}
        self.chains = set()
        self.exprs = parsed_numbers(scn.get('exprs', {}))
        super().__init__(scn, stats, 'ref')
        WORK[0] = 0

    def is_library(self, name, value):
        return name in self.lib_fns and value is self.lib_fns[name]

    def fn_of(self, name):
        if name in self.scn.get('hosts', {}):
            if name not in self.fns:
                self.fns[name] = RefFn(name, lambda ref, args: self.host_call(name, ref, args))
            return self.fns[name]
        return self.library_fn(name)

    # -- the host interface of Ref --------------------------------------------------------------------------------------

    def library_fn(self, name):
        if name not in self.lib_fns:
            self.lib_fns[name] = RefFn(name, LIB[name])
        return self.lib_fns[name]

    def log(self, text):
        if self.scn.get('nolog'):
            return
        self.event('log', text)
        if text.startswith('~'):        # (how many debug lines there are is unspecified)
            self.point('log')
        if self.scn.get('log_faults') and text.startswith('~'):
            state = self.cur()
            occ = state.occ.get('log', 0)
            state.occ['log'] = occ + 1
            if occ in self.scn['log_faults']:
                raise RefFail(None)

    def debug(self, name):
        self.event('dbg', name)

    def fetch(self, location):
        if 'vfs' not in self.scn:
            raise InvalidScenario('no file space')
        self.event('fetch', norm_location(location), None)
        self.point('fetch')
        resource = self.resource(location)
        return None if resource is None or resource.get('fault') is not None else resource

    def resource_text(self, resource):
        return self.source(resource)

    def resource_model(self, resource):
        self.source(resource)
        return None if resource.get('model') is None else parsed_numbers(self.models[resource['model']])['statements']

    def resolve(self, base, include):
        prefix = self.cur().prefix
        if include.get('system') and prefix is not None:
            return ref_resolve(prefix, include['url'])
        return ref_resolve(base, include['url'])

    # -- host functions ---------------------------------------------------------------------------------------------------

    def host_call(self, name, ref, args):
        self.event('host', name, canon(args))
        self.point('host')
        behaviour = self.behaviour(name)
        error = behaviour.get('raise')
        if error is not None and not behaviour.get('after'):
            raise self.make_error(error)
        result = None
        for action in behaviour.get('do', ()):
            result = self.action(action, args, ref)
        if error is not None:
            raise self.make_error(error)
        if 'ret' in behaviour:
            return self.dyn(behaviour['ret'], args)
        return result

    @staticmethod
    def make_error(error):
        kind, _, text = error.partition(':')
        if kind == 'BareScriptRuntimeError':
            return RefError('host', text)
        if kind == 'ValueArgsError':
            return RefFail(int(text))
        return RefFail(None)

    def action(self, action, args, ref):
        kind = action[0]
        if kind == 'log':
            self.log(action[1])
        elif kind == 'setg':
            ref.globals[action[1]] = self.dyn(action[2], args)
        elif kind == 'delg':
            ref.globals.pop(action[1], None)
        elif kind == 'push':
            if action[1] < len(args) and isinstance(args[action[1]], list):
                args[action[1]].append(self.dyn(action[2], args))
        elif kind == 'setkey':
            if action[1] < len(args) and isinstance(args[action[1]], dict):
                args[action[1]][action[2]] = self.dyn(action[3], args)
        elif kind == 'trycall':
            try:
                return self.action(['call', *action[1:]], args, ref)
            except RefError as exc:
                if exc.kind == 'depth':
                    raise
                self.event('caught', exc.kind, exc.name)
        elif kind == 'call':
            target = args[action[1]] if isinstance(action[1], int) and action[1] < len(args) else \
                ref.globals.get(action[1]) if isinstance(action[1], str) else None
            if isinstance(target, RefFn):
                result = ref.invoke(target, self.value_args(args, action[2]))
                self.event('ret', canon(result))
                return result
        elif kind == 'eval':
            result = ref.evaluate(self.scn['eval'][action[1]], None, bool(action[2]))
            self.event('ret', canon(result))
            return result
        elif kind == 'exec':
            self.depth = getattr(self, 'depth', 0) + 1
            if self.depth > 8:
                raise InvalidScenario('nested runs')
            try:
                _, outcome = self.run_call({'model': action[1], 'limit': action[2], 'globals': None}, None, ref.globals)
            finally:
                self.depth -= 1
            self.event('nested', outcome)
        else:
            raise InvalidScenario(f'action {kind}')
        return None

    def run_call(self, call, options=None, globals_=None):
        if options is None:
            if globals_ is None:
                globals_ = NoGlobals() if call.get('none') else self.globals[call['globals']] if call.get('globals') is not None else {}
            options = {'globals': globals_, 'base': call.get('base'), 'prefix': call.get('prefix'), 'debug': bool(call.get('debug')) and not call.get('none')}
        state = self.cur()
        saved = state.prefix
        state.prefix = options['prefix']
        limit = call['limit'] if call.get('limit') is not None else 1e9
        if 'expr' in call:
            library = self.library
            self.library = {}           # evaluate_expression does not add the library to the globals
        ref = Ref(self, options['globals'], limit, options['base'], options['debug'], None, BUILTINS(self), self.exprs)
        try:
            if 'expr' in call:
                self.library = library
                entries = call.get('locals')
                locals_ = None if entries is None else {name: decode(enc, self.fn_of) for name, enc in entries}
                value = ref.evaluate(self.scn['eval'][call['expr']], locals_, call.get('builtins', True))
            elif 'program' in call:
                program = parsed_numbers(self.scn['programs'][call['program']])
                check_program(program)
                direct = Direct(ref)
                try:
                    value = direct.run(program)
                finally:
                    self.chains |= direct.chains
            else:
                model = self.models[call['model']]
                value = ref.run(parsed_numbers(model) if call.get('parse') else model)
            outcome = ['value', canon(value)]
        except RefError as exc:
            if exc.kind == 'depth':
                raise InvalidScenario('reference depth') from exc
            outcome = ['error', exc.kind, exc.name]
        except RecursionError as exc:
            raise InvalidScenario('reference recursion') from exc
        state.prefix = saved
        if self.scn.get('counts') and 'expr' not in call:
            outcome.append(ref.count)
        return options, outcome


def BUILTINS(world):
    return {alias: world.library_fn(name) for alias, name in ALIASES.items() if name in LIB}


#
# Comparison
#

def same_error(real, ref):
    """Do two error outcomes name the same error?"""
    if real[1] != ref[1]:
        return False
    if real[1] in ('label', 'undefined', 'host'):
        return real[2] == ref[2]
    if real[1] == 'include':
        return norm_location(real[2]) == norm_location(ref[2])
    if real[1] == 'syntax':
        return syntax_names(real[2], ref[2])
    return True


def syntax_names(message, location):
    """Does the message name the location (in any spelling)?"""
    return any(norm_location(text) == norm_location(location) for text in re.findall(r'"([^"]*)"', message)) or location in message


def same_outcome(real, ref, counts):
    if real[0] != ref[0]:
        return False
    if real[0] == 'value':
        if real[1] != ref[1]:
            return False
    elif not same_error(real, ref):
        return False
    # (how far the counter moves on the aborting statement is unspecified)
    return not counts or real[-1] == ref[-1] or (real[0] == 'error' and real[1] == 'budget')


def swallowed(state):
    """Did the host swallow a budget error? (how far the counter moves on an aborting statement is unspecified)"""
    return any(event[:2] == ['caught', 'budget'] for event in state.events)


def filter_events(events, debug_lines, debugs=True):
    out = []
    for event in events:
        if debugs and event[0] == 'log' and not event[1].startswith('~'):
            if debug_lines:
                out.append(['dbg', event[1]])
            continue
        if event[0] == 'dbg' and not debug_lines:
            continue
        out.append(event)
    return out


def match_debug(sid, events, expected):
    """Every failure is reported: the events with the debug lines that report nothing expected removed."""
    out = []
    pos = 0
    for want in expected:
        if want[0] == 'dbg':
            found = next((ix for ix in range(pos, len(events)) if events[ix][0] != 'dbg' or want[1] in events[ix][1]), len(events))
            if found == len(events) or events[found][0] != 'dbg':
                raise Violation('not-reported', f'session {sid}: the failure of {want[1]} was not reported, lines {events[pos:found]!r}')
            out.append(events[found])
            pos = found + 1
        else:
            while pos < len(events) and events[pos][0] == 'dbg':
                pos += 1
            if pos < len(events):
                out.append(events[pos])
                pos += 1
    return out + [event for event in events[pos:] if event[0] != 'dbg']


def same_event(real, ref, counts):
    if real[0] != ref[0]:
        return False
    if real[0] == 'dbg':
        return ref[1] in real[1]
    if real[0] == 'caught':
        return same_error(real, ref)
    if real[0] == 'nested':
        return same_outcome(real[1], ref[1], counts)
    return real == ref


def execute(scn, stats):
    """Run the scenario against both backends. Returns (real, ref); raises Violation on any disagreement."""
    ref = RefWorld(scn, stats)
    ref.run()
    real = RealWorld(scn, stats)
    real.run()
    stats.hit('sim_us', real.sched.now)
    stats.hit('points', real.sched.points)
    stats.hit('switches', real.sched.switches)
    compare_worlds(scn, real, ref)
    return real, ref


def compare_worlds(scn, real, ref):
    counts = bool(scn.get('counts'))
    debugs = any(call.get('debug') for session in scn['sessions'] for call in session['calls'])     # (without, the library logs nothing of its own)
    debug_lines = bool(scn.get('debug_lines')) and not scn.get('nolog')
    for sid, (left, right) in enumerate(zip(real.sessions, ref.sessions)):
        events = filter_events(left.events, debug_lines, debugs)
        expected = filter_events(right.events, debug_lines, debugs)
        if debug_lines:
            events = match_debug(sid, events, expected)
        for ix, (got, want) in enumerate(zip(events, expected)):
            if not same_event(got, want, counts):
                raise Violation('history', f'session {sid} event {ix}: got {got!r}, expected {want!r}')
        if len(events) != len(expected):
            ix = min(len(events), len(expected))
            extra = events[ix] if len(events) > ix else None
            missing = expected[ix] if len(expected) > ix else None
            raise Violation('history', f'session {sid} event {ix}: got {extra!r}, expected {missing!r}')
        for ix, (got, want) in enumerate(zip(left.outcomes, right.outcomes)):
            if not same_outcome(got, want, counts and not swallowed(right)):
                raise Violation('outcome', f'session {sid} call {ix}: got {got!r}, expected {want!r}')
        if len(left.outcomes) != len(right.outcomes):
            raise Violation('outcome', f'session {sid}: {len(left.outcomes)} outcomes, expected {len(right.outcomes)}')
    got = real.final_globals()
    want = ref.final_globals()
    if got != want:
        raise Violation('globals', f'final globals: got {got!r}, expected {want!r}')


def history(world):
    return [[state.events, state.outcomes] for state in world.sessions]


