"""C01: structured control flow runs with its source-level meaning."""

import copy

from .. import gen
from ..core import InvalidScenario, gen_preempts, gen_schedule
from ..engine import execute, history
from .common import ASSUME, REAL_ALL, STUB_HOST, event_count, latency, outcome_kinds

ID = 'C01'
RUNS = {'quick': 24000, 'thorough': 600000}
RULE = ('seeded structured programs (if/elif/else, while, for with optional index, break, continue, return, up to 3 functions, nested to depth 5), '
        'parsed from text and run by 1-3 preempted sessions; the simulated host decides each condition, array and value at the moment it is asked for, '
        'fails, or stops the run, after which the session runs again on the same globals; non-trivial: at least 3 host-visible events and a loop or '
        'chain executed (distinct by history)')
REAL = REAL_ALL
STUB = STUB_HOST
ASSUMPTIONS = [*ASSUME, 'The direct reading of structured statements in /verif/sim/structured.py',
               'The final value of a loop index variable, and the length of an array changed while it is walked, are unspecified']

VARS = ['x', 'y', 'z', 'arr']
# Constructs start with these words; variables may too
ODD_VARS = ['ifx', 'elsewhere', 'forx', 'whilex', 'breaker', 'continued', 'returned', 'endifs', 'inn', 'functions', 'i_f', '_else', 'elifs']


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.tag = 0
        self.index = 0
        self.functions = []
        self.vars = VARS if rng.random() < 0.75 else [*VARS, *rng.sample(ODD_VARS, 3)]
        self.budget = rng.choice([6, 12, 12, 25, 40])
        self.depth = rng.choice([1, 2, 3, 3, 4, 5])
        self.style = rng.choice(['host', 'host', 'mixed', 'vars'])

    def next_tag(self):
        self.tag += 1
        return gen.num(self.tag)

    def value(self, depth=2, indexes=()):
        rng = self.rng
        roll = rng.random()
        if depth <= 0 or roll < 0.45:
            return rng.choice([gen.num(rng.randrange(0, 4)), gen.string(rng.choice(['', 'a', 'b:', 'in', '#'])), gen.var(rng.choice(self.vars)),
                               gen.var(rng.choice(self.vars)), gen.var(rng.choice([*indexes, 'null', 'true', 'false']))])
        if roll < 0.6:
            return gen.call('hV', self.next_tag())
        if roll < 0.7:
            return gen.binary(rng.choice(['+', '<', '==', '-', '*']), gen.var(rng.choice([*self.vars, *indexes])), gen.num(rng.randrange(0, 4)))
        if roll < 0.78:
            return gen.call('arrayNew', *[self.value(0, indexes) for _ in range(rng.randrange(4))])
        if roll < 0.84:
            return gen.unary('!', self.value(depth - 1, indexes))
        if roll < 0.9:
            return gen.binary(rng.choice(['&&', '||']), self.value(depth - 1, indexes), self.value(depth - 1, indexes))
        return gen.call('if', self.value(depth - 1, indexes), self.value(depth - 1, indexes), self.value(depth - 1, indexes))

    def cond(self, indexes=()):
        expr = self.bare_cond(indexes)
        return gen.group(expr) if self.rng.random() < 0.2 else expr

    def bare_cond(self, indexes):
        rng = self.rng
        roll = rng.random()
        if roll < {'host': 0.8, 'mixed': 0.5, 'vars': 0.3}[self.style]:
            return gen.call('hJ', self.next_tag())
        if roll < 0.85:
            return rng.choice([
                gen.var(rng.choice(self.vars)), gen.unary('!', gen.var(rng.choice(self.vars))),
                gen.binary(rng.choice(['<', '>=', '==', '!=']), gen.var(rng.choice([*self.vars, *indexes])), gen.num(rng.randrange(4))),
                gen.binary('&&', gen.call('hJ', self.next_tag()), gen.var(rng.choice(self.vars))),
                gen.unary('!', gen.group(gen.binary(rng.choice(['<', '<=', '>', '>=', '==', '!=', '&&', '||']), gen.var(rng.choice([*self.vars, *indexes])),
                                                    rng.choice([gen.num(rng.randrange(4)), gen.var(rng.choice(self.vars))])))),
                gen.var('true'), gen.var('false')])
        return self.value(2, indexes)

    def array(self, indexes=()):
        rng = self.rng
        roll = rng.random()
        if roll < 0.4:
            return gen.call('hA', self.next_tag())
        if roll < 0.6:
            return gen.call('arrayNew', *[self.value(1, indexes) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))])
        if roll < 0.85:
            return gen.var(rng.choice(['arr', 'arr', rng.choice(self.vars)]))
        return self.value(1, indexes)

    def log(self, indexes=()):
        rng = self.rng
        if rng.random() < 0.2:
            return {'log': gen.call('systemLog', gen.binary('+', gen.string(f'~{self.next_tag()["number"]} '), gen.call('systemType', gen.var(rng.choice(self.vars)))))}
        args = [gen.var(rng.choice([*self.vars, *indexes, *indexes])) for _ in range(rng.choice([0, 1, 2]))]
        return {'log': gen.call('hL', self.next_tag(), *args)}

    def beat(self, indexes):
        """A host event: the host ends the run after finitely many of them."""
        return {'log': gen.call('hL', self.next_tag(), *[gen.var(name) for name in indexes[-1:]])}

    def block(self, level, loop, function, indexes, least=0):
        rng = self.rng
        out = []
        for _ in range(rng.choice([least, 1, 1, 2, 2, 3, 4])):
            out.append(self.statement(level, loop, function, indexes))
        return out

    def statement(self, level, loop, function, indexes):
        rng = self.rng
        roll = rng.random()
        self.budget -= 1
        if self.budget < 0 or level <= 0:
            roll = roll * 0.55 if roll < 0.85 else roll
            if 0.55 <= roll < 0.85:
                roll = 0.1
        if roll < 0.2:
            return self.log(indexes)
        if roll < 0.34:
            return {'set': rng.choice(self.vars), 'expr': self.value(2, indexes)}
        if roll < 0.39:
            if self.functions:
                return self.call(function, indexes)
            return self.log(indexes)
        if roll < 0.5:
            if loop:
                return {'break': 1} if rng.random() < 0.45 else {'continue': 1}
            return self.log(indexes)
        if roll < 0.55:
            if function or rng.random() < 0.25:
                return {'return': self.value(2, indexes) if rng.random() < 0.75 else None}
            return self.log(indexes)
        if roll < 0.7:
            chain = [[self.cond(indexes), self.block(level - 1, loop, function, indexes)] for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4]))]
            out = {'if': chain}
            if rng.random() < 0.5:
                out['else'] = self.block(level - 1, loop, function, indexes)
            return out
        if roll < 0.78:
            if rng.random() < 0.35:
                return self.drained(level, function, indexes)
            if rng.random() < 0.3:
                return {'if': [[gen.var('true'), self.counted(level, function, indexes)]]}
            cond = self.cond(indexes)
            return {'while': cond, 'do': [self.beat(indexes), *self.block(level - 1, True, function, indexes)]}
        if roll < 0.86:
            out = {'for': rng.choice(self.vars), 'in': self.array(indexes)}
            inner = indexes
            if rng.random() < 0.5:
                self.index += 1
                out['index'] = f'ix{self.index}'
                inner = (*indexes, out['index'])
            out['do'] = [self.beat(inner), *self.block(level - 1, True, function, inner)] if rng.random() < 0.9 else self.block(level - 1, True, function, inner)
            return out
        if roll < 0.92 and not function:
            return self.function(level)
        if self.functions:
            return self.call(function, indexes)
        return self.log(indexes)

    def drained(self, level, function, indexes):
        """A while loop over a variable that its own body makes falsy, sooner or later."""
        rng = self.rng
        name = rng.choice(self.vars)
        var = gen.var(name)
        limit = rng.choice([0, 1, 1, 2])
        cond = rng.choice([var, var, gen.unary('!', gen.unary('!', var)), gen.binary('!=', var, gen.num(0)), gen.binary('>', var, gen.num(0)),
                           gen.binary('&&', var, gen.call('hJ', self.next_tag())), gen.call('if', var, var),
                           *[gen.unary('!', gen.group(gen.binary(rng.choice(['<', '<=', '==', '>', '>=', '!=']), var, gen.num(limit))))] * 2])
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            cond = gen.group(cond)
        step = rng.choice([gen.binary('-', var, gen.num(1)), gen.binary('-', var, gen.num(1)), gen.call('hJ', self.next_tag()), gen.call('hV', self.next_tag()),
                           gen.num(limit), gen.num(limit), gen.num(0), gen.string(''), gen.var('null'), gen.var('false'), gen.call('arrayNew')])
        body = [self.beat(indexes), *self.block(level - 1, True, function, indexes)]
        body.insert(rng.randrange(1, len(body) + 1), {'set': name, 'expr': step})
        return {'while': cond, 'do': body}

    def counted(self, level, function, indexes):
        """A variable, and a while loop that counts it to or past a limit."""
        rng = self.rng
        name = rng.choice(self.vars)
        start = rng.randrange(-1, 4)
        step, limit = rng.choice([(1, start + rng.randrange(4)), (-1, start - rng.randrange(4))])
        sides = [gen.var(name), gen.num(limit) if limit >= 0 else gen.unary('-', gen.num(-limit))]
        if rng.random() < 0.3:
            sides.reverse()
        cond = gen.binary(rng.choice(['<', '<=', '!=', '>', '>=', '==']), *sides)
        if rng.random() < 0.6:
            cond = gen.unary('!', gen.group(cond))
        for _ in range(rng.choice([0, 0, 1, 2])):
            cond = gen.group(cond)
        if rng.random() < 0.2:
            cond = gen.binary(rng.choice(['&&', '||']), cond, gen.call('hJ', self.next_tag()))
        body = [self.beat(indexes), *self.block(level - 1, True, function, indexes)]
        body.insert(rng.randrange(1, len(body) + 1), {'set': name, 'expr': gen.binary('+' if step > 0 else '-', gen.var(name), gen.num(1))})
        return [{'set': name, 'expr': gen.num(start) if start >= 0 else gen.unary('-', gen.num(1))}, {'while': cond, 'do': body}]

    def call(self, function, indexes):
        rng = self.rng
        expr = gen.call(rng.choice(self.functions), *[self.value(1, indexes) for _ in range(rng.randrange(4))])
        if function:        # (recursion is guarded by a finite host decision)
            expr = gen.call('if', gen.call('hR', self.next_tag()), expr)
        return {'set': rng.choice(self.vars), 'expr': expr} if rng.random() < 0.6 else {'log': gen.call('hL', self.next_tag(), expr)}

    def function(self, level):
        rng = self.rng
        name = rng.choice(['fA', 'fB', 'fC'])
        if name not in self.functions:
            self.functions.append(name)
        args = rng.choice([[], ['x'], ['x', 'y'], ['z'], [rng.choice(self.vars), 'p']])
        args = list(dict.fromkeys(args))
        body = [self.beat(()), *self.block(max(level - 1, rng.choice([0, 1, 2, 3])), False, True, ())]
        out = {'function': name, 'args': args, 'do': body}
        if args and rng.random() < 0.25:
            out['last'] = True
        if rng.random() < 0.1:
            out['async'] = True
        return out

    def program(self):
        rng = self.rng
        out = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            out.append(self.function(self.depth))
        for _ in range(rng.choice([1, 2, 3, 4])):
            self.budget = max(self.budget, 4)
            out.append(self.statement(self.depth, False, False, ()))
        out.append(self.beat(()))
        if rng.random() < 0.3:
            out.append({'return': self.value(1)})
        return out


SEVEN = ['if', 'elif', 'else', 'while', 'for', 'break', 'continue', 'return']


def shape(rng, index):
    """The index-th nesting of the constructs to depth 3, with host events everywhere."""
    gen_ = Gen(rng)
    gen_.functions = []
    gen_.style = 'host'

    def build(path, loop, function, indexes):
        kind = path[0] if path else None
        before, after = [gen_.beat(indexes)], [gen_.beat(indexes)]
        if kind is None:
            return before
        inner = indexes
        if kind in ('break', 'continue', 'return') and rng.random() < 0.35 and (loop or kind == 'return') and len(path) == 1:
            return [*before, {kind: gen_.value(1, indexes) if kind == 'return' else 1}, *([] if rng.random() < 0.7 else after)]
        if kind in ('break', 'continue'):
            if not loop:
                return [*before, *build(path[1:], loop, function, indexes), *after]
            return [*before, {'if': [[gen_.cond(indexes), [{kind: 1}]]]}, *build(path[1:], loop, function, indexes), *after]
        if kind == 'return':
            return [*before, {'if': [[gen_.cond(indexes), [{'return': gen_.value(1, indexes)}]]]}, *build(path[1:], loop, function, indexes), *after]
        if kind == 'if':
            return [*before, {'if': [[gen_.cond(indexes), build(path[1:], loop, function, indexes)]]}, *after]
        if kind == 'elif':
            return [*before, {'if': [[gen_.cond(indexes), [gen_.beat(indexes)]], [gen_.cond(indexes), build(path[1:], loop, function, indexes)]],
                              'else': [gen_.beat(indexes)]}, *after]
        if kind == 'else':
            return [*before, {'if': [[gen_.cond(indexes), [gen_.beat(indexes)]]], 'else': build(path[1:], loop, function, indexes)}, *after]
        if kind == 'while':
            if rng.random() < 0.15:
                loop = gen_.drained(1, function, indexes)
                loop['do'] += build(path[1:], True, function, indexes)
                return [*before, loop, *after]
            if rng.random() < 0.15:
                start, loop = gen_.counted(1, function, indexes)
                loop['do'] += build(path[1:], True, function, indexes)
                return [*before, start, loop, *after]
            return [*before, {'while': gen_.cond(indexes), 'do': build(path[1:], True, function, indexes)}, *after]
        out = {'for': rng.choice(VARS), 'in': gen_.array(indexes)}
        if rng.random() < 0.5:
            gen_.index += 1
            out['index'] = f'ix{gen_.index}'
            inner = (*indexes, out['index'])
        out['do'] = build(path[1:], True, function, inner)
        return [*before, out, *after]

    path = []
    if rng.random() < 0.5:
        while len(path) < 3:
            path.append(SEVEN[index % len(SEVEN)])
            index //= len(SEVEN)
    else:
        kinds = rng.choice([SEVEN, ['if', 'elif', 'else', 'for'], ['if', 'for'], ['while', 'for', 'if'], ['for']])
        path = [*[rng.choice(['while', 'for']) for _ in range(rng.randrange(3))], *[rng.choice(kinds) for _ in range(rng.randrange(3, 6))]]
    if rng.random() < 0.6:
        path.append(rng.choice(['break', 'continue', 'return']))
    if rng.random() < 0.5:
        return build(path, False, False, ())
    return [{'function': 'fA', 'args': ['x'], 'do': build(path, False, True, ())},
            {'set': 'y', 'expr': gen.call('fA', gen_.value(1))}, {'set': 'z', 'expr': gen.call('fA', gen_.value(1))}, gen_.beat(())]


def edited(rng, program):
    """The program after a small edit: two neighbouring statements of a block exchanged."""
    out = copy.deepcopy(program)
    blocks = []

    def collect(block):
        if len(block) > 1:
            blocks.append(block)
        for statement in block:
            for _, body in statement.get('if', []):
                collect(body)
            collect(statement.get('else', []))
            collect(statement.get('do', []))

    collect(out)
    for _ in range(rng.choice([1, 1, 2])):
        if blocks:
            block = rng.choice(blocks)
            at = rng.randrange(len(block) - 1)
            block[at], block[at + 1] = block[at + 1], block[at]
    return out


ALL = ('null', 'bool', 'num', 'str', 'arr', 'obj', 'dt', 're', 'fn')


def host_array(rng):
    if rng.random() < 0.8:
        return [gen.enc_value(rng, 1, ('hV',), ALL) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5]))]
    return gen.enc_value(rng, 1, ('hV',), ALL)


def generate(rng, index, tier):
    programs = []
    for number in range(rng.choice([1, 1, 2, 2])):
        if number == 1 and rng.random() < 0.6:
            programs.append(edited(rng, programs[0]))
        elif number == 0 and rng.random() < 0.4:
            programs.append(shape(rng, index))
        else:
            programs.append(Gen(rng).program())
    count = rng.choice([1, 1, 1, 2, 2, 3])
    base = [[name, {'$': 'fn', 'v': name}] for name in ('hL', 'hV', 'hJ', 'hA', 'hR')]
    globals_ = []
    start = [[name, gen.enc_value(rng, 1, ('hV',), ALL)] for name in ['x', 'y', 'z', *rng.sample(ODD_VARS, 3)] if rng.random() < 0.7]
    start.append(['arr', host_array(rng)])
    sessions = []
    for _ in range(count):
        calls = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            call = {'program': rng.randrange(len(programs)), 'limit': 100000}
            if rng.random() < 0.7:
                call['style'] = [rng.randrange(12) for _ in range(rng.randrange(1, 8))]
            if rng.random() < 0.2:
                call['form'] = rng.choice(['lines', 'file'])
            if rng.random() < 0.1:
                call['start'] = rng.choice([1, 2, 100])
            if rng.random() < 0.4:
                call['cached'] = True
                call.pop('style', None)
            if rng.random() < 0.1:
                call['debug'] = True
            if calls and rng.random() < 0.5:
                call['globals'] = calls[-1]['globals']
                if rng.random() < 0.5:
                    call['reuse'] = True
            else:
                globals_.append([*base, *start])
                call['globals'] = len(globals_) - 1
            calls.append(call)
        session = {'calls': calls}
        if count > 1:
            session['preempt'] = gen_preempts(rng, rng.randrange(1, 8), 4000)
        sessions.append(session)
    stop = rng.choice([15, 30, 60, 100])
    logs = [{} for _ in range(stop)]
    if rng.random() < 0.3:
        logs[rng.randrange(min(15, stop))] = {'raise': 'BareScriptRuntimeError:host stop', 'after': rng.random() < 0.5}
    if rng.random() < 0.2:
        logs[rng.randrange(stop)] = {'raise': gen.error_class(rng), 'after': rng.random() < 0.5}
    logs.append({'raise': 'BareScriptRuntimeError:host end'})
    odds = rng.choice([0.3, 0.5, 0.6, 0.8, 0.95])
    if rng.random() < 0.6:
        jumps = [{'ret': rng.random() < odds} for _ in range(rng.randrange(0, 40))]
    else:
        jumps = [{'ret': gen.enc_value(rng, 1, ('hV',), ALL)} for _ in range(rng.randrange(0, 40))]
    if jumps and rng.random() < 0.2:
        jumps[rng.randrange(len(jumps))] = {'raise': gen.error_class(rng), 'after': rng.random() < 0.5}
    jumps.append({'ret': False})
    calls = [{'ret': rng.random() < 0.6} for _ in range(rng.randrange(0, 6))]
    calls.append({'ret': False})
    values = [{'ret': gen.enc_value(rng, 1, ('hV',), ALL)} for _ in range(rng.randrange(0, 12))]
    values.append({'ret': 3})
    arrays = [{'ret': host_array(rng)} for _ in range(rng.randrange(1, 6))]
    if rng.random() < 0.15:
        arrays[rng.randrange(len(arrays))] = {'raise': gen.error_class(rng)}
    return {
        'programs': programs, 'globals': globals_, 'hosts': {'hL': logs, 'hJ': jumps, 'hV': values, 'hA': arrays, 'hR': calls},
        'sessions': sessions, 'share': False, 'hidden': r'^(ix\d+|__bareScript.*)$',
        'schedule': gen_schedule(rng, 60), 'latency': latency(rng)
    }


def run(scn, stats):
    if scn.get('hidden') != r'^(ix\d+|__bareScript.*)$' or scn.get('share'):
        raise InvalidScenario('malformed')
    real, ref = execute(scn, stats)
    hist = history(real)
    kinds = outcome_kinds(real)
    for kind in kinds:
        stats.hit('outcome.' + kind)
    nontrivial = event_count(real) >= 3 and any(key.split('>')[-1] in ('if', 'while', 'for') for key in ref.chains)
    return {'history': [hist, real.final_globals()], 'keys': sorted(ref.chains), 'nontrivial': hist if nontrivial else None}
