"""C08: jump-level models execute by the documented statement semantics."""

from .. import gen
from ..core import gen_preempts, gen_schedule
from ..engine import execute, history
from .common import ASSUME, REAL_ALL, STUB_HOST, event_count, latency, outcome_kinds

ID = 'C08'
RUNS = {'quick': 24000, 'thorough': 600000}
RULE = ('seeded jump-level models (length 1-6 over {log, assign, jump, conditional jump, label, return, function} or up to 40 with functions), '
        'executed by 1-3 preempted sessions, repeatedly, re-entrantly from host calls, after in-place host edits and after aborts; '
        'non-trivial: at least 3 host-visible events and at least one jump, function or abort outcome (distinct by history)')
REAL = REAL_ALL
STUB = STUB_HOST
ASSUMPTIONS = ASSUME

LABELS = ['a', 'b', '__bareScriptDone0', 'toString', 'x']
VARS = ['x', 'y', 'z']
ODD_VARS = ['return', 'jump', 'label', 'function', 'include', 'expr', 'name', 'args', 'break', 'else', 'in', '', 'a b', '1x', 'x.y', '__bareScriptIndex0', 'options', 'globals']


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.tag = 0
        self.functions = []
        self.vars = VARS
        if rng.random() < 0.25:     # (names no text can spell: the model is the interface)
            self.vars = [*VARS, *rng.sample(ODD_VARS, 2), 'return']

    def value_expr(self, depth=2):
        rng = self.rng
        roll = rng.random()
        if depth <= 0 or roll < 0.45:
            return rng.choice([gen.num(rng.randrange(0, 4)), gen.string(rng.choice(['', 'a', 'b'])), gen.var(rng.choice(self.vars)),
                               gen.var(rng.choice(['null', 'true', 'false']))])
        if roll < 0.65:
            return gen.call('hV', gen.num(self.next_tag()))
        if roll < 0.8:
            return gen.binary(rng.choice(['+', '<', '==']), gen.var(rng.choice(self.vars)), gen.num(rng.randrange(0, 4)))
        if roll < 0.9:
            return gen.unary('!', self.value_expr(depth - 1))
        return gen.call('if', self.value_expr(depth - 1), self.value_expr(depth - 1), self.value_expr(depth - 1))

    def next_tag(self):
        self.tag += 1
        return self.tag

    def cond(self):
        rng = self.rng
        roll = rng.random()
        if roll < 0.6:
            return gen.call('hJ', gen.num(self.next_tag()))
        if roll < 0.8:
            return gen.binary('<', gen.call('hV', gen.num(self.next_tag())), gen.num(2))
        return self.value_expr()

    def log(self):
        return gen.st_expr(gen.call('hL', gen.num(self.next_tag()), gen.var(self.rng.choice(self.vars))))

    def statements(self, length, level, labels):
        rng = self.rng
        out = []
        while len(out) < length:
            roll = rng.random()
            if roll < 0.28:
                out.append(self.log())
            elif roll < 0.42:
                out.append(gen.st_expr(self.value_expr(), rng.choice(self.vars)))
            elif roll < 0.52:
                out.append(gen.st_jump(rng.choice(labels)))
            elif roll < 0.68:
                out.append(gen.st_jump(rng.choice(labels), self.cond()))
            elif roll < 0.88:
                out.append({'label': rng.choice(labels)})
            elif roll < 0.91:
                out.append(gen.st_return(self.value_expr() if rng.random() < 0.7 else None))
            elif level == 0 and roll < 0.96:
                name = rng.choice(['fA', 'fB', 'fC'])
                if name not in self.functions:
                    self.functions.append(name)
                body = self.statements(rng.randrange(0, 7), 1, labels) if rng.random() < 0.8 else self.loop(labels)
                if rng.random() < 0.4:
                    body.append(gen.st_return(self.value_expr() if rng.random() < 0.4 else None))
                args = rng.choice([None, [], ['x'], ['y', 'x'], [rng.choice(self.vars)]])
                function = gen.st_function(name, args, body)
                if rng.random() < 0.2:
                    function['function']['async'] = True
                out.append(function)
            elif self.functions:
                args = [self.value_expr(1) for _ in range(rng.randrange(3))]
                expr = gen.call(rng.choice(self.functions), *args)
                if level > 0:
                    # (recursion is guarded by a finite host decision)
                    expr = gen.call('if', gen.call('hJ', gen.num(self.next_tag())), expr)
                out.append(gen.st_expr(expr, rng.choice([None, *self.vars])))
        return out[:length]

    def loop(self, labels):
        """A few jumps ahead, and a jump back that is taken several times."""
        rng = self.rng
        names = rng.sample(LABELS, rng.randrange(2, len(LABELS) + 1))
        out = []
        for name in names[1:]:
            out += [gen.st_jump(name, self.cond() if rng.random() < 0.3 else None), *self.statements(rng.choice([0, 0, 1]), 1, labels), {'label': name}]
        name = rng.choice(VARS)
        again = gen.binary('<', gen.var(name), gen.num(rng.choice([2, 3, 5])))
        out += [gen.st_expr(gen.num(0), name), {'label': names[0]}, gen.st_expr(gen.binary('+', gen.var(name), gen.num(1)), name),
                *self.statements(rng.choice([0, 1, 1, 2]), 1, labels), gen.st_jump(names[0], again if rng.random() < 0.7 else self.cond()), self.log()]
        return out


def generate(rng, index, tier):
    gen_ = Gen(rng)
    models = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        gen_.functions = []
        style = rng.random()
        if style < 0.5:
            labels = rng.sample(LABELS, 2)
            length = rng.randrange(1, 7)
        else:
            labels = rng.sample(LABELS, rng.randrange(1, 5))
            length = rng.randrange(4, 41)
        models.append({'statements': gen_.statements(length, 0, labels)})
        if rng.random() < 0.1:
            models[-1]['statements'] += gen_.loop(labels)
    count = rng.choice([1, 1, 2, 2, 3])
    share = count > 1 and rng.random() < 0.3
    globals_ = []
    base = [['hL', {'$': 'fn', 'v': 'hL'}], ['hV', {'$': 'fn', 'v': 'hV'}], ['hJ', {'$': 'fn', 'v': 'hJ'}]]
    start = [[name, gen.enc_value(rng, 1, ('hV',), ('null', 'bool', 'num', 'str'))] for name in gen_.vars if rng.random() < 0.5]
    sessions = []
    for _ in range(count):
        calls = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            call = {'model': rng.randrange(len(models))}
            if share and globals_:
                call['globals'] = 0
            else:
                globals_.append([*base, *start])
                call['globals'] = len(globals_) - 1
            if calls and not share and rng.random() < 0.3:
                call['globals'] = calls[-1]['globals']
            if rng.random() < 0.15:
                call['copy'] = True
            if count == 1 and len(models) > 1 and rng.random() < 0.2:
                call['edit'] = [0, 1]
            elif count == 1 and calls and rng.random() < 0.4:
                call['edit'] = [call['model'], None, rng.choice(['swap', 'swap', 'delete', 'copy', 'rotate']), rng.random() < 0.4, rng.randrange(60),
                                rng.randrange(60)]
            calls.append(call)
        session = {'calls': calls}
        if count > 1 and not share:
            session['preempt'] = gen_preempts(rng, rng.randrange(1, 8), 2500)
        sessions.append(session)
    stop = rng.choice([25, 40, 60])
    logs = [{} for _ in range(stop)]
    if rng.random() < 0.25:
        logs[rng.randrange(min(10, stop))] = {'raise': 'BareScriptRuntimeError:host stop', 'after': True}
    if rng.random() < 0.2:
        logs[rng.randrange(stop)] = {'raise': gen.error_class(rng), 'after': rng.random() < 0.5}
    if rng.random() < 0.2:
        logs[rng.randrange(min(8, stop))] = {'do': [['exec', rng.randrange(len(models)), None]]}
    logs.append({'raise': 'BareScriptRuntimeError:host end'})
    if rng.random() < 0.5:
        jumps = [{'ret': rng.random() < 0.6} for _ in range(rng.randrange(0, 20))]
    else:
        kinds = ('null', 'bool', 'num', 'str', 'arr', 'obj', 'dt', 're', 'fn')
        jumps = [{'ret': gen.enc_value(rng, 1, ('hV',), kinds)} for _ in range(rng.randrange(0, 20))]
    jumps.append({'ret': False})
    values = [{'ret': gen.enc_value(rng, 1, ('hV',), ('null', 'bool', 'num', 'str', 'arr'))} for _ in range(rng.randrange(0, 12))]
    values.append({'ret': 3})
    if rng.random() < 0.15:
        values[rng.randrange(len(values))] = {'raise': gen.error_class(rng)}
    return {
        'models': models, 'globals': globals_, 'hosts': {'hL': logs, 'hJ': jumps, 'hV': values}, 'sessions': sessions, 'share': share,
        'immutable': True, 'schedule': gen_schedule(rng, 60), 'latency': latency(rng)
    }


def run(scn, stats):
    real, _ = execute(scn, stats)
    hist = history(real)
    kinds = outcome_kinds(real)
    nontrivial = event_count(real) >= 3 and any(
        any(key in ('jump', 'function') for key in statement) for model in scn['models'] for statement in model['statements'])
    for kind in kinds:
        stats.hit('outcome.' + kind)
    return {'history': hist, 'keys': [f'{len(scn["sessions"])} sessions/{kind}' for kind in kinds],
            'nontrivial': hist if nontrivial else None}
