"""C16: datetime construction, arithmetic and ISO text are correct in any time zone."""

import datetime
import re
import zoneinfo

from .. import gen
from ..core import InvalidScenario, Violation
from ..env import CLOCK, import_target, set_tz
from ..values import canon

ID = 'C16'
RUNS = {'quick': 60000, 'thorough': 1500000}
RULE = ('seeded histories of 4-40 datetime operations (construct, get, add, subtract, format, parse, now, today) through script expressions under a '
        'simulated wall clock (jumps, skew, DST and year boundaries) and process time zone switches; non-trivial: a roll-over, a boundary date, a '
        'zone switch between format and parse, or a rejected text (distinct by history)')
REAL = ['bare_script.runtime', 'bare_script.library', 'bare_script.value', 'Python datetime and the C library time zone code']
STUB = ['wall clock: LD_PRELOAD shim over time, gettimeofday and clock_gettime, set by the scenario', 'process time zone: TZ + tzset, set by the scenario']
ASSUMPTIONS = ['zoneinfo and the C library read the same time zone database',
               'Offsets that are not whole minutes are outside the property; skipped local times have no ISO text to check',
               'The integer Gregorian arithmetic in this module (days from civil) is the calendar']

ZONES = ['UTC', 'America/New_York', 'Europe/London', 'Asia/Kolkata', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'Pacific/Chatham', 'Etc/GMT+12']
MORE_ZONES = ['America/St_Johns', 'Etc/GMT-14', 'America/Sao_Paulo', 'Asia/Tokyo', 'Africa/Nairobi']

MS_DAY = 86400000


#
# The calendar, in integers
#

def days_from_civil(year, month, day):
    """Days since 1970-01-01 (proleptic Gregorian)."""
    year -= month <= 2
    era = year // 400
    yoe = year - era * 400
    doy = (153 * (month + (-3 if month > 2 else 9)) + 2) // 5 + day - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def civil_from_days(days):
    days += 719468
    era = days // 146097
    doe = days - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    year = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    day = doy - (153 * mp + 2) // 5 + 1
    month = mp + (3 if mp < 10 else -9)
    return year + (month <= 2), month, day


MIN_DAY = days_from_civil(1, 1, 1)
MAX_DAY = days_from_civil(9999, 12, 31)


def parts_of(us):
    """The components of a local instant given in microseconds since 1970-01-01T00:00."""
    days, rest = divmod(us, MS_DAY * 1000)
    year, month, day = civil_from_days(days)
    millis, micro = divmod(rest, 1000)
    seconds, millis = divmod(millis, 1000)
    return [year, month, day, seconds // 3600, seconds // 60 % 60, seconds % 60, millis], micro


def us_of(year, month, day, hour=0, minute=0, second=0, micro=0):
    return (days_from_civil(year, month, day) * 86400 + hour * 3600 + minute * 60 + second) * 1000000 + micro


def us_of_value(value):
    """A datetime value the real code produced (naive local)."""
    return us_of(value.year, value.month, value.day, value.hour, value.minute, value.second, value.microsecond)


def in_range(us):
    return MIN_DAY * MS_DAY * 1000 <= us < (MAX_DAY + 1) * MS_DAY * 1000


def construct(args):
    """datetimeNew: the normalised local instant, or None."""
    year, month, day, hour, minute, second, milli = [*args, *[0] * (7 - len(args))]
    year += (month - 1) // 12
    month = (month - 1) % 12 + 1
    us = (days_from_civil(year, month, 1) + day - 1) * MS_DAY * 1000
    us += (((hour * 60 + minute) * 60 + second) * 1000 + milli) * 1000
    return us if in_range(us) else None


#
# Time zones
#

UTC = datetime.timezone.utc


def local_offsets(us, zone):
    """The UTC offsets (seconds) at which this local time exists: none (skipped), one or two (repeated). None if unknown."""
    if not us_of(100, 1, 1) <= us < us_of(9990, 1, 1):
        return None
    (year, month, day, hour, minute, second, milli), micro = parts_of(us)
    naive = datetime.datetime(year, month, day, hour, minute, second, milli * 1000 + micro)
    found = []
    for fold in (0, 1):
        offset = naive.replace(tzinfo=zone, fold=fold).utcoffset()
        utc = (naive - offset).replace(tzinfo=UTC)
        if utc.astimezone(zone).replace(tzinfo=None) == naive and offset.total_seconds() not in found:
            found.append(offset.total_seconds())
    return found


def to_local(utc_us, zone):
    """The local time of an instant, in microseconds; and the offset in seconds."""
    if not us_of(99, 12, 1) <= utc_us < us_of(9990, 1, 1):
        return None, None
    (year, month, day, hour, minute, second, milli), micro = parts_of(utc_us)
    local = datetime.datetime(year, month, day, hour, minute, second, milli * 1000 + micro, UTC).astimezone(zone)
    offset = local.utcoffset().total_seconds()
    return utc_us + int(offset * 1000000), offset


R_TEXT = re.compile(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?(?:(Z)|([+-])(\d\d):(\d\d))', re.ASCII)
R_DATE = re.compile(r'(\d{4})-(\d\d)-(\d\d)', re.ASCII)


def read_text(text):
    """The oracle's reading of an ISO datetime text: ('date', us) | ('time', utc_us, offset_minutes) | None if it is not valid."""
    match = R_DATE.fullmatch(text)
    if match:
        fields = [int(field) for field in match.groups()]
        return ('date', us_of(*fields)) if valid_date(*fields) else None
    match = R_TEXT.fullmatch(text)
    if not match or not text.isascii():
        return None
    year, month, day, hour, minute, second = [int(field) for field in match.groups()[:6]]
    if not valid_date(year, month, day) or hour > 23 or minute > 59 or second > 59:
        return None
    micro = int(((match.group(7) or '') + '000000')[:6])
    offset = 0
    if match.group(9):
        hours, minutes = int(match.group(10)), int(match.group(11))
        if hours > 23 or minutes > 59:
            return None
        offset = (hours * 60 + minutes) * (-1 if match.group(9) == '-' else 1)
    return 'time', us_of(year, month, day, hour, minute, second, micro) - offset * 60000000, offset


def valid_date(year, month, day):
    return 1 <= year <= 9999 and 1 <= month <= 12 and 1 <= day and civil_from_days(days_from_civil(year, month, 1) + day - 1)[1] == month


#
# Generation
#

def boundary(rng):
    """A local date and time near something interesting."""
    roll = rng.random()
    if roll < 0.25:         # around DST changes of the listed zones
        year = rng.choice([1974, 1987, 1999, 2007, 2021, 2024, 2037, 2038, 2100])
        month, day = rng.choice([(3, rng.randrange(8, 32)), (4, rng.randrange(1, 8)), (9, rng.randrange(20, 31)), (10, rng.randrange(1, 32)),
                                 (11, rng.randrange(1, 8))])
        return [year, month, day, rng.randrange(0, 4), rng.choice([0, 15, 29, 30, 31, 45, 59]), rng.randrange(60), rng.randrange(1000)]
    if roll < 0.45:         # leap days and month ends
        year = rng.choice([1600, 1700, 1900, 2000, 2023, 2024, 2100, 2400, 100, 104, 400, 9000])
        month = rng.choice([1, 2, 2, 2, 3, 12, rng.randrange(1, 13)])
        day = rng.choice([1, 27, 28, 29, 30, 31])
        return [year, month, day, rng.choice([0, 23, 12]), rng.choice([0, 59]), rng.choice([0, 59]), rng.choice([0, 999, 1, 500])]
    if roll < 0.6:          # around the epoch, 32-bit limits
        return rng.choice([[1970, 1, 1, 0, 0, 0, 0], [1969, 12, 31, 23, 59, 59, 999], [2038, 1, 19, 3, 14, 7, 0], [1901, 12, 13, 20, 45, 52, 0],
                           [1969, 12, 31, 14, 0, 0, 0], [2038, 1, 19, 3, 14, 8, 1]])
    return [rng.randrange(100, 9001), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60),
            rng.choice([0, rng.randrange(1000)])]


def components(rng):
    roll = rng.random()
    if roll < 0.3:
        out = boundary(rng)
    elif roll < 0.55:
        out = boundary(rng)
        for position in rng.sample(range(1, 7), rng.randrange(1, 4)):
            out[position] = overflow(rng, position)
    else:
        out = [rng.randrange(100, 9001), *[overflow(rng, position) for position in range(1, 7)]]
    return out[:rng.choice([3, 4, 5, 6, 7, 7, 7, 7])]


def overflow(rng, position):
    if position == 1:
        return rng.choice([0, 13, 12, 1, 2, 3, -11, -12, 24, 25, rng.randrange(-30, 41)])
    if position == 2:
        return rng.choice([0, 1, 28, 29, 30, 31, 32, -1, 59, 60, 61, 365, 366, -364, -365, 10000, -10000, rng.randrange(-10000, 10001), rng.randrange(-70, 71)])
    edge = {3: 24, 4: 60, 5: 60, 6: 1000}[position]
    return rng.choice([0, edge - 1, edge, edge + 1, -1, -edge, -edge - 1, -edge + 1, 2 * edge, rng.randrange(-5000, 5001)])


def offset_ms(rng):
    roll = rng.random()
    if roll < 0.3:
        return rng.choice([0, 1, -1, 999, 1000, -1000, MS_DAY, -MS_DAY, 3600000, -3600000, 2**31, -2**31, 10**12, -10**12, 31536000000])
    return rng.choice([1, -1]) * int(10**(rng.random() * 12))


def iso_text(rng):
    year, month, day, hour, minute, second, milli = boundary(rng)
    day = min(day, 28) if rng.random() < 0.7 else day
    text = f'{year:04d}-{month:02d}-{day:02d}'
    if rng.random() < 0.2:
        return text
    text += f'T{hour:02d}:{minute:02d}:{second:02d}'
    if rng.random() < 0.5:
        text += '.' + f'{milli:03d}{rng.randrange(1000):03d}'[:rng.choice([3, 3, 1, 2, 4, 5, 6, 6])]
    offset = rng.choice(['Z', '+00:00', '-05:00', '+05:30', '+05:45', '+14:00', '-12:00', '-00:30', '+13:45', '-03:30', '+23:59', '-23:59'])
    return text + offset


def broken_text(rng):
    text = list(iso_text(rng))
    roll = rng.random()
    if roll < 0.25:
        return rng.choice(['', 'T', '2024', '2024-13-01', '2023-02-29', '2024-02-30', '2024-00-10', '2024-04-31', '1900-02-29', '2024-1-1', '24-01-01',
                           '2024-01-01T25:00:00Z', '2024-01-01T00:60:00Z', '2024-01-01T00:00:61Z', '2024-01-01T00:00:00+25:00',
                           '2024-01-01T00:00:00+05:60', '2024-01-01T00:00:00+99:99', 'not a date', '2024-01-01T', '2024-01-01TZ', '\u0662\u0660\u0662\u0664-01-01',
                           '2024-01-01\n', '2024-01-01T00:00:00Z\n', '2024-02-30T00:00:00Z', '0000-01-01', '0000-01-01T00:00:00Z', '2024-01-01T00:00:00.Z',
                           '2024-01-01T00:00:00.1234567Zx', 'x2024-01-01', '2024-06-31T12:00:00-05:00', '-2024-01-01', '2024-01-01T00:00:00+0:00',
                           '2024-01-01T00:00:00+24:00', '1e3', 'null', '2024/01/01', '2024-01-01T00-00-00Z', '2024-01-32', '2100-02-29T00:00:00Z'])
    for _ in range(rng.randrange(1, 3)):
        at = rng.randrange(len(text) + 1)
        if roll < 0.5 and text:
            del text[at % len(text)]
        elif roll < 0.75:
            text.insert(at, rng.choice('0123456789-:TZ+. x\n'))
        elif text:
            text[at % len(text)] = rng.choice('0123456789-:TZ+. x/')
    return ''.join(text)


def clock_time(rng):
    if rng.random() < 0.2:
        return rng.randrange(-2**31, 2**32) * 1000000 + rng.randrange(1000000)
    parts = boundary(rng)
    return us_of(1902 + parts[0] % 300, *parts[1:6]) + rng.randrange(1000000)


def generate(rng, index, tier):
    zones = rng.sample(ZONES + (MORE_ZONES if rng.random() < 0.3 else []), rng.choice([1, 1, 2, 3]))
    steps = []
    switch = rng.choice([0, 0.05, 0.25])
    for _ in range(rng.randrange(4, 41)):
        roll = rng.random()
        slot = rng.randrange(4)
        if rng.random() < switch and len(zones) > 1:
            steps.append(['tz', rng.choice(zones)])
        elif rng.random() < 0.06:
            steps.append(['clock', clock_time(rng), rng.choice([0, 0, 1, 1000])])
        if roll < 0.3:
            steps.append(['new', slot, components(rng), rng.random() < 0.3])
        elif roll < 0.36:
            style = rng.random()
            micro = rng.choice([0, 999999, rng.randrange(1000000), 500, 999])
            year, month, day, hour, minute, second, _ = boundary(rng)
            if not valid_date(year, month, day):
                day = 28
            if style < 0.4:
                steps.append(['host', slot, [year, month, day, hour, minute, second, micro], None])
            elif style < 0.7:
                steps.append(['host', slot, [year, month, day], None])
            else:       # an aware datetime
                steps.append(['host', slot, [year, month, day, hour, minute, second, micro], rng.choice([0, -300, 330, 345, 840, -720, 60])])
        elif roll < 0.5:
            steps.append(['add', slot, rng.randrange(4), offset_ms(rng), rng.random() < 0.5])
        elif roll < 0.56:
            steps.append(['sub', slot, rng.randrange(4)])
        elif roll < 0.66:
            steps.append(['format', slot, rng.randrange(4), rng.random() < 0.15])
        elif roll < 0.74:
            steps.append(['parse', slot, rng.randrange(4)])
        elif roll < 0.82:
            steps.append(['text', slot, iso_text(rng)])
        elif roll < 0.9:
            steps.append(['text', slot, broken_text(rng)])
        elif roll < 0.93:
            steps.append(['bad', rng.choice([[99, 1, 1], [2024, 1.5, 1], [2024, 1, 10001], [2024, 1, -10001], [2024, 1], [2024, 1, 1, 0, 0, 0, 0.5],
                                             [2024, None, 1], [2024, 1, 1, 'x'], [True, 1, 1], [9999, 12, 32], [9999, 13, 1], [2024, 1, 1, 0, 0, 0, 0, 0]])])
        else:
            steps.append([rng.choice(['now', 'today']), slot])
    return {'zone': zones[0], 'clock': [clock_time(rng), rng.choice([0, 1])], 'steps': steps}


#
# Execution
#

class World:
    def __init__(self, scn, stats):
        import_target()
        from bare_script import evaluate_expression, execute_script  # pylint: disable=import-outside-toplevel
        from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
        self.evaluate = evaluate_expression
        self.execute = execute_script
        self.library = SCRIPT_FUNCTIONS
        self.stats = stats
        self.globals = {}
        self.slots = [None] * 4         # (us, exact) of each datetime variable; None: not a datetime
        self.texts = [None] * 4         # (text, utc_us candidates, zone name, us)
        self.hist = []
        self.nontrivial = False
        self.switched = False
        self.set_zone(scn['zone'])
        self.set_clock(*scn['clock'])

    def set_zone(self, name):
        self.zone_name = name
        try:
            self.zone = zoneinfo.ZoneInfo(name)
        except (zoneinfo.ZoneInfoNotFoundError, ValueError) as exc:
            raise InvalidScenario('zone') from exc
        set_tz(name)

    def set_clock(self, epoch_us, tick_us):
        self.epoch_us = epoch_us
        self.tick_us = tick_us
        CLOCK.set(epoch_us, tick_us)

    def script(self, expr, name=None):
        """Evaluate through a script (float literals, failures become null)."""
        statements = [gen.st_return(expr)] if name is None else [gen.st_expr(expr, name), gen.st_return(gen.var(name))]
        return self.execute({'statements': statements}, {'globals': self.globals})

    def put(self, slot, us):
        self.slots[slot] = us

    def expect(self, what, got, want):
        if canon(got) != canon(want) or isinstance(got, bool) != isinstance(want, bool):
            raise Violation('datetime', f'{what} in {self.zone_name}: got {got!r}, expected {want!r}')

    def expect_dt(self, what, got, us):
        """got must be a naive datetime at exactly us (or null)."""
        if us is None:
            if got is not None:
                raise Violation('datetime', f'{what} in {self.zone_name}: got {got!r}, expected null')
            return
        if not isinstance(got, datetime.datetime) or got.tzinfo is not None or us_of_value(got) != us:
            raise Violation('datetime', f'{what} in {self.zone_name}: got {got!r}, expected {show(us)}')

    def getters(self, slot):
        us = self.slots[slot]
        if us is None:
            return
        parts, _ = parts_of(us)
        names = ['datetimeYear', 'datetimeMonth', 'datetimeDay', 'datetimeHour', 'datetimeMinute', 'datetimeSecond', 'datetimeMillisecond']
        got = self.script(gen.call('arrayNew', *[gen.call(name, gen.var(f'd{slot}')) for name in names]))
        self.expect(f'the parts of {show(us)}', got, parts)


def show(us):
    return str(parts_of(us)[0]) + f'+{us % 1000}us' if us is not None else 'null'


def number(value):
    return gen.num(float(value))


def run(scn, stats):
    world = World(scn, stats)
    try:
        for at, step in enumerate(scn['steps']):
            do_step(world, step)
    finally:
        set_tz('UTC')
        CLOCK.off()
    stats.hit('sim_us', sum(abs(step[1]) for step in scn['steps'] if step[0] == 'clock') // 1000000)
    return {'history': world.hist, 'keys': [f'{step[0]}/{scn["zone"]}' for step in scn['steps']], 'nontrivial': world.hist if world.nontrivial else None}


def do_step(world, step):
    kind = step[0]
    stats = world.stats
    if kind == 'tz':
        if step[1] != world.zone_name:
            stats.hit('fault.zone_switch')
        # (values with an offset of their own denote another local time from now on)
        world.slots = [None if isinstance(us, tuple) else us for us in world.slots]
        world.set_zone(step[1])
    elif kind == 'clock':
        stats.hit('fault.clock_jump')
        world.set_clock(step[1], step[2])
    elif kind == 'new':
        _, slot, args, alias = step
        if len(args) < 3:
            raise InvalidScenario('arguments')
        want = construct(args) if args[0] >= 100 and -10000 <= args[2] <= 10000 else None
        expr = gen.call('date' if alias else 'datetimeNew', *[number(arg) for arg in args])
        if alias:
            got = world.evaluate(expr, {'globals': world.globals})
            world.globals[f'd{slot}'] = got
        else:
            got = world.script(expr, f'd{slot}')
        world.expect_dt(f'datetimeNew{tuple(args)}', got, want)
        world.put(slot, want)
        world.getters(slot)
        plain = want is not None and parts_of(want)[0][:len(args)] == list(args)
        if not plain:
            stats.hit('fault.component_overflow')
            world.nontrivial = True
        world.hist.append(['new', args, show(want)])
    elif kind == 'bad':
        got = world.script(gen.call('datetimeNew', *[
            gen.num(float(arg)) if isinstance(arg, (int, float)) and not isinstance(arg, bool) else
            gen.string(arg) if isinstance(arg, str) else gen.var('null' if arg is None else 'true') for arg in step[1]]))
        world.expect(f'datetimeNew{tuple(step[1])}', got, None)
        stats.hit('fault.bad_component')
    elif kind == 'host':
        host_value(world, step)
    elif kind == 'add':
        _, slot, source, millis, flip = step
        us = world.slots[source]
        if us is None:
            return
        left, right = gen.var(f'd{source}'), number(millis)
        got = world.script(gen.binary('+', right, left) if flip else gen.binary('+', left, right), 'r')
        want = us + millis * 1000
        if not in_range(want):
            want = None
        world.expect_dt(f'{show(us)} + {millis}', got, want)
        if want is not None:
            diff = world.script(gen.binary('-', gen.var('r'), gen.var(f'd{source}')))
            world.expect(f'({show(us)} + {millis}) - itself', diff, millis)
            back = world.script(gen.binary('-', gen.var(f'd{source}'), gen.var('r')))
            world.expect(f'{show(us)} - (itself + {millis})', back, -millis)
            for oper, holds in (('<', millis > 0), ('==', millis == 0), ('>=', millis <= 0)):
                world.expect(f'{show(us)} {oper} itself + {millis}', world.script(gen.binary(oper, left, gen.var('r'))), holds)
        world.globals[f'd{slot}'] = world.globals['r']
        world.put(slot, want)
        world.getters(slot)
        world.hist.append(['add', millis, show(want)])
    elif kind == 'sub':
        left, right = world.slots[step[1]], world.slots[step[2]]
        if left is None or right is None or (left - right) % 1000:
            return
        got = world.script(gen.binary('-', gen.var(f'd{step[1]}'), gen.var(f'd{step[2]}')))
        world.expect(f'{show(left)} - {show(right)}', got, (left - right) // 1000)
        world.hist.append(['sub', (left - right) // 1000])
    elif kind == 'format':
        format_value(world, step)
    elif kind == 'parse':
        parse_back(world, step)
    elif kind == 'text':
        parse_text(world, step)
    else:
        read_clock(world, step)


def host_value(world, step):
    """A datetime, date or aware datetime put into the globals by the embedder."""
    _, slot, parts, offset = step
    if offset is not None:
        tz = datetime.timezone(datetime.timedelta(minutes=offset))
        value = datetime.datetime(*parts, tzinfo=tz)
        us, shift = to_local(us_of(*parts) - offset * 60000000, world.zone)
        if us is None or shift % 60 or len(local_offsets(us, world.zone) or []) != 1:
            return
        world.stats.hit('fault.aware_value')
    elif len(parts) == 3:
        value = datetime.date(*parts)
        us = us_of(*parts)
    else:
        value = datetime.datetime(*parts)
        us = us_of(*parts)
    world.globals[f'd{slot}'] = value
    world.put(slot, us)
    world.getters(slot)
    if offset is not None:
        # (its local time depends on the zone: use it at once, then go on with the local value)
        got = world.script(gen.binary('+', gen.var(f'd{slot}'), number(1)), 'r')
        world.expect_dt(f'{value!r} + 1', got, us + 1000)
        world.expect(f'({value!r} + 1) - itself', world.script(gen.binary('-', gen.var('r'), gen.var(f'd{slot}'))), 1)
        format_value(world, ['format', slot, 0, False])
        format_value(world, ['format', slot, 1, True])
        world.put(slot, None)
    world.hist.append(['host', parts, offset])


def format_value(world, step):
    _, slot, to, is_date = step
    us = world.slots[slot]
    if us is None:
        return
    if is_date:
        got = world.script(gen.call('datetimeISOFormat', gen.var(f'd{slot}'), gen.var('true')), f's{to}')
        year, month, day = parts_of(us)[0][:3]
        world.expect(f'the ISO date of {show(us)}', got, f'{year:04d}-{month:02d}-{day:02d}')
        world.texts[to] = ('date', us_of(year, month, day))
        return
    args = [gen.var(f'd{slot}')]
    if us % 2:
        args.append(gen.var('false'))
    got = world.script(gen.call('datetimeISOFormat', *args), f's{to}')
    offsets = local_offsets(us, world.zone)
    if not offsets or any(offset % 60 for offset in offsets):
        world.texts[to] = None
        world.stats.hit('skipped_or_odd_local_time')
        return
    if len(offsets) == 2:
        world.stats.hit('fault.repeated_local_time')
    if not isinstance(got, str):
        raise Violation('format', f'the ISO text of {show(us)} in {world.zone_name} is {got!r}')
    read = read_text(got)
    millis = us // 1000 * 1000
    if read is None or read[0] != 'time' or read[1] + read[2] * 60000000 != millis or read[2] * 60 not in offsets:
        raise Violation('format', f'the ISO text of {show(us)} in {world.zone_name} (offsets {offsets}) is {got!r}')
    # The round trip in the same zone
    back = world.script(gen.call('datetimeISOParse', gen.var(f's{to}')))
    world.expect_dt(f'datetimeISOParse({got!r})', back, millis)
    world.texts[to] = ('time', read[1])
    world.hist.append(['format', show(us), got])


def parse_back(world, step):
    """Parse an earlier text, perhaps in another zone."""
    _, slot, source = step
    text = world.texts[source]
    if text is None:
        return
    got = world.script(gen.call('datetimeISOParse', gen.var(f's{source}')), f'd{slot}')
    check_parsed(world, slot, got, text, world.globals[f's{source}'])
    world.hist.append(['parse', world.zone_name, canon(got)])


def check_parsed(world, slot, got, read, text):
    if read[0] == 'date':
        want = read[1]
    else:
        local, offset = to_local(read[1], world.zone)
        if local is None or offset % 60:
            world.put(slot, None)
            if got is not None and not isinstance(got, datetime.datetime):
                raise Violation('parse', f'datetimeISOParse({text!r}) gave {got!r}')
            return
        want = local // 1000 * 1000
    world.expect_dt(f'datetimeISOParse({text!r})', got, want)
    world.put(slot, want)
    world.getters(slot)


def parse_text(world, step):
    _, slot, text = step
    world.globals[f's{slot}'] = text
    world.texts[slot] = None
    got = world.script(gen.call('datetimeISOParse', gen.var(f's{slot}')), f'd{slot}')
    read = read_text(text)
    world.hist.append(['text', text, canon(got)])
    world.put(slot, None)
    if read is None:
        world.stats.hit('fault.malformed_text')
        world.nontrivial = True
        if got is not None and not lenient(text):
            raise Violation('parse', f'datetimeISOParse({text!r}), which is not an ISO date or datetime, gave {got!r}')
        return
    if read[0] == 'time' and got is None and fraction_digits(text) > 6:
        return
    check_parsed(world, slot, got, read, text)
    if read[0] == 'time' and world.slots[slot] is not None:
        world.texts[slot] = ('time', read[1] // 1000 * 1000)


def fraction_digits(text):
    match = re.search(r'\.(\d+)', text)
    return len(match.group(1)) if match else 0


def lenient(text):
    """Spellings that ISO 8601 allows (or that are debatable) and the oracle does not read."""
    return re.fullmatch(r'\d{4}-\d\d-\d\dT(24:00(:00)?|\d\d(:\d\d(:\d\d)?)?)([.,]\d+)?(Z|z|[+-]\d\d(:?\d\d(:\d\d)?)?)?', text) is not None and \
        read_text(text[:10]) is not None and all_fields_valid(text)


def all_fields_valid(text):
    fields = re.findall(r'\d+', re.sub(r'[.,]\d+', '', text[11:]))
    return all(int(field[:2]) <= (24 if at == 0 else 60) for at, field in enumerate(fields))


def read_clock(world, step):
    kind, slot = step
    if not CLOCK.available:
        return
    CLOCK.set(world.epoch_us, world.tick_us)
    got = world.script(gen.call('datetimeNow' if kind == 'now' else 'datetimeToday'), f'd{slot}')
    reads = CLOCK.reads()
    local, offset = to_local(world.epoch_us, world.zone)
    late, _ = to_local(world.epoch_us + world.tick_us * 1000 * 1000, world.zone)
    world.put(slot, None)
    if local is None or late is None or offset % 60 or late - local != world.tick_us * 1000 * 1000:
        return
    if kind == 'today':
        day = local // (MS_DAY * 1000)
        if late // (MS_DAY * 1000) != day:
            return
        world.expect_dt(f'datetimeToday() at {show(local)}', got, day * MS_DAY * 1000)
        world.put(slot, day * MS_DAY * 1000)
    else:
        us = us_of_value(got) if isinstance(got, datetime.datetime) else None
        if us is None or got.tzinfo is not None or not local <= us <= late:
            raise Violation('clock', f'datetimeNow() in {world.zone_name} at {show(local)} gave {got!r}')
        world.put(slot, us)
    world.stats.hit('clock_reads', reads)
    world.getters(slot)
    world.hist.append([kind, show(world.slots[slot])])
