"""C22: time strings and Python time values convert both ways."""
import calendar
from datetime import date, datetime, timedelta

from core import check, raises, same

RULE = ('A case is a batch of Python values (dates, date-times, durations at and around all calendar and carry boundaries), well-formed '
        'strings with their components, and mutated strings judged by an independent hand-written parser; every one is converted in '
        'all available ways. Non-trivial: the batch has a value with a component other than zero and at least one rejected or '
        'composed string.')
ASSUME = ['no time zones, no 24:00:00, years 0001 to 9999, durations within the range of timedelta',
          'in durations a year counts 365 and a month 30 days (the rule of the library; the standard leaves it open), a decimal comma is as good as a point',
          'digits behind the sixth decimal of a second may be rounded or cut']
BUDGET = {'quick': 48000, 'thorough': 800000}
US = timedelta(microseconds=1)


def strategy(profile):
    from hypothesis import strategies as st
    import gen
    year = st.one_of(st.sampled_from([1, 4, 99, 100, 400, 999, 1000, 1582, 1899, 1900, 1904, 1969, 1970, 1999, 2000, 2004, 2038, 2100, 9999]), st.integers(1, 9999))
    month = st.one_of(st.sampled_from([1, 2, 12]), st.integers(1, 12))
    day = st.one_of(st.sampled_from([1, 28, 29, 30, 31]), st.integers(1, 31))
    edge = lambda n: st.one_of(st.sampled_from([0, 1, 9, 10, n - 1]), st.integers(0, n - 1))
    time = st.tuples(edge(24), edge(60), edge(60), st.one_of(st.just(0), st.sampled_from([1, 99, 100, 101, 500000, 999999, 999900, 99999, 10]), st.integers(0, 999999)))
    values = st.one_of(st.tuples(st.just('date'), year, month, day), st.tuples(st.just('datetime'), year, month, day, time),
                       st.tuples(st.just('duration'), st.one_of(st.sampled_from([0, 1, -1, 30, 365, 999999998, -999999998]), st.integers(-5000, 5000), st.integers(-999999998, 999999998)), time),
                       st.tuples(st.just('duration'), st.sampled_from([0, 0, -1, 1]), time)).map(list)
    num = st.one_of(st.sampled_from(['0', '1', '00', '01', '7', '007', '23', '24', '59', '60', '61', '99', '100', '1000', '86400']), st.integers(0, 99999).map(str))
    opt = lambda s: st.one_of(st.none(), s)
    frac = opt(st.tuples(st.sampled_from(['.', ',']), st.text('0123456789', min_size=1, max_size=9)).map(''.join))
    dur = st.tuples(st.just('D'), st.sampled_from(['', '-']), opt(num), opt(num), opt(num), opt(num), opt(num), opt(num), frac)
    dt = st.tuples(st.just('T'), year, month, day, opt(time), opt(st.text('0123456789', min_size=1, max_size=9)))
    text = st.one_of(dur, dur, dt).map(list)
    ch = st.one_of(st.sampled_from(list('PTYMDHSWZptymdhs+-:., 0123456789\n\t_eE/')), st.sampled_from(['\u0661', '\uff11', '\u2212', '\xa0', '\x00', '00', '24', '60', '13', '32', '29', 'PT', 'P', 'T', '.5', ',', '-P', '-']))
    edit = st.tuples(st.integers(0, 40), st.sampled_from(['insert', 'insert', 'replace', 'replace', 'delete', 'swap', 'cut', 'double', 'zero']), ch).map(list)
    mutated = st.tuples(text, st.lists(edit, min_size=1, max_size=3)).map(list)
    free = st.one_of(st.lists(ch, max_size=8).map(''.join), st.text(st.sampled_from(list('PT1YMDHS,.-')), max_size=9).map(lambda s: 'P' + s), st.text(st.sampled_from(list('0129-:T.')), min_size=8, max_size=22),
                     gen.text(10), st.tuples(st.sampled_from(['1999', '2000', '1900', '0004', '0000', '2023']), st.sampled_from(['-', '/', '']), st.integers(0, 14).map('{:02d}'.format), st.just('-'), st.integers(0, 33).map('{:02d}'.format),
                               st.sampled_from(['', 'T00:00:00', 'T23:59:60', 'T25:00:00', 'T24:30:00', 'T24:00:01', 'T23:60:00', 'T00:00:61', 'T99:00:00', 'T12:00:00.', 'T12:00:00.5', 'T12:60:00', 'T1:2:3', 'T12:00', 't12:00:00', ' 12:00:00'])).map(''.join))
    clock = st.one_of(st.sampled_from(['T24:30:00', 'T24:00:01', 'T24:00:00.5', 'T23:59:60', 'T25:00:00', 'T23:60:00', 'T00:00:61', 'T12:00:00.', 'T12:00', 'T1:2:3', 'T12:00:00,5']),
                      st.builds(lambda h, m, s: 'T%02d:%02d:%02d' % (h, m, s), st.sampled_from([0, 12, 23, 24, 24, 25]), st.sampled_from([0, 0, 30, 59, 60]), st.sampled_from([0, 0, 1, 59, 60, 61])))
    free = st.one_of(free, st.builds(lambda y, m, d, t: '%04d-%02d-%02d%s' % (y, m, d, t), year, month, st.integers(1, 28), clock))
    return st.fixed_dictionaries({'values': st.lists(values, min_size=1, max_size=3), 'texts': st.lists(text, max_size=3), 'mutated': st.lists(mutated, max_size=4), 'free': st.lists(free, max_size=4)})


# ------------------------------------------------------------ reference

class Unjudged(Exception):
    pass


DIGITS = '0123456789'


def number(s, i):
    j = i
    while j < len(s) and s[j] in DIGITS:
        j += 1
    return s[i:j], j


def ref_duration(s):
    """value of a duration in microseconds (a pair: lower and upper bound) or ValueError"""
    i, sign = 0, 1
    if s[:1] == '-':
        sign, i = -1, 1
    if s[i:i + 1] != 'P':
        raise ValueError
    i += 1
    total, parts, intime = 0, 0, False
    order = 'YMD'
    extra = 0
    while i < len(s):
        if s[i] == 'T':
            if intime or i + 1 == len(s):
                raise ValueError
            intime, order = True, 'hms'
            i += 1
            continue
        digits, i = number(s, i)
        frac = ''
        if not digits or i >= len(s):
            raise ValueError
        if s[i] in '.,':
            frac, i = number(s, i + 1)
            if not frac or i >= len(s) or s[i] != 'S' or not intime:
                raise ValueError
        unit = s[i].lower() if intime else s[i]
        if intime and s[i] not in 'HMS' or unit not in order:
            raise ValueError
        order = order[order.index(unit) + 1:]
        seconds = {'Y': 365 * 86400, 'M': 30 * 86400, 'D': 86400, 'h': 3600, 'm': 60, 's': 1}[unit]
        total += int(digits) * seconds * 10 ** 6
        if frac:
            total += int(frac[:6].ljust(6, '0'))
            extra = 1 if frac[6:].strip('0') else 0
        parts += 1
        i += 1
    if not parts:
        raise ValueError
    if total >= 999999999 * 86400 * 10 ** 6:
        raise Unjudged()
    return sorted((sign * total, sign * (total + extra)))


def ref_date(s):
    def fixed(i, n):
        part = s[i:i + n]
        if len(part) != n or any(c not in DIGITS for c in part):
            raise ValueError
        return int(part)
    def literal(i, c):
        if s[i:i + 1] != c:
            raise ValueError
    y = fixed(0, 4); literal(4, '-'); m = fixed(5, 2); literal(7, '-'); d = fixed(8, 2)
    if y < 1 or not 1 <= m <= 12 or not 1 <= d <= calendar.monthrange(y, m)[1]:
        raise ValueError
    if len(s) == 10:
        return date(y, m, d), None
    literal(10, 'T'); h = fixed(11, 2); literal(13, ':'); mi = fixed(14, 2); literal(16, ':'); sec = fixed(17, 2)
    us = extra = 0
    i = 19
    if s[19:20] == '.':
        frac, i = number(s, 20)
        if not frac:
            raise ValueError
        us = int(frac[:6].ljust(6, '0'))
        extra = 1 if frac[6:].strip('0') else 0
    if i != len(s) or h > 23 or mi > 59 or sec > 59:
        raise ValueError
    v = datetime(y, m, d, h, mi, sec, us)
    if extra and v > datetime.max - US:
        extra = 0
    return v, v + extra * US


def unjudged(s):
    """well-formed in XML Schema, outside the domain of the library: time zones, years beyond 9999 or before 0001, 24:00:00"""
    i = 1 if s[:1] == '-' else 0
    y, j = number(s, i)
    if len(y) >= 4 and s[j:j + 1] == '-' and (i or len(y) > 4):
        return True
    if s[j:j + 1] == '-' and (s[-1:] == 'Z' or s[-6:-5] in ('+', '-') and s[-3:-2] == ':'):
        return True
    if s[10:19] == 'T24:00:00':
        rest = s[19:]
        return not rest or rest[:1] in ('.', ',') and not rest[1:].strip('0')
    return False


def reference(s):
    """('date'|'datetime'|'duration', lower, upper), None if malformed; Unjudged"""
    try:
        if s[:1] == 'P' or s[:2] == '-P':
            lo, hi = ref_duration(s)
            return 'duration', lo * US, hi * US
        if unjudged(s):
            raise Unjudged()
        lo, hi = ref_date(s)
        return ('date', lo, lo) if hi is None else ('datetime', lo, hi)
    except ValueError:
        return None


# ------------------------------------------------------------ the check

def kind_of(p):
    return p.is_date, p.has_time, p.is_duration


KINDS = {'date': (True, False, False), 'datetime': (True, True, False), 'duration': (False, False, True)}
TYPES = {'date': date, 'datetime': datetime, 'duration': timedelta}


def compose(t):
    if t[0] == 'D':
        _, sign, y, m, d, h, mi, s, frac = t
        day = ''.join(n + u for n, u in zip((y, m, d), 'YMD') if n is not None)
        if frac and s is None:
            frac = None
        tim = ''.join(n + u for n, u in zip((h, mi, None if s is None else s + (frac or '')), 'HMS') if n is not None)
        return sign + 'P' + day + ('T' + tim if tim else '') if day or tim else sign + 'P0D'
    _, y, m, d, time, frac = t
    s = '%04d-%02d-%02d' % (y, m, min(d, calendar.monthrange(y, m)[1]))
    if time:
        s += 'T%02d:%02d:%02d' % tuple(time[:3])
        if frac:
            s += '.' + frac
    return s


def mutate(s, edits):
    for at, how, ch in edits:
        i = at % (len(s) + 1)
        if how == 'insert':
            s = s[:i] + ch + s[i:]
        elif how == 'replace':
            s = s[:i] + ch + s[i + len(ch):]
        elif how == 'delete':
            s = s[:i] + s[i + 1:]
        elif how == 'swap':
            s = s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:]
        elif how == 'cut':
            s = s[:i]
        elif how == 'double':
            s = s[:i] + s[i:i + 1] + s[i:]
        else:
            s = ''.join('0' if c in DIGITS and j >= i else c for j, c in enumerate(s))
    return s


def run_case(case, ctx):
    from ezodf.timeparser import TimeParser
    rejected = composed = valued = 0

    def parse_all(s, ref):
        """every way to read a string gives the same, correct value"""
        kind, lo, hi = ref
        p = TimeParser(s)
        ways = [p.value, TimeParser.parse(s)]
        if kind == 'duration':
            ways.append(TimeParser.duration_parser(s))
        for v in ways:
            check(type(v) is TYPES[kind], 'class of the value of %s: %s', s, type(v))
            check(lo <= v <= hi,
                  'value of %s: %s, expected %s', s, v, lo)
            check(v == ways[0], 'two values for %s', s)
        same(kind_of(p), KINDS[kind], 'class reported for %s' % s)
        same(p.timestr, s, 'stored string')
        # and the value converts back
        write(p, p.value, kind)
        return p.value

    def write(p, value, kind):
        text = str(p)
        ref = None
        try:
            ref = reference(text)
        except Unjudged:
            pass
        check(ref is not None and ref[0] == kind, 'the string %s written for %s is not a well-formed %s', text, value, kind)
        q = TimeParser(text)
        back = q.value
        check(type(back) is TYPES[kind], 'class after the round trip of %s: %s', value, type(back))
        if kind == 'date':
            same(back, value, 'date after the round trip')
        elif kind == 'datetime':
            same(back, value.replace(microsecond=0), 'date-time after the round trip')
        else:
            same(TimeParser.duration_to_string(value), text, 'duration_to_string()')
            if value.microseconds % 100 == 0:
                same(back, value, 'duration after the round trip')
            else:
                check(abs(back - value) < 100 * US, 'duration after the round trip: %s, expected %s', back, value)
            check(ref[1] == back == ref[2], 'value of the written duration %s: %s, expected %s', text, back, ref[1])
        same(TimeParser(back).timestr, str(q), 'string after the round trip')
        same(TimeParser(str(q)).value, back, 'value after the second round trip')
        same(kind_of(q), KINDS[kind], 'class reported after the round trip')
        return text

    for v in case['values']:
        ctx.step()
        kind = v[0]
        if kind == 'duration':
            h, m, s, us = v[2]
            value = timedelta(days=v[1], hours=h, minutes=m, seconds=s, microseconds=us)
        else:
            y, m, d = v[1:4]
            d = min(d, calendar.monthrange(y, m)[1])
            value = date(y, m, d) if kind == 'date' else datetime(y, m, d, *v[4])
        p = TimeParser(value)
        check(p.value == value and type(p.value) is type(value), 'value of a parser made from a value')
        same(kind_of(p), KINDS[kind], 'class reported for %r' % value)
        text = write(p, value, kind)
        same(p.timestr, text, 'stored string of a value')
        valued += value not in (timedelta(0),)
    texts = [(compose(t), True) for t in case['texts']] + [(mutate(compose(t), e), False) for t, e in case['mutated']] + [(s, False) for s in case['free']]
    for s, wellformed in texts:
        ctx.step()
        try:
            ref = reference(s)
        except Unjudged:
            ctx.note('not judged')
            continue
        if ref is None:
            if wellformed:
                raise AssertionError('harness: %r' % s)
            raises(ValueError, TimeParser, s)
            raises(ValueError, TimeParser.parse, s)
            if s[:1] == 'P' or s[:2] == '-P':
                raises(ValueError, TimeParser.duration_parser, s)
            rejected += 1
            ctx.note('rejected text')
        else:
            parse_all(s, ref)
            composed += 1
            ctx.note('well-formed ' + ref[0])
            if ref[0] != 'duration':
                raises(ValueError, TimeParser.duration_parser, s)
    ctx.nontrivial(valued and (rejected or composed))
