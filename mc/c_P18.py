# -*- coding: utf-8 -*-
"""Times and lengths denote the same however they are written and converted."""
import itertools
import re
from datetime import timedelta
from fractions import Fraction
from mini import parse, tt, td

RULE = ('every string made of the listed hours, minutes, seconds, fractions and units is read as each type of time, and every '
        'time made of the listed days to microseconds is written as each type, in every time base and attribute of a document; '
        'every string made of the listed signs, numbers and units is read as each type of length and converted; all are compared '
        'with exact fractions; the state is the value')
BOUNDS = {
    'quick': '3 types of time: 8 hours x 3 minutes x 4 seconds x 9 fractions, 9 numbers x 7 fractions x 5 units; 900 times '
             'written; 60 notations x 2 time bases x 3 attributes in documents; 11 types of length x 90 pairs of numbers',
    'thorough': '13 hours x 5 minutes x 6 seconds x 15 fractions, 14 numbers x 12 fractions x 5 units; 6000 times; '
                'as quick otherwise',
}
ASSUMPTIONS = ['times are exact to the microsecond when read and are cut to the millisecond when written',
               'the legacy smpte time base is left out']
US = timedelta(microseconds=1)


def exact(t):
    return Fraction(t.days * 86400 + t.seconds) + Fraction(t.microseconds, 1000000)


def parts(tier):
    th = tier == 'thorough'
    hours = ['00', '01', '09', '23', '24', '99', '100', '0100'] + (['10', '59', '60', '999', '1000'] if th else [])
    minutes = ['00', '07', '59'] + (['30', '10'] if th else [])
    seconds = ['00', '08', '59', '60'] + (['29', '30'] if th else [])
    fractions = ['', '.0', '.1', '.05', '.001', '.999', '.0005', '.123456', '.9999996'] + (['.9994', '.290', '.57', '.1234567', '.000', '.000001'] if th else [])
    return hours, minutes, seconds, fractions


def counts(tier):
    th = tier == 'thorough'
    nums = ['0', '1', '7', '10', '59', '60', '100', '3599', '1000000'] + (['3600', '99', '0001', '86400', '123456789'] if th else [])
    fr = ['', '.0', '.5', '.25', '.001', '.1', '.3333333'] + (['.0001', '.29', '.57', '.999', '.9999999'] if th else [])
    return nums, fr


UNIT = {'h': Fraction(3600), 'm': Fraction(60), 's': Fraction(1), 'ms': Fraction(1, 1000)}


def meaning(text, kind):
    """The time the text denotes as the type, None if it is none"""
    if kind == 'TimecountTimingType':
        m = re.match(r'^(\d+(?:\.\d+)?)(h|ms|s|m)$', text)
        return m and Fraction(m.group(1)) * UNIT[m.group(2)]
    m = re.match(r'^(\d\d%s):([0-5]\d):([0-5]\d|60)(\.\d+)?$' % ('' if kind.startswith('Limited') else r'\d*'), text)
    return m and Fraction(int(m.group(1)) * 3600 + int(m.group(2)) * 60 + int(m.group(3))) + Fraction('0' + m.group(4) if m.group(4) else 0)


KINDS = ('TimecountTimingType', 'FullClockTimingType', 'LimitedClockTimingType')
ODD = ['', '1', '1d', '-1s', '+1s', '1.s', '.5s', '1 s', '1S', '00:00', '0:00:00', '00:0:00', '00:60:00', '00:00:61', '00:00:00.', '00:00:00,5', '00:00:00:00',
       '-00:00:01', '00:00:00.5s', '1e3s', '0x1s']


def times(tier):
    th = tier == 'thorough'
    h = [0, 1, 9, 23, 24, 99, 100, 1000] if th else [0, 1, 24, 99, 100]
    m = [0, 1, 59] if th else [0, 59]
    s = [0, 1, 9, 30, 59] if th else [0, 1, 59]
    ms = [0, 1, 10, 100, 290, 999] if th else [0, 1, 20, 100, 999]
    us = [0, 1, 500, 999]
    for a in itertools.product(h, m, s, ms, us):
        yield timedelta(hours=a[0], minutes=a[1], seconds=a[2], milliseconds=a[3], microseconds=a[4])


# type, dimensions that are possible, unit, may be negative, has a fraction
LENGTHS = [
    ('PixelOriginType', (2,), 'px', True), ('CellOriginType', (2,), 'c', True), ('PercentageOriginType', (2,), '%', True),
    ('PixelExtentType', (2,), 'px', False), ('CellExtentType', (2,), 'c', False), ('PercentageExtentType', (2,), '%', False),
    ('PixelFontSizeType', (1, 2), 'px', False), ('CellFontSizeType', (1, 2), 'c', False), ('PercentageFontSizeType', (1, 2), '%', False),
    ('CellLineHeightType', (1,), 'c', None), ('PercentageLineHeightType', (1,), '%', None), ('PixelLineHeightType', (1,), 'px', None),
]
NUMBERS = ['0', '1', '10', '007', '2.5', '.5', '0.25', '+3', '-4', '-.5', '33.3333', '100', '0.00001', '1234567.5', '2000000000000000000']


def cases(tier):
    hours, _, _, _ = parts(tier)
    for kind in KINDS:
        for h in hours:
            yield ['clock', kind, h]
        for n in counts(tier)[0]:
            yield ['count', kind, n]
        yield ['odd', kind]
    for k in range(12):
        yield ['write', k, 12]
    for tb in ('clock', 'media'):
        for attr in ('begin', 'end', 'dur'):
            for k in range(4):
                yield ['document', tb, attr, k, 4]
    for i in range(len(LENGTHS)):
        yield ['length', i]
    for i in range(4):
        yield ['cells', i]


def kinds():
    from ebu_tt_live.bindings import _ebuttdt as dt
    return dt


def read(ctx, kind, text):
    cls = getattr(kinds(), kind)
    want = meaning(text, kind)
    ctx.trans()
    try:
        v = cls(text)
        got = v.timedelta
    except Exception as e:
        ctx.outcome('refused')
        ctx.check(want is None, 'refused:' + kind, lambda: '%r as %s: %s' % (text, kind, type(e).__name__))
        return
    ctx.outcome('accepted')
    if not ctx.check(want is not None, 'accepted:' + kind, lambda: '%r as %s gives %s' % (text, kind, got)):
        return
    ctx.trace()
    ctx.state(got)
    if not ctx.check(abs(exact(got) - want) <= Fraction(1, 1000000), 'read:' + kind, lambda: '%r as %s is %s, not %s s' % (text, kind, got, float(want))):
        return
    ctx.check(unicode(v) == text, 'text:' + kind, lambda: '%r became %r' % (text, unicode(v)))


def write(ctx, t, kind):
    from ebu_tt_live.errors import TimeFormatOverflowError
    cls = getattr(kinds(), kind)
    ctx.trans()
    fits = kind != 'LimitedClockTimingType' or t < timedelta(hours=100)
    try:
        v = cls(t)
    except TimeFormatOverflowError as e:
        ctx.outcome('overflow')
        ctx.check(not fits, 'overflow:' + kind, lambda: '%s as %s overflows' % (t, kind))
        return None
    except Exception as e:
        ctx.fail('write:%s:%s' % (kind, type(e).__name__), '%s (%r) as %s: %s' % (t, t, kind, repr(e)[:200]))
        return None
    if not ctx.check(fits, 'nooverflow:' + kind, lambda: '%s as %s is %s' % (t, kind, v)):
        return None
    text = unicode(v)
    want = exact(t) - Fraction(t.microseconds % 1000, 1000000)
    ctx.trace()
    ctx.outcome('written')
    ctx.check(meaning(text, kind) == want, 'written:' + kind, lambda: '%s as %s is written %r' % (t, kind, text))
    ctx.check(exact(v.timedelta) == want, 'back:' + kind, lambda: '%s written as %s %r is read as %s' % (t, kind, text, v.timedelta))
    ctx.check(unicode(cls(v.timedelta)) == text, 'again:' + kind, lambda: '%s written as %s twice: %r %r' % (t, kind, text, unicode(cls(v.timedelta))))
    return text


def notations():
    out = []
    for n, f, u in itertools.product(('0', '3', '90', '7200'), ('', '.5'), ('h', 'm', 's', 'ms')):
        out.append(n + f + u)
    for h, m, s, f in itertools.product(('00', '02', '99', '100'), ('00', '59'), ('00', '60'), ('', '.25')):
        out.append('%s:%s:%s%s' % (h, m, s, f))
    return out


def in_document(ctx, tb, attr, text):
    from ebu_tt_live.documents import EBUTT3Document
    from ebu_tt_live.errors import TimeFormatOverflowError
    want = None
    for kind in (KINDS[0], KINDS[2] if tb == 'clock' else KINDS[1]):
        want = meaning(text, kind) if want is None else want
    timing = {'begin': 'begin="%s"', 'end': 'end="%s"', 'dur': 'begin="0s" dur="%s"'}[attr] % text
    xml = tt(u'<tt:body %s><tt:div><tt:p xml:id="p">x</tt:p></tt:div></tt:body>' % timing, tb=tb)
    ctx.trans()
    what = '%s="%s" in %s time' % (attr, text, tb)
    try:
        d = EBUTT3Document.create_from_xml(xml)
    except Exception as e:
        ctx.outcome('refused')
        ctx.check(want is None, 'refused:document:' + attr, lambda: '%s: %s' % (what, repr(e)[:200]))
        return
    ctx.outcome('accepted')
    if not ctx.check(want is not None, 'accepted:document:' + attr, lambda: what + ' is accepted'):
        return
    ctx.trace()
    ctx.state((attr, want))
    value = getattr(d.binding.body, attr)
    ctx.check(exact(value.timedelta) == want, 'document:' + attr, lambda: '%s is taken for %s' % (what, value.timedelta))
    if attr == 'begin':
        ctx.check(exact(d.computed_begin_time) == want, 'computed', lambda: '%s: begins at %s' % (what, d.computed_begin_time))
    elif want > 0:
        # an end or a duration of zero leaves no time
        ctx.check(exact(d.computed_end_time) == want, 'computed', lambda: '%s: ends at %s' % (what, d.computed_end_time))
    # converted to the type of the time base and written
    t = value.timedelta
    if tb == 'clock' and want >= 360000:
        try:
            own = d.binding.get_timing_type(t)
            ctx.fail('nooverflow:document', '%s becomes %s' % (what, own))
        except TimeFormatOverflowError:
            ctx.outcome('overflow')
        return
    own = d.binding.get_timing_type(t)
    want -= want % Fraction(1, 1000)
    kind = 'LimitedClockTimingType' if tb == 'clock' else 'FullClockTimingType'
    ctx.check(type(own).__name__ == kind and meaning(unicode(own), kind) == want, 'own', lambda: '%s becomes %s %s' % (what, type(own).__name__, own))
    setattr(d.binding.body, attr, own)
    back = parse(d.get_xml())
    ctx.check(next(back.iter('body')).attrs[attr] == unicode(own), 'xml', lambda: '%s is written as %r' % (what, next(back.iter('body')).attrs))


def number(text):
    return Fraction(text.replace('+', '')) if not text.startswith(('.', '-.')) else Fraction(text.replace('.', '0.'))


def length(ctx, name, dims, unit, signed):
    cls = getattr(kinds(), name)
    for n in dims:
        for nums in itertools.product(NUMBERS, repeat=n):
            text = u' '.join(x + unit for x in nums)
            if signed is None:
                ok = all(x[0] not in '+-' for x in nums)
            else:
                ok = signed or all(x[0] != '-' for x in nums)
            ctx.trans()
            try:
                v = cls(text)
            except Exception as e:
                ctx.outcome('refused')
                ctx.check(not ok, 'refused:' + name, lambda: '%r as %s: %s' % (text, name, repr(e)[:200]))
                continue
            ctx.outcome('accepted')
            if not ctx.check(ok, 'accepted:' + name, lambda: '%r as %s' % (text, name)):
                continue
            ctx.trace()
            want = [float(number(x)) for x in nums]
            got = [v.vertical] if n == 1 else [v.horizontal, v.vertical]
            ctx.state((name, got))
            ctx.check(got == want and (n == 2 or v.horizontal is None), 'length:' + name, lambda: '%r as %s is %r (horizontal %r)' % (text, name, got, v.horizontal))
            w = cls(*want)
            same = [w.vertical] if n == 1 else [w.horizontal, w.vertical]
            ctx.check(same == want and w == v and unicode(w).count(unit) == n, 'numbers:' + name, lambda: '%s of %r is %s' % (name, want, w))


def cells(ctx, i):
    dt = kinds()
    extents = ['100px 100px', '1920px 1080px', '640px 480px', '12.5px 50px']
    for res in ('32 15', '40 24', '1 1', '050 30'):
        e, c = dt.PixelExtentType(extents[i]), dt.CellResolutionType(res)
        for a in ('1', '2.5', '0', '33', '.5', '.0002'):
            for b in (None, '1', '8', '.25'):
                text = a if b is None else (a, b)
                for src, dst, f, unit in ((dt.PixelFontSizeType, dt.CellFontSizeType, dt.pixels_to_cells, 'px'), (dt.CellFontSizeType, dt.PixelFontSizeType, dt.cells_to_pixels, 'c')):
                    v = src(u' '.join(x + unit for x in ((a,) if b is None else (a, b))))
                    got = f(v, e, c)
                    ex = [Fraction(x.replace('px', '')) for x in extents[i].split()]
                    rs = [Fraction(x) for x in res.split()]
                    per = [x / y for x, y in zip(ex, rs)]
                    if b is None:
                        want = [number(a) * (per[1] if unit == 'c' else 1 / per[1])]
                    else:
                        want = [number(x) * (p if unit == 'c' else 1 / p) for x, p in zip((a, b), per)]
                    ctx.trans()
                    ctx.trace()
                    ctx.state(tuple(round(float(x), 6) for x in want))
                    ctx.check(len(got) == len(want) and all(abs(float(w) - g) < 1e-6 for g, w in zip(got, want)), 'cells:' + unit,
                              lambda: '%s with an extent of %s and %s cells is %r' % (v, extents[i], res, got))
                    try:
                        r = dst(*[float(x) for x in got])
                        ok = len(unicode(r).split()) == len(want)
                    except Exception as e:
                        r, ok = e, False
                    ctx.check(ok, 'cells:type', lambda: '%s with an extent of %s and %s cells is %r: %r' % (v, extents[i], res, got, r))
    ctx.outcome('converted')


def run(case, ctx):
    kind = case[0]
    if kind == 'clock':
        _, m, s, f = parts(ctx.tier)
        for x in itertools.product(m, s, f):
            read(ctx, case[1], '%s:%s:%s%s' % ((case[2],) + x))
    elif kind == 'count':
        for f, u in itertools.product(counts(ctx.tier)[1], sorted(UNIT) + ['d']):
            read(ctx, case[1], case[2] + f + u)
    elif kind == 'odd':
        for x in ODD:
            read(ctx, case[1], x)
    elif kind == 'write':
        before = None
        for i, t in enumerate(times(ctx.tier)):
            if i % case[2] == case[1]:
                for k in KINDS:
                    write(ctx, t, k)
    elif kind == 'document':
        for i, x in enumerate(notations()):
            if i % case[4] == case[3]:
                in_document(ctx, case[1], case[2], x)
    elif kind == 'length':
        length(ctx, *LENGTHS[case[1]])
    else:
        cells(ctx, case[1])
