# -*- coding: utf-8 -*-
"""Clocks: what they tell after every history of adjustments, fixed times and passing time."""
import itertools
import time
from fractions import Fraction as F
from datetime import timedelta
from mini import tt

RULE = ('every history of operations up to a depth is played on a real clock while the time of the machine is simulated; after '
        'each operation everything the clock tells is compared with a model of three numbers; the state is what the clock tells')
BOUNDS = {
    'quick': 'histories of 3 operations out of 12 (4 of time passing, up to a midnight and beyond a day; 4 adjustments; fixed times and modes; what is to be refused) x 4 kinds of clock '
             'x 3 times of the day x 3 time zones; clocks made for documents and sequences with histories of 2',
    'thorough': 'histories of 5 operations',
}
ASSUMPTIONS = ['the machine tells its time by time.time, time.localtime and time.gmtime', 'no change of daylight saving']

DAY = 86400
NOON = 1767571200    # a midnight, UTC
STARTS = (0, 37230.5, DAY - 0.25)
ZONES = (0, 7200, -19800)
KINDS = ('local', 'utc', 'media', 'smpte')
PASS = {'q': 0.25, 'h': 3600.5, 'd': 90000}
ADJUST = {'a': (0, None), 'A': (36000.25, None), 'p': (5, -30), 'n': (5, 30)}
OPS = ['q', 'h', 'd', 'a', 'A', 'p', 'n', 'f', 'F', '+', '-', 'x']
FIXED = {'f': 5, 'F': 3600.000001}


def cases(tier):
    for kind in KINDS:
        for start, zone in itertools.product(range(len(STARTS)), range(len(ZONES))):
            if tier == 'quick':
                yield ['clock', kind, start, zone, '']
            else:
                for op in OPS:
                    yield ['clock', kind, start, zone, op]
    for zone in range(len(ZONES)):
        yield ['document', zone]


class Machine(object):
    """The time of the machine, to be passed by hand."""

    def __init__(self, start, zone):
        # the time of the day is the local one
        self.zone, self.now = zone, NOON + start - zone

    def __enter__(self):
        self.saved = dict((n, getattr(time, n)) for n in ('time', 'localtime', 'gmtime'))
        gmtime = self.saved['gmtime']
        time.time = staticmethod(lambda: float(self.now))
        time.gmtime = staticmethod(lambda s=None: gmtime(self.now if s is None else s))
        time.localtime = staticmethod(lambda s=None: gmtime((self.now if s is None else s) + self.zone))
        return self

    def __exit__(self, *_):
        for n, f in self.saved.items():
            setattr(time, n, staticmethod(f))

    def local(self):
        return F(self.now) + self.zone


class Model(object):
    def __init__(self, kind, machine):
        self.kind, self.m = kind, machine
        self.fixed, self.mode = None, False
        self.adjust(0, None)

    def adjust(self, t, local):
        n = self.m.local()
        self.zero = n if local is None else n - n % DAY + local    # a moment
        self.of_day = self.zero - (n - n % DAY)
        self.told = F(t)

    def real(self):
        if self.kind == 'local':
            return self.m.local() % DAY
        if self.kind == 'utc':
            return F(self.m.now) % DAY
        return self.told + self.m.local() - self.zero

    def get(self):
        return self.fixed if self.mode else self.real()


def td(t):
    return timedelta(microseconds=int(round(F(t) * 1000000)))


def near(got, want):
    if not isinstance(got, timedelta):
        return False
    return abs(F(got.days) * DAY + got.seconds + F(got.microseconds, 1000000) - F(want)) < F(1, 500000)


def look(clock, model, what, ctx):
    ctx.check(clock.is_fixed_time_mode() is model.mode, 'mode', lambda: '%s: fixed time is %r' % (what(), clock.is_fixed_time_mode()))
    got, real = clock.get_time(), clock.get_real_clock_time()
    # (nothing is said of fixed time before it is set)
    if model.mode is False or model.fixed is not None:
        ctx.check(near(got, model.get()), 'told:' + model.kind, lambda: '%s: it is %s instead of %s' % (what(), got, td(model.get())))
    ctx.check(near(real, model.real()), 'real:' + model.kind, lambda: '%s: the real time is %s instead of %s' % (what(), real, td(model.real())))
    out = [str(got), str(real)]
    if model.kind in ('media', 'smpte'):
        for x in (F(0), F(7200), model.m.local() % DAY):
            got, want = clock.get_media_time(td(x)), model.told + x - model.of_day
            ctx.check(near(got, want), 'media:' + model.kind, lambda: '%s: %s is %s in the media instead of %s' % (what(), td(x), got, td(want)))
            out.append(str(got))
    ctx.state((model.kind, model.mode, tuple(out)))


def refused(f, *args):
    try:
        f(*args)
    except Exception:
        return True
    return False


def play(clock, model, history, ctx, what):
    look(clock, model, lambda: what, ctx)
    for i, op in enumerate(history):
        if op in PASS:
            model.m.now += PASS[op]
        elif op in ADJUST:
            t, ago = ADJUST[op]
            local = None if ago is None else model.m.local() % DAY + ago
            model.adjust(t, local)
            clock.adjust_time(*([td(t)] + ([] if local is None else [td(local)])))
        elif op in FIXED:
            model.fixed = F(str(FIXED[op]))
            clock.set_fixed_time(td(model.fixed))
        elif op in '+-':
            model.mode = op == '+'
            clock.set_fixed_time_mode(model.mode)
        else:
            bad = [(clock.set_fixed_time, 5), (clock.set_fixed_time, '00:00:05'), (clock.set_fixed_time_mode, 1), (clock.set_fixed_time_mode, None)]
            if model.kind in ('media', 'smpte'):
                bad += [(clock.adjust_time, 5), (clock.adjust_time, td(7), 5), (clock.adjust_time, None)]
            for b in bad:
                ctx.check(refused(*b), 'refused', lambda: '%s, %s: %s%r is taken' % (what, history[:i], b[0].__name__, b[1:]))
        ctx.trans()
        look(clock, model, lambda: '%s, %s' % (what, ''.join(history[:i + 1])), ctx)
    ctx.trace()
    ctx.outcome(model.kind)


def make(kind):
    from ebu_tt_live.clocks import get_clock
    return get_clock('clock', clock_mode=kind) if kind in ('local', 'utc') else get_clock(kind)


def clock_run(kind, start, zone, first, ctx):
    ops = [o for o in OPS if kind in ('media', 'smpte') or o not in ADJUST]
    if first and first not in ops:
        return
    for rest in itertools.product(ops, repeat=3 if ctx.tier == 'quick' else 4):
        history = ((first,) if first else ()) + rest
        with Machine(STARTS[start], ZONES[zone]) as m:
            play(make(kind), Model(kind, m), history, ctx, '%s clock at %s, zone %d' % (kind, td(STARTS[start]), ZONES[zone]))


def document_run(zone, ctx):
    """The clock of a sequence is by the time base and clock mode of its documents."""
    from ebu_tt_live.clocks import get_clock_from_document
    from ebu_tt_live.documents import EBUTT3Document, EBUTT3DocumentSequence
    for kind in ('local', 'utc', 'media'):
        xml = tt(u'<tt:body/>', tb='media' if kind == 'media' else 'clock').replace(u'clockMode="local"', u'clockMode="%s"' % kind)
        doc = EBUTT3Document.create_from_xml(xml)
        for how in ('document', 'sequence'):
            ops = [o for o in OPS if kind == 'media' or o not in ADJUST]
            for history in itertools.product(ops, repeat=2):
                with Machine(STARTS[1], ZONES[zone]) as m:
                    if how == 'document':
                        clock = get_clock_from_document(doc)
                    else:
                        clock = EBUTT3DocumentSequence.create_from_document(doc).reference_clock
                    what = 'clock of a %s with %s time' % (how, kind)
                    if not ctx.check(clock is not None, 'made', lambda: 'no ' + what):
                        continue
                    ctx.check((clock.time_base, clock.clock_mode) == (('media', None) if kind == 'media' else ('clock', kind)), 'made', lambda: '%s is of %s, %s' % (what, clock.time_base, clock.clock_mode))
                    play(clock, Model(kind, m), history, ctx, what)


def run(case, ctx):
    {'clock': clock_run, 'document': document_run}[case[0]](*(case[1:] + [ctx]))
