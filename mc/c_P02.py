# -*- coding: utf-8 -*-
"""Computed times of every timed element and of the document, against the reference rules."""
import itertools
from mini import tt, td, secs, clock
from reftime import E, compute, to_xml

RULE = ('every assignment of timing attributes from the alphabet to the elements of each tree shape, for each '
        'availability time, time base and time notation; each is read from XML or set on the document and '
        're-validated; the state is the tree of computed times')
BOUNDS = {
    'quick': 'trees of up to 6 timed elements and depth 5 (8 shapes); up to 16 begin/end pairs an element, 4 body '
             'durations; availability {none, 2, 7}; clock and media; 4 notations',
    'thorough': 'as quick with the full product of the alphabets on every shape and 3 availability times',
}
ASSUMPTIONS = ['reference rules: computed-time algorithm of EBU Tech 3370 as written down in mc/reftime.py',
               'values of elements whose own end is not after their begin, and of what is inside them, are not compared']

N = None


def shapes():
    def P(*k, **a):
        return E('p', k or [u'x'], **a)

    def S(*k):
        return E('span', k or [u'y'])

    def D(*k):
        return E('div', k)

    def B(*k):
        return E('body', k)
    return {
        'b': lambda: B(),
        'bd': lambda: B(D()),
        'bdp': lambda: B(D(P())),
        'bdpp': lambda: B(D(P(), P())),
        'bdps': lambda: B(D(P(S()))),
        'bdpss': lambda: B(D(P(S(), S()))),
        'bdpdp': lambda: B(D(P()), D(P())),
        'bddp': lambda: B(D(D(P()))),
        'bdpsps': lambda: B(D(P(u'm', S()), P())),
    }


PAIRS = {
    # begin, end; 9/10 and 99/100 are out of order as text
    'full': [(b, e) for b in (N, 0, 4, 9) for e in (N, 0, 4, 10)],
    'mid': [(N, N), (4, N), (N, 10), (4, 10), (0, 4), (9, 10), (10, 9), (N, 4)],
    'low': [(N, N), (4, N), (N, 10), (9, 10)],
    'one': [(N, N), (1, 12)],
}


def plan(tier):
    """shape, pairs for each element from the body down, body durations"""
    if tier == 'thorough':
        return [
            ('b', ['full'], [N, 0, 3, 20]),
            ('bd', ['full', 'full'], [N, 0, 3, 20]),
            ('bdp', ['full', 'full', 'full'], [N, 0, 3, 20]),
            ('bdpp', ['mid', 'mid', 'mid', 'mid'], [N, 3]),
            ('bdps', ['mid', 'mid', 'mid', 'mid'], [N, 3]),
            ('bddp', ['mid', 'mid', 'mid', 'mid'], [N, 3]),
            ('bdpss', ['low', 'low', 'mid', 'mid', 'mid'], [N]),
            ('bdpdp', ['low', 'mid', 'low', 'mid', 'mid'], [N]),
            ('bdpsps', ['low', 'low', 'mid', 'mid', 'mid'], [N]),
        ]
    return [
        ('b', ['full'], [N, 0, 3, 20]),
        ('bd', ['full', 'mid'], [N, 3, 20]),
        ('bdp', ['mid', 'low', 'full'], [N, 3]),
        ('bdpp', ['low', 'low', 'mid', 'mid'], [N]),
        ('bdps', ['low', 'low', 'mid', 'mid'], [N]),
        ('bddp', ['low', 'low', 'mid', 'mid'], [N]),
        ('bdpss', ['one', 'low', 'low', 'low', 'low'], [N]),
        ('bdpdp', ['one', 'low', 'low', 'low', 'low'], [N]),
        ('bdpsps', ['one', 'low', 'low', 'low', 'low'], [N]),
    ]


def cases(tier):
    n = 0
    for shape, pairs, durs in plan(tier):
        for dur in durs:
            # the last two levels are explored inside one case
            outer = max(1, len(pairs) - 2)
            for combo in itertools.product(*[PAIRS[p] for p in pairs[:outer]]):
                avails = (N, 2, 7) if (tier == 'thorough' or shape in ('b', 'bd')) else ((N, 7)[n % 2], 2)[:1 + (shape == 'bdp')]
                for avail in avails:
                    for tb, scale in ([('clock', 'clock'), ('media', 's'), ('clock', 'mix'), ('media', 'ms')]
                                      if shape in ('b', 'bd') else [[('clock', 's'), ('media', 'clock'), ('clock', 'clock'), ('media', 'mix')][n % 4]]):
                        yield [shape, dur, combo, pairs[outer:], avail, tb, scale]
                    n += 1
    # notations that sort differently as text than as time
    for tb, vals in (('media', ['99:59:59', '100:00:00', '100h', '359999s']),
                     ('clock', ['99:59:59', '9s', '10s', '00:00:09', '00:00:10', '9500ms', '0.5m', '1h']),
                     ('media', ['00:01:00', '60.5s', '1.5m', '99999ms', '00:01:00.9'])):
        for b in vals:
            for e in vals:
                yield ['text', tb, b, e]


def label(tree):
    for i, el in enumerate(tree.walk()):
        el.name = '%s%d' % (el.kind[0], i)


def skipped(tree):
    out = set()

    def go(el, inside):
        if el.kind != 'body':
            inside = inside or el.bad()
        if inside:
            out.add(el.name)
        for k in el.timed_kids():
            go(k, inside)
    go(tree, False)
    return out


def compare(doc, tree, ctx, what):
    skip = skipped(tree)
    got, want = [], []
    for el in tree.walk():
        if el.kind == 'body':
            o = doc
        elif el.name in skip:
            continue
        else:
            o = doc.get_element_by_id(el.name)
        got.append((el.name, secs(o.computed_begin_time), secs(o.computed_end_time)))
        want.append((el.name, el.cb, el.ce))
    ctx.state(got)
    ctx.trace()
    ctx.outcome('end %s' % ('none' if got[0][2] is None else 'set'))
    if got != want:
        bad = [(g, w) for g, w in zip(got, want) if g != w][0]
        ctx.fail('computed:%s' % bad[0][0][0], '%s: (element, begin, end) %r should be %r' % (what, bad[0], bad[1]))


def seconds_of(text):
    for unit, f in (('ms', 0.001), ('h', 3600), ('m', 60), ('s', 1)):
        if text.endswith(unit):
            return float(text[:-len(unit)]) * f
    h, m, s = text.split(':')
    return int(h) * 3600 + int(m) * 60 + float(s)


def run(case, ctx):
    from ebu_tt_live.documents import EBUTT3Document
    from ebu_tt_live.bindings import ebuttdt
    if case[0] == 'text':
        _, tb, b, e = case
        xml = tt('<tt:body><tt:div xml:id="d"><tt:p xml:id="p" begin="%s" end="%s">x</tt:p></tt:div></tt:body>' % (b, e), tb=tb)
        doc = EBUTT3Document.create_from_xml(xml)
        sb, se = seconds_of(b), seconds_of(e)
        got = (secs(doc.computed_begin_time), secs(doc.computed_end_time))
        # a paragraph that never starts does not count
        want = (sb, se) if se > sb else (0, None)
        ctx.trans()
        ctx.trace()
        ctx.state((case, got))
        ctx.check(abs(got[0] - want[0]) < 1e-6 and (got[1] == want[1] or got[1] is not None and want[1] is not None and abs(got[1] - want[1]) < 1e-6),
                  'computed:text', 'p begin=%s end=%s: document times %r should be %r' % (b, e, got, want))
        return
    shape, dur, combo, inner, avail, tb, scale = case
    tree = shapes()[shape]()
    label(tree)
    els = list(tree.walk())
    for el, (b, e) in zip(els, combo):
        el.b, el.e = b, e
    tree.dur = dur
    inner_els = els[len(combo):]
    doc = None
    for vals in itertools.product(*[PAIRS[p] for p in inner]):
        for el, (b, e) in zip(inner_els, vals):
            el.b, el.e = b, e
        compute(tree, avail or 0)
        ctx.trans()
        if doc is None:
            xml = tt(to_xml(tree, scale), tb=tb)
            doc = EBUTT3Document.create_from_xml(xml, availability_time=td(avail))
            compare(doc, tree, ctx, 'read, available at %s: %s' % (avail, to_xml(tree, scale)))
            continue
        for el in inner_els:
            o = doc.get_element_by_id(el.name)
            for name, v in (('begin', el.b), ('end', el.e)):
                if v is None:
                    setattr(o, name, None)
                elif scale in ('s', 'ms', 'mix'):
                    setattr(o, name, ebuttdt.TimecountTimingType(td(v)))
                else:
                    setattr(o, name, doc.binding.get_timing_type(td(v)))
        doc.validate()
        compare(doc, tree, ctx, 'changed, available at %s: %s' % (avail, to_xml(tree, scale)))
    # becoming available later re-computes everything
    for later in (3, 30):
        compute(tree, later)
        doc.availability_time = td(later)
        ctx.trans()
        compare(doc, tree, ctx, 'available at %s: %s' % (later, to_xml(tree, scale)))
    # and going through XML again changes nothing
    again = EBUTT3Document.create_from_xml(doc.get_xml(), availability_time=td(30))
    ctx.trans()
    compare(again, tree, ctx, 'written and read, available at 30: %s' % to_xml(tree, scale))
