# -*- coding: utf-8 -*-
"""Retiming delay: every computed time moves by exactly the delay, nothing else changes."""
import itertools
from mini import tt, td, secs, clock, parse
from reftime import E, compute, to_xml
from c_P02 import shapes as base_shapes, label, skipped, N
from harness import sink, source

RULE = ('every assignment of timing attributes from the alphabet to the elements of each tree shape is sent through a '
        'real retiming node with each delay, in both time bases; the computed times of the emitted document, and of '
        'the document its XML reads back as, are compared with the computed times before plus the delay; the state is '
        'the tree of computed times')
BOUNDS = {
    'quick': '10 shapes of up to 6 timed elements; up to 8 begin/end pairs an element, 2 durations of the body; delays '
             '0, 3, 10.5 and 3600 s in turn; clock and media',
    'thorough': 'as quick with 8 pairs on every element of the shapes of up to 4 elements, 6 on the larger ones, and every delay',
}
ASSUMPTIONS = ['reference rules of computed times: mc/reftime.py, itself checked against the implementation by P02',
               'documents that have become available no later than time 0 of their time base',
               'values of elements whose own end is not after their begin, and of what is inside them, are not compared']

A = [(N, N), (4, N), (N, 10), (4, 10), (0, 4), (9, 10), (N, 4), (10, 9)]
B = [(N, N), (4, N), (N, 10), (9, 10)]
C = [(N, N), (4, 10)]
PAIRS = {'A': A, 'B': B, 'C': C, 'A6': A[:6]}


def shapes():
    s = dict(base_shapes())
    s['bdpspp'] = lambda: E('body', [E('div', [E('p', [E('span', [E('span', [u'q'])])]), E('p', [u'r'])])])
    s['bdspan2'] = lambda: E('body', [E('div', [E('p', [E('span', [u'q']), u'<br>', E('span', [u'r'])])]), E('div', [E('p', [u't'])])])
    return s


def plan(tier):
    if tier == 'thorough':
        return [('bdp', 'AAA', [N, 3, 20]), ('bdpp', 'AAAA', [N, 20]), ('bdps', 'AAAA', [N, 20]), ('bddp', 'AAAA', [N]),
                ('bdpdp', 'BABAB', [N]), ('bdpss', 'BABBB', [N, 20]), ('bdpspp', 'BBBBBB', [N]), ('bdspan2', 'BBBBCBB', [N])]
    return [('bdp', 'BAA', [N, 20]), ('bdpp', 'BBBB', [N]), ('bdps', 'BBBB', [N]), ('bddp', 'BBBB', [N]),
            ('bdpdp', 'CCBBB', [N, 20]), ('bdpss', 'CCBBB', [N]), ('bdpspp', 'CCBBBB', [N]), ('bdspan2', 'CCCBBCB', [N])]


def cases(tier):
    n = 0
    delays = (3, 10.5, 3600, 0)
    for shape, pairs, durs in plan(tier):
        for dur in durs:
            outer = len(pairs) - 2
            for combo in itertools.product(*[PAIRS[p] for p in pairs[:outer]]):
                n += 1
                for d in (delays if tier == 'thorough' else (delays[n % 4],)):
                    yield [shape, dur, [list(c) for c in combo], pairs[outer:], d, ('clock', 'media')[n % 2]]
    yield ['message']


HEAD = (u'<tt:styling><tt:style xml:id="s1" tts:color="#ff0000ff"/></tt:styling>'
        u'<tt:layout><tt:region xml:id="r1" tts:origin="0% 0%" tts:extent="50% 50%"/></tt:layout>')


def build(delay):
    from ebu_tt_live.node.delay import RetimingDelayNode
    from ebu_tt_live.documents import EBUTT3Document
    out, inp = sink(EBUTT3Document), source(EBUTT3Document)
    RetimingDelayNode(node_id='d', fixed_delay=delay, document_sequence='delayed', producer_carriage=out, consumer_carriage=inp)
    return inp, out


def times(doc, tree, skip):
    got = []
    for el in tree.walk():
        if el.kind == 'body':
            o = doc
        elif el.name in skip:
            continue
        else:
            o = doc.get_element_by_id(el.name)
        got.append((el.name, secs(o.computed_begin_time), secs(o.computed_end_time)))
    return got


def bare(xml):
    """The document without its times, its sequence identifier and the note of the processing."""
    root = parse(xml)
    for n in root.iter():
        for k in ('begin', 'end', 'dur', 'sequenceIdentifier'):
            n.attrs.pop(k, None)
        n.children = [c for c in n.children if getattr(c, 'tag', None) != 'appliedProcessing']
    return root.canon(strip=True)


def plus(t, d):
    return None if t is None else (int(t + d) if t + d == int(t + d) else t + d)


def run(case, ctx):
    from ebu_tt_live.documents import EBUTT3Document
    from ebu_tt_live.bindings import ebuttdt
    if case[0] == 'message':
        return message(ctx)
    shape, dur, combo, inner, delay, tb = case
    tree = shapes()[shape]()
    label(tree)
    els = list(tree.walk())
    tree.dur = dur
    tree.extra['style'] = 's1'
    doc = None
    n = 0
    for vals in itertools.product(*([[c] for c in combo] + [PAIRS[p] for p in inner])):
        for el, (b, e) in zip(els, vals):
            el.b, el.e = b, e
        n += 1
        if doc is None:
            doc = EBUTT3Document.create_from_xml(tt(to_xml(tree), head=HEAD, tb=tb, seq='in', num=7, extra='ebuttm:authoringDelay="3s"'))
        else:
            for el in els:
                o = doc.binding.body if el.kind == 'body' else doc.get_element_by_id(el.name)
                for name, v in (('begin', el.b), ('end', el.e)):
                    setattr(o, name, None if v is None else doc.binding.get_timing_type(td(v)))
            doc.binding.body.dur = None if dur is None else doc.binding.get_timing_type(td(dur))
            doc.sequence_identifier = 'in'
            doc.binding.head.metadata.documentMetadata.appliedProcessing = None
            doc.validate()
        compute(tree)
        skip = skipped(tree)
        what = 'delay %s, %s: %s' % (delay, tb, to_xml(tree))
        want = [('document' if el.kind == 'body' else el.name, plus(el.cb, delay), plus(el.ce, delay))
                for el in tree.walk() if el.kind == 'body' or el.name not in skip]
        leaves = [el for el in tree.walk() if not el.timed_kids() and el.kind in ('p', 'span') and el.name not in skip]
        if tree.bad() or not leaves:
            # the timing of the body counts for nothing, or nothing has an effect: no claim
            ctx.count('without effect')
            continue
        before = doc.get_xml() if n % 8 == 1 else None
        inp, out = build(delay)
        ctx.trans()
        inp.on_new_data(doc)
        if not ctx.check(len(out.got) == 1, 'count', '%s: %d documents emitted' % (what, len(out.got))):
            return
        res = out.got[0]
        ctx.trace()
        got = [('document',) + x[1:] if i == 0 else x for i, x in enumerate(times(res, tree, skip))]
        ctx.state(got)
        ctx.outcome('end %s' % ('none' if got[0][2] is None else 'set'))
        if got != want:
            bad = [(g, w) for g, w in zip(got, want) if g != w][0]
            ctx.fail('shifted:%s%s' % (bad[0][0][0], '' if dur is None else ':dur'), '%s: (element, begin, end) %r should be %r' % (what, bad[0], bad[1]))
            continue
        ctx.equal((res.sequence_identifier, res.sequence_number, res.time_base), ('delayed', 7, tb), 'identity', what)
        if before is not None:
            xml = res.get_xml()
            ctx.check(bare(xml) == bare(before), 'changed', lambda: '%s: something else than times changed' % what)
            notes = [x for x in parse(xml).iter('appliedProcessing')]
            ctx.check(len(notes) == 1, 'note', '%s: %d notes of processing' % (what, len(notes)))
            again = EBUTT3Document.create_from_xml(xml)
            got2 = times(again, tree, skip)
            ctx.check([x[1:] for x in got2] == [x[1:] for x in got], 'reread', lambda: '%s: written and read the times are %r not %r' % (what, got2, got))
            # two delays one after the other add up
            again.sequence_identifier = 'between'
            inp, out = build(2)
            inp.on_new_data(again)
            got3 = [x[1:] for x in times(out.got[0], tree, skip)]
            ctx.check(got3 == [(plus(a, 2), plus(z, 2)) for _, a, z in got], 'twice', lambda: '%s: delayed again by 2: %r' % (what, got3))


def message(ctx):
    from ebu_tt_live.documents import EBUTTAuthorsGroupControlRequest
    for delay in (0, 5):
        inp, out = build(delay)
        m = EBUTTAuthorsGroupControlRequest(sequence_identifier='delayed', sender='a', recipient=['b'], payload='x')
        inp.on_new_data(m)
        ctx.trans()
        ctx.trace()
        ctx.check(out.got == [m], 'message', 'a message is passed on')
