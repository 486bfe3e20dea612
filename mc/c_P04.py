# -*- coding: utf-8 -*-
"""What a window of a sequence shows is what the active document shows at each instant of it; re-sequencing."""
import copy
import itertools
from mini import tt, td, secs, clock
from present import Doc, at, points, BIG
from c_P01 import resolve
from harness import FixedClock, sink

RULE = ('a case is a set of documents with timed, styled content; for every arrival order the real sequence is asked '
        'for every window of a set and what the merged document shows is compared, instant by instant, with what the '
        'document active then shows; re-sequencing nodes are run through every interleaving of arrivals and segment '
        'requests, keeping and discarding; the state is the presentation of a merged segment')
BOUNDS = {
    'quick': '3 documents over 4 intervals each, all arrival orders, 3 windows; 12 styled combinations x 6 orders; all '
             'interleavings of 3 arrivals and 3 segment requests for 12 triples (in order and one other order)',
    'thorough': '3 documents over 9 intervals each, all arrival orders, 9 windows; all interleavings of 4 arrivals and '
                '5 requests for 60 quadruples',
}
ASSUMPTIONS = ['white space is compared collapsed', 'what a document shows is read from its XML by mc/present.py',
               'documents with the same language and root extent']

HEADS = {
    'plain': u'',
    'styled': (u'<tt:styling><tt:style xml:id="s1" tts:color="#{c}0000ff"/><tt:style xml:id="s2" style="s1" tts:fontSize="{c}%"/>'
               u'<tt:style xml:id="s3" tts:backgroundColor="#0000{c}ff"/></tt:styling>'
               u'<tt:layout><tt:region xml:id="r1" tts:origin="{c}% 0%" tts:extent="50% 50%" style="s3"/>'
               u'<tt:region xml:id="r2" tts:origin="0% {c}%" tts:extent="50% 50%"/></tt:layout>'),
    'styleonly': u'<tt:styling><tt:style xml:id="s1" tts:color="#00{c}00ff"/></tt:styling>',
}
BODIES = {
    'plain': u'<tt:body {t}><tt:div><tt:p xml:id="p1">{n} one<tt:br/>{n} two</tt:p></tt:div></tt:body>',
    'styled': (u'<tt:body {t}><tt:div xml:id="d1" style="s2"><tt:p xml:id="p1" region="r1" end="00:00:02">{n} one</tt:p>'
               u'<tt:p xml:id="p2" region="r2" begin="00:00:01"><tt:span xml:id="x" style="s3 s1">{n} two</tt:span> '
               u'<tt:span begin="00:00:01">{n} three</tt:span></tt:p></tt:div>'
               u'<tt:div xml:id="d2" region="r2"><tt:p xml:id="p3" style="s1">{n} four</tt:p></tt:div></tt:body>'),
    'styleonly': u'<tt:body {t}><tt:div><tt:p xml:id="p1" style="s1">{n} one</tt:p></tt:div><tt:div><tt:p xml:id="p2" begin="00:00:01" end="00:00:03">{n} b</tt:p></tt:div></tt:body>',
    'bodystyled': u'<tt:body {t} style="s1"><tt:div><tt:p xml:id="p1">{n} one</tt:p></tt:div></tt:body>',
    'empty': u'<tt:body {t}/>',
}
HEADS['bodystyled'] = HEADS['styleonly']
HEADS['empty'] = HEADS['plain']
BODY_BIG = 10 ** 6
_cache = {}


def make(num, kind, b, e):
    from ebu_tt_live.documents import EBUTT3Document
    key = (num, kind, b, e)
    if key not in _cache:
        t = u'begin="%s"' % clock(b) + (u' end="%s"' % clock(e) if e is not None else u'')
        # '{c}' makes the definitions of each document its own
        xml = tt(BODIES[kind].format(t=t, n='n%d' % num), HEADS[kind].format(c='%02d' % (10 + num)), num=num)
        doc = EBUTT3Document.create_from_xml(xml)
        _cache[key] = doc, Doc(doc.get_xml())
    doc, pres = _cache[key]
    return copy.copy(doc), pres


def cases(tier):
    ivs = [(0, 4), (2, 6), (2, None), (5, 7)] if tier == 'quick' else \
        [(0, 2), (0, 4), (0, None), (2, 4), (2, 6), (4, None), (2, None), (5, 7), (8, 9)]
    wins = [(1, 9), (3, 5), (None, None)] if tier == 'quick' else \
        [(a, z) for a in (None, 0, 3, 4.5) for z in (None, 2, 5, 9) if a is None or z is None or a < z]
    n = 0
    for combo in itertools.product(ivs, repeat=3):
        n += 1
        kinds = [('plain', 'styled', 'styleonly', 'empty')[(n // (1, 3, 9)[i] + i) % 4] for i in range(3)]
        yield ['seq', [list(c) for c in combo], kinds, wins]
    for kinds in itertools.product(('plain', 'styled', 'styleonly'), repeat=3):
        yield ['seq', [[0, 3], [3, 5], [5, 8]], list(kinds), [(0, 9), (2, 4), (4, 6), (7, 20), (10, 11)]]
    for kinds in itertools.product(('bodystyled', 'plain'), repeat=2):
        if 'bodystyled' in kinds:
            yield ['seq', [[0, 3], [3, 5]], list(kinds), [(0, 9), (0, 2), (3, 4)]]
    # re-sequencing: histories of arrivals (in and out of order) and requests
    na, nt = (3, 3) if tier == 'quick' else (4, 5)
    base = [(0, 4), (2, 6), (4, None), (1, 2), (6, 9)]
    combos = list(itertools.product(base, repeat=na))
    step = max(1, len(combos) // (12 if tier == 'quick' else 60))
    for i, combo in enumerate(combos[::step]):
        for order in itertools.permutations(range(na)):
            if tier == 'quick' and order not in ((0, 1, 2), ((1, 0, 2), (2, 1, 0), (0, 2, 1))[i % 3]):
                continue
            if tier == 'thorough' and sum(1 for a, b in itertools.combinations(order, 2) if a > b) > 1:
                continue
            yield ['reseq', [list(c) for c in combo], [('plain', 'styled', 'styleonly')[(i + j) % 3] for j in range(na)],
                   list(order), nt, 3]


def expected(present, pres, lo, hi):
    want = resolve(present)
    out = []
    for num, (b, e) in sorted(want.items()):
        a, z = max(lo, b), min(hi, BIG if e >= BODY_BIG else e)
        if a < z:
            out += pres[num].pieces(lo=a, hi=z)
    return out


def compare(xml, lo, hi, present, pres, ctx, what, sig):
    got = Doc(xml)
    gp = got.pieces()
    wp = expected(present, pres, lo, hi)
    ctx.state(gp)
    for t in sorted(set(points(gp, wp) + [lo])):
        # more than one paragraph may show at once; their order is that of the document
        g, w = at(gp, t), at(wp, t)
        if g != w:
            kind = 'text' if [x[1] for x in g] != [x[1] for x in w] else 'style'
            ctx.fail('shown:%s:%s' % (sig, kind), '%s shows at %s: %r should be %r' % (what, t, g, w))
            break
    for err in got.ref_errors():
        ctx.fail('refs:' + sig, '%s: %s' % (what, err))
        break
    return got


def sequence(case, ctx):
    from ebu_tt_live.documents import EBUTT3DocumentSequence
    _, ivs, kinds, wins = case
    n = len(ivs)
    sig = 'bodystyle' if 'bodystyled' in kinds else 'seq'
    for order in itertools.permutations(range(n)):
        seq, present, pres, objs = None, {}, {}, {}
        for i in order:
            b, e = ivs[i]
            doc, p = make(i + 1, kinds[i], b, e)
            present[i + 1], pres[i + 1], objs[i + 1] = (b, e), p, doc
            if seq is None:
                seq = EBUTT3DocumentSequence.create_from_document(doc)
            seq.add_document(doc)
            ctx.trans()
        for k, (a, z) in enumerate(wins):
            if n == 3 and len(wins) == 4 and (k + sum(order[:2])) % 2 and order != (0, 1, 2):
                continue
            what = 'window [%s, %s) of arrivals %s' % (a, z, [(i + 1, kinds[i]) + tuple(ivs[i]) for i in order])
            merged = seq.extract_segment(begin=td(a), end=td(z), sequence_number=7)
            ctx.trans()
            ctx.trace()
            compare(merged.get_xml(), 0 if a is None else a, BIG if z is None else z, present, pres, ctx, what, sig)
            ctx.check(merged.sequence_number == 7, 'number', '%s has number %s' % (what, merged.sequence_number))
        # asking changes nothing
        want = resolve(present)
        got = dict((m, (secs(o.resolved_begin_time), secs(o.resolved_end_time))) for m, o in objs.items())
        exp = dict((m, (b, None if e >= BODY_BIG else e)) for m, (b, e) in want.items() if b < e)
        ctx.check(all(got[m] == exp[m] for m in exp), 'asking', 'asking changed the resolution %r to %r' % (exp, got))
    ctx.outcome('%s' % sig)


def resequence(case, ctx):
    from ebu_tt_live.node import ReSequencer
    from ebu_tt_live.documents import EBUTT3Document
    _, ivs, kinds, order, nt, length = case
    na = len(order)
    for where in itertools.combinations(range(na + nt), na):
        outs = {}
        for discard in (True, False):
            out = sink(EBUTT3Document)
            clk = FixedClock()
            node = ReSequencer('reseq', reference_clock=clk, segment_length=length, discard=discard,
                               sequence_identifier='outseq', producer_carriage=out)
            present, pres, todo, n, sofar = {}, {}, list(order), 0, []
            ok = True
            for step in range(na + nt):
                if step in where:
                    i = todo.pop(0)
                    doc, p = make(i + 1, kinds[i], *ivs[i])
                    doc.availability_time = td(0)
                    node.process_document(doc)
                    present[i + 1], pres[i + 1] = tuple(ivs[i]), p
                    sofar.append((i + 1, kinds[i]) + tuple(ivs[i]))
                else:
                    node.convert_next_segment()
                    sofar.append('segment')
                ctx.trans()
                if step in where:
                    ctx.check(len(out.got) == n, 're-emitted', '%r: a document arriving made the node emit' % (sofar,))
                    continue
                if not present:
                    ok = ok and ctx.check(len(out.got) == 0, 're-early', '%r: emitted before any document' % (sofar,))
                    continue
                n += 1
                what = 'segment %d of length %s (%s) after %r' % (n, length, 'discarding' if discard else 'keeping', sofar)
                if not ctx.check(len(out.got) == n, 're-missing', '%s: %d documents were emitted' % (what, len(out.got))):
                    ok = False
                    break
                doc = out.got[-1]
                ctx.check(doc.sequence_number == n, 're-number', '%s is numbered %s' % (what, doc.sequence_number))
                ctx.check(doc.sequence_identifier == 'outseq', 're-id', '%s is of sequence %s' % (what, doc.sequence_identifier))
                xml = doc.get_xml()
                compare(xml, (n - 1) * length, n * length, present, pres, ctx, what, 're')
                outs.setdefault(n, []).append(xml)
            ctx.trace()
        for k, xs in outs.items():
            a, b = [Doc(x).pieces() for x in xs] if len(xs) == 2 else (0, 1)
            ctx.check(a == b, 're-discard', 'segment %d of %r differs with discarding' % (k, sofar))
    ctx.outcome('reseq')


def run(case, ctx):
    (sequence if case[0] == 'seq' else resequence)(case, ctx)
