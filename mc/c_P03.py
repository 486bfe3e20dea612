# -*- coding: utf-8 -*-
"""Segments cut out of one document show exactly what the document shows in that time."""
import itertools
from mini import tt, td, secs, clock, Node
from reftime import E, to_xml
from present import Doc, at, points, BIG

RULE = ('every document of the enumerated timing, styling and content families, cut at every pair of points (also '
        'open-ended); what the segment shows at every instant is compared with what the document shows there, and '
        'the document is compared with itself before; the state is the presentation of a segment')
BOUNDS = {
    'quick': '6 tree shapes with up to 8 timings an element x 30 windows; styling: references from body, div, inner '
             'div, p, span and region to 7 styles with nesting, 2 windows; content: text, br, spans, language, '
             'white space, metadata; clock and media; with and without renamed ids',
    'thorough': 'the same with the full product of timings and all windows',
}
ASSUMPTIONS = ['white space is compared collapsed', 'what a document shows is read from its XML by mc/present.py']

N = None
HEAD_STYLES = (
    u'<tt:style xml:id="s1" tts:color="#ff0000ff"/>'
    u'<tt:style xml:id="s2" tts:backgroundColor="#00ff00ff" style="s1"/>'
    u'<tt:style xml:id="s3" tts:fontSize="50%" tts:fontFamily="monospace"/>'
    u'<tt:style xml:id="s4" style="s2 s3" tts:lineHeight="normal" tts:textAlign="center"/>'
    u'<tt:style xml:id="s5" ebutts:multiRowAlign="end" ebutts:linePadding="1c" tts:padding="1px 2px" tts:direction="rtl" '
    u'tts:unicodeBidi="embed" tts:wrapOption="noWrap" tts:textDecoration="underline" tts:fontWeight="bold" tts:fontStyle="italic"/>'
    u'<tt:style xml:id="s6" tts:color="#0000ffff"><tt:metadata/></tt:style>'
    u'<tt:style xml:id="unused" tts:color="#0000ffff"/>')
HEAD_REGIONS = (
    u'<tt:region xml:id="r1" tts:origin="0% 0%" tts:extent="100% 50%" style="s6"/>'
    u'<tt:region xml:id="r2" tts:origin="1c 2c" tts:extent="10c 3c" tts:displayAlign="after" tts:padding="1px" '
    u'tts:writingMode="lrtb" tts:showBackground="always" tts:overflow="visible" style="s5 s4"/>'
    u'<tt:region xml:id="r3" tts:origin="0% 0%" tts:extent="10% 10%"/>')


def P(*k, **a):
    return E('p', k or [u'tp'], **a)


def S(*k, **a):
    return E('span', k or [u'ts'], **a)


def D(*k, **a):
    return E('div', k, **a)


def B(*k, **a):
    return E('body', k, **a)


SHAPES = {
    'bdp': lambda: B(D(P())),
    'bdpp': lambda: B(D(P(u'one'), P(u'two'))),
    'bdps': lambda: B(D(P(S()))),
    'bdpss': lambda: B(D(P(S(u'one'), '<br>', S(u'two')))),
    'bdpdp': lambda: B(D(P(u'one')), D(P(u'two'))),
    'bddp': lambda: B(D(D(P(u'deep')), P(u'after'))),
    'bdpsss': lambda: B(D(P(S(S(u'in')), S(u'x')))),
}
PAIRS = {
    'full': [(b, e) for b in (N, 0, 2, 4) for e in (N, 3, 6)],
    'mid': [(N, N), (2, N), (N, 6), (2, 6), (4, 3), (0, 3)],
    'low': [(N, N), (2, 6), (4, N)],
    'leaf': [(2, 6), (N, 3), (4, 5)],
    'one': [(N, N), (1, 8)],
}
PLAN = {
    'quick': [('bdp', ['mid', 'low', 'full']), ('bdpp', ['one', 'low', 'mid', 'leaf']), ('bdps', ['one', 'low', 'mid', 'leaf']),
              ('bdpss', ['one', 'one', 'low', 'leaf', 'leaf']), ('bdpdp', ['one', 'low', 'leaf', 'low', 'leaf']),
              ('bddp', ['one', 'low', 'low', 'leaf', 'leaf']), ('bdpsss', ['one', 'one', 'low', 'one', 'leaf', 'leaf'])],
    'thorough': [('bdp', ['full', 'full', 'full']), ('bdpp', ['mid', 'mid', 'mid', 'mid']), ('bdps', ['mid', 'mid', 'mid', 'mid']),
                 ('bdpss', ['one', 'low', 'mid', 'mid', 'mid']), ('bdpdp', ['one', 'mid', 'low', 'mid', 'mid']),
                 ('bddp', ['one', 'low', 'mid', 'mid', 'mid']), ('bdpsss', ['one', 'low', 'low', 'mid', 'mid', 'low'])],
}
WIN_ALL = [(a, z) for a in (0, 1, 2, 2.5, 3, 4, 5, 6, 7, 9) for z in (1, 2, 3, 3.5, 4, 5, 6, 8, 12) if a < z]
WIN_FEW = [(0, 12), (2, 4), (3, 6), (2.5, 3.5), (5, 9), (7, 8)]


def contents():
    """bodies of various content, complete with timing"""
    t = u'begin="00:00:02" end="00:00:06"'
    yield u'<tt:body><tt:div><tt:p xml:id="p" %s>a<tt:br/>b</tt:p></tt:div></tt:body>' % t
    yield u'<tt:body><tt:div><tt:p xml:id="p" %s xml:lang="de" xml:space="preserve">a<tt:span>b</tt:span></tt:p></tt:div></tt:body>' % t
    yield u'<tt:body ttm:role="caption"><tt:div ttm:role="x-d" xml:id="d"><tt:p xml:id="p" ttm:role="sound"><tt:span %s xml:id="s" xml:lang="fr" xml:space="default" ttm:role="mood">é&amp;&lt;ü</tt:span></tt:p></tt:div></tt:body>' % t
    yield u'<tt:body><tt:div><tt:metadata/><tt:p xml:id="p" %s><tt:metadata/><tt:span><tt:metadata/>x<tt:br/>y</tt:span></tt:p></tt:div></tt:body>' % t
    yield u'<tt:body><tt:metadata/><tt:div/><tt:div><tt:p xml:id="p" %s>z</tt:p></tt:div></tt:body>' % t
    yield u'<tt:body><tt:div><tt:p xml:id="p1" %s/><tt:p xml:id="p2" %s><tt:span/></tt:p><tt:p xml:id="p3" %s><tt:br/></tt:p></tt:div></tt:body>' % (t, t, t)
    yield u'<tt:body/>'
    yield u'<tt:body><tt:div/></tt:body>'
    yield u'<tt:body begin="00:00:01" end="00:00:03"/>'
    yield u'<tt:body begin="00:00:01" dur="00:00:03"><tt:div><tt:p xml:id="p">z</tt:p></tt:div></tt:body>'
    yield u'<tt:body dur="00:00:03"><tt:div><tt:p xml:id="p">z</tt:p></tt:div></tt:body>'
    yield u'<tt:body><tt:div><tt:p xml:id="p">forever</tt:p></tt:div></tt:body>'
    yield u'<tt:body><tt:div><tt:p xml:id="p" begin="00:00:04">forever<tt:br/>more</tt:p><tt:p xml:id="q" %s>z</tt:p></tt:div></tt:body>' % t


ROOTS = ['xml:space="preserve"', 'xml:space="default" ttp:frameRate="25" ttp:frameRateMultiplier="1000 1001"',
         'ebuttp:authorsGroupIdentifier="g" ebuttp:authorsGroupControlToken="4"', 'ebuttm:authorsGroupSelectedSequenceIdentifier="x"',
         'ebuttp:referenceClockIdentifier="urn:clk"', 'tts:extent="10px 20px"', 'ebuttm:authoringDelay="-1.5s"', '']
META = (u'<ebuttm:documentMetadata><ebuttm:documentIdentifier>i</ebuttm:documentIdentifier><ebuttm:appliedProcessing process="p" generatedBy="g"/></ebuttm:documentMetadata>'
        u'<ttm:agent xml:id="ag"><name type="full">A B</name></ttm:agent><x:y xmlns:x="urn:x">t<x:z/>u</x:y>')


def cases(tier):
    n = 0
    for i, body in enumerate(contents()):
        for tb in ('clock', 'media'):
            yield ['content', body, tb]
    for extra in ROOTS:
        for tb in ('clock', 'media'):
            if tb == 'clock' or 'Clock' not in extra:
                yield ['content', next(contents()), tb, extra]
    yield ['mixed', u'<tt:body><tt:div><tt:p xml:id="p" begin="00:00:01" end="00:00:09">out<tt:span begin="00:00:02" end="00:00:04">in</tt:span></tt:p></tt:div></tt:body>', 'clock']
    for body in gap_bodies():
        for tb in ('clock', 'media'):
            yield ['gap', body, tb]
    refs = [None, 's1', 's2', 's4', 's5', 's3 s1', 's1 s2']
    regs = [None, 'r1', 'r2']
    # styling of one branch, with a sibling that has its own
    for bd in (None, 's2', 's4'):
        for d in refs:
            for p in (None, 's4', 's6'):
                for s in (None, 's1', 's5', 's3 s1'):
                    if tier == 'quick' and (n % 3):
                        n += 1
                        continue
                    n += 1
                    yield ['style', bd, d, p, s, regs[n % 3], regs[(n // 3) % 3]]
    for shape, pairs in PLAN[tier]:
        for combo in itertools.product(*[PAIRS[p] for p in pairs]):
            n += 1
            if tier == 'thorough':
                wins = WIN_ALL
            else:
                wins = [WIN_ALL[(n * 7 + j * 11) % len(WIN_ALL)] for j in range(2)] + [WIN_FEW[n % len(WIN_FEW)]]
            yield ['time', shape, combo, ('clock', 'media')[n % 2], (None, None, 3)[n % 3], wins, n % 2]
    # every window on a few
    for combo in itertools.product(PAIRS['leaf'], PAIRS['leaf']):
        yield ['time', 'bdpp', [(N, N), (1, 8)] + list(combo), 'clock', None, WIN_ALL + [(None, 4), (2, None), (None, None)], 1]


def gap_bodies():
    """containers that last longer than what is in them"""
    for st in (None, 's4'):
        for rg in (None, 'r2'):
            a = (u' style="%s"' % st if st else u'') + (u' region="%s"' % rg if rg else u'')
            yield u'<tt:body><tt:div begin="00:00:00" end="00:00:10"%s><tt:p xml:id="p" begin="00:00:00" end="00:00:01">x</tt:p></tt:div></tt:body>' % a
            yield u'<tt:body style="s1"><tt:div><tt:p xml:id="p" begin="00:00:00" end="00:00:10"%s><tt:span begin="00:00:00" end="00:00:01"%s>x</tt:span><tt:span begin="00:00:05" end="00:00:06">y</tt:span></tt:p></tt:div></tt:body>' % (a, u' style="s2"' if st else u'')
            yield u'<tt:body><tt:div begin="00:00:00" end="00:00:10"%s><tt:div begin="00:00:00" end="00:00:10"%s><tt:p xml:id="p" begin="00:00:06" end="00:00:07">x</tt:p></tt:div><tt:p xml:id="pz" begin="00:00:01" end="00:00:02">z</tt:p></tt:div></tt:body>' % (a, u' style="s6"' if st else u'')
            yield u'<tt:body end="00:00:10"><tt:div><tt:div%s/><tt:div><tt:p xml:id="pe"%s/></tt:div><tt:p xml:id="pz" begin="00:00:01" end="00:00:02">z</tt:p></tt:div></tt:body>' % (a, a)
            yield u'<tt:body end="00:00:10"><tt:div><tt:p xml:id="pz" begin="00:00:03" end="00:00:09"><tt:span%s/></tt:p><tt:p xml:id="pq" begin="00:00:01" end="00:00:02">z</tt:p></tt:div></tt:body>' % (u' style="s2"' if st else u'')


def style_body(bd, d, p, s, r1, r2):
    def a(style=None, region=None):
        return (u' style="%s"' % style if style else u'') + (u' region="%s"' % region if region else u'')
    return (u'<tt:body%s><tt:div xml:id="d1"%s><tt:div xml:id="d2"%s><tt:p xml:id="p1"%s begin="00:00:01" end="00:00:05"><tt:span xml:id="x1"%s>A</tt:span></tt:p></tt:div></tt:div>'
            u'<tt:div xml:id="d3"%s><tt:p xml:id="p2"%s begin="00:00:03" end="00:00:08">B</tt:p><tt:p xml:id="p3" begin="00:00:06" end="00:00:08"%s>C</tt:p></tt:div></tt:body>'
            % (a(bd), a(d, r1 if r1 != 'r2' else None), a(None, r2 if r1 != 'r1' else None), a(p, None if (r1 == 'r1' or r2) else r1), a(s),
               a(s and s.split()[0]), a(d, r2), a(None, 'r3')))


def run(case, ctx):
    from ebu_tt_live.documents import EBUTT3Document
    kind = case[0]
    head = u'<tt:styling>%s</tt:styling><tt:layout>%s</tt:layout>' % (HEAD_STYLES, HEAD_REGIONS)
    avail, wins, decon = None, WIN_FEW, 1
    if kind in ('content', 'mixed', 'gap'):
        extra = 'ttp:cellResolution="50 30" tts:extent="600px 400px" ebuttm:authoringDelay="2s"'
        xml = tt(case[1], head, tb=case[2], extra=extra if len(case) < 4 else 'ttp:cellResolution="50 30" ' + case[3])
        if len(case) > 3:
            xml = xml.replace(u'<ebuttm:documentMetadata/>', META)
        wins = WIN_FEW + [(1, 3), (0, 1), (None, 3), (3, None), (None, None), (10, None)]
    elif kind == 'style':
        xml = tt(style_body(*case[1:]), head)
        wins = [(0, 9), (5, 7), (1, 2), (6, 8)]
    else:
        _, shape, combo, tb, avail, wins, decon = case
        tree = SHAPES[shape]()
        for i, (el, (b, e)) in enumerate(zip(tree.walk(), combo)):
            el.b, el.e, el.name = b, e, '%s%d' % (el.kind[0], i)
        xml = tt(to_xml(tree), tb=tb)
    doc = EBUTT3Document.create_from_xml(xml, availability_time=td(avail))
    before = doc.get_xml()
    orig = Doc(before, avail or 0)
    opieces = orig.pieces()
    for a, z in wins:
        try:
            seg = doc.extract_segment(begin=td(a), end=td(z), deconflict_ids=bool(decon))
        except Exception as exc:
            ctx.fail('raised:%s:%s' % (kind, type(exc).__name__), 'segment [%s, %s) of %s raised %s %s' % (a, z, xml[xml.index('<tt:body'):], type(exc).__name__, exc))
            continue
        ctx.trans()
        sxml = seg.get_xml()
        lo, hi = (0 if a is None else a), (BIG if z is None else z)
        sdoc = Doc(sxml)
        got = sdoc.pieces()
        want = orig.pieces(lo=lo, hi=hi)
        ctx.state(got)
        ctx.trace()
        ctx.outcome('%d pieces' % len(got))
        what = 'segment [%s, %s) of %s (available %s)' % (a, z, xml[xml.index('<tt:head'):], avail)
        pts = sorted(set(points(got, want) + [lo]))
        for t in pts:
            g, w = at(got, t), at(want, t)
            if g != w:
                sig = 'shown:%s:%s' % (kind, 'text' if [x[1] for x in g] != [x[1] for x in w] else 'style')
                ctx.fail(sig, '%s shows at %s: %r should be %r in %s' % (what, t, g, w, sxml[sxml.index('<tt:head'):]))
                break
        for err in sdoc.ref_errors():
            ctx.fail('refs:%s' % kind, '%s: %s' % (what, err))
            break
        if kind in ('content', 'mixed', 'style', 'gap'):
            same_root(orig, sdoc, ctx, what)
            names = set(n.get('xml:id') for n in sdoc.root.iter() if n.get('xml:id'))
            onames = set(n.get('xml:id') for n in orig.root.iter() if n.get('xml:id'))
            ctx.check(not (names & onames), 'ids', '%s: ids %r are not renamed' % (what, sorted(names & onames)))
        # it is a document: it can be read back and validated
        if (a, z) == tuple(wins[0]) or kind == 'gap':
            EBUTT3Document.create_from_xml(sxml)
    ctx.check(doc.get_xml() == before, 'source-changed', 'cutting segments changed the document %s' % xml)


def same_root(orig, sdoc, ctx, what):
    a, b = dict(orig.root.attrs), dict(sdoc.root.attrs)
    ctx.check(a == b, 'root', '%s: attributes of the root %r became %r' % (what, sorted(set(a.items()) ^ set(b.items())), ''))
