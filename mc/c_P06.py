# -*- coding: utf-8 -*-
"""EBU-TT-D made from re-sequenced documents shows the same."""
import itertools
from mini import tt, td, clock, parse, secs
from reftime import E, to_xml
from present import Doc, BIG
from styled import looks
from harness import sink, source
from c_P05 import FS, LH, EXT, RES
import c_P03

RULE = ('every document of the enumerated timing, styling and size families, cut by the real segmenter and converted by '
        'the real encoder node; what the EBU-TT-D says (read independently, with the cascade of TTML) is compared with '
        'what the source says, moved by the media time zero; the state is the set of timed looks')
BOUNDS = {
    'quick': 'timing: 4 tree shapes x up to 6 timings an element x 3 windows; styles: references from body, div, p, span '
             'and region to 7 styles with nesting; sizes: 5 pairs of font size and line height over 5 levels, every three levels pairwise, 19 values that differ little over 3 levels; cells: 11 origins x 5 extents x 4 resolutions; all colour names; '
             'content: text, br, language, roles, white space; clock and media; media time zero 0 and 5 s; both '
             'namespace forms; read back',
    'thorough': 'as quick with the full product of timings and styles',
}
ASSUMPTIONS = ['only what EBU-TT-D can say: no nesting of divisions or of spans, regions in per cent or cells, times no '
               'earlier than the media time zero; padding and the horizontal font size are not carried over',
               'line heights are those of the paragraph', 'conversion as documented is partial beyond that']
N = None
HEAD = (u'<tt:styling>%s</tt:styling><tt:layout>%s</tt:layout>' % (
    c_P03.HEAD_STYLES.replace('tts:lineHeight="normal"', 'tts:lineHeight="150%"').replace(' tts:padding="1px 2px"', ''),
    c_P03.HEAD_REGIONS.replace(' tts:padding="1px"', ' tts:padding="1%"')))


def cases(tier):
    th = tier == 'thorough'
    n = 0
    mid, low, leaf = c_P03.PAIRS['mid'], c_P03.PAIRS['low'], c_P03.PAIRS['leaf']
    plans = [('bdp', [mid, mid, mid]), ('bdpp', [low, low, mid, leaf]), ('bdpss', [low, [(N, N), (1, 8)], mid, leaf, leaf] if th else
             [[(N, N)], [(N, N), (1, 8)], low, leaf, leaf]), ('bdpdp', [[(N, N)], low, leaf, low, leaf])]
    for shape, alph in plans:
        for combo in itertools.product(*alph):
            n += 1
            if th or n % 4 == 0 or shape == 'bdpss':
                yield ['timing', shape, [list(c) for c in combo], n % 2, (n // 2) % 2]
    refs = [None, 's1', 's2', 's4', 's5', 's3 s1', 's1 s2']
    for bd in (refs if th else refs[:4]):
        for dv in (None, 's2', 's3 s1', 's5'):
            for reg in ((None, 'r1', 'r2') if th else ('r2', None)):
                for p in (refs if th else (None, 's4', 's1 s2')):
                    n += 1
                    if th or n % 2:
                        yield ['style', bd, dv, p, reg]
    for i, reg in enumerate(LH):
        for j, body in enumerate(LH):
            for k, div in enumerate(LH):
                if th or (i + j + k) % 5 == 0:
                    yield ['size', reg, body, div]
    for i, body in enumerate(c_P03.contents()):
        if 'preserve' in body or i in (0, 2, 4, 6, 7, 8, 9, 10, 12):
            for tb in (0, 1):
                yield ['content', body, tb]
    yield ['nohead']
    for i in range(len(NEAR)):
        yield ['near', i]
    for i in range(len(ORIGINS)):
        yield ['cells', i]
    for i in range(3):
        yield ['colours', i]


# values that differ little
NEAR = ['80%', '80.25%', '80.75%', '81%', '0.8c', '0.805c', '1c', '99.9%', '100.1%', '10px', '10.05px', '9.95px', '33%', '33.3%', '33.333%', '66.66% 80.25%', '1.25c 0.805c', '300%', '0.5%']
ORIGINS = ['0c 0c', '1c 2c', '0.5c 1.25c', '1.234c 5.678c', '3c 3c', '0% 0%', '12.5% 33.333%', '2.5c 1c', '19c 9c', '-1c 1c', '1c -0.5c']
EXTENTS = ['1c 1c', '10c 5c', '2.75c 0.1c', '50% 10.25%', '7c 7c']


def near(i):
    k, ps = 0, []
    for j, p in enumerate(NEAR):
        spans = ''.join('<tt:span style="f%d%s">s</tt:span>' % (s, ' h%d' % j if s % 3 == 0 else '') for s in range(len(NEAR)) if (s + j) % 2 or s == i)
        ps.append('<tt:p xml:id="p%d" begin="00:00:10" style="f%d h%d">t%s</tt:p>' % (j, j, (i + j) % len(NEAR), spans))
    styles = ''.join('<tt:style xml:id="f%d" tts:fontSize="%s"/><tt:style xml:id="h%d" tts:lineHeight="%s"/>' % (j, v, j, v.split()[-1]) for j, v in enumerate(NEAR))
    return tt('<tt:body><tt:div style="f%d">%s</tt:div></tt:body>' % (i, ''.join(ps)), '<tt:styling>%s</tt:styling>' % styles,
              extra='tts:extent="%dpx %dpx" ttp:cellResolution="%d %d"' % (EXT + RES))


def cells_doc(i, res):
    regions = ''.join('<tt:region xml:id="r%d" tts:origin="%s" tts:extent="%s"%s/>' % (j, ORIGINS[i], e, (' tts:displayAlign="after"', '')[j % 2]) for j, e in enumerate(EXTENTS))
    ps = ''.join('<tt:p xml:id="p%d" begin="00:00:10" region="r%d">t</tt:p>' % (j, j) for j in range(len(EXTENTS)))
    return tt('<tt:body><tt:div>%s</tt:div></tt:body>' % ps, '<tt:layout>%s</tt:layout>' % regions, extra='ttp:cellResolution="%d %d"' % res)


def colours_doc(i):
    from styled import NAMES
    vals = sorted(NAMES) + ['#123456', '#12345678', '#abcdef00', '#ABCDEF', '#FF000080']
    styles = ''.join('<tt:style xml:id="a%d" tts:color="%s"/><tt:style xml:id="b%d" tts:backgroundColor="%s"/>' % (j, v, j, v) for j, v in enumerate(vals))
    ps = ''.join('<tt:p xml:id="p%d" begin="00:00:10" style="%s">t<tt:span style="%s">u</tt:span></tt:p>' % (
        j, ('a%d' % j, 'b%d' % j, 'a%d b%d' % (j, (j + 5) % len(vals)))[i], ('b%d' % j, 'a%d' % ((j + 1) % len(vals)), 'b%d' % ((j + 3) % len(vals)))[i]) for j in range(len(vals)))
    return tt('<tt:body><tt:div>%s</tt:div></tt:body>' % ps, '<tt:styling>%s</tt:styling>' % styles)


def setup(tier, ctx):
    global node, out, inp
    node = {}
    for key in itertools.product((0, 5), (False, True)):
        node[key] = make(*key)


def make(zero, ns):
    from ebu_tt_live.node.encoder import EBUTTDEncoder
    from ebu_tt_live.documents import EBUTT3Document, EBUTTDDocument
    o, i = sink(EBUTTDDocument), source(EBUTT3Document)
    EBUTTDEncoder(node_id='e', media_time_zero=td(zero), default_ns=ns, producer_carriage=o, consumer_carriage=i)
    return i, o


def strip(xml):
    return parse(xml).canon(strip=False)


def valid(d, root, ctx, what):
    errs = d.ref_errors()
    ctx.check(not errs, 'invalid:references', '%s: %s' % (what, errs[:3]))
    ctx.equal(root.get('timeBase'), 'media', 'invalid:timebase', what)
    ctx.equal((root.ns, root.tag), ('http://www.w3.org/ns/ttml', 'tt'), 'invalid:root', what)
    ctx.check(root.get('xml:lang') is not None, 'invalid:lang', what)
    head = root.find('head')
    ctx.check(head is not None and list(head.iter('style')) and list(head.iter('region')), 'invalid:head', what)
    for n in root.iter():
        if n.tag == 'style':
            fs = n.get('fontSize')
            ctx.check(fs is None or fs.endswith('%') and ' ' not in fs, 'invalid:fontsize', '%s: %s' % (what, fs))
            lh = n.get('lineHeight')
            ctx.check(lh is None or lh.endswith('%') or lh == 'normal', 'invalid:lineheight', '%s: %s' % (what, lh))
            for a in ('color', 'backgroundColor'):
                ctx.check(n.get(a) is None or n.get(a).startswith('#'), 'invalid:colour', '%s: %s' % (what, n.get(a)))
        if n.tag == 'region':
            ctx.check((n.get('origin') or '').count('%') == 2 and (n.get('extent') or '').count('%') == 2, 'invalid:region', what)
        if n.tag == 'p':
            ctx.check(n.get('xml:id') is not None, 'invalid:id', what)
        if n.tag in ('body', 'div'):
            ctx.check(not [a for a in ('begin', 'end', 'dur') if n.get(a)], 'invalid:timing', what)


def convert(doc, zero, ns, ctx, what):
    """-> EBU-TT-D as text, after the checks that do not depend on what is in it"""
    i, o = node[(zero, ns)]
    del o.got[:], o.kwargs[:]
    careful = ns or doc.sequence_number % 3 == 0
    before = doc.get_xml() if careful else None
    i.on_new_data(doc)
    ctx.trans()
    if not ctx.equal(len(o.got), 1, 'emitted', what):
        return None
    xml = o.got[0].get_xml()
    ctx.check(not careful or doc.get_xml() == before, 'source', '%s: the conversion changed the document' % what)
    prefixed = '<tt:tt ' in xml
    ctx.check(prefixed != ns, 'namespace', '%s: default namespace %s, %s' % (what, ns, xml[:80]))
    if not careful:
        return xml
    # reading it back gives the same
    from ebu_tt_live.documents import EBUTTDDocument
    again = EBUTTDDocument.create_from_xml(xml)
    again.validate()
    again.set_implicit_ns(ns)
    ctx.check(strip(again.get_xml()) == strip(xml), 'readback', '%s: read back as\n%s\nfrom\n%s' % (what, again.get_xml(), xml))
    return xml


def compare(src_xml, xml, zero, ctx, what, sig):
    d = Doc(xml)
    valid(d, d.root, ctx, what)
    want = sorted([(b - zero, e if e >= BIG else e - zero) + x for b, e, x in [(l[0], l[1], l[2:]) for l in looks(src_xml)]], key=repr)
    got = sorted([(l[0], l[1]) + tuple(l[2:]) for l in looks(d)], key=repr)
    ctx.state(repr(want))
    if got == want:
        return
    for pick, name in ((lambda l: l[:2], 'time'), (lambda l: l[2], 'text'), (lambda l: l[3][0], 'style'), (lambda l: l[3][1], 'fontsize'),
                       (lambda l: l[3][2], 'lineheight'), (lambda l: l[3][3], 'region'), (lambda l: l[3][4], 'lang'), (lambda l: l[3][5], 'boxes')):
        a, b = [pick(l) for l in got], [pick(l) for l in want]
        if a != b:
            diff = [(x, y) for x, y in itertools.izip_longest(a, b) if x != y][0]
            ctx.fail('%s:%s' % (sig, name), '%s: %s got %s want %s\n%s\n%s' % (what, name, diff[0], diff[1], src_xml[-900:], xml[-1200:]))
            return


def run(case, ctx):
    from ebu_tt_live.documents import EBUTT3Document
    kind = case[0]
    fresh(ctx)
    if kind == 'timing':
        tb, zero = ('clock', 'media')[case[3]], (0, 5)[case[4]]
        off = zero if tb == 'clock' else 0
        it = iter(case[2])
        tree = c_P03.SHAPES[case[1]]()
        for k, el in enumerate(tree.walk()):
            b, e = next(it)
            el.name = 'n%d' % k if el.kind != 'body' else None
            if el.kind == 'body':
                el.b, el.e = (None if b is None else b + off), (None if e is None else e + off)
                if b is None:
                    el.b = off or None
            else:
                el.b, el.e = b, e
        # times of elements inside the body are relative to it
        xml = tt(to_xml(tree), HEAD, tb=tb)
        doc = EBUTT3Document.create_from_xml(xml)
        for lo, hi in ((0, 20), (2.5, 5), (4, None)):
            seg = doc.extract_segment(td(lo + off), td(hi + off) if hi is not None else None)
            if seg is None:
                ctx.outcome('nothing')
                continue
            what = '%s %s %s window %s-%s' % (tb, case[1], case[2], lo, hi)
            seg.sequence_number = fresh.n = fresh.n + 1
            seg_xml = seg.get_xml()
            src = EBUTT3Document.create_from_xml(seg_xml)
            got = convert(src, zero, False, ctx, what)
            if got:
                compare(seg_xml, got, zero if tb == 'clock' else 0, ctx, what, 'timing')
    elif kind == 'style':
        bd, dv, p, reg = case[1:]
        ps = []
        for i, s in enumerate((None, 's1', 's2', 's4', 's5', 's3 s1')):
            a = ' style="%s"' % p if p else ''
            if i % 2:
                a += ' region="%s"' % (reg or 'r1') if dv is None else ''
            t = 'begin="00:00:%02d" end="00:00:%02d"' % (10 + i, 12 + i)
            ss = ' style="%s"' % s if s else ''
            ps.append('<tt:p xml:id="p%d"%s ttm:role="sound"><tt:span xml:id="q%d" %s%s>t%d</tt:span><tt:br/></tt:p>' % (i, a, i, t, ss, i))
            ps.append('<tt:p xml:id="o%d"%s %s>x<tt:span%s>u%d</tt:span></tt:p>' % (i, a, t, ss, i))
        body = '<tt:body%s ttm:role="caption"><tt:div%s%s ttm:role="mood">%s</tt:div></tt:body>' % (
            ' style="%s"' % bd if bd else '', ' style="%s"' % dv if dv else '', ' region="%s"' % reg if reg and dv else '', ''.join(ps))
        whole(tt(body, HEAD), case, ctx, 'style')
    elif kind == 'size':
        whole(sizes(*case[1:]), case, ctx, 'size')
    elif kind == 'near':
        whole(near(case[1]), case, ctx, 'size')
    elif kind == 'cells':
        for res in ((32, 15), (20, 10), (7, 13), (1, 1)):
            whole(cells_doc(case[1], res), case + [res], ctx, 'cells')
    elif kind == 'colours':
        whole(colours_doc(case[1]), case, ctx, 'colours')
    elif kind == 'content':
        whole(tt(case[1], HEAD, tb=('clock', 'media')[case[2]]), case, ctx, 'content', cut=(u'forever' in case[1] or u'dur=' in case[1]))
    else:
        whole(tt('<tt:body><tt:div><tt:p xml:id="p" begin="00:00:10">x</tt:p></tt:div></tt:body>').replace(
            '<tt:head><tt:metadata><ebuttm:documentMetadata/></tt:metadata></tt:head>', '<tt:head/>'), case, ctx, 'nohead')


def fresh(ctx):
    if not hasattr(fresh, 'n'):
        fresh.n = 1


def whole(xml, case, ctx, sig, cut=False):
    from ebu_tt_live.documents import EBUTT3Document
    fresh.n += 2
    for k, ns in ((0, False), (1, True)):
        doc = EBUTT3Document.create_from_xml(xml)
        if cut:
            doc = doc.extract_segment(td(0), td(50))
        doc.sequence_number = fresh.n + k
        src = doc.get_xml()
        zero = 5 if k and 'timeBase="clock"' in src and sig in ('style', 'size', 'nohead') else 0
        got = convert(doc, zero, ns, ctx, str(case))
        if got:
            compare(src, got, zero if 'timeBase="clock"' in src else 0, ctx, str(case), sig)


def sizes(reg, body, div):
    styles, ids = [], {}

    def ref(v):
        v = tuple(v)
        if v == ('', ''):
            return ''
        if v not in ids:
            ids[v] = 'z%d' % len(ids)
            styles.append('<tt:style xml:id="%s"%s%s/>' % (ids[v], ' tts:lineHeight="%s"' % v[0] if v[0] else '',
                                                           ' tts:fontSize="%s"' % v[1] if v[1] else ''))
        return ' style="%s"' % ids[v]
    k, divs = 0, []
    for where in ('div', 'p', 'none'):
        ps = []
        for p in LH:
            spans = []
            for s in LH:
                k += 1
                spans.append('<tt:span%s>s%d</tt:span>' % (ref(s), k))
            k += 1
            ps.append('<tt:p xml:id="p%d" begin="00:00:10"%s%s>t%s</tt:p>' % (k, ref(p), ' region="r"' if where == 'p' else '', ''.join(spans)))
        divs.append('<tt:div%s%s>%s</tt:div>' % (ref(div), ' region="r"' if where == 'div' else '', ''.join(ps)))
    xml = '<tt:body%s>%s</tt:body>' % (ref(body), ''.join(divs))
    region = '<tt:region xml:id="r" tts:origin="1c 1c" tts:extent="50%% 50%%"%s/>' % ref(reg)
    return tt(xml, '<tt:styling>%s</tt:styling><tt:layout>%s</tt:layout>' % (''.join(styles), region),
              extra='tts:extent="%dpx %dpx" ttp:cellResolution="%d %d"' % (EXT + RES))
