# -*- coding: utf-8 -*-
"""Reading a document and writing it again loses, adds and reorders nothing."""
import itertools
import re
from mini import td, NS, parse, Node, esc

RULE = ('the documents are all those one can make by putting every attribute (and every pair of attributes) with every '
        'listed value on each kind of element, every listed piece of metadata in each place, and every sequence of '
        'pieces of content in a paragraph and in a span; each is read by the real code, written, read again and '
        'written again; content is compared with a separate XML reader; for some documents all histories of '
        'validating, copying, writing and reading again are run; the state is the content of a written document')
BOUNDS = {
    'quick': '13 kinds of element, up to 17 attributes with up to 9 values, every single and every pair with 2 values '
             'each; 60 pieces of metadata; contents of up to 3 pieces from 12; histories of 3 operations',
    'thorough': 'as quick with all values in the pairs; contents of up to 4 pieces from 17; histories of 5 operations',
}
ASSUMPTIONS = ['attributes with a default may be written although they were absent (cell resolution)',
               'values of attributes are compared as the values they denote: times as instants, lists as lists',
               'white space between elements that have no text of their own does not count']

HEAD = (u'<tt:metadata><ebuttm:documentMetadata/>'
        u'<ttm:agent type="person" xml:id="ag1"><name type="full">A &amp; B</name></ttm:agent><ttm:agent xml:id="ag2"/></tt:metadata>'
        u'<tt:styling><tt:style xml:id="s1" tts:color="red"/><tt:style xml:id="s2"/><tt:style xml:id="s3"{style}>{style_c}</tt:style></tt:styling>'
        u'<tt:layout><tt:region xml:id="r1" tts:origin="0% 0%" tts:extent="50% 50%"/>'
        u'<tt:region xml:id="r2" {region}>{region_c}</tt:region></tt:layout>')
BODY = (u'<tt:body{body}><tt:div{div}><tt:p xml:id="p1"{p}>a <tt:span{span}>b <tt:span{inner}>c</tt:span> d</tt:span>'
        u'<tt:br{br}/> e</tt:p></tt:div></tt:body>')

TIMES = {'clock': ['00:00:01', '00:00:01.250', '1.5s', '90s', '250ms', '2m', '1h', '0s', '23:59:59.999'],
         'media': ['00:00:01', '100:00:01.25', '1.5s', '90s', '250ms', '2m', '1h', '0s', '00:00:00.001']}
REF = ['s1', 's1 s2', 's2 s1']
LENGTHS = {'extent': ['50% 50%', '40.5% 20%', '100px 50px', '10c 2.5c'], 'origin': ['10% 10%', '-5% +5%', '10px 0px', '0c 1.5c']}
LANG = ['fr', 'en-GB', '']
SPACE = ['preserve', 'default']
COLORS = ['red', '#ff0000', '#FF000080', 'rgb(1,2,3)', 'rgba(255, 0, 10, 128)', 'transparent']


def attributes(tb):
    t = TIMES[tb]
    inline = [('xml:id', ['x1', u'\xe91']), ('style', REF), ('begin', t), ('end', t), ('xml:lang', LANG), ('xml:space', SPACE),
              ('ttm:agent', ['ag1', 'ag1 ag2']), ('ttm:role', ['caption', 'dialog x-other'])]
    return {
        'tt': [('xml:space', SPACE), ('ttp:cellResolution', ['32 15', '40 24']),
               ('ebuttm:authoringDelay', ['3s', '-1.5s', '250ms', '2m']), ('ebuttp:authorsGroupIdentifier', ['g', 'a b']),
               ('ebuttp:authorsGroupControlToken', ['1', '17']), ('ebuttm:authorsGroupSelectedSequenceIdentifier', ['q', u'\xe9']),
               ('tts:extent', ['100px 50px', '1920px 1080px']), ('ttp:frameRate', ['25', '30']),
               ('ttp:frameRateMultiplier', ['1000 1001', '1 1'])]
              + ([('ebuttp:referenceClockIdentifier', ['http://x/y?a=1&b=2', 'clk'])] if tb == 'clock' else []),
        'style': [('style', REF), ('tts:direction', ['rtl', 'ltr']), ('tts:fontFamily', ['Arial', 'Arial, "My Font", serif', u'\xe9']),
                  ('tts:fontSize', ['80%', '1c', '1c 2c', '12px', '0.5c', '50% 100%']), ('tts:lineHeight', ['normal', '125%', '1.5c', '20px']),
                  ('tts:textAlign', ['center', 'start', 'end', 'left', 'right']), ('tts:color', COLORS), ('tts:backgroundColor', COLORS),
                  ('tts:fontStyle', ['italic', 'normal']), ('tts:fontWeight', ['bold', 'normal']), ('tts:textDecoration', ['underline', 'none']),
                  ('tts:unicodeBidi', ['embed', 'bidiOverride']), ('tts:wrapOption', ['noWrap', 'wrap']),
                  ('tts:padding', ['1px', '1px 2px', '1% 2% 3%', '1c 2c 3c 4c', '.5c']), ('ebutts:multiRowAlign', ['start', 'auto']),
                  ('ebutts:linePadding', ['0.5c', '1c']), ('f:other', ['v w', u'\u20ac "<&'])],
        'region': [('style', REF), ('tts:displayAlign', ['after', 'center']), ('tts:padding', ['1px 2px', '1c']),
                   ('tts:writingMode', ['lrtb', 'tb']), ('tts:showBackground', ['always', 'whenActive']),
                   ('tts:overflow', ['visible', 'hidden']), ('f:other', ['v', '&<>\'']),
                   ('tts:extent', LENGTHS['extent']), ('tts:origin', LENGTHS['origin'])],
        'body': [('style', REF), ('begin', t), ('end', t), ('dur', t), ('ttm:agent', ['ag1', 'ag1 ag2']), ('ttm:role', ['caption', 'x-a'])],
        'div': [('xml:id', ['d1', 'd.2-3_4']), ('region', ['r1', 'r2']), ('style', REF), ('begin', t), ('end', t), ('ttm:agent', ['ag1', 'ag2 ag1']), ('ttm:role', ['caption', 'x-a'])],
        'p': [('region', ['r1', 'r2'])] + inline[1:],
        'span': inline, 'inner': [('xml:id', ['y1', 'y.2'])] + inline[1:],
        'br': [('ttm:role', ['caption', 'x-b'])],
    }


def build(tb="clock", tt=u"", head=HEAD, tree=BODY, **kw):
    slots = dict((k, u'') for k in ('style', 'style_c', 'region', 'region_c', 'body', 'div', 'p', 'span', 'inner', 'br'))
    slots.update(kw)
    if slots['region'].count('tts:origin') == 0:
        slots['region'] += u' tts:origin="10% 10%"'
    if slots['region'].count('tts:extent') == 0:
        slots['region'] += u' tts:extent="10% 10%"'
    for k, v in slots.items():
        head, tree = head.replace(u"{%s}" % k, v), tree.replace(u'{%s}' % k, v)
    mode = u' ttp:clockMode="local"' if tb == 'clock' else u''
    return (u'<?xml version="1.0" ?><tt:tt %s xmlns:f="urn:foreign" xml:lang="en" ttp:timeBase="%s"%s ebuttp:sequenceIdentifier="sq" '
            u'ebuttp:sequenceNumber="7"%s><tt:head>%s</tt:head>%s</tt:tt>' % (NS, tb, mode, tt, head, tree))


def attr(pairs):
    return u''.join(u' %s="%s"' % (k, esc(v).replace(u'>', u'&gt;')) for k, v in pairs)


# ---- metadata -------------------------------------------------------------------------------------------------------
DOCMETA = [
    u'<ebuttm:conformsToStandard>urn:ebu:tt:live:2017-05</ebuttm:conformsToStandard>', u'<ebuttm:documentEbuttVersion>v1.0</ebuttm:documentEbuttVersion>',
    u'<ebuttm:documentIdentifier>id 1 &lt;&amp;</ebuttm:documentIdentifier>', u'<ebuttm:documentOriginatingSystem>s\xe9</ebuttm:documentOriginatingSystem>',
    u'<ebuttm:documentCopyright>\xa9 2017</ebuttm:documentCopyright>', u'<ebuttm:documentReadingSpeed>176</ebuttm:documentReadingSpeed>',
    u'<ebuttm:documentTargetAspectRatio>16:9</ebuttm:documentTargetAspectRatio>', u'<ebuttm:documentTargetActiveFormatDescriptor>AFD_2</ebuttm:documentTargetActiveFormatDescriptor>',
    u'<ebuttm:documentIntendedTargetFormat link="http://x/y?a=1&amp;b=2">HD</ebuttm:documentIntendedTargetFormat>', u'<ebuttm:documentCreationMode>live</ebuttm:documentCreationMode>',
    u'<ebuttm:documentContentType link="urn:x">hoh</ebuttm:documentContentType>', u'<ebuttm:relatedMediaIdentifier>m1</ebuttm:relatedMediaIdentifier>',
    u'<ebuttm:relatedObjectIdentifier type="t1"/><ebuttm:relatedObjectIdentifier type="t2"/>', u'<ebuttm:documentBeginDate>2017-05-04</ebuttm:documentBeginDate>',
    u'<ebuttm:broadcastServiceIdentifier serviceBegin="2017-05-04T10:00:00Z" serviceEnd="2017-05-04T11:00:00.5Z"/>',
    u'<ebuttm:documentOriginalProgrammeTitle>T</ebuttm:documentOriginalProgrammeTitle><ebuttm:documentOriginalEpisodeTitle>E</ebuttm:documentOriginalEpisodeTitle>',
    u'<ebuttm:documentTranslatedProgrammeTitle>T</ebuttm:documentTranslatedProgrammeTitle><ebuttm:documentTranslatorsName>N N</ebuttm:documentTranslatorsName>',
    u'<ebuttm:documentSubtitleListReferenceCode>c</ebuttm:documentSubtitleListReferenceCode>', u'<ebuttm:documentCreationDate>2017-01-01</ebuttm:documentCreationDate>',
    u'<ebuttm:documentRevisionNumber>0</ebuttm:documentRevisionNumber>', u'<ebuttm:documentTotalNumberOfSubtitles>12</ebuttm:documentTotalNumberOfSubtitles>',
    u'<ebuttm:documentMaximumNumberOfDisplayableCharacterInAnyRow>38</ebuttm:documentMaximumNumberOfDisplayableCharacterInAnyRow>',
    u'<ebuttm:documentCountryOfOrigin>CH</ebuttm:documentCountryOfOrigin><ebuttm:documentPublisher/>', u'<ebuttm:documentUserDefinedArea>  keep  these  </ebuttm:documentUserDefinedArea>',
    u'<ebuttm:stlRevisionNumber>3</ebuttm:stlRevisionNumber><ebuttm:subtitleZero>z</ebuttm:subtitleZero>',
    u'<ebuttm:originalSourceServiceIdentifier>o</ebuttm:originalSourceServiceIdentifier><ebuttm:intendedDestinationServiceIdentifier>i</ebuttm:intendedDestinationServiceIdentifier>',
    u'<ebuttm:documentFacet link="urn:f" summary="mixed">f</ebuttm:documentFacet>',
    u'<ebuttm:appliedProcessing process="p" generatedBy="g" sourceId="s" appliedDateTime="2017-05-04T10:00:00Z"/><ebuttm:appliedProcessing process="q" generatedBy="g"/>',
    u'<ebuttm:appliedProcessing process="p" generatedBy="g"><f:a><f:b c="d">e</f:b></f:a></ebuttm:appliedProcessing>',
]
FOREIGN = [u'<f:x/>', u'<f:x a="b" f:c="d">t\xe9</f:x>', u'<f:x><f:y/>u<f:z>v &lt; w</f:z></f:x>', u'<f:x/><g:y xmlns:g="urn:g" h="i"/><f:x>2</f:x>']
AGENTS = [u'<ttm:agent type="%s" xml:id="b1"/>' % t for t in ('person', 'character', 'group', 'organization', 'other')] + \
         [u'<ttm:agent xml:id="b1"><name type="full">F</name><name type="family">G</name><actor agent="ag1"/></ttm:agent>']
BLOCK = {
    'body': [u'<ttm:title>t</ttm:title><ttm:desc>d</ttm:desc>'] + FOREIGN,
    'div': [u'<ebuttm:facet expresses="has" link="urn:l">x</ebuttm:facet>', u'<ebuttm:authoringTechnique link="urn:a">live</ebuttm:authoringTechnique><ebuttm:facet>y</ebuttm:facet>',
            u'<ebuttm:binaryData textEncoding="BASE64" binaryDataType="t" fileName="f" creationDate="2017-01-02" revisionNumber="2">QUJD\nREVG</ebuttm:binaryData>'] + FOREIGN,
    'p': [u'<ebuttm:facet expresses="has">x</ebuttm:facet><ebuttm:facet expresses="has_not">y</ebuttm:facet>', u'<ebuttm:authoringTechnique>live</ebuttm:authoringTechnique>'] + FOREIGN,
    'span': [u'<ebuttm:facet>x</ebuttm:facet>'] + FOREIGN,
    'styling': [u'<ebuttm:font fontFamilyName="Arial" src="urn:f" fontWeight="bold" fontSize="1c">f</ebuttm:font>'] + FOREIGN,
    'br': FOREIGN, 'style': FOREIGN, 'region': FOREIGN, 'layout': FOREIGN,
}


def meta_docs():
    for i, m in enumerate(DOCMETA):
        for j in range(i, len(DOCMETA)):
            if j != i and (j - i) % 7:
                continue
            inner = m if j == i else m + DOCMETA[j]
            if i == len(DOCMETA) - 2 and j != i:
                continue
            yield 'doc%d,%d' % (i, j), build(head=u'<tt:metadata><ebuttm:documentMetadata>%s</ebuttm:documentMetadata></tt:metadata>' % inner,
                                              tree=u'<tt:body><tt:div><tt:p xml:id="p1">a</tt:p></tt:div></tt:body>')
    for i, m in enumerate(AGENTS):
        yield 'agent%d' % i, build(head=HEAD.replace(u'</tt:metadata>', m + u'</tt:metadata>'))
    for m in FOREIGN:
        yield 'head', build(head=HEAD.replace(u'</tt:metadata>', m + u'</tt:metadata>'))
    yield 'desc', build(head=HEAD.replace(u'<tt:metadata>', u'<tt:metadata><ttm:title>t \xe9</ttm:title><ttm:desc>d  d</ttm:desc>'))
    yield 'binary', build(head=HEAD.replace(u'</tt:metadata>', u'<ebuttm:binaryData textEncoding="BASE64" binaryDataType="t">QUJD</ebuttm:binaryData><f:x/></tt:metadata>'))
    yield 'copyright', build(head=HEAD.replace(u'</tt:metadata>', u'</tt:metadata><ttm:copyright>\xa9 me</ttm:copyright>'))
    places = {'body': u'<tt:body{body}>', 'div': u'<tt:div{div}>', 'p': u'<tt:p xml:id="p1"{p}>', 'span': u'<tt:span{span}>'}
    for where in sorted(BLOCK):
        for m in BLOCK[where]:
            m = u'<tt:metadata>%s</tt:metadata>' % m
            if where in places:
                yield where, build(tree=BODY.replace(places[where], places[where] + m))
            elif where == 'br':
                yield where, build(tree=BODY.replace(u'<tt:br{br}/>', u'<tt:br>%s</tt:br>' % m))
            elif where in ('layout', 'styling'):
                yield where, build(head=HEAD.replace(u'<tt:%s>' % where, u'<tt:%s>' % where + m))
            else:
                yield where, build(**{where + '_c': m})


# ---- contents -------------------------------------------------------------------------------------------------------
PIECES = [u'a', u' ', u'\n  b\n', u'&lt;&amp;&gt;"\'', u'\xe9\u20ac', u'<![CDATA[<c>&amp;]]>', u'<tt:br/>', u'<tt:span>d</tt:span>',
          u'<tt:span> e <tt:span xml:id="{n}">f</tt:span></tt:span>', u'<tt:span/>', u'<!-- note -->', u'\xa0']
MORE = [u'&#x1F600;', u'\t', u']]&gt;', u'<tt:span xml:lang="fr"><tt:br/></tt:span>', u'&#13;&#10;']


OPS = ('validate', 'write', 'raw', 'segment', 'reread', 'adapt')


def cases(tier):
    for tb in ('clock', 'media'):
        for el in sorted(attributes(tb)):
            yield ['attr', tb, el]
    for tb in ('clock', 'media'):
        for part in range(16):
            if tier == 'thorough' or tb == 'clock' or part % 4 == 0:
                yield ['pairs', tb, part, 16]
    yield ['meta', 0]
    yield ['meta', 1]
    pieces = PIECES if tier == 'quick' else PIECES + MORE
    for a in range(len(pieces)):
        if tier == 'quick':
            yield ['text', [a], 2]
        else:
            for b in range(len(pieces)):
                yield ['text', [a, b], 2]
    ops = OPS
    n = 3 if tier == 'quick' else 5
    for o in itertools.product(ops, repeat=n - 2):
        yield ['ops', list(o), 2]


# ---- comparison -----------------------------------------------------------------------------------------------------
T_ATTRS = ('begin', 'end', 'dur', 'authoringDelay')
LISTS = ('style', 'agent', 'role', 'cellResolution', 'frameRateMultiplier', 'extent', 'origin', 'padding', 'fontSize')
DEFAULTS = {'cellResolution': '32 15'}


def instant(v):
    m = re.match(r'^([+-]?)(\d+(?:\.\d+)?)(h|ms|s|m)$', v)
    if m:
        return round(float(m.group(2)) * {'h': 3600, 'm': 60, 's': 1, 'ms': .001}[m.group(3)] * (-1 if m.group(1) == '-' else 1), 6)
    m = re.match(r'^(\d+):(\d\d):(\d\d(?:\.\d+)?)$', v)
    return round(int(m.group(1)) * 3600 + int(m.group(2)) * 60 + float(m.group(3)), 6) if m else v


def norm(node, mixed=False):
    attrs = {}
    for k, v in node.attrs.items():
        if k in T_ATTRS and node.ns == 'http://www.w3.org/ns/ttml':
            v = instant(v)
        elif k in LISTS:
            v = tuple(v.split())
        attrs[k] = v
    if node.tag == 'tt':
        for k, v in DEFAULTS.items():
            attrs.setdefault(k, tuple(v.split()))
    keep = node.tag in ('p', 'span') and node.ns == 'http://www.w3.org/ns/ttml'
    has_text = keep or any(not isinstance(c, Node) and c.strip() for c in node.children) or not node.elems()
    kids = []
    for c in node.children:
        if isinstance(c, Node):
            kids.append(norm(c))
        elif has_text:
            kids.append(c)
    return (node.ns, node.tag, tuple(sorted(attrs.items())), tuple(kids))


def differ(a, b, path=''):
    """A short account of the first difference of two contents."""
    here = path + '/' + a[1]
    if a[:2] != b[:2]:
        return '%s became %s' % (here, b[1])
    if a[2] != b[2]:
        da, db = dict(a[2]), dict(b[2])
        for k in sorted(set(da) | set(db)):
            if da.get(k) != db.get(k):
                return '%s/@%s %r became %r' % (here, k, da.get(k), db.get(k))
    for x, y in itertools.izip_longest(a[3], b[3]):
        if x != y:
            if isinstance(x, tuple) and isinstance(y, tuple):
                return differ(x, y, here)
            return '%s: content %r became %r' % (here, x if not isinstance(x, tuple) else '<%s>' % x[1], y if not isinstance(y, tuple) else '<%s>' % y[1])
    return 'nothing'


def through(xml, ctx, sig, what):
    from ebu_tt_live.documents import EBUTT3Document
    want = norm(parse(xml))
    try:
        doc = EBUTT3Document.create_from_xml(xml.encode('utf-8'))
    except Exception as e:
        ctx.count('not accepted: %s %s' % (type(e).__name__, str(e)[:70] if 'Content' not in type(e).__name__ else ''))
        return None
    ctx.trans()
    try:
        out = doc.get_xml()
        got = norm(parse(out))
    except Exception as e:
        ctx.fail('write:' + sig, '%s: writing: %s: %s' % (what, type(e).__name__, e))
        return None
    ctx.trace()
    ctx.state(got)
    if got != want:
        ctx.fail('same:' + sig, '%s: %s' % (what, differ(want, got)))
        return doc
    try:
        again = EBUTT3Document.create_from_xml(out).get_xml()
    except Exception as e:
        ctx.fail('reread:' + sig, '%s: what was written is refused: %s' % (what, e))
        return doc
    ctx.trans()
    ctx.check(norm(parse(again)) == want, 'again:' + sig, lambda: '%s: written twice: %s' % (what, differ(want, norm(parse(again)))))
    return doc


def run(case, ctx):
    globals()['do_' + case[0]](case, ctx)


def do_attr(case, ctx):
    """One attribute at a time."""
    _, tb, el = case
    table = attributes(tb)[el]
    ok = 0
    for k, vs in table:
        if tb == 'media' and k not in ('begin', 'end', 'dur') and ctx.tier == 'quick':
            continue
        for v in vs:
            ok += through(build(tb, **{el: attr([(k, v)])}), ctx, '%s@%s' % (el, k), '%s %s=%r' % (el, k, v)) is not None
    ctx.check(ok > 0 or tb == 'media', 'accepted', 'no document with %s was accepted' % el)
    ctx.outcome('attr')


def do_pairs(case, ctx):
    """Every pair of attributes of every kind of element; all kinds have one of theirs in each document."""
    _, tb, part, parts = case
    table = attributes(tb)
    pairs = {}
    for el in sorted(table):
        pairs[el] = []
        for (k, vs), (l, ws) in itertools.combinations(table[el], 2):
            for v, w in ([(vs[0], ws[-1]), (vs[-1], ws[0])] if ctx.tier == 'quick' else itertools.product(vs, ws)):
                pairs[el].append([(k, v), (l, w)])
        pairs[el] = pairs[el] or [[(k, v)] for k, vs in table[el] for v in vs]
    for i in range(part, max(len(x) for x in pairs.values()), parts):
        docs = [dict((el, pairs[el][i % len(pairs[el])]) for el in pairs)]
        while docs:
            d = docs.pop()
            what = '; '.join('%s %s' % (el, ' '.join('%s=%r' % x for x in d[el])) for el in sorted(d))
            if through(build(tb, **dict((el, attr(d[el])) for el in d)), ctx, 'pairs', what) is None and len(d) > 1:
                # refused: every half on its own
                els = sorted(d)
                docs += [dict((el, d[el]) for el in half) for half in (els[::2], els[1::2])]
    ctx.outcome('pairs')


def do_meta(case, ctx):
    for i, (sig, xml) in enumerate(meta_docs()):
        if i % 2 == case[1]:
            through(xml, ctx, 'meta:' + sig.rstrip('0123456789,'), 'metadata %s: %s' % (sig, xml[xml.find('<tt:head>'):][:300]))
    ctx.outcome('meta')


def do_text(case, ctx):
    pieces = PIECES + MORE
    _, first, more = case
    n = 0
    combos = [list(first)]
    for k in range(1, more + 1):
        for rest in itertools.product(range(len(pieces) if ctx.tier != 'quick' else len(PIECES)), repeat=k):
            combos.append(list(first) + list(rest))
    # many paragraphs a document: as many documents as there are places
    for at in range(0, len(combos), 40):
        for place in ('p', 'span') if ctx.tier != 'quick' or at == 0 else (('p', 'span')[at // 40 % 2],):
            ps = []
            for i, combo in enumerate(combos[at:at + 40]):
                content = u''.join(pieces[x].replace(u'{n}', u'x%d.%d' % (i, j)) for j, x in enumerate(combo))
                if place == 'span':
                    content = u'o<tt:span>%s</tt:span>' % content
                ps.append(u'<tt:p xml:id="p%d">%s</tt:p>' % (i, content))
            xml = build(tree=u'<tt:body><tt:div>%s</tt:div></tt:body>' % u''.join(ps))
            d = through(xml, ctx, 'text', 'content %s' % (u''.join(ps),))
            ctx.check(d is not None, 'text-accepted', lambda: 'text refused: %s' % xml)
    ctx.outcome('text')


def do_ops(case, ctx):
    from ebu_tt_live.documents import EBUTT3Document
    from ebu_tt_live.adapters.document_data import XMLtoEBUTT3Adapter, EBUTT3toXMLAdapter
    quick = ctx.tier == 'quick'
    ops = OPS
    xmls = []
    for tb in ('clock', 'media'):
        xmls.append(build(tb, tt=attr([('ebuttm:authoringDelay', '3s'), ('xml:space', 'preserve')]), style=attr([('style', 's1'), ('tts:color', 'red')]),
                          tree=BODY.replace(u'<tt:div{div}>', u'<tt:metadata><f:x a="b">c</f:x></tt:metadata><tt:div{div}>') if tb == 'clock' else BODY,
                          div=attr([('begin', '1s'), ('style', 's3')]), p=attr([('region', 'r2'), ('end', '2m')]), span=attr([('begin', '0s'), ('ttm:role', 'caption')])))
    for xml in (xmls[len(case[1][0]) % 2:][:1] if quick else xmls):
        want = norm(parse(xml))
        for rest in itertools.product(ops, repeat=case[2]):
            seq = tuple(case[1]) + rest
            doc = EBUTT3Document.create_from_xml(xml)
            for op in seq:
                ctx.trans()
                if op == 'validate':
                    doc.validate()
                elif op == 'write':
                    doc.get_xml()
                elif op == 'raw':
                    doc = EBUTT3Document.create_from_raw_binding(doc.binding)
                elif op == 'segment':
                    doc.extract_segment(begin=td(1), end=td(2))
                elif op == 'reread':
                    doc = EBUTT3Document.create_from_xml(doc.get_xml())
                else:
                    kw = {}
                    data, kw = EBUTT3toXMLAdapter().convert_data(doc, **kw)
                    doc, kw = XMLtoEBUTT3Adapter().convert_data(data, **kw)
            got = norm(parse(doc.get_xml()))
            ctx.trace()
            ctx.state(got)
            if not ctx.check(got == want, 'ops:' + '+'.join(sorted(set(seq))), lambda: 'after %s: %s' % (', '.join(seq), differ(want, got))):
                break
    ctx.outcome('ops')
