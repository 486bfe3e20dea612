# -*- coding: utf-8 -*-
"""Removing duplicate styles and regions changes nothing of what is shown."""
import itertools
from harness import sink, source
from mini import parse, tt
from styled import looks

RULE = ('every combination of definitions for the styles and regions of a document, each referred to by elements with every '
        'short list of references, is given to a deduplicator node; what is shown is read from the XML before and after by '
        'an independent cascade, and the definitions left are compared with the classes of equal ones; the state is the '
        'partition of the definitions')
BOUNDS = {
    'quick': '3 styles over 8 definitions (equal ones, references from style to style in both directions, foreign attributes, text '
             'beyond ASCII), 20 lists of up to 4 references in one document; 3 regions over 6 definitions; all pairs of 40 styles and of 15 regions that are easily confused; 3 merged sequences',
    'thorough': 'as quick with 4 styles over 10 definitions and 4 regions over 8',
}
ASSUMPTIONS = ['two definitions are equal if all attributes but the id are, where references to equal definitions are equal and '
               'a reference repeated in a list counts where it stands last']

X = u'xmlns:x="urn:x"'
# {p}: previous style, {n}: next style, {f}: first style
STYLES = [u'tts:color="#ff0000ff"', u'tts:color="#0000ffff"', u'tts:fontFamily="Aa" tts:color="#ff0000ff"', u'tts:fontFamily="BB" tts:color="#ff0000ff"',
          u'style="{p}"', u'style="{n}"', u'style="{p}" tts:color="#ff0000ff"', u'x:y="1" x:z="\u20ac%" tts:color="#ff0000ff"',
          u'tts:fontFamily="\u20ac" tts:fontSize="50%"', u'tts:backgroundColor="#ff0000ff" style="{f} {n} {f}"']
QUICK = [0, 2, 3, 4, 5, 6, 7, 9]
REGIONS = [u'tts:origin="0% 0%" tts:extent="50% 50%"', u'tts:origin="0% 0%" tts:extent="50% 50%" style="a"', u'tts:origin="0% 0%" tts:extent="50% 50%" style="b"',
           u'tts:origin="0% 0%" tts:extent="50% 50%" style="a c"', u'tts:origin="0% 0%" tts:extent="50% 50%" style="c b"', u'tts:origin="0% 0%" tts:extent="50% 50%" style="c a b"',
           u'tts:origin="1% 0%" tts:extent="50% 50%"', u'x:y="\u20ac" tts:displayAlign="after" tts:origin="0% 0%" tts:extent="50% 50%"']


# pairs that are easily confused
TRICKY = [u'', u'tts:color="#ff0000ff"', u'tts:backgroundColor="#ff0000ff"', u'tts:color="red"', u'tts:fontFamily="a"', u'tts:fontFamily="A"', u'tts:fontFamily="a%"',
          u'tts:fontFamily="|"', u'tts:fontFamily="a, b"', u'tts:fontSize="1c"', u'tts:fontSize="1c 1c"', u'tts:lineHeight="1c"', u'tts:fontStyle="normal"', u'tts:fontWeight="normal"',
          u'tts:unicodeBidi="normal"', u'tts:lineHeight="normal"', u'tts:textDecoration="none"', u'tts:padding="1px"', u'tts:padding="1px 1px"', u'ebutts:linePadding="0c"',
          u'ebutts:multiRowAlign="auto"', u'ebutts:multiRowAlign="start"', u'tts:textAlign="start"', u'x:y="1"', u'z:y="1"', u'x:y="1" x:z="2"', u'x:y="1%urn:x%z%2"', u'x:y="2" x:z="1"', u'x:z="1"',
          u'x:y="1%http://a/x%z%2"', u'x:y="1" x:z="1" z:y="1"', u'x:y="|"', u'x:y=""', u'x:color="#ff0000ff"', u'x:y="a" tts:fontFamily="|"', u'style="o"', u'style="o o"', u'style="e"', u'style="o e"', u'style="e o"']
TRICKY_REGIONS = [u'', u'tts:displayAlign="before"', u'tts:overflow="hidden"', u'tts:showBackground="always"', u'tts:writingMode="lrtb"', u'tts:padding="1px"', u'x:y="1"', u'z:y="1"', u'x:y="1%http://a/x%z%2"',
                  u'x:y="1" x:z="2"', u'style="o"', u'style="e"', u'style="o e"', u'style="e o"', u'style="f"']
XZ = u'xmlns:x="http://a/x" xmlns:z="http://b/x" tts:extent="100px 100px"'


def pair_doc(a, b, regions):
    if regions:
        styles, defs = u'', u''.join(u'<tt:region xml:id="%s" tts:origin="0% 0%" tts:extent="50% 50%" {}/>'.replace('%s', i).replace('{}', d) for i, d in (('r0', a), ('r1', b)))
    else:
        styles, defs = u''.join(u'<tt:style xml:id="%s" %s/>' % i for i in (('s0', a), ('s1', b))), u'<tt:region xml:id="r" tts:origin="0% 0%" tts:extent="50% 50%" style="s1 s0"/>'
    styles = u'<tt:style xml:id="o" tts:color="#00ff00ff"/><tt:style xml:id="e"/><tt:style xml:id="f" tts:color="#00ff00ff"/>' + styles
    ps = u''.join(u'<tt:p xml:id="p%d" %s>t</tt:p>' % i for i in enumerate([u'region="r0"', u'region="r1"'] if regions else [u'style="s0"', u'style="s1"', u'style="s0 s1"', u'style="s1 s0 s1" region="r"']))
    return tt(u'<tt:body begin="00:00:01"><tt:div>%s</tt:div></tt:body>' % ps, head=u'<tt:styling>%s</tt:styling><tt:layout>%s</tt:layout>' % (styles, defs), seq='in', num=4, extra=XZ)


def lists(ids):
    out = [(a,) for a in ids] + list(itertools.product(ids, repeat=2))
    a, b, c = ids[:3]
    out += [(a, b, a), (b, a, c), (c, b, a), (a, a, b), (b, c, c), (a, b, b, a), (a, b, a, b), (a, b, c, a)]
    return out


def style_doc(defs):
    ids = ['s%d' % i for i in range(len(defs))]
    styles = u''.join(u'<tt:style xml:id="%s" %s/>' % (x, STYLES[d].format(p=ids[i - 1], n=ids[(i + 1) % len(ids)], f=ids[0])) for i, (x, d) in enumerate(zip(ids, defs)))
    refs = lists(ids)
    ps = u''.join(u'<tt:p xml:id="p%d" style="%s">t%d</tt:p>' % (i, u' '.join(r), i) for i, r in enumerate(refs))
    body = u'<tt:body begin="00:00:01" style="%s"><tt:div style="%s"><tt:metadata/>%s<tt:p xml:id="q"><tt:span style="%s">z</tt:span></tt:p></tt:div></tt:body>' % (u' '.join(refs[3]), u' '.join(refs[-2]), ps, u' '.join(refs[-3]))
    return tt(body, head=u'<tt:styling><tt:metadata/>%s</tt:styling>' % styles, seq='in', num=4, extra=X)


def region_doc(defs):
    styles = u'<tt:style xml:id="a" tts:color="#ff0000ff"/><tt:style xml:id="b" tts:color="#ff0000ff"/><tt:style xml:id="c" tts:color="#00ff00ff" tts:fontWeight="bold"/>'
    regions = u''.join(u'<tt:region xml:id="r%d" %s/>' % (i, REGIONS[d]) for i, d in enumerate(defs))
    ps = u''.join(u'<tt:p xml:id="p%d" region="r%d"%s>t%d</tt:p>' % (i, i, (u'', u' style="b c a"', u' style="a"')[i % 3], i) for i in range(len(defs)))
    divs = u''.join(u'<tt:div region="r%d"><tt:p xml:id="q%d">v<tt:span style="b">w%d</tt:span></tt:p></tt:div>' % (i, i, i) for i in range(len(defs)))
    return tt(u'<tt:body end="00:00:09"><tt:div>%s</tt:div>%s</tt:body>' % (ps, divs), head=u'<tt:styling>%s</tt:styling><tt:layout>%s</tt:layout>' % (styles, regions), seq='in', num=4, extra=X)


def cases(tier):
    n = 4 if tier == 'thorough' else 3
    k = range(len(STYLES)) if tier == 'thorough' else QUICK
    for first in itertools.product(k, repeat=n - 1):
        yield ['styles', list(first)]
    for first in itertools.product(range(len(REGIONS))[:None if tier == 'thorough' else 6], repeat=n - 1):
        yield ['regions', list(first)]
    for i in range(len(TRICKY)):
        yield ['pairs', i]
    for i in range(len(TRICKY_REGIONS)):
        yield ['regionpairs', i]
    for i in range(3):
        yield ['merged', i]
    yield ['bare']


def classes(root, tag):
    """the ids of the equal definitions, in classes, and the class of each"""
    nodes = dict((n.get('xml:id'), n) for n in root.iter('style'))
    kind = {}

    def key(i, seen=()):
        if i in kind:
            return kind[i]
        n = nodes[i]
        refs = last([key(r, seen + (i,)) for r in n.get('style', '').split()]) if i not in seen else ('circle', i)
        kind[i] = (refs, tuple(sorted((k, v) for k, v in n.attrs.items() if k not in ('xml:id', 'style'))))
        return kind[i]
    for i in nodes:
        key(i)
    if tag == 'style':
        return kind
    return dict((n.get('xml:id'), (last([kind[r] for r in n.get('style', '').split()]), tuple(sorted((k, v) for k, v in n.attrs.items() if k not in ('xml:id', 'style')))))
                for n in root.iter('region'))


def last(refs):
    out = []
    for r in reversed(refs):
        if r not in out:
            out.insert(0, r)
    return tuple(out)


def rest(root):
    """everything but the definitions, references and the sequence"""
    root.attrs.setdefault('cellResolution', '32 15')
    for n in root.iter():
        n.children = [c for c in n.children if getattr(c, 'tag', None) not in ('style', 'region')]
        for k in ('style', 'region', 'sequenceIdentifier'):
            n.attrs.pop(k, None)
    return root.canon(strip=True)


def node():
    from ebu_tt_live.node.deduplicator import DeDuplicatorNode
    from ebu_tt_live.documents import EBUTT3Document
    out, inp = sink(EBUTT3Document), source(EBUTT3Document)
    DeDuplicatorNode(node_id='d', sequence_identifier='out', producer_carriage=out, consumer_carriage=inp)
    return inp, out


def judge(ctx, xml, what, doc=None):
    from ebu_tt_live.documents import EBUTT3Document
    if doc is None:
        try:
            doc = EBUTT3Document.create_from_xml(xml)
        except Exception:
            ctx.count('styles in a circle')
            return
    ctx.trans()
    inp, out = node()
    inp.on_new_data(doc)
    if not ctx.check(len(out.got) == 1, 'count', lambda: '%s: %d documents' % (what, len(out.got))):
        return
    after = out.got[0].get_xml()
    ctx.trace()
    a, b = looks(xml), looks(after)
    before, now = parse(xml), parse(after)
    if not ctx.check(len(a) == len(b), 'shown:text', lambda: '%s: %d pieces of text instead of %d' % (what, len(b), len(a))):
        return
    for x, y in zip(a, b):
        if not ctx.check(x == y, 'shown', lambda: '%s: %r is shown instead of %r' % (what, y, x)):
            return
    for tag in ('style', 'region'):
        ids = dict((n.get('xml:id'), n) for n in before.iter(tag))
        left = [n.get('xml:id') for n in now.iter(tag)]
        want = classes(before, tag)
        ctx.check(set(left) <= set(ids), 'ids:' + tag, lambda: '%s: ids %r of %r' % (what, left, sorted(ids)))
        if len(left) == len(set(left)) and set(left) <= set(ids):
            ctx.check(sorted(want[i] for i in left) == sorted(set(want.values())), 'left:' + tag, lambda: '%s: of the %s elements %r are left: %s' % (what, tag, left, xml[xml.find('<tt:head>'):xml.find('</tt:head>')]))
        else:
            ctx.fail('ids:' + tag, '%s: ids %r' % (what, left))
        ctx.state((tag, sorted(left), sorted(ids)))
    for n in now.iter():
        refs = n.get('style', '').split()
        ctx.check(len(refs) == len(set(refs)), 'repeated', lambda: '%s: %s has style="%s"' % (what, n.tag, n.get('style')))
    ctx.check(rest(before) == rest(now), 'rest', lambda: '%s: something else changed' % what)
    ctx.check(out.got[0].sequence_identifier == 'out', 'sequence', what)
    ctx.outcome('%d removed' % (len(list(parse(xml).iter('style'))) - len(list(now.iter('style')))))
    EBUTT3Document.create_from_xml(after)


def merged(i, ctx):
    from ebu_tt_live.documents import EBUTT3Document, EBUTT3DocumentSequence
    from harness import FixedClock
    from mini import td
    from c_P03 import HEAD_STYLES, HEAD_REGIONS
    other = (HEAD_STYLES, HEAD_STYLES.replace('#ff0000ff', '#123456ff'), HEAD_STYLES.replace('1c 2c', '2c 2c').replace('xml:id="s3"', 'xml:id="s3" tts:color="#ff0000ff"'))[i]
    seq = None
    for num, styles in ((1, HEAD_STYLES), (2, other), (3, HEAD_STYLES)):
        body = u'<tt:body begin="%ds" end="%ds" style="s1"><tt:div region="r2" style="s6 s5"><tt:p xml:id="p" style="s2 s4"><tt:span style="s1 s3 s4">a</tt:span></tt:p></tt:div><tt:div region="r1"><tt:p xml:id="q">b</tt:p></tt:div></tt:body>' % (num * 3, num * 3 + 3)
        d = EBUTT3Document.create_from_xml(tt(body, head=u'<tt:styling>%s</tt:styling><tt:layout>%s</tt:layout>' % (styles, HEAD_REGIONS), num=num, extra='tts:extent="100px 100px"'))
        if seq is None:
            seq = EBUTT3DocumentSequence.create_from_document(d, reference_clock=FixedClock())
        seq.add_document(d)
    for lo, hi in ((0, 20), (4, 7), (3, 9), (8, 11)):
        seg = seq.extract_segment(td(lo), td(hi))
        judge(ctx, seg.get_xml(), 'merged documents from %s to %s' % (lo, hi), seg)


def run(case, ctx):
    kind = case[0]
    if kind == 'styles':
        for x in range(len(STYLES)) if ctx.tier == 'thorough' else QUICK:
            defs = list(case[1]) + [x]
            judge(ctx, style_doc(defs), 'styles %s' % [STYLES[d] for d in defs])
    elif kind == 'regions':
        for x in range(len(REGIONS))[:None if ctx.tier == 'thorough' else 6]:
            defs = list(case[1]) + [x]
            judge(ctx, region_doc(defs), 'regions %s' % [REGIONS[d] for d in defs])
    elif kind in ('pairs', 'regionpairs'):
        defs = TRICKY if kind == 'pairs' else TRICKY_REGIONS
        for j in range(len(defs)):
            # in both orders only in the thorough tier
            if ctx.tier == 'thorough' or j > case[1] or j == case[1] - 1:
                a, b = defs[case[1]], defs[j]
                judge(ctx, pair_doc(a, b, kind == 'regionpairs'), '%s %r' % (kind, (a, b)))
    elif kind == 'merged':
        merged(case[1], ctx)
    else:
        p = u'<tt:body><tt:div><tt:p xml:id="p"%s>x</tt:p></tt:div></tt:body>'
        judge(ctx, tt(p % u'', seq='in'), 'no styling and no layout')
        judge(ctx, tt(p % u' region="r"', seq='in', head=u'<tt:layout><tt:region xml:id="r" tts:origin="0% 0%" tts:extent="1% 1%"/></tt:layout>'), 'no styling')
        judge(ctx, tt(u'', seq='in', head=u'<tt:styling><tt:style xml:id="s"/><tt:style xml:id="t"/></tt:styling>'), 'no body')
