# -*- coding: utf-8 -*-
"""Computed styles of every element, against the cascade of TTML and EBU Tech 3370."""
import itertools
from fractions import Fraction as F
from mini import tt

RULE = ('every assignment of style values from the alphabets to region, body, div, p and span of each tree, and every '
        'graph of up to three styles that refer to each other; the real validation computes the styles; the state is '
        'the tree of computed styles')
BOUNDS = {
    'quick': 'trees region / body / div (/ div) / p / span / span; font size 4x3x4x4x4 values with a region on the div, the p '
             'or nowhere; line height with font size 4 pairs a level; 10 inherited and 3 plain attributes, all patterns over '
             '5 levels; reference graphs of 3 styles with up to 3 references each',
    'thorough': 'as quick with 6 values of font size and 6 pairs a level, and reference graphs of 4 styles',
}
ASSUMPTIONS = ['a style named later in a list of references overrides one named earlier, own attributes override referenced '
               'ones (TTML1 8.4.4)', 'the initial font size is 1c and the initial line height normal',
               'an element lies in its own region or else in that of the nearest ancestor that has one']

INHERITED = {'tts:color': (['#ff0000ff', '#00ff00ff'], None), 'tts:direction': (['rtl', 'ltr'], 'ltr'),
             'tts:fontFamily': (['serif', 'default'], 'default'), 'tts:fontStyle': (['italic', 'normal'], 'normal'),
             'tts:fontWeight': (['bold', 'normal'], 'normal'), 'ebutts:linePadding': (['0.5c', '0c'], '0c'),
             'ebutts:multiRowAlign': (['center', 'auto'], 'auto'), 'tts:textAlign': (['end', 'start'], 'start'),
             'tts:textDecoration': (['underline', 'none'], 'none'), 'tts:wrapOption': (['noWrap', 'wrap'], 'wrap')}
PLAIN = {'tts:backgroundColor': (['#ff0000ff', '#00ff00ff'], 'transparent'), 'tts:padding': (['10px', '0px'], '0px'),
         'tts:unicodeBidi': (['embed', 'normal'], 'normal')}
EXT, RES = (200, 100), (20, 10)     # 10 px are 1c both ways

FS = ['', '50%', '2c', '10px 30px']
FS6 = FS + ['200% 100%', '1c 3c']
LH = [('', ''), ('', '2c'), ('150%', ''), ('20px', '50%'), ('normal', '3c')]
LH6 = LH + [('100%', '1c 2c')]


def num(s):
    return F(s)


def size(text):
    """'2c 3c' -> ('c', horizontal, vertical)"""
    if not text:
        return None
    parts = text.split()
    unit = 'px' if parts[0].endswith('px') else parts[0][-1]
    v = [num(p[:-len(unit)]) for p in parts]
    if len(v) == 1:
        v = v * 2
    if unit == 'px':
        return ('c', v[0] * RES[0] / EXT[0], v[1] * RES[1] / EXT[1])
    return (unit, v[0], v[1])


def font(spec, parent):
    s = size(spec)
    if s is None:
        return parent
    if s[0] == '%':
        return (parent[0] * s[1] / 100, parent[1] * s[2] / 100)
    return s[1:]


def line(spec, parent, own):
    if not spec:
        return parent
    if spec == 'normal':
        return 'normal'
    s = size(spec)
    return own[1] * s[2] / 100 if s[0] == '%' else s[2]


def cases(tier):
    th = tier == 'thorough'
    fs = FS6 if th else FS
    lh = LH6 if th else LH
    for body in (fs if th else ['', '50%', '2c']):
        for reg in fs:
            for div in fs:
                yield ['sizes', [(reg, ''), (body, ''), (div, '')], 'fs']
    for body in (lh if th else [LH[0], LH[2], LH[3]]):
        for reg in (lh if th else LH[:4]):
            for div in (lh if th else LH[:4]):
                yield ['sizes', [(reg[1], reg[0]), (body[1], body[0]), (div[1], div[0])], 'lh']
    for reg in range(3):
        for body in range(3):
            yield ['attrs', reg, body]
    n = 4 if th else 3
    refs = [[]] + [[i] for i in range(n)] + [list(p) for p in itertools.permutations(range(n), 2)]
    refs.append([0, 1, 2])
    refs.append(['x'])
    for first in refs:
        for second in refs:
            yield ['graph', n, first, second]


# ---------------------------------------------------------------- sizes

def run_sizes(levels, kind, ctx, thorough):
    alpha = FS if kind == 'fs' else [(l, f) for l, f in LH[:4]]
    al = [(f, '') for f in alpha] if kind == 'fs' else [(f, l) for l, f in alpha]
    if thorough and kind == 'fs':
        al = [(f, '') for f in FS6]
    reg, body, div = levels
    styles, sid = [], {}

    def ref(v):
        v = tuple(v)
        if v == ('', ''):
            return ''
        if v not in sid:
            sid[v] = 's%d' % len(sid)
            styles.append('<tt:style xml:id="%s"%s%s/>' % (sid[v], ' tts:fontSize="%s"' % v[0] if v[0] else '',
                                                           ' tts:lineHeight="%s"' % v[1] if v[1] else ''))
        return ' style="%s"' % sid[v]
    divs, expect = [], {}
    base = {True: ((F(1), F(1)), 'normal')}
    f0, l0 = (F(1), F(1)), 'normal'

    def level(v, inh):
        f = font(v[0], inh[0])
        return f, line(v[1], inh[1], f)
    inreg = level(reg, (f0, l0))
    k = 0
    for where in ('div', 'p', 'none', 'outer'):
        root = inreg if where != 'none' else (f0, l0)
        b = level(body, root)
        d = level(div, b)
        # a division between body and division, in the region and without style
        ps = []
        for p in al:
            cp = level(p, d)
            spans = []
            for s in al:
                cs = level(s, cp)
                for t in (al[:2] if thorough or kind == 'fs' and s == al[1] else al[:1]):
                    k += 1
                    ct = level(t, cs)
                    spans.append('<tt:span xml:id="a%d"%s><tt:span xml:id="b%d"%s>x</tt:span></tt:span>' % (k, ref(s), k, ref(t)))
                    expect['a%d' % k] = cs
                    expect['b%d' % k] = ct
            k += 1
            ps.append('<tt:p xml:id="p%d"%s%s>%s</tt:p>' % (k, ref(p), ' region="r"' if where == 'p' else '', ''.join(spans)))
            expect['p%d' % k] = cp
        x = '<tt:div xml:id="d%s"%s%s>%s</tt:div>' % (where, ref(div), ' region="r"' if where == 'div' else '', ''.join(ps))
        if where == 'outer':
            x = '<tt:div xml:id="outer" region="r">%s</tt:div>' % x
        if where in ('div', 'outer'):
            expect['d' + where] = d
        divs.append(x)
    bodyxml = '<tt:body%s>%s</tt:body>' % (ref(body), ''.join(divs))
    region = '<tt:region xml:id="r" tts:origin="0%% 0%%" tts:extent="50%% 50%%"%s/>' % ref(reg)
    if reg != ('', ''):
        expect['r'] = inreg
    xml = tt(bodyxml, '<tt:styling>%s</tt:styling><tt:layout>%s</tt:layout>' % (''.join(styles), region),
             extra='tts:extent="%dpx %dpx" ttp:cellResolution="%d %d"' % (EXT + RES))
    from ebu_tt_live.documents import EBUTT3Document
    doc = EBUTT3Document.create_from_xml(xml)
    for again in (False, True):
        if again:
            doc.validate()
        for name in sorted(expect):
            c = doc.get_element_by_id(name).computed_style
            want = expect[name]
            ctx.trans()
            got = size(c.fontSize.xsdLiteral()) if c.fontSize is not None else None
            if got is None or got[0] != 'c' or not near(got[1:], want[0]):
                ctx.fail('fontsize:%s%s' % (name[0], ':again' if again else ''),
                         'element %s region %s body %s div %s: font size %s, want %s' % (
                             name, reg, body, div, c.fontSize, [str(v) for v in want[0]]))
                return
            got = lineheight(c.lineHeight)
            if not near1(got, want[1]):
                ctx.fail('lineheight:%s%s' % (name[0], ':again' if again else ''),
                         'element %s region %s body %s div %s: line height %s, want %s' % (
                             name, reg, body, div, c.lineHeight, want[1]))
                return
            ctx.state((name[0], want))
    ctx.outcome('sizes')


def lineheight(v):
    if v is None or unicode(v) == 'normal':
        return 'normal'
    s = size(v.xsdLiteral())
    return s[2] if s[0] == 'c' else '%' + str(s[2])


def near(a, b):
    return abs(float(a[0]) - float(b[0])) < 1e-6 and abs(float(a[1]) - float(b[1])) < 1e-6


def near1(a, b):
    if isinstance(a, basestring) or isinstance(b, basestring):
        return a == b
    return abs(float(a) - float(b)) < 1e-6


# ---------------------------------------------------------------- plain and inherited attributes

def run_attrs(reg, body, ctx):
    """Level value 0: nothing, 1 and 2: the two values; the patterns of div, p and span inside one document."""
    styles = []
    for i in (1, 2):
        a = ''.join(' %s="%s"' % (n, v[0][i - 1]) for n, v in sorted(INHERITED.items()) + sorted(PLAIN.items()))
        styles.append('<tt:style xml:id="v%d"%s/>' % (i, a))

    def ref(i):
        return ' style="v%d"' % i if i else ''
    out, expect = [], {}
    for d in range(3):
        for where in ('div', 'p', 'none'):
            ps = []
            for p in range(3):
                spans = []
                for s in range(3):
                    for t in ((0, 1, 2) if s != 1 else (0,)):
                        n = '%d%s%d%d%d' % (d, where, p, s, t)
                        spans.append('<tt:span xml:id="s%s"%s><tt:span xml:id="t%s"%s>x</tt:span></tt:span>' % (n, ref(s), n, ref(t)))
                        chain = [s, p, d, body] + ([reg] if where != 'none' else [])
                        expect['s' + n] = chain
                        expect['t' + n] = [t] + chain
                n = 'p%d%s%d' % (d, where, p)
                ps.append('<tt:p xml:id="%s"%s%s>%s</tt:p>' % (n, ref(p), ' region="r"' if where == 'p' else '', ''.join(spans)))
                expect[n] = [p, d, body] + ([reg] if where != 'none' else [])
            n = 'd%d%s' % (d, where)
            out.append('<tt:div xml:id="%s"%s%s>%s</tt:div>' % (n, ref(d), ' region="r"' if where == 'div' else '', ''.join(ps)))
            expect[n] = [d, body] + ([reg] if where == 'div' else [])
    # the region's own padding overrides that of its style
    regions = '<tt:region xml:id="r" tts:origin="0%% 0%%" tts:extent="50%% 50%%"%s/>' % ref(reg)
    regions += '<tt:region xml:id="q" tts:origin="0%% 0%%" tts:extent="50%% 50%%" tts:padding="7px"%s/>' % ref(reg)
    expect['r'] = expect['q'] = [reg]
    xml = tt('<tt:body%s>%s</tt:body>' % (ref(body), ''.join(out)),
             '<tt:styling>%s</tt:styling><tt:layout>%s</tt:layout>' % (''.join(styles), regions),
             extra='tts:extent="%dpx %dpx" ttp:cellResolution="%d %d"' % (EXT + RES))
    from ebu_tt_live.documents import EBUTT3Document
    doc = EBUTT3Document.create_from_xml(xml)
    for again in (False, True):
        if again:
            doc.validate()
        todo = [(n, doc.get_element_by_id(n), chain) for n, chain in sorted(expect.items())]
        todo.append(('body', doc.binding.body, [body]))
        for name, el, chain in todo:
            c = el.computed_style
            ctx.trans()
            ctx.state((name[0], chain))
            for attr, (values, default) in INHERITED.items():
                set_ = [i for i in chain if i]
                want = values[set_[0] - 1] if set_ else default
                got = getattr(c, attr.split(':')[1])
                if (got is None) != (want is None) or got is not None and text(got) != want:
                    ctx.fail('attr:%s:%s' % (attr, name[0]), '%s %s: %s, want %s' % (name, attr, got, want))
            for attr, (values, default) in PLAIN.items():
                want = values[chain[0] - 1] if chain[0] else default
                if name == 'q' and attr == 'tts:padding':
                    want = '7px'
                got = getattr(c, attr.split(':')[1])
                if got is None or text(got) != want:
                    ctx.fail('attr:%s:%s' % (attr, name[0]), '%s %s: %s, want %s' % (name, attr, got, want))
    ctx.outcome('attrs')


def text(v):
    return v if type(v) in (str, unicode) else v.xsdLiteral()


# ---------------------------------------------------------------- references

def run_graph(n, first, second, ctx):
    refs = [[]] + [[i] for i in range(n)] + [list(p) for p in itertools.permutations(range(n), 2)]
    if n == 3:
        thirds = [[r] for r in ([], [0], [1], [2], [0, 1], [1, 0])]
    else:
        thirds = [[a, b] for a in refs for b in [[], [0], [2, 1], [3]]]
    for third in thirds:
        one_graph(n, [first, second] + third, ctx)


def resolve(i, edges, path=()):
    """-> order of styles from strongest to weakest, or an error"""
    if i in path:
        raise ValueError('circle')
    if i == 'x':
        raise ValueError('missing')
    out = [i]
    for j in reversed(edges[i]):
        for k in resolve(j, edges, path + (i,)):
            if k not in out:
                out.append(k)
    return out


ATTR = ['tts:color', 'tts:backgroundColor', 'tts:fontSize']


def value(i, a):
    return {'tts:color': '#00000%dff' % i, 'tts:backgroundColor': '#00000%dff' % i, 'tts:fontSize': '%dc' % (i + 2)}[a]


def has(i, a, n):
    """which styles set which attribute: all of them the colour, all but the first the background, the last two the size"""
    return {'tts:color': True, 'tts:backgroundColor': i > 0, 'tts:fontSize': i >= n - 2}[a]


def one_graph(n, edges, ctx):
    from ebu_tt_live.documents import EBUTT3Document
    from ebu_tt_live.errors import SemanticValidationError
    styles = []
    for i in range(n):
        a = ''.join(' %s="%s"' % (k, value(i, k)) for k in ATTR if has(i, k, n) and (k != 'tts:color' or i != 1))
        r = ' style="%s"' % ' '.join('s%s' % j for j in edges[i]) if edges[i] else ''
        styles.append('<tt:style xml:id="s%d"%s%s/>' % (i, a, r))
    uses = [[i] for i in range(n)] + [[0, 1], [1, 0], [2, 0, 1]]
    ok, bad, expect = [], [], {}
    for u, use in enumerate(uses):
        order = []
        try:
            for i in reversed(use):
                for k in resolve(i, edges):
                    if k not in order:
                        order.append(k)
        except ValueError, e:
            bad.append((use, str(e)))
            continue
        expect['p%d' % u] = order
        expect['r%d' % u] = order
        ok.append((u, use))
    head = '<tt:styling>%s</tt:styling><tt:layout>%s</tt:layout>'

    def build(items):
        regs = ''.join('<tt:region xml:id="r%d" tts:origin="0%% 0%%" tts:extent="50%% 50%%" style="%s"/>' % (
            u, ' '.join('s%s' % i for i in use)) for u, use in items if u % 2 == 0)
        ps = ''.join('<tt:p xml:id="p%d" style="%s">x</tt:p>' % (u, ' '.join('s%s' % i for i in use)) for u, use in items)
        return tt('<tt:body><tt:div>%s</tt:div></tt:body>' % ps, head % (''.join(styles), regs))
    if ok:
        try:
            doc = EBUTT3Document.create_from_xml(build(ok))
        except Exception, e:
            ctx.fail('graph:refused', 'styles %s: %s %s' % (edges, type(e).__name__, e))
            return
        for u, use in ok:
            for name in ['p%d' % u] + (['r%d' % u] if u % 2 == 0 else []):
                c = doc.get_element_by_id(name).computed_style
                ctx.trans()
                ctx.state(expect[name])
                for a in ATTR:
                    setters = [i for i in expect[name] if has(i, a, n) and (a != 'tts:color' or i != 1)]
                    default = {'tts:color': None, 'tts:backgroundColor': 'transparent', 'tts:fontSize': '1c'}[a]
                    want = value(setters[0], a) if setters else default
                    got = getattr(c, a.split(':')[1])
                    if a == 'tts:fontSize':
                        same = size(text(got)) == size(want)
                    else:
                        same = (got is None) if want is None else (got is not None and text(got) == want)
                    if not same:
                        ctx.fail('graph:%s' % a, 'styles %s, %s refers to %s: %s is %s, want %s' % (edges, name, use, a, got, want))
    for use, why in bad[:2]:
        ctx.trans()
        try:
            EBUTT3Document.create_from_xml(build([(0, use)]))
        except SemanticValidationError, e:
            ctx.outcome('refused: ' + why)
        except Exception, e:
            ctx.fail('graph:error', 'styles %s used %s: %s %s' % (edges, use, type(e).__name__, e))
        else:
            ctx.fail('graph:accepted', 'styles %s used %s accepted though %s' % (edges, use, why))


def run(case, ctx):
    import os
    if case[0] == 'sizes':
        run_sizes([tuple(x) for x in case[1]], case[2], ctx, os.environ.get('VERIF_TIER') == 'thorough')
    elif case[0] == 'attrs':
        run_attrs(case[1], case[2], ctx)
    else:
        run_graph(case[1], case[2], case[3], ctx)
