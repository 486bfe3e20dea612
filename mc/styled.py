# -*- coding: utf-8 -*-
"""What every piece of text looks like: the cascade of TTML applied to the XML of a document, by an independent reading."""
from fractions import Fraction as F
from mini import Node
from present import Doc, BIG
from reftime import E
from c_P05 import INHERITED, font, line, size

INITIAL = {'tts:color': None}
NAMES = dict(transparent='#00000000', black='#000000ff', silver='#c0c0c0ff', gray='#808080ff', white='#ffffffff',
             maroon='#800000ff', red='#ff0000ff', purple='#800080ff', fuchsia='#ff00ffff', magenta='#ff00ffff',
             green='#008000ff', lime='#00ff00ff', olive='#808000ff', yellow='#ffff00ff', navy='#000080ff',
             blue='#0000ffff', teal='#008080ff', aqua='#00ffffff', cyan='#00ffffff')


def colour(v):
    if v is None:
        return None
    v = NAMES.get(v, v)
    if v.startswith('#') and len(v) == 7:
        v += 'ff'
    return u'' + v.lower()


class Look(object):
    """Computed values of one element: inherited ones, font size, line height."""

    def __init__(self, ext, res):
        self.vals = dict((k.split(':')[1], d) for k, (v, d) in INHERITED.items())
        self.fs, self.lh = (F(1), F(1)), 'normal'
        self.ext, self.res = ext, res
        self.own = {}

    def child(self, own):
        n = Look(self.ext, self.res)
        n.vals = dict(self.vals)
        n.own = own
        for k in n.vals:
            if own.get(k) is not None:
                n.vals[k] = own[k]
        n.fs = font(cells(own.get('fontSize'), self.ext, self.res), self.fs)
        n.lh = line(cells(own.get('lineHeight'), self.ext, self.res), self.lh, n.fs)
        return n


def cells(v, ext, res):
    if v and 'px' in v:
        parts = [F(p[:-2]) for p in v.split()]
        if len(parts) == 1:
            return '%sc' % (parts[0] * res[1] / ext[1])
        return '%sc %sc' % (parts[0] * res[0] / ext[0], parts[1] * res[1] / ext[1])
    return v


def resolve(doc, refs, seen=()):
    """-> attributes; a later reference overrides an earlier one, own attributes override referenced ones"""
    out = {}
    for r in (refs or '').split():
        s = doc.styles[r]
        if r in seen:
            raise ValueError('circle')
        out.update(resolve(doc, s.get('style'), seen + (r,)))
        out.update((k, v) for k, v in s.attrs.items() if k not in ('xml:id', 'style'))
    return out


def percent(v, res):
    out = []
    for i, p in enumerate((v or '').split()):
        if p.endswith('c'):
            out.append(round(float(p[:-1]) / res[i] * 100, 6))
        elif p.endswith('%'):
            out.append(round(float(p[:-1]), 6))
        else:
            out.append(p)
    return tuple(out)


def looks(xml, lo=0, hi=BIG, space=False):
    """[(begin, end, text, look)] of everything shown in [lo, hi)"""
    doc = xml if isinstance(xml, Doc) else Doc(xml)
    root = doc.root
    ext = [int(x[:-2]) for x in root.get('extent', '0px 0px').split()]
    res = [int(x) for x in root.get('cellResolution', '32 15').split()]
    out = []
    base = Look(ext, res)

    def region_of(name):
        r = doc.regions[name]
        return r, base.child(resolve(doc, r.get('style')))

    def go(el, b, e, region, chain, boxes, langs):
        if el.kind != 'body' and el.bad():
            return
        b, e = max(b, el.cb), min(e, BIG if el.ce is None else el.ce)
        if b >= e:
            return
        region = el.node.get('region', region)
        chain = chain + [resolve(doc, el.node.get('style'))]
        langs = tuple(el.node.get(k, langs[i]) for i, k in enumerate(('xml:lang', 'xml:space')))
        roles = (el.node.get('role'), el.node.get('agent'))
        if el.kind != 'span' or chain[-1].get('backgroundColor') or chain[-1].get('unicodeBidi') or any(roles):
            boxes = boxes + ((el.kind, colour(chain[-1].get('backgroundColor')) or '#00000000',
                              chain[-1].get('unicodeBidi', 'normal')) + roles,)
        for k in el.kids:
            if isinstance(k, E):
                go(k, b, e, region, chain, boxes, langs)
                continue
            look = base
            geo = None
            if region is not None:
                r, look = region_of(region)
                geo = (percent(r.get('origin'), res), percent(r.get('extent'), res), r.get('displayAlign'),
                       r.get('padding'), r.get('writingMode'), r.get('showBackground'), r.get('overflow'),
                       colour(look.own.get('backgroundColor')) or '#00000000')
            plh = None
            for own, kind in zip(chain, kinds(el)):
                look = look.child(own)
                if kind == 'p':
                    plh = look.lh
            vals = dict(look.vals)
            vals['color'] = colour(vals['color'])
            out.append((b, e, k, (tuple(sorted(vals.items())), round(float(look.fs[1]), 5),
                                  plh if plh == 'normal' else round(float(plh), 5), geo, langs, boxes)))

    def kinds(el):
        # the kinds of the elements from the body down to this one
        return el.path_kinds
    if doc.tree is not None:
        mark(doc.tree, ())
        go(doc.tree, lo, hi, None, [], (), (root.get('xml:lang'), root.get('xml:space', 'default')))
    return out


def mark(el, path):
    el.path_kinds = path + (el.kind,)
    for k in el.kids:
        if isinstance(k, E):
            mark(k, el.path_kinds)
