# -*- coding: utf-8 -*-
"""What a document shows: an independent reading of its XML into timed pieces of text with their presentation."""
from mini import Node, parse
from reftime import E, compute

TIMED = ('body', 'div', 'p', 'span')
BIG = 10 ** 7


def seconds_of(text):
    if text is None:
        return None
    for unit, f in (('ms', 0.001), ('h', 3600.0), ('m', 60.0), ('s', 1.0)):
        if text.endswith(unit):
            v = float(text[:-len(unit)]) * f
            return round(v, 6)
    h, m, s = text.split(':')
    return round(int(h) * 3600 + int(m) * 60 + float(s), 6)


class Doc(object):
    def __init__(self, xml, avail=0):
        self.root = parse(xml) if not isinstance(xml, Node) else xml
        head = self.root.find('head')
        self.styles, self.regions = {}, {}
        self.dup_ids = []
        seen = set()
        for n in self.root.iter():
            i = n.get('xml:id')
            if i is not None:
                if i in seen:
                    self.dup_ids.append(i)
                seen.add(i)
        if head is not None:
            for s in head.iter('style'):
                self.styles[s.get('xml:id')] = s
            for r in head.iter('region'):
                self.regions[r.get('xml:id')] = r
        self.dangling = []
        self.body = self.root.find('body')
        self.tree = None
        self._nodes = {}
        if self.body is not None:
            self.tree = self._build(self.body)
            compute(self.tree, avail)

    def _build(self, n):
        el = E(n.tag, [], seconds_of(n.get('begin')), seconds_of(n.get('end')),
               seconds_of(n.get('dur')) if n.tag == 'body' else None, n.get('xml:id'))
        el.node = n
        for c in n.children:
            if isinstance(c, Node):
                if c.tag in TIMED:
                    el.kids.append(self._build(c))
                elif c.tag == 'br':
                    el.kids.append('<br>')
            elif n.tag in ('p', 'span'):
                t = u' '.join(c.split())
                if t:
                    el.kids.append(t)
        return el

    def style_def(self, ref, seen=()):
        """What a style reference amounts to, whatever the names are."""
        if ref in seen:
            return ('circle',)
        s = self.styles.get(ref)
        if s is None:
            self.dangling.append(ref)
            return ('missing',)
        own = tuple(sorted((k, v) for k, v in s.attrs.items() if k not in ('xml:id', 'style')))
        return (own,) + tuple(self.style_def(r, seen + (ref,)) for r in (s.get('style') or '').split())

    def style_chain(self, node):
        return tuple(self.style_def(r) for r in (node.get('style') or '').split())

    def region_def(self, ref):
        if ref is None:
            return None
        r = self.regions.get(ref)
        if r is None:
            self.dangling.append(ref)
            return 'missing'
        return (tuple(sorted((k, v) for k, v in r.attrs.items() if k not in ('xml:id', 'style'))), self.style_chain(r))

    def pieces(self, keep=('xml:lang', 'xml:space', 'agent', 'role'), styles=True, lo=0, hi=BIG):
        """[(begin, end, path, text)] in document order of everything that is shown some time in [lo, hi)."""
        out = []

        def go(el, b, e, region, path):
            if el.kind != 'body' and el.bad():
                return
            b, e = max(b, el.cb), min(e, BIG if el.ce is None else el.ce)
            if b >= e:
                return
            region = el.node.get('region', region)
            first = len(out)
            path = path + ((el.kind, self.style_chain(el.node) if styles else None,
                            tuple((k, el.node.get(k)) for k in keep if el.node.get(k) is not None)),)
            for k in el.kids:
                if isinstance(k, E):
                    go(k, b, e, region, path)
                else:
                    out.append((b, e, (self.region_def(region),) + path if styles else path, k))
            if el.kind == 'p':
                # a line break shows only together with text of its paragraph
                texts = [x for x in out[first:] if x[3] != '<br>']
                lines = []
                for x in out[first:]:
                    if x[3] != '<br>':
                        lines.append(x)
                        continue
                    cuts = []
                    for y in sorted((max(x[0], y[0]), min(x[1], y[1])) for y in texts):
                        if cuts and y[0] <= cuts[-1][1]:
                            cuts[-1] = (cuts[-1][0], max(cuts[-1][1], y[1]))
                        elif y[0] < y[1]:
                            cuts.append(y)
                    lines += [(c[0], c[1]) + x[2:] for c in cuts]
                out[first:] = lines
        if self.tree is not None:
            go(self.tree, lo, hi, None, ())
        return out

    def ref_errors(self):
        self.dangling = []
        self.pieces()
        for n in self.root.iter():
            if n.tag in TIMED + ('region', 'style') and n.get('style'):
                self.style_chain(n)
            if n.get('region'):
                self.region_def(n.get('region'))
        return (['dangling reference %s' % x for x in self.dangling] + ['duplicate id %s' % x for x in self.dup_ids])


def normalise(pieces):
    """Adjacent pieces of the same text that follow on in time are one."""
    return sorted(pieces, key=repr)


def merge_adjacent(pieces):
    """Joins pieces that show the same thing and touch in time (used across segment boundaries)."""
    by = {}
    for b, e, path, text in pieces:
        by.setdefault((path, text), []).append((b, e))
    out = []
    for k, ivs in by.items():
        ivs.sort()
        cur = None
        for b, e in ivs:
            if cur and b <= cur[1]:
                cur[1] = max(cur[1], e)
            else:
                cur = [b, e]
                out.append((cur, k))
    return sorted([(c[0], c[1]) + k for c, k in out], key=repr)


def at(pieces, t):
    return [(path, text) for b, e, path, text in pieces if b <= t < e]


def points(*lists):
    s = set()
    for ps in lists:
        for p in ps:
            s.add(p[0])
            s.add(p[1])
    s = sorted(s)
    return s
