# -*- coding: utf-8 -*-
"""A small XML reader (Java's own, not the one under test) and a builder of documents."""
from java.io import StringReader
from javax.xml.stream import XMLInputFactory, XMLStreamConstants as C
from datetime import timedelta

TT = 'http://www.w3.org/ns/ttml'
XMLNS = 'http://www.w3.org/XML/1998/namespace'
_f = XMLInputFactory.newInstance()
_f.setProperty(XMLInputFactory.IS_COALESCING, True)

NS = ('xmlns:tt="http://www.w3.org/ns/ttml" xmlns:ttp="http://www.w3.org/ns/ttml#parameter" '
      'xmlns:tts="http://www.w3.org/ns/ttml#styling" xmlns:ttm="http://www.w3.org/ns/ttml#metadata" '
      'xmlns:ebuttm="urn:ebu:tt:metadata" xmlns:ebutts="urn:ebu:tt:style" xmlns:ebuttp="urn:ebu:tt:parameters"')


class Node(object):
    __slots__ = ('tag', 'ns', 'attrs', 'children', 'parent')

    def __init__(self, ns, tag, attrs, parent):
        self.ns, self.tag, self.attrs, self.children, self.parent = ns, tag, attrs, [], parent

    def elems(self, tag=None):
        return [c for c in self.children if isinstance(c, Node) and (tag is None or c.tag == tag)]

    def find(self, *path):
        n = self
        for tag in path:
            found = n.elems(tag)
            if not found:
                return None
            n = found[0]
        return n

    def get(self, name, default=None):
        return self.attrs.get(name, default)

    def iter(self, tag=None):
        if tag is None or self.tag == tag:
            yield self
        for c in self.children:
            if isinstance(c, Node):
                for x in c.iter(tag):
                    yield x

    def text(self):
        return u''.join(c if not isinstance(c, Node) else c.text() for c in self.children)

    def canon(self, strip=False):
        """A comparable value: order of attributes does not matter; strip drops white-space-only text."""
        kids = []
        for c in self.children:
            if isinstance(c, Node):
                kids.append(c.canon(strip))
            else:
                t = c.strip() if strip else c
                if t:
                    kids.append(t)
        return (self.ns, self.tag, tuple(sorted(self.attrs.items())), tuple(kids))


def parse(xml):
    if isinstance(xml, str):
        xml = xml.decode('utf-8')
    r = _f.createXMLStreamReader(StringReader(xml))
    root = cur = None
    while r.hasNext():
        ev = r.next()
        if ev == C.START_ELEMENT:
            attrs = {}
            for i in range(r.getAttributeCount()):
                name = r.getAttributeLocalName(i)
                if r.getAttributeNamespace(i) == XMLNS:
                    name = 'xml:' + name
                elif (r.getAttributeNamespace(i) or u'urn:ebu:').split(u':')[1] not in (u'ebu', u'//www.w3.org/ns/ttml#parameter', u'//www.w3.org/ns/ttml#styling',
                                                                                   u'//www.w3.org/ns/ttml#metadata'):
                    name = '{%s}%s' % (r.getAttributeNamespace(i), name)
                attrs[name] = r.getAttributeValue(i)
            n = Node(r.getNamespaceURI(), r.getLocalName(), attrs, cur)
            if cur is None:
                root = n
            else:
                cur.children.append(n)
            cur = n
        elif ev == C.END_ELEMENT:
            cur = cur.parent
        elif ev in (C.CHARACTERS, C.CDATA, C.SPACE):
            if cur is not None:
                if cur.children and not isinstance(cur.children[-1], Node):
                    cur.children[-1] += r.getText()
                else:
                    cur.children.append(r.getText())
    return root


def esc(t):
    return t.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')


def attrs(**kw):
    return ''.join(' %s="%s"' % (k.replace('__', ':'), esc(v)) for k, v in sorted(kw.items()) if v is not None)


def tt(body, head='', seq='seq1', num=1, tb='clock', extra='', lang='en'):
    clock = ' ttp:clockMode="local"' if tb == 'clock' else ''
    return (u'<?xml version="1.0" ?><tt:tt %s xml:lang="%s" ttp:timeBase="%s"%s ebuttp:sequenceIdentifier="%s" '
            u'ebuttp:sequenceNumber="%s" %s><tt:head><tt:metadata><ebuttm:documentMetadata/></tt:metadata>%s</tt:head>%s</tt:tt>'
            % (NS, lang, tb, clock, seq, num, extra, head, body))


def td(seconds):
    return None if seconds is None else timedelta(seconds=seconds)


def secs(t):
    if t is None:
        return None
    v = t.days * 86400 + t.seconds + t.microseconds / 1e6
    return int(v) if v == int(v) else v


def clock(s):
    """seconds -> hh:mm:ss(.fff)"""
    ms = int(round(s * 1000))
    r = '%02d:%02d:%02d' % (ms // 3600000, ms // 60000 % 60, ms // 1000 % 60)
    return r + ('.%03d' % (ms % 1000) if ms % 1000 else '')
