"""Reference model of the timing rules of a document (EBU-TT Part 3, computed times), in plain seconds."""


class E(object):
    """A timed element: kind is body, div, p or span; b, e, dur are seconds or None."""

    def __init__(self, kind, kids=(), b=None, e=None, dur=None, name=None, **extra):
        self.kind, self.kids, self.b, self.e, self.dur, self.name = kind, list(kids), b, e, dur, name
        self.extra = extra
        self.cb = self.ce = None

    def bad(self):
        return self.b is not None and self.e is not None and self.e <= self.b

    def walk(self):
        yield self
        for k in self.kids:
            if isinstance(k, E):
                for x in k.walk():
                    yield x

    def timed_kids(self):
        return [k for k in self.kids if isinstance(k, E)]


def mn(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return min(a, b)


def compute(el, avail=0, sync=0, limit=None):
    """Sets cb/ce of el and everything below it."""
    if el.kind == 'body' and el.dur is not None:
        if el.b is not None:
            own = mn(el.dur + el.b, el.e)
        else:
            own = mn(avail + el.dur, el.e)
    elif el.e is not None:
        own = mn(sync + el.e, limit)
    else:
        own = None
    sync = sync + (el.b or 0)
    begin = max(sync, avail)
    for k in el.timed_kids():
        compute(k, avail, sync, own if own is not None else limit)
    good = [k for k in el.timed_kids() if not k.bad()]
    end = own
    if end is None:
        if not good:
            end = limit
        elif any(k.ce is None for k in good):
            end = None
        else:
            end = max(k.ce for k in good)
    if el.kind == 'body' and el.bad():
        begin, end = 0, None
    elif el.b is None and good:
        begin = max(begin, min(k.cb for k in good))
    el.cb, el.ce = begin, end
    return el


def fmt_time(s, scale):
    """The same instant in the notations a document may use."""
    from mini import clock
    if s is None:
        return None
    if scale == 'clock':
        return clock(s)
    if scale == 's':
        return '%gs' % s
    if scale == 'ms':
        return '%dms' % round(s * 1000)
    if scale == 'mix':
        return ('%gs' % s) if int(s) % 2 else clock(s)
    raise ValueError(scale)


def to_xml(el, scale='clock'):
    """Serialises an E tree; text kids are written as they are, 'br' as an empty element."""
    from mini import attrs
    a = dict(el.extra)
    a['begin'], a['end'] = fmt_time(el.b, scale), fmt_time(el.e, scale)
    if el.kind == 'body':
        a['dur'] = fmt_time(el.dur, scale)
    elif el.name:
        a['xml__id'] = el.name
    inner = u''.join(to_xml(k, scale) if isinstance(k, E) else (u'<tt:br/>' if k == '<br>' else k) for k in el.kids)
    return u'<tt:%s%s>%s</tt:%s>' % (el.kind, attrs(**a), inner, el.kind)
