# -*- coding: utf-8 -*-
"""A document is accepted exactly when it follows the rules, whatever was read before and beside it."""
import itertools
import re
import threading
from mini import NS, parse, td

RULE = ('documents are enumerated that follow or break the rules: every combination of the parameters of tt, every '
        'string made of the listed numbers, units and separators for every typed attribute, every sequence of children '
        'of every kind of element up to a length, every assignment of few ids and references to few elements; each is '
        'accepted by the real code exactly if a separate statement of the rules says so; then every history of reading '
        'good and bad documents, and every preemption-bounded interleaving of two threads that read, gives for each '
        'document what reading it alone gives; the state is the verdict for a document')
BOUNDS = {
    'quick': '1600 combinations of parameters; 1300 values; sequences of up to 3 children for 9 kinds of element; 5 elements '
             'with ids from 3; histories of 3 of 11 reads; two threads, all schedules with 1 preemption at attributes',
    'thorough': 'as quick with sequences of up to 4 children, histories of 4 reads, 2 preemptions',
}
ASSUMPTIONS = ['the rules are those of the schema that is shipped and the semantic rules of EBU-TT Part 3 named in the '
               'documentation, without the legacy smpte time base',
               'where the reference clock identifier is allowed is not judged (not implemented, the test of the project is skipped)']

BODY = u'<tt:body><tt:div><tt:p xml:id="p1">x</tt:p></tt:div></tt:body>'
HEAD = u'<tt:head><tt:metadata><ebuttm:documentMetadata/></tt:metadata>%s</tt:head>'
GOOD = [('xml:lang', 'en'), ('ttp:timeBase', 'media'), ('ebuttp:sequenceIdentifier', 'sq'), ('ebuttp:sequenceNumber', '7')]


def att(pairs):
    return u''.join(u' %s="%s"' % (k, v) for k, v in pairs if v is not None)


def doc(attrs=None, head=HEAD % u'', body=BODY, clock=False):
    a = list(GOOD if attrs is None else attrs)
    if clock:
        a[1] = ('ttp:timeBase', 'clock')
        a.append(('ttp:clockMode', 'local'))
    return u'<?xml version="1.0" ?><tt:tt %s%s>%s%s</tt:tt>' % (NS, att(a), head, body)


def verdict(xml):
    """(accepted, what)"""
    from ebu_tt_live.documents import EBUTT3Document
    try:
        d = EBUTT3Document.create_from_xml(xml)
    except Exception as e:
        return False, type(e).__name__
    return True, d


# ---- parameters of tt -----------------------------------------------------------------------------------------------
TIMEBASE = [None, u'media', u'clock', u'', u'Clock']
CLOCKMODE = [None, u'local', u'utc', u'gps', u'x']
SMPTE = [None, 'continuous']
DROP = [None, 'nonDrop']
SEQID = [None, u'', u'a', u'a b/\xe9']
SEQNUM = [None, u'', u'0', u'-5', u'1', u'a', u'1.5', u'999999999999', u' 3 ', u'+4', u'007']
LANG = [None, u'', u'en', u'en-GB', u'e n', u'x-klingon', u'123456789']
EXTENT = [None, u'10px 10px', u'10% 10%', u'10c 10c', u'10px', u'10 10']
DELAY = [None, u'1s', u'-1.5s', u'+250ms', u'00:00:01', u'1', u's', u'1.s', u'2h', u'1m']
GROUP = [None, u'', u'g']
TOKEN = [None, u'0', u'1', u'-1', u'x', u'12']
CELLS = [None, u'32 15', u'0 15', u'32', u'032 015', u'32 15 1', u'a b', u'1 1']


def lang_ok(v):
    return v is not None and (v == u'' or re.match(r'^[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*$', v.strip()) is not None)


def positive(v):
    return re.match(r'^\s*\+?\d+\s*$', v) is not None and int(v) > 0


def tt_cases():
    for tb, cm, mm, dm in itertools.product(TIMEBASE, CLOCKMODE, SMPTE, DROP):
        ok = mm is None and dm is None and ((tb == 'clock' and cm in ('local', 'utc', 'gps')) or (tb == 'media' and cm is None))
        a = [('xml:lang', 'en'), ('ttp:timeBase', tb), ('ttp:clockMode', cm), ('ttp:markerMode', mm), ('ttp:dropMode', dm),
             ('ebuttp:sequenceIdentifier', 'sq'), ('ebuttp:sequenceNumber', '7')]
        yield a, ok
        if ok:
            yield a[::-1], ok
    for i, n, l in itertools.product(SEQID, SEQNUM, LANG):
        ok = bool(i) and n is not None and positive(n) and lang_ok(l)
        yield [('ebuttp:sequenceNumber', n), ('xml:lang', l), ('ebuttp:sequenceIdentifier', i), ('ttp:timeBase', 'media')], ok
    for e, d, c in itertools.product(EXTENT, DELAY, CELLS):
        ok = (e is None or e == '10px 10px') and (d is None or re.match(r'^[+-]?\d+(\.\d+)?(h|ms|s|m)$', d) is not None) \
            and (c is None or re.match(r'^0*[1-9]\d* 0*[1-9]\d*$', c) is not None)
        yield [('tts:extent', e), ('ebuttm:authoringDelay', d), ('ttp:cellResolution', c)] + GOOD, ok
    for g, t, s in itertools.product(GROUP, TOKEN, (None, u'', u'q')):
        ok = g != u'' and (t is None or positive(t))
        yield GOOD + [('ebuttp:authorsGroupIdentifier', g), ('ebuttp:authorsGroupControlToken', t),
                      ('ebuttm:authorsGroupSelectedSequenceIdentifier', s)], None if s == u'' and ok else ok


# ---- values ---------------------------------------------------------------------------------------------------------
NUMS = [u'1', u'0', u'10.5', u'.5', u'+2', u'-2', u'1.', u'', u'x', u'1e1']
UNITS = [u'c', u'%', u'px', u'', u'em']
N_ABS = r'\+?(\d+|\d*\.\d+)'
N_ANY = r'[+-]?(\d+|\d*\.\d+)'
N_POS = r'(\d+|\d*\.\d+)'


def both(num, dims):
    """the same unit for all dimensions"""
    return '^(' + '|'.join(r'\s'.join([num + u] * d) for u in ('c', '%', 'px') for d in dims) + ')$'


ORACLE = {
    'style tts:fontSize': both(N_ABS, (1, 2)),
    'style tts:lineHeight': '^normal$|' + both(N_POS, (1,)),
    'style ebutts:linePadding': '^' + N_POS + 'c$',
    'style tts:padding': r'^([+-]?\d*(\.\d+)?(px|c|%))(\s[+-]?\d*(\.\d+)?(px|c|%)){0,3}$',
    'region tts:origin': both(N_ANY, (2,)),
    'region tts:extent': both(N_ABS, (2,)),
}


def color_ok(v):
    if v in ('transparent black silver gray white maroon red purple fuchsia magenta green lime olive yellow navy blue teal aqua cyan').split():
        return True
    if re.match(r'^#([0-9a-fA-F]{6}|[0-9a-fA-F]{8})$', v):
        return True
    m = re.match(r'^rgb(a?)\((.*)\)$', v)
    if not m:
        return False
    parts = m.group(2).split(',')
    if len(parts) != (4 if m.group(1) else 3):
        return False
    return all(re.match(r'^\s?\d{1,3}$' if i else r'^\d{1,3}$', p) and int(p) <= 255 for i, p in enumerate(parts))


COLORS = [u'red', u'Red', u'RED', u'pink', u'transparent', u'currentColor', u'#000000', u'#0000000', u'#00000000', u'#00000g', u'#fff', u'#ABCDEF', u'#abcdef12', u'000000'] + \
    [u'rgb(%s)' % u','.join(c) for c in itertools.product(('0', '255', '256', '-1', '', ' 7'), repeat=3)][::5] + \
    [u'rgba(%s)' % u','.join(c) for c in itertools.product(('0', '255', '256', '007'), repeat=4)][::9] + \
    [u'rgb(1,2)', u'rgb(1,2,3,4)', u'rgba(1,2,3)', u'rgb (1,2,3)', u'rgb(1,2,3', u'rgb(1;2;3)', u'rgba(1, 2, 3, 4)']
ENUMS = {
    'style tts:direction': ['ltr', 'rtl'], 'style tts:textAlign': ['left', 'center', 'right', 'start', 'end'],
    'style tts:fontStyle': ['normal', 'italic'], 'style tts:fontWeight': ['normal', 'bold'],
    'style tts:textDecoration': ['none', 'underline'], 'style tts:unicodeBidi': ['normal', 'embed', 'bidiOverride'],
    'style tts:wrapOption': ['wrap', 'noWrap'], 'style ebutts:multiRowAlign': ['start', 'center', 'end', 'auto'],
    'region tts:displayAlign': ['before', 'center', 'after'], 'region tts:writingMode': ['lrtb', 'rltb', 'tbrl', 'tblr', 'lr', 'rl', 'tb'],
    'region tts:showBackground': ['always', 'whenActive'], 'region tts:overflow': ['visible', 'hidden'],
}


def value_cases(which):
    if which == 'colors':
        for v in COLORS:
            yield 'style tts:color', v, color_ok(v), False
        for v in COLORS[::4]:
            yield 'style tts:backgroundColor', v, color_ok(v), False
        return
    if which == 'enums':
        every = sorted(set(sum(ENUMS.values(), []))) + [u'', u'oblique', u'Normal']
        for k in sorted(ENUMS):
            for v in every:
                yield k, v, v in ENUMS[k], False
        return
    singles = [n + u for n in NUMS for u in UNITS] + [u'normal', u'auto']
    doubles = [a + s + b for a in (u'1c', u'2%', u'3px', u'-1c', u'.5px', u'4') for b in (u'1c', u'2%', u'3px', u'+1%', u'') for s in (u' ', u',')]
    more = [u'1c 2c 3c', u'1px 2c 3%', u'1c 2c 3c 4c', u'1c 2c 3c 4c 5c', u'1c ', u' 1c 2c', u'1c  2c']
    for v in singles + doubles + more:
        # white space around and doubled is collapsed before the value is read, except for a line height
        ok = re.match(ORACLE[which], v if 'lineHeight' in which else re.sub(r'\s+', ' ', v.strip())) is not None
        px = 'px' in v and ok
        yield which, v, None if px and 'padding' in which else ok and not px, False
        if px or 'px' in v:
            yield which, v, ok, True


def value_doc(where, v, extent):
    el, name = where.split()
    a = GOOD + ([('tts:extent', '100px 100px')] if extent else [])
    if el == 'style':
        return doc(a, HEAD % (u'<tt:styling><tt:style xml:id="s1" %s="%s"/></tt:styling>' % (name, v)))
    r = dict((('tts:origin', '1% 1%'), ('tts:extent', '1% 1%')))
    r[name] = v
    return doc(a, HEAD % (u'<tt:layout><tt:region xml:id="r1"%s/></tt:layout>' % att(sorted(r.items()))))


# ---- structure ------------------------------------------------------------------------------------------------------
M = u'<tt:metadata/>'
FILL = {
    'h': HEAD % u'', 'b': u'<tt:body/>', 'm': M, 'c': u'<ttm:copyright>c</ttm:copyright>',
    'S': u'<tt:styling><tt:style xml:id="{n}"/></tt:styling>', 'L': u'<tt:layout/>',
    's': u'<tt:style xml:id="{n}"/>', 'r': u'<tt:region xml:id="{n}" tts:origin="0% 0%" tts:extent="1% 1%"/>',
    'd': u'<tt:div/>', 'p': u'<tt:p xml:id="{n}"/>', 'q': u'<tt:p/>', 'x': u'<tt:span/>', 'k': u'<tt:br/>', 't': u'text', 'u': u'<tt:unknown/>', 'w': u' \n ',
    'H': u'<tt:metadata><ebuttm:documentMetadata/></tt:metadata>',
}
GRAMMAR = {
    # element: alphabet, what is allowed, document around the children
    'tt': ('hbuw', r'w*hw*(bw*)?$', lambda c: doc(head=c, body=u'')),
    'head': ('HcSLu', r'H?c?S?L?$', lambda c: doc(head=u'<tt:head>%s</tt:head>' % c)),
    'styling': ('msrtw', r'[w]*m?w*s[sw]*$', lambda c: doc(head=HEAD % (u'<tt:styling>%s</tt:styling>' % c))),
    'layout': ('mrstw', r'w*m?[rw]*$', lambda c: doc(head=HEAD % (u'<tt:layout>%s</tt:layout>' % c))),
    'body': ('mdptw', r'w*m?[dw]*$', lambda c: doc(body=u'<tt:body>%s</tt:body>' % c)),
    'div': ('mdpqxtw', r'w*m?[dpw]*$', lambda c: doc(body=u'<tt:body><tt:div>%s</tt:div></tt:body>' % c)),
    'p': ('mxktdpw', r'[tw]*m?[xktw]*$', lambda c: doc(body=u'<tt:body><tt:div><tt:p xml:id="P">%s</tt:p></tt:div></tt:body>' % c)),
    'span': ('mxktdpw', r'[tw]*m?[xktw]*$', lambda c: doc(body=u'<tt:body><tt:div><tt:p xml:id="P"><tt:span>%s</tt:span></tt:p></tt:div></tt:body>' % c)),
    'br': ('mxt', r'm?$', lambda c: doc(body=u'<tt:body><tt:div><tt:p xml:id="P"><tt:br>%s</tt:br></tt:p></tt:div></tt:body>' % c)),
}


def structure_cases(el, depth, first):
    alphabet, ok, around = GRAMMAR[el]
    for n in range(depth):
        for word in itertools.product(alphabet, repeat=n):
            word = first + ''.join(word)
            children = u''.join(FILL[k].replace(u'{n}', u'n%d' % i) for i, k in enumerate(word))
            yield word, around(children), re.match(ok, word) is not None


# ---- ids and references ---------------------------------------------------------------------------------------------
def id_cases(part, parts):
    ids = (u'a', u'b', None)
    refs = (None, u's0', u'a', u'b', u'nowhere', u'r0', u's0 a')
    n = 0
    for s, r, d, x in itertools.product((u'a', u'b'), ids[:2], ids, ids):
        for sref, rref in itertools.product(refs, refs[:6]):
            n += 1
            if n % parts != part:
                continue
            names = [y for y in (u's0', u'r0', u'p', s, r, d, x) if y]
            ok = len(names) == len(set(names)) and (sref is None or all(y in (u's0', s) for y in sref.split())) and rref in (None, u'r0', r)
            head = HEAD % (u'<tt:styling><tt:style xml:id="s0"/><tt:style xml:id="%s"/></tt:styling><tt:layout><tt:region xml:id="r0" tts:origin="0%% 0%%" tts:extent="1%% 1%%"/>'
                           u'<tt:region xml:id="%s" tts:origin="0%% 0%%" tts:extent="1%% 1%%"/></tt:layout>' % (s, r))
            where = n % 3
            body = (u'<tt:body%s><tt:div%s%s><tt:p xml:id="p"%s%s><tt:span%s%s>x</tt:span></tt:p></tt:div></tt:body>' % (
                att([('style', sref if where == 0 else None)]), att([('xml:id', d)]), att([('region', rref if where else None), ('style', sref if n % 5 == 0 else None)]),
                att([('region', None if where else rref)]), att([('style', sref if where == 1 else None)]),
                att([('xml:id', x)]), att([('style', sref if where == 2 else None)])))
            yield doc(head=head, body=body), ok


# ---- histories and threads ------------------------------------------------------------------------------------------
def reads():
    from ebu_tt_live.documents import EBUTT3Document, EBUTT3ObjectBase
    from ebu_tt_live.documents import EBUTTDDocument
    from ebu_tt_live import bindings
    from ebu_tt_live.bindings import _ebuttdt as dt
    tm = u'<tt:body begin="%s"><tt:div><tt:p xml:id="p1" end="%s">x</tt:p></tt:div></tt:body>'
    xml = {
        'clock': doc(clock=True, body=tm % (u'00:00:01', u'99:00:02.5')),
        'media': doc(body=tm % (u'00:00:01', u'100:00:02.5')),
        'clock-long': doc(clock=True, body=tm % (u'00:00:01', u'100:00:02.5')),
        'nobase': doc([x for x in GOOD if 'timeBase' not in x[0]], body=tm % (u'00:00:01', u'00:00:02')),
        'broken': doc(clock=True, body=u'<tt:body begin="00:00:01"><tt:div>')[:-8],
        'badtime': doc(body=tm % (u'00:00:61', u'1s')),
        'semantic': doc(body=BODY.replace(u'<tt:div>', u'<tt:div xml:id="p1">')),
    }

    def d3(x):
        def f():
            d = EBUTT3Document.create_from_xml(x)
            b = d.binding.body
            return d.time_base, type(b.begin).__name__, str(b.begin), type(b.div[0].p[0].end).__name__, d.computed_begin_time, d.computed_end_time, parse(d.get_xml()).canon(True)
        return f
    r = dict((k, d3(x)) for k, x in xml.items())
    ebuttd = (u'<?xml version="1.0" ?><tt:tt xmlns:tt="http://www.w3.org/ns/ttml" xmlns:ttp="http://www.w3.org/ns/ttml#parameter" xml:lang="en" ttp:timeBase="media">'
              u'<tt:head><tt:styling><tt:style xml:id="s"/></tt:styling><tt:layout><tt:region xml:id="r" xmlns:tts="http://www.w3.org/ns/ttml#styling" tts:origin="0% 0%" tts:extent="9% 9%"/></tt:layout></tt:head>'
              u'<tt:body><tt:div><tt:p xml:id="p" region="r" begin="100:00:00.5" end="101:00:00">x</tt:p></tt:div></tt:body></tt:tt>')
    r['ebuttd'] = lambda: parse(EBUTTDDocument.create_from_xml(ebuttd).get_xml()).canon(True)
    msg = (u'<?xml version="1.0" ?><ebuttlm:message xmlns:ebuttlm="urn:ebu:tt:livemessage" xmlns:ebuttp="urn:ebu:tt:parameters" ebuttp:sequenceIdentifier="q">'
           u'<ebuttlm:header><ebuttlm:sender>s</ebuttlm:sender><ebuttlm:recipient>t</ebuttlm:recipient><ebuttlm:type>authorsGroupControlRequest</ebuttlm:type></ebuttlm:header>'
           u'<ebuttlm:payload>p</ebuttlm:payload></ebuttlm:message>')

    def message():
        m = EBUTT3ObjectBase.create_from_xml(msg)
        return type(m).__name__, m.sequence_identifier, m.sender, list(m.recipient), m.payload
    r['message'] = message
    r['types'] = lambda: (str(dt.FullClockTimingType(td(3600 * 150))), str(dt.LimitedClockTimingType(td(2.5))), str(dt.TimecountTimingType('5s')),
                          dt.LimitedClockTimingType(u'00:00:05').timedelta)

    def make():
        d = EBUTT3Document(time_base='clock', clock_mode='local', sequence_number=2, sequence_identifier='n', lang='de')
        d.set_begin(dt.LimitedClockTimingType(td(7)))
        d.validate()
        return d.computed_begin_time, parse(d.get_xml()).canon(True)
    r['make'] = make
    return r


def result(f):
    try:
        return 'ok', f()
    except Exception as e:
        return 'refused', type(e).__name__


EXPECT = {'clock': 'ok', 'media': 'ok', 'clock-long': 'refused', 'nobase': 'refused', 'broken': 'refused', 'badtime': 'refused',
          'semantic': 'refused', 'ebuttd': 'ok', 'message': 'ok', 'types': 'ok', 'make': 'ok'}
NAMES = sorted(EXPECT)
PAIRS = [('clock', 'media'), ('media', 'clock'), ('clock-long', 'media'), ('media', 'types'), ('clock', 'types'), ('broken', 'media'), ('nobase', 'clock'), ('clock', 'ebuttd'), ('make', 'media')]


def cases(tier):
    th = tier == 'thorough'
    for part in range(8):
        yield ['tt', part, 8]
    for w in sorted(ORACLE) + ['colors', 'enums']:
        yield ['value', w]
    for el in sorted(GRAMMAR):
        for first in GRAMMAR[el][0]:
            yield ['structure', el, 4 if th else 3, first]
    for part in range(12):
        yield ['ids', part, 12 if th else 24]
    for a in NAMES:
        if th:
            for b in NAMES:
                yield ['history', [a, b], 2]
        else:
            yield ['history', [a], 2]
    for a, b in PAIRS:
        yield ['threads', a, b, 2 if th else 1]


def judge(ctx, xml, ok, sig, what):
    if ok is None:
        return
    ctx.trans()
    got, d = verdict(xml)
    ctx.trace()
    ctx.state((sig, what, got))
    ctx.outcome('accepted' if got else 'refused')
    if got != ok:
        ctx.fail('%s:%s' % ('accepted' if got else 'refused', sig), '%s is %s%s: %s' % (what, 'accepted' if got else 'refused', '' if got else ' with %s' % d, xml[xml.find('urn:ebu:tt:parameters') + 22:]))
    elif not got and d in ('AttributeError', 'NameError', 'UnboundLocalError', 'AssertionError'):
        ctx.fail('error:%s' % sig, '%s is refused with an %s' % (what, d))


def run(case, ctx):
    kind = case[0]
    if kind == 'tt':
        for i, (a, ok) in enumerate(tt_cases()):
            if i % case[2] == case[1]:
                judge(ctx, doc(a), ok, 'tt', 'tt with%s' % att(a))
    elif kind == 'value':
        for where, v, ok, extent in value_cases(case[1]):
            judge(ctx, value_doc(where, v, extent), ok, where, '%s="%s"%s' % (where, v, ' with an extent of tt' if extent else ''))
    elif kind == 'structure':
        for word, xml, ok in structure_cases(*case[1:]):
            judge(ctx, xml, ok, 'structure:' + case[1], '%s containing %s' % (case[1], ' '.join(re.sub(r'\s*[/ ].*', '', FILL[k].strip('<')) or 'space' for k in word)))
    elif kind == 'ids':
        for xml, ok in id_cases(*case[1:]):
            judge(ctx, xml, ok, 'ids', 'a document with these ids')
    elif kind == 'history':
        history(case, ctx)
    else:
        threads(case, ctx)


def alone(name, rs, ctx):
    """What reading says with nothing before: in a thread of its own."""
    box = []
    t = threading.Thread(target=lambda: box.append(result(rs[name])))
    t.start()
    t.join()
    ctx.check(box[0][0] == EXPECT[name], 'alone:' + name, lambda: 'reading %s in a new thread: %r' % (name, box[0][:2]))
    return box[0]


_alone = {}


def history(case, ctx):
    rs = reads()
    for n in NAMES:
        if n not in _alone:
            _alone[n] = alone(n, rs, ctx)
    for rest in itertools.product(NAMES, repeat=case[2]):
        seq = list(case[1]) + list(rest)
        for i, n in enumerate(seq):
            got = result(rs[n])
            ctx.trans()
            if not ctx.check(got == _alone[n], 'history:' + n, lambda: 'after %s reading %s gives %r, alone %r' % (', '.join(seq[:i]), n, got, _alone[n])):
                break
        ctx.state(tuple(seq))
        ctx.trace()
    ctx.outcome('history')


class Stop(object):
    """Two threads of which one runs at a time; they may be switched where an attribute is set."""

    def __init__(self, switches):
        self.switches, self.count, self.cv, self.turn, self.done = set(switches), 0, threading.Condition(), 0, [False, False]
        self.idents = {}

    def point(self):
        me = self.idents.get(threading.currentThread())
        if me is None:
            return
        with self.cv:
            k = self.count
            self.count += 1
            if k in self.switches and not self.done[1 - me]:
                self.turn = 1 - me
                self.cv.notifyAll()
                self.wait(me)

    def wait(self, me):
        while self.turn != me:
            self.cv.wait(60)

    def body(self, me, f, out):
        self.idents[threading.currentThread()] = me
        with self.cv:
            self.wait(me)
        try:
            out[me] = result(f)
        finally:
            with self.cv:
                self.done[me] = True
                self.turn = 1 - me
                self.cv.notifyAll()


def threads(case, ctx):
    import pyxb.binding.content as content
    import pyxb.binding.basis as basis
    rs = reads()
    a, b, bound = case[1:]
    for n in (a, b):
        if n not in _alone:
            _alone[n] = alone(n, rs, ctx)
    current = [None]
    real_set = content.AttributeUse.set
    real_fac = basis.simpleTypeDefinition.__init__

    def set_attr(self, *args, **kw):
        if current[0] is not None:
            current[0].point()
        return real_set(self, *args, **kw)

    def init(self, *args, **kw):
        if current[0] is not None:
            current[0].point()
        return real_fac(self, *args, **kw)
    content.AttributeUse.set = set_attr
    if 'types' in (a, b):
        basis.simpleTypeDefinition.__init__ = init
    try:
        # how many points are there?
        total = None
        todo = [()]
        n = 0
        while todo:
            sw = todo.pop()
            s = Stop(sw)
            current[0] = s
            out = [None, None]
            ts = [threading.Thread(target=s.body, args=(i, rs[x], out)) for i, x in enumerate((a, b))]
            for t in ts:
                t.setDaemon(True)
                t.start()
            for t in ts:
                t.join(60)
            current[0] = None
            n += 1
            ctx.trace()
            ctx.trans(s.count)
            ctx.state((a, b, sw))
            for i, x in enumerate((a, b)):
                if not ctx.check(out[i] == _alone[x], 'threads:' + x, lambda: 'reading %s in one thread and %s in another, switching at %r: %s gives %r, alone %r' % (a, b, sw, x, out[i], _alone[x])):
                    return
            if len(sw) < bound:
                first = sw[-1] + 1 if sw else 0
                todo += [sw + (k,) for k in range(first, s.count)]
        ctx.count('schedules', n)
    finally:
        content.AttributeUse.set = real_set
        basis.simpleTypeDefinition.__init__ = real_fac
    ctx.outcome('threads')
